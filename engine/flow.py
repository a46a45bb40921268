"""Flow analysis over the LLVM IR of the repository: gated value flow with guarded memory, loop summaries
by generic iteration (induction variables, memory cells, reductions, inductive facts).

Every basic block is visited once per calling context; joins merge values under their gate, loops are
either expanded when their trip count is a compile-time constant of the context or summarised from ONE
generic iteration (loop-carried values become unknown functions of the iteration number).  No program
path is enumerated and nothing is handed to a solver; the only decision procedure is the normal form
of terms.py plus Fourier-Motzkin on the linear facts attached to atoms."""
import sys
from fractions import Fraction
from math import gcd
from .terms import *
from . import terms as T
from .irparse import CFG, Ty, const_data

sys.setrecursionlimit(20000)

UNROLL_CAP = 160


class Node:
    __slots__ = ('kind', 'prev', 'off', 'size', 'ty', 'val', 'guard', 'vid', 'x', 'facts', 'line', 'obj')

    def __init__(s, kind, prev, off, size, ty, val, guard, vid, x=None, facts=(), line=0):
        s.kind, s.prev, s.off, s.size, s.ty, s.val, s.guard, s.vid, s.x, s.facts, s.line = \
            kind, prev, off, size, ty, val, guard, vid, x, facts, line
        s.obj = None


class Event:
    __slots__ = ('kind', 'fn', 'line', 'pc', 'loops', 'x', 'path', 'seq', 'bpc')

    def __init__(s, kind, fn, line, pc, loops, x, path):
        s.kind, s.fn, s.line, s.pc, s.loops, s.x, s.path = kind, fn, line, pc, loops, x, path
        s.seq = 0
        s.bpc = pc

    def __repr__(s):
        return '<%s %s:%s %s>' % (s.kind, s.fn, s.line, s.x)


class Edge:
    __slots__ = ('g', 'phis', 'frm', 'to')

    def __init__(s, g, phis, frm, to):
        s.g, s.phis, s.frm, s.to = g, phis, frm, to


class Frame:
    def __init__(s, fn, cfg, path):
        s.fn, s.cfg, s.path = fn, cfg, path
        s.env = {}


class Slot:
    """loop-carried quantity: SSA phi or memory cell"""
    __slots__ = ('name', 'cls', 'c', 'init', 'atom', 'isint', 'obj', 'next', 'isptr', 'ty', 'key', 'off', 't', 'posfacts',
                 'facts', 'loop', 'size', 'fresh', 'used', 'fin', 'nodep')

    def __init__(s, name):
        s.name = name
        s.cls = None
        s.c = None
        s.init = s.next = s.atom = s.obj = s.t = None
        s.isptr = False
        s.fin = None
        s.nodep = False
        s.facts = []
        s.posfacts = []


class LoopInfo:
    def __init__(s, lid):
        s.id = lid
        s.k = None
        s.depth = 0
        s.phis = {}
        s.cells = {}
        s.W = {}
        s.norange, s.rngs, s.valid = set(), [], set()
        s.sig = None
        s.inner = set()
        s.N = None
        s.latch_heads = None
        s.latch_guard = None
        s.pc0 = None
        s.fn = ''
        s.line = 0
        s.outer = ()
        s.visits = 0
        s.exits = []
        s.counted = False
        s.rdepth = 0

    def local_ids(s):
        """ids of the iteration counters of this loop and the loops inside it"""
        return s.inner | {s.k.id}


def within(rg, at):
    """the range is inside the one assumed for the atom"""
    if rg is None: return at.lo is None and at.hi is None
    return (at.lo is None or (rg[0] is not None and rg[0] >= at.lo)) and (at.hi is None or (rg[1] is not None and rg[1] <= at.hi))


def is_f(ty): return ty.k == 'f'


def is_p(ty): return ty.k == 'p'


class Machine:
    def __init__(self, mods, inline=None, opaque=None, hook=None, ext=None, force=0):
        """inline(name)->bool decides whether a defined function is analysed in context at a call;
        hook(obj, off, ty) may give the value of initial memory; ext(machine, name, args, pc, ins) may model calls"""
        self.mods = mods
        self.funcs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if n not in self.funcs or not f.internal:
                    self.funcs[n] = f
                f.mod = m
        self.inline = inline or (lambda n: True)
        self.hook = hook
        self.ext = ext
        self.cfgs = {}
        self.heads = {}
        self.events = []
        self.loopstack = []
        self.lcache = {}
        self.tag = ''
        self.objs = {}
        self.nvisit = 0
        self.fnvisited = set()
        self.loops_seen = {}
        self.undec = []
        self.depth = 0
        self.budget = 4000000
        self.skip_undef = False # accesses through indeterminate pointers are left out (they are judged elsewhere)
        self.limit_havoc = None # node budget per loop of the first two nesting levels; beyond it the loop's effect is arbitrary
        self.hv_region = None
        self.havocked = []
        self.force = force      # expand loops of at most this many iterations even when they store conditionally

    # -------------------------------------------------------------- objects
    def newobj(self, name, kind, size=None, ty=None):
        o = self.objs.get(name)
        if o is None:
            o = self.objs[name] = Obj(name, kind, size, ty)
        return o

    def param_obj(self, name, size=None):
        return self.newobj(name, 'param', size)

    def ptr_to(self, obj, off=0, facts=()):
        return leaf(Ptr(obj, off if isinstance(off, P) else pc_(off), tuple(facts)))

    def deref_obj(self, atom):
        nm = 'deref:%d' % atom.rnd
        o = self.objs.get(nm)
        if o is None:
            o = self.newobj(nm, 'param')
            o.support = atom.support
            o.atom = atom
        return o

    # -------------------------------------------------------------- running
    def run(self, fname, args, pc=TRUE):
        f = self.funcs.get(fname)
        if f is None: raise KeyError(fname)
        reset_all()
        SIGNS.clear()
        return self.call_function(f, args, pc, fname)

    def cfg(self, f):
        c = self.cfgs.get(id(f))
        if c is None:
            c = self.cfgs[id(f)] = CFG(f)
            if c.irreducible: raise Undecided('irreducible flow in ' + f.name)
        return c

    def call_function(self, f, args, pc, path):
        if self.depth > 40: raise Undecided('call depth')
        self.depth += 1
        self.fnvisited.add(f.name)
        cfg = self.cfg(f)
        fr = Frame(f, cfg, path)
        for (ty, nm, at), v in zip(f.params, args):
            if at.get('byval') is not None:
                # private copy
                sz = f.mod.size(at['byval'])
                o = self.newobj(path + '/byval.' + str(nm) + self.tag, 'alloca', sz)
                self.heads[o] = None
                self.objs[o.name] = o
                self.memcopy(Ptr(o, ZERO), v, leaf(pc_(sz)), pc, path + '/byval' + str(nm), f.line)
                v = self.ptr_to(o)
            fr.env[nm] = v
        entry = [Edge(pc, {}, None, f.entry)]
        out = self.run_region(fr, set(cfg.rpo), f.entry, entry, None, None)
        rets = [e for e in out if e.to == '<ret>']
        self.depth -= 1
        if not rets: return None, FALSE
        g = FALSE
        for e in rets: g = bor(g, e.g)
        val = None
        if rets[0].phis.get('v') is not None:
            val = self.merge([(e.g, e.phis['v']) for e in rets], g)
        return val, g

    def merge(self, gv, pc=None):
        gv = [(g, v) for g, v in gv if g is not FALSE]
        if not gv: return UND
        if isinstance(gv[0][1], tuple):
            n = len(gv[0][1])
            return tuple(self.merge([(g, v[i]) for g, v in gv], pc) for i in range(n))
        if pc is None:
            pc = FALSE
            for g, _ in gv: pc = bor(pc, g)
        r = constrain(gv[-1][1], gv[-1][0])
        for g, v in reversed(gv[:-1]):
            r = ite(constrain(g, pc), constrain(v, g), r)
        return constrain(r, pc)

    def run_region(self, fr, region, header, in_edges, L, phivals):
        cfg = fr.cfg
        pend = {header: in_edges}
        out = []
        if L is not None: L_exit_const = getattr(self, '_ec', None)
        for b in cfg.rpo:
            if b not in region: continue
            li = cfg.inner.get(b)
            if b != header or L is None:
                if b in cfg.loops and cfg.loops[b].parent is L and not (L is not None and b == header):
                    ed = pend.pop(b, None)
                    if ed is None: continue
                    ed = [e for e in ed if e.g is not FALSE]
                    if not ed: continue
                    outs = self.exec_loop_or_havoc(fr, cfg.loops[b], ed)
                    for e in outs:
                        if e.to in region and e.to != header: pend.setdefault(e.to, []).append(e)
                        else: out.append(e)
                    continue
                if li is not L: continue
            ed = pend.pop(b, None)
            if ed is None: continue
            ed = [e for e in ed if e.g is not FALSE]
            if not ed: continue
            outs = self.exec_block(fr, b, ed, phivals if b == header else None, L)
            for e in outs:
                if e.to in region and e.to != header: pend.setdefault(e.to, []).append(e)
                else: out.append(e)
        return out

    # -------------------------------------------------------------- blocks
    def exec_block(self, fr, b, edges, phivals, L):
        pc = FALSE
        for e in edges: pc = bor(pc, e.g)
        env = fr.env
        if phivals is not None:
            env.update(phivals)
        ins = fr.fn.blocks[b]
        i = 0
        if phivals is None:
            while i < len(ins) and ins[i].op == 'phi':
                p = ins[i]
                if p.ty.k != 'other':
                    env[p.res] = self.merge([(e.g, e.phis.get(p.res, UND)) for e in edges], pc)
                i += 1
        else:
            while i < len(ins) and ins[i].op == 'phi': i += 1
        for x in ins[i:-1]:
            pc = self.exec_inst(fr, x, pc)
            if pc is FALSE: return []
        t = ins[-1]
        self.nvisit += 1
        if t.op == 'ret':
            v = self.val(fr, t.ops[0], t.ty, pc) if t.ops else None
            self.event('ret', fr, t, pc, v)
            return [Edge(pc, {'v': v}, b, '<ret>')]
        if t.op == 'unreachable': return []
        outs = []
        if t.op == 'br':
            if len(t.x) == 1 or t.x[0] == t.x[1]:
                outs = [(t.x[0], pc)]
            else:
                c = constrain(self.val(fr, t.ops[0], Ty('i', 1), pc), pc)
                c = self.boolify(c)
                const = True
                if c is not TRUE and c is not FALSE:
                    if unsat(band(pc, c)): c = FALSE
                    elif unsat(band(pc, bnot(c))): c = TRUE
                    else: const = False
                if L is not None and (t.x[0] not in L.blocks or t.x[1] not in L.blocks):
                    self._exitc.append((b, const))
                if not const: self.event('branch', fr, t, pc, c)
                a, z = band(pc, c), band(pc, bnot(c))
                if a is not FALSE: outs.append((t.x[0], a))
                if z is not FALSE: outs.append((t.x[1], z))
        elif t.op == 'switch':
            v = self.val(fr, t.ops[0], t.ty, pc)
            rest = pc
            for cv, tgt in t.x[1]:
                c = self.boolify(constrain(mcmp_i(v, 'eq', I(cv)), pc))
                g = band(rest, c)
                if g is not FALSE and not unsat(g): outs.append((tgt, g))
                rest = band(rest, bnot(c))
            if rest is not FALSE and not unsat(rest): outs.append((t.x[0], rest))
        res = []
        for tgt, g in outs:
            ph = {}
            if tgt in fr.fn.blocks:
                for p in fr.fn.blocks[tgt]:
                    if p.op != 'phi': break
                    for v, pb in zip(p.ops, p.x):
                        if pb == b:
                            ph[p.res] = constrain_v(self.val(fr, v, p.ty, g), g)
                            break
            res.append(Edge(g, ph, b, tgt))
        return res

    def boolify(self, c):
        if c.var is None and not (c is TRUE or c is FALSE):
            return self._b1(c.leaf)
        return map1(self._b1, c)

    def _b1(self, l):
        if l is True or l is False: return leaf(l)
        if isinstance(l, P):
            return bnot(sgn_int(l)[0])
        if isinstance(l, Undef):
            a = AT.get('undefb', '')
            return mvar(getvar('o', 'O', a, a.id))
        raise Undecided('condition is %r' % (l,))

    # -------------------------------------------------------------- values
    def val(self, fr, o, ty, pc):
        k = o[0]
        if k == 'loc':
            v = fr.env.get(o[1])
            if v is None: return UND
            return v
        if k == 'int':
            if ty is not None and ty.k == 'i' and ty.a == 1: return TRUE if o[1] else FALSE
            return I(o[1])
        if k == 'fp': return R(o[1])
        if k == 'null': return leaf(Ptr(None, ZERO))
        if k == 'undef':
            return UND
        if k == 'glb': return self.ptr_to(self.global_obj(fr.fn.mod, o[1]))
        if k == 'zero':
            return self.zero(ty, fr.fn.mod)
        if k == 'cgep':
            base = self.val(fr, o[2][0][1], Ty('p'), pc)
            return self.gep(fr, o[1], base, [(t, v) for t, v in o[2][1:]], pc)
        if k == 'fpspecial':
            return leaf(fat(AT.get('special', str(o[1]), (), False)))
        if k == 'agg': raise Undecided('aggregate constant')
        raise Undecided('operand %r' % (o,))

    def zero(self, ty, mod=None):
        if ty.k == 'i': return FALSE if ty.a == 1 else I(0)
        if ty.k == 'f': return R(0)
        if ty.k == 'p': return leaf(Ptr(None, ZERO))
        if mod is not None:
            t = mod.resolve(ty)
            if t.k == 'st': return tuple(self.zero(f, mod) for f in t.a)
            if t.k == 'arr': return tuple(self.zero(t.b, mod) for _ in range(t.a))
        raise Undecided('zero %r' % ty)

    def global_obj(self, mod, name):
        o = self.newobj('@%s:%s' % (mod.src, name), 'global')
        g = mod.globals.get(name)
        if g is not None and o.ty is None:
            o.ty = g
            o.mod = mod
            try:
                o.size = mod.size(g['ty'])
            except Exception: pass
        return o

    # -------------------------------------------------------------- instructions
    def ctx(self, fr, ins):
        return '%s%s:%s' % (fr.path, self.tag, ins.res or ('%s.%d' % (ins.blk, id(ins) % 1)) )

    def vid(self, fr, ins):
        # stable identity of an instruction in this context
        v = getattr(fr.fn, '_ino', None)
        if v is None:
            v = {}
            n = 0
            for bb in fr.fn.order:
                for x in fr.fn.blocks[bb]:
                    v[id(x)] = n
                    n += 1
            fr.fn._ino = v
        return '%s%s:%d' % (fr.path, self.tag, v[id(ins)])

    def event(self, kind, fr, ins, pc, x):
        e = Event(kind, fr.fn.name, ins.line, pc, tuple(self.loopstack), x, fr.path + self.tag)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def exec_inst(self, fr, x, pc):
        self.budget -= 1
        if self.budget < 0: raise Undecided('analysis budget')
        op = x.op
        env = fr.env
        if op == 'call': return self.exec_call(fr, x, pc)
        if op == 'load':
            p = self.val(fr, x.ops[0], Ty('p'), pc)
            env[x.res] = self.load(fr, x, p, x.ty, pc)
            return pc
        if op == 'store':
            v = self.val(fr, x.ops[0], x.ty, pc)
            p = self.val(fr, x.ops[1], Ty('p'), pc)
            self.store(fr, x, p, x.ty, v, pc)
            return pc
        if op == 'getelementptr':
            base = self.val(fr, x.ops[0], Ty('p'), pc)
            env[x.res] = self.gep(fr, x.ty, base, x.x, pc)
            return pc
        if op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr',
                  'ashr', 'and', 'or', 'xor', 'frem'):
            a = constrain(self.val(fr, x.ops[0], x.ty, pc), pc)
            b = constrain(self.val(fr, x.ops[1], x.ty, pc), pc)
            if op == 'add': r = iadd(a, b)
            elif op == 'sub': r = isub(a, b)
            elif op == 'mul': r = imul(a, b)
            elif op == 'fadd': r = radd(a, b)
            elif op == 'fsub': r = rsub(a, b)
            elif op == 'fmul': r = rmul(a, b)
            elif op == 'fdiv':
                r = rdiv(a, b)
                self.event('fdiv', fr, x, pc, (a, b))
            elif op == 'frem':
                r = map2(lambda u, v: fat(AT.get('fn', 'frem', (T._tof(u), T._tof(v)), False)), a, b)
            elif x.ty.k == 'i' and x.ty.a == 1:
                a, b = self.boolify(a), self.boolify(b)
                r = {'and': band, 'or': bor, 'xor': lambda u, v: ite(u, bnot(v), v)}[op](a, b)
            else: r = map2(lambda u, v: self.intop(op, u, v, pc), a, b)
            env[x.res] = r
            return pc
        if op == 'fneg':
            env[x.res] = rsub(R(0), self.val(fr, x.ops[0], x.ty, pc))
            return pc
        if op == 'icmp':
            a = constrain(self.val(fr, x.ops[0], x.ty, pc), pc)
            b = constrain(self.val(fr, x.ops[1], x.ty, pc), pc)
            if x.ty.k == 'p':
                env[x.res] = map2(lambda u, v: self.ptrcmp(x.x, u, v), a, b)
            elif x.ty.k == 'i' and x.ty.a == 1:
                a, b = self.boolify(a), self.boolify(b)
                eq = ite(a, b, bnot(b))
                env[x.res] = eq if x.x == 'eq' else bnot(eq)
            else:
                pr = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'ult': 'lt', 'sle': 'le', 'ule': 'le', 'sgt': 'gt', 'ugt': 'gt',
                      'sge': 'ge', 'uge': 'ge'}[x.x]
                env[x.res] = constrain(mcmp_i(a, pr, b), pc)
            return pc
        if op == 'fcmp':
            a = constrain(self.val(fr, x.ops[0], x.ty, pc), pc)
            b = constrain(self.val(fr, x.ops[1], x.ty, pc), pc)
            pr = x.x
            if pr == 'ord': env[x.res] = TRUE
            elif pr == 'uno': env[x.res] = FALSE
            elif pr in ('true', 'false'): env[x.res] = TRUE if pr == 'true' else FALSE
            else:
                q = pr[1:]
                env[x.res] = constrain(map2(lambda u, v: rcmp(T._tof(u), q, T._tof(v)), a, b), pc)
            return pc
        if op == 'select':
            c = self.boolify(constrain(self.val(fr, x.ops[0], Ty('i', 1), pc), pc))
            a = self.val(fr, x.ops[1], x.ty, pc)
            b = self.val(fr, x.ops[2], x.ty, pc)
            if isinstance(a, tuple): env[x.res] = tuple(ite(c, u, v) for u, v in zip(a, b))
            else: env[x.res] = constrain(ite(c, a, b), pc)
            return pc
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'fpext', 'fptrunc', 'addrspacecast'):
            a = self.val(fr, x.ops[0], x.x if op != 'freeze' else x.ty, pc)
            if op in ('sext', 'zext') and x.x.k == 'i' and x.x.a == 1:
                one = 1 if op == 'zext' else -1
                env[x.res] = ite(self.boolify(a), I(one), I(0))
            elif op == 'trunc' and x.ty.k == 'i' and x.ty.a == 1:
                env[x.res] = self.boolify(map1(lambda l: l if l in (True, False) else self.intop('and', l, ONE, pc), a))
            elif op == 'bitcast' and x.x.k != x.ty.k:
                env[x.res] = map1(lambda l: self.opq('bitcast', x.ty, (l,)), a)
            elif op == 'trunc' and x.ty.k == 'i' and x.ty.a in (8, 16):
                # a narrowing that may drop bits is not the identity: exact when the value provably fits
                env[x.res] = map1(lambda l: self.narrow(l, x.ty.a, pc), constrain(a, pc))
            elif op == 'zext' and x.x.k == 'i' and x.x.a in (8, 16):
                env[x.res] = map1(lambda l: self.unsign(l, x.x.a, pc), constrain(a, pc))
            elif op == 'fptrunc':
                env[x.res] = map1(lambda l: T._tof(l) if fconst(T._tof(l)) in (0, 1, -1) else fat(AT.get('fn', 'float', (T._tof(l),), False)), a)
            else: env[x.res] = a
            return pc
        if op in ('sitofp', 'uitofp'):
            a = self.val(fr, x.ops[0], x.x, pc)
            if x.x.k == 'i' and x.x.a == 1: a = ite(self.boolify(a), I(1), I(0))
            env[x.res] = map1(lambda l: fint(T._tok(l)), a)
            return pc
        if op in ('fptosi', 'fptoui'):
            a = self.val(fr, x.ops[0], x.x, pc)

            def conv(l):
                l = T._tof(l)
                if l.op == 'i': return l.a[0]
                c = fconst(l)
                if c is not None: return pc_(int(c))
                if l.op == 'at' and l.a[0].kind == 'fn' and l.a[0].name in ('floor', 'ceil'):
                    return pa(AT.get('int', l.a[0].name, l.a[0].args))
                return pa(AT.get('fptosi', '', (l,)))
            env[x.res] = map1(conv, a)
            return pc
        if op == 'alloca':
            sz = fr.fn.mod.size(x.ty)
            n = leaf(pc_(1))
            if x.ops: n = self.val(fr, x.ops[0], Ty('i', 64), pc)
            n = constrain(n, pc)
            size = n.leaf.scale(sz) if n.var is None and isinstance(n.leaf, P) else None
            o = self.newobj(fr.path + self.tag + '/' + x.res, 'alloca')
            o.size = size
            o.line = x.line
            self.heads[o] = None
            env[x.res] = self.ptr_to(o)
            self.event('alloca', fr, x, pc, (o, size))
            return pc
        if op == 'extractvalue':
            a = self.val(fr, x.ops[0], x.ty, pc)
            for i in x.x:
                a = a[i] if isinstance(a, tuple) else UND
            env[x.res] = a
            return pc
        if op == 'insertvalue':
            a = self.val(fr, x.ops[0], x.ty, pc)
            t = fr.fn.mod.resolve(x.ty)
            if not isinstance(a, tuple): a = tuple([UND] * (len(t.a) if t.k == 'st' else t.a))
            b = x.ops[1]
            ft = t.a[x.x[0]] if t.k == 'st' else t.b
            v = self.val(fr, b, ft, pc)
            if len(x.x) != 1: raise Undecided('insertvalue')
            a = list(a); a[x.x[0]] = v
            env[x.res] = tuple(a)
            return pc
        if op == 'ptrtoint':
            a = self.val(fr, x.ops[0], Ty('p'), pc)
            env[x.res] = map1(lambda l: pa(AT.get('ptrtoint', repr(l))), a)
            return pc
        raise Undecided('instruction %s' % op)

    def narrow(self, l, bits, pc):
        if not isinstance(l, P): return l
        c, top = l.const(), 1 << (bits - 1)
        if c is not None: return pc_((c + top) % (2 * top) - top) if c > 2 * top - 1 or c < -top else l
        lo, hi = l.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi < top: return l
        if T.implied_ge0(pc, l) and T.implied_ge0(pc, pc_(top - 1) - l): return l
        return pa(AT.get('int', 'wrap%d' % bits, (l,)))

    def unsign(self, l, bits, pc):
        if not isinstance(l, P): return l
        c, n = l.const(), 1 << bits
        if c is not None: return pc_(c % n)
        for k, q in l.m.items():
            at = AT.byid[k[0]] if len(k) == 1 and len(l.m) == 1 and q == 1 else None
            if at is not None and at.kind == 'int' and at.name == 'wrap%d' % bits:
                b = at.args[0]
                if T.implied_ge0(pc, b) and T.implied_ge0(pc, pc_(n - 1) - b): return b
                return pa(AT.get('int', 'uwrap%d' % bits, (b,)))
        return l if T.implied_ge0(pc, l) else pa(AT.get('int', 'uwrap%d' % bits, (l,)))

    def opq(self, name, ty, args):
        a = AT.get('opq', name + repr(ty), tuple(args), isint=not is_f(ty))
        return fat(a) if is_f(ty) else pa(a)

    def ptrcmp(self, pr, u, v):
        if isinstance(u, Undef) or isinstance(v, Undef): raise Undecided('undef pointer')
        if u.obj is v.obj:
            r = icmp(u.off, {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ugt': 'gt', 'ule': 'le', 'uge': 'ge'}.get(pr, pr), v.off)
            return r
        if pr == 'eq': return FALSE
        if pr == 'ne': return TRUE
        raise Undecided('pointer ordering')

    def intop(self, op, u, v, pc):
        u, v = T._tok(u), T._tok(v)
        cu, cv = u.const(), v.const()
        if cu is not None and cv is not None:
            a, b = int(cu), int(cv)
            if op in ('sdiv', 'udiv'):
                if b == 0: return pa(AT.get('opq', 'div0'))
                return pc_(abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1))
            if op in ('srem', 'urem'):
                if b == 0: return pa(AT.get('opq', 'rem0'))
                r = abs(a) % abs(b)
                return pc_(r if a >= 0 else -r)
            if op == 'shl': return pc_(a << b)
            if op in ('lshr', 'ashr'): return pc_(a >> b)
            if op == 'and': return pc_(a & b)
            if op == 'or': return pc_(a | b)
            if op == 'xor': return pc_(a ^ b)
        if op == 'shl' and cv is not None: return u.scale(1 << int(cv))
        if op in ('ashr', 'lshr') and cv is not None: return self.idiv(u, 1 << int(cv), pc, True)
        if op in ('sdiv', 'udiv') and cv is not None and cv != 0: return self.idiv(u, int(cv), pc, op == 'udiv')
        if op in ('srem', 'urem'): return self.irem(u, v, pc)
        if op == 'xor' and cv == -1: return -u - 1
        if op == 'and' and cv is not None and cv >= 0 and (int(cv) + 1) & int(cv) == 0 and cv > 0:
            if implied_ge0(pc, u): return self.irem(u, v + 1, pc)
        a = AT.get('int:' + op, '', (u, v))
        if op == 'and' and cv is not None and cv >= 0: a.lo, a.hi = 0, int(cv)
        return pa(a)

    def idiv(self, u, c, pc, floor=False):
        if all(v % c == 0 for v in u.m.values()): return u.scale(Fraction(1, c))
        nonneg = implied_ge0(pc, u)
        a = AT.get('int:div', '%d' % c, (u,))
        if nonneg or floor:
            q = pa(a)
            if not a.facts and c > 0:
                a.facts = [u - q.scale(c), q.scale(c) + (c - 1) - u]
                if nonneg: a.lo = 0
        elif not a.facts and c > 0:
            q = pa(a)
            a.facts = [u - q.scale(c) + (c - 1), q.scale(c) + (c - 1) - u]     # truncation, either sign
        return pa(a)

    def irem(self, u, v, pc):
        cv = v.const()
        # 0 <= u < v
        if implied_ge0(pc, u) and implied_ge0(pc, v - 1):
            if implied_ge0(pc, v - u - 1): return u
            if implied_ge0(pc, u - v) and implied_ge0(pc, v.scale(2) - u - 1): return u - v
            if implied_ge0(pc, v.scale(2) - u - 1):
                return ite(icmp(u, 'lt', v), leaf(u), leaf(u - v))
            if implied_ge0(pc, v.scale(3) - u - 1):
                return ite(icmp(u, 'lt', v), leaf(u), ite(icmp(u, 'lt', v.scale(2)), leaf(u - v), leaf(u - v.scale(2))))
            a = AT.get('int:rem', '', (u, v))
            a.lo = 0
            if cv is not None: a.hi = int(cv) - 1
            if not a.facts: a.facts = [v - pa(a) - 1]
            return pa(a)
        return pa(AT.get('int:rem', '', (u, v)))

    # -------------------------------------------------------------- addresses
    subhook = None

    def gep(self, fr, sty, base, idx, pc):
        mod = fr.fn.mod
        parts = []      # (scale, index value M, bound or None)
        const = 0
        t = None
        for n, (ity, iv) in enumerate(idx):
            v = self.val(fr, iv, ity, pc)
            if n == 0:
                parts.append((mod.size(sty), v, None))
                t = sty
            else:
                t = mod.resolve(t)
                if t.k == 'st':
                    ci = v.leaf.const()
                    const += mod.field_off(t, int(ci))
                    t = t.a[int(ci)]
                elif t.k == 'arr':
                    parts.append((mod.size(t.b), v, t.a))
                    t = t.b
                else: raise Undecided('gep into %r' % t)
        r = base
        if const:
            r = map1(lambda l: self.padd(l, pc_(const), ()), r)
        first = True
        for sc, v, bound in parts:
            v = constrain(v, pc)
            isfirst, first = first, False
            if v.var is None and isinstance(v.leaf, P) and v.leaf is ZERO: continue

            def step(l, i, sc=sc, bound=bound, isfirst=isfirst):
                i = T._tok(i)
                f = ()
                if bound is None and isfirst and self.subhook is not None and isinstance(l, Ptr) and i.const() is None:
                    n = self.subhook(l.obj, l.off - const, sc)
                    if n is not None: f = (i, pc_(n - 1) - i)
                if bound is not None and bound > 0 and i.const() is None:
                    f = (i, pc_(bound - 1) - i)
                elif bound is not None and bound > 0 and not (0 <= i.const() < bound):
                    f = ('oob',)
                return self.padd(l, i.scale(sc), f)
            r = map2(step, r, v)
        return r

    def padd(self, l, off, facts):
        if isinstance(l, Undef): return l
        fs = l.facts
        for f in facts:
            if f not in fs: fs = fs + (f,)
        return Ptr(l.obj, l.off + off, fs)

    # -------------------------------------------------------------- memory
    def load(self, fr, x, p, ty, pc):
        if isinstance(p, tuple): raise Undecided('aggregate pointer')
        p = constrain(p, pc)
        if ty.k in ('st', 'named', 'arr'): raise Undecided('aggregate load')
        mod = fr.fn.mod
        size = mod.size(ty)
        if p.var is None and isinstance(p.leaf, Ptr):
            self.event('load', fr, x, pc, (p.leaf, ty, size))
            return constrain(self.read(self.heads.get(p.leaf.obj), p.leaf.obj, p.leaf.off, ty, size, pc, p.leaf.facts), pc)
        res = []
        for g, l in leaves(p):
            gg = band(pc, g)
            if gg is FALSE or unsat(gg): continue
            if l is UNDEF and self.skip_undef: continue
            if not isinstance(l, Ptr): raise Undecided('load through %r' % (l,))
            if 'oob' in l.facts: continue
            self.event('load', fr, x, gg, (l, ty, size))
            res.append((gg, self.read(self.heads.get(l.obj), l.obj, l.off, ty, size, gg, l.facts)))
        if not res: return UND
        return self.merge(res, None)

    def store(self, fr, x, p, ty, v, pc):
        p = constrain(p, pc)
        mod = fr.fn.mod
        if isinstance(v, tuple):
            t = mod.resolve(ty)
            for i, vi in enumerate(v):
                ft = t.a[i] if t.k == 'st' else t.b
                o = mod.field_off(t, i) if t.k == 'st' else i * mod.size(t.b)
                self.store(fr, x, map1(lambda l: self.padd(l, pc_(o), ()), p), ft, vi, pc)
            return
        size = mod.size(ty)
        for g, l in leaves(p):
            gg = band(pc, g)
            if gg is FALSE: continue
            if g is not TRUE and unsat(gg): continue
            if l is UNDEF and self.skip_undef: continue
            if not isinstance(l, Ptr): raise Undecided('store through %r' % (l,))
            if l.obj is None:
                self.event('nullstore', fr, x, gg, l)
                continue
            self.event('store', fr, x, gg, (l, ty, size, constrain(v, gg))).bpc = pc
            if 'oob' in l.facts: continue
            self.write(l, ty, size, constrain(v, gg), gg, self.vid(fr, x), x.line)

    def write(self, l, ty, size, v, pc, vid, line):
        n = Node('w', self.heads.get(l.obj), l.off, size, ty, v, pc, vid, None, l.facts, line)
        n.obj = l.obj
        self.heads[l.obj] = n

    def memcopy(self, dst, src, size, pc, vid, line):
        src = constrain(src, pc)
        sz = size.leaf
        if size.var is not None or not isinstance(sz, P): raise Undecided('memcpy size')
        for g, s in leaves(src):
            gg = band(pc, g)
            if gg is FALSE: continue
            if not isinstance(s, Ptr): raise Undecided('memcpy from %r' % (s,))
            if s.obj is dst.obj and s.off is dst.off: continue
            n = Node('cp', self.heads.get(dst.obj), dst.off, sz, None, None, gg, vid,
                     (s.obj, s.off, self.heads.get(s.obj), s.facts), dst.facts, line)
            n.obj = dst.obj
            self.heads[dst.obj] = n

    def memfill(self, dst, val, size, pc, vid, line):
        n = Node('set', self.heads.get(dst.obj), dst.off, size, None, val, pc, vid, None, dst.facts, line)
        n.obj = dst.obj
        self.heads[dst.obj] = n

    def havoc(self, obj, pc, vid, line=0, off=None, size=None):
        n = Node('hav', self.heads.get(obj), off if off is not None else ZERO, size, None, None, pc, vid, None, (), line)
        n.obj = obj
        self.heads[obj] = n

    def alias(self, off, s, noff, ns, pc, facts):
        """relation of the read [off,off+s) to the write [noff,noff+ns):
        ('no',) ('in', d) with d constant, ('eq', d0, cond) single possible displacement, ('may',)"""
        d = off - noff
        c = d.const()
        nsc = ns if isinstance(ns, int) else (int(ns.const()) if ns.const() is not None else None)
        if c is not None and nsc is not None:
            if c >= nsc or c + s <= 0: return ('no',)
            if c >= 0 and c + s <= nsc: return ('in', c)
            return ('may',)
        if nsc is not None:
            g = 0
            for k, v in d.m.items():
                if k:
                    if isinstance(v, Fraction): g = 1; break
                    g = gcd(g, abs(int(v)))
            rho = d.m.get((), 0) % g if g else 0
            poss = []
            # values congruent to rho (mod g) in (-s, nsc)
            v = rho - ((rho + s - 1) // g) * g
            while v < nsc:
                if v > -s: poss.append(v)
                v += g
                if len(poss) > 4096: break
            if not poss: return ('no',)
            fl = [f for f in facts if isinstance(f, P)]
            if self.stride_sep(d, s, nsc, pc, fl): return ('no',)
            # range test
            if infeasible_with(pc, [d + (s - 1), pc_(nsc - 1) - d] + fl): return ('no',)
            if len(poss) == 1 and 0 <= poss[0] <= nsc - s:
                return ('eq', poss[0], icmp(d, 'eq', pc_(poss[0])))
            if not infeasible_with(pc, [-d - 1] + fl) or not infeasible_with(pc, [d - pc_(nsc - s) - 1] + fl):
                return ('may',)
            return ('insym', d)
        # symbolic extent
        fl = [f for f in facts if isinstance(f, P)]
        if infeasible_with(pc, [d + (s - 1), ns - 1 - d] + fl): return ('no',)
        if infeasible_with(pc, [-d - 1] + fl) and infeasible_with(pc, [d + s - ns - 1] + fl): return ('insym', d)
        return ('may',)

    def stride_sep(self, d, s, nsc, pc, fl):
        """d = G*q + t with a large stride G and a small index part t: is d outside (-s, nsc) for every t in its range?"""
        cs = sorted({abs(int(v)) for k, v in d.m.items() if k and not isinstance(v, Fraction)})
        if len(cs) < 2 or any(isinstance(v, Fraction) for v in d.m.values()): return False
        G = cs[-1]
        t = P({k: v for k, v in d.m.items() if k and int(v) % G})
        if not t.m or G < 8: return False
        c0 = int(d.m.get((), 0))
        st = 0
        for v in t.m.values(): st = gcd(st, abs(int(v)))
        lo = next((a for a in (0, -st, -2 * st, -3 * st) if infeasible_with(pc, [pc_(a) - t - 1] + fl)), None)
        if lo is None: return False
        hi = next((b for b in range(lo, lo + 4 * st + 1, st) if infeasible_with(pc, [t - b - 1] + fl)), None)
        if hi is None: return False
        for x in range(lo, hi + 1, st):
            if any((y - x - c0) % G == 0 for y in range(1 - s, nsc)): return False
        return True

    def read(self, head, obj, off, ty, size, pc, facts=()):
        stack = []
        node = head
        res = None
        cur = pc
        while True:
            if node is None:
                res = self.initial(obj, off, ty, size)
                break
            g = constrain(node.guard, cur)
            if g is FALSE:
                node = node.prev; continue
            if g is not TRUE and unsat(band(cur, node.guard)):
                node = node.prev; continue
            k = node.kind
            if k == 'bar':
                res = self.read_bar(node, obj, off, ty, size, cur, facts)
                break
            if k == 'ren':
                res = self.read_ren(node, obj, off, ty, size, cur, facts)
                break
            if k == 'hav':
                if node.size is not None:
                    rel = self.alias(off, size, node.off, node.size, cur, facts + node.facts)
                    if rel[0] == 'no':
                        node = node.prev; continue
                res = self.opaque_read(node.vid, obj, off, ty)
                break
            rel = self.alias(off, size, node.off, node.size, cur, facts + node.facts)
            if rel[0] == 'no':
                node = node.prev; continue
            cond = TRUE
            if rel[0] == 'in': d = pc_(rel[1])
            elif rel[0] == 'insym': d = rel[1]
            elif rel[0] == 'eq':
                d = pc_(rel[1])
                cond = constrain(rel[2], band(cur, g) if band(cur, g) is not FALSE else cur)
                if cond is FALSE or unsat(band(band(cur, g), cond)):
                    node = node.prev; continue
            else:
                # cannot tell: unknown content
                res = self.opaque_read(node.vid, obj, off, ty)
                break
            gg = band(g, cond)
            if k == 'w':
                if d.const() == 0 and size == node.size and (is_f(ty) == is_f(node.ty)) and (is_p(ty) == is_p(node.ty)):
                    v = node.val
                else:
                    v = self.opaque_read(node.vid, obj, off, ty)
            elif k == 'set':
                if node.val.var is None and node.val.leaf is ZERO: v = self.zero(ty)
                elif node.val.var is None and isinstance(node.val.leaf, P) and node.val.leaf.const() in (-1, 255) and ty.k == 'i':
                    v = I(-1)
                else: v = self.opaque_read(node.vid, obj, off, ty)
            elif k == 'cp':
                so, soff, sh, sf = node.x
                v = self.read(sh, so, soff + d, ty, size, band(cur, gg), sf + facts)
            stack.append((gg, v))
            cur2 = band(cur, bnot(gg))
            if gg is TRUE or cur2 is FALSE or (rel[0] == 'eq' and unsat(cur2)):
                res = stack.pop()[1]
                break
            cur = cur2
            node = node.prev
        for g, v in reversed(stack):
            res = ite(g, v, res)
        return constrain(res, pc)

    def ks(self):
        return tuple(pa(l.k) for l in self.loopstack)

    def opaque_read(self, vid, obj, off, ty):
        a = AT.get('rd', (vid, obj.name, repr(ty)), (off,) + self.ks(), isint=not is_f(ty))
        if is_p(ty):
            a.info = {'obj': self.deref_obj}
            return leaf(Ptr(self.deref_obj(a), ZERO))
        return leaf(fat(a)) if is_f(ty) else leaf(pa(a))

    def initial(self, obj, off, ty, size):
        if obj is None: raise Undecided('read through null')
        if self.hook is not None:
            r = self.hook(self, obj, off, ty)
            if r is not None: return r
        if obj.kind == 'param':
            a = AT.get('init', (obj.name if obj.atom is None else 'deref', repr(ty)),
                       (off,) if obj.atom is None else (off, pa(obj.atom)), isint=not is_f(ty))
            if is_p(ty):
                a.info = {'obj': self.deref_obj}
                return leaf(Ptr(self.deref_obj(a), ZERO))
            return leaf(fat(a)) if is_f(ty) else leaf(pa(a))
        if obj.kind == 'global':
            v = self.global_value(obj, off, ty, size)
            if v is not None: return v
            a = AT.get('init', (obj.name, repr(ty)), (off,), isint=not is_f(ty))
            return leaf(fat(a)) if is_f(ty) else leaf(pa(a))
        a = AT.get('uninit', (obj.name, repr(ty)), (off,), isint=not is_f(ty))
        if is_p(ty): return UND
        return leaf(fat(a)) if is_f(ty) else leaf(pa(a))

    def global_value(self, obj, off, ty, size):
        """element of a constant table"""
        g = obj.ty
        if g is None or not g.get('const'): return None
        data = const_data(obj.mod, g)
        if data is None: return None

        def conv(v):
            if v[0] == 'int': return I(v[1])
            if v[0] == 'fp': return R(v[1])
            if v[0] == 'null': return leaf(Ptr(None, ZERO))
            raise Undecided('constant table')
        c = off.const()
        if c is not None:
            e = data.get(int(c))
            if e is None or e[0].k != ty.k or e[0].a != ty.a: return None
            return conv(e[1])
        cand = [(o, e) for o, e in sorted(data.items()) if e[0].k == ty.k and e[0].a == ty.a]
        if len(cand) > 128: return None
        r = None
        for o, e in cand:
            q = icmp(off, 'eq', pc_(o))
            if q is FALSE: continue
            r = conv(e[1]) if r is None else ite(q, conv(e[1]), r)
        return r

    def read_ren(self, node, obj, off, ty, size, pc, facts):
        info, head, alts = node.x
        res = None
        parts = []
        for ng, g, kx in alts:
            gate = constrain(ng, pc)
            if gate is FALSE: continue
            if isinstance(kx, P):
                n = Node('bar', node.prev, None, None, None, None, TRUE, ('bar', info.id), (info, kx))
                n.obj = obj
                parts.append((gate, self.read_bar(n, obj, off, ty, size, band(pc, ng), facts)))
                continue
            inv = Subst({kx.id: pa(info.k)})
            fwd = Subst({info.k.id: pa(kx)})
            o2 = inv.p(off)
            f2 = tuple(inv.p(f).leaf if isinstance(f, P) else f for f in facts)
            p2 = band(inv.m(self.shrink(band(pc, ng))), g)
            if p2 is FALSE: continue
            save = self.loopstack
            self.loopstack = list(info.outer) + [info]
            try:
                v = self.read(head, obj, o2.leaf, ty, size, p2, f2)
            finally: self.loopstack = save
            parts.append((gate, fwd.m(v)))
        if not parts: return self.opaque_read(node.vid, obj, off, ty)
        r = parts[-1][1]
        for g, v in reversed(parts[:-1]): r = ite(g, v, r)
        return r

    def shrink(self, c): return c

    def bar_cands(self, info, K, obj, off, size, pc, facts):
        """writes of the loop that may be seen at this location"""
        W = info.W.get(obj, ())
        kk = info.k
        pk = AT.get('iv', (info.id, 'prime'), (), lo=0)
        pkp = pa(pk)
        cand = []
        for w in W:
            if w.kind == 'hav' and w.size is None:
                cand.append((w, None)); continue
            # prime the iteration-local counters
            mp = {kk.id: pkp}
            for a in w.off.support | w.guard.support:
                at = AT.byid[a]
                if a in info.inner:
                    mp[a] = pa(AT.get('iv', (at.name, 'prime'), (), lo=0))
            sb = Subst(mp)
            wo = sb.p(w.off)
            if wo.var is not None:
                cand.append((w, None)); continue
            d = off - wo.leaf
            ns = w.size if isinstance(w.size, int) else (int(w.size.const()) if w.size.const() is not None else None)
            c = d.const()
            if c is not None and ns is not None and (c >= ns or c + size <= 0): continue
            rngs = [K - pkp - 1]
            fl = [f for f in facts if isinstance(f, P)]
            for f in w.facts:
                if isinstance(f, P):
                    r = sb.p(f)
                    if r.var is None: fl.append(r.leaf)
            if ns is not None and c is None:
                g = 0
                for k_, v in d.m.items():
                    if k_: g = gcd(g, abs(int(v)))
                rho = d.m.get((), 0) % g if g else 0
                if g and rho >= ns and rho <= g - size: continue
            wg = sb.m(w.guard)
            gl = essential(wg)
            gc, _ = lits_to_cons(gl)
            if ns is not None:
                if infeasible_with(pc, [d + (size - 1), pc_(ns - 1) - d] + rngs + fl + gc): continue
                if self.stride_sep(d, size, ns, pc, rngs + fl + gc): continue
                # congruence on sign facts: same slot would need contradictory guards
                if g_exact(d, size, ns):
                    es = essential(pc)
                    eqs = [d, -d]
                    for q in split_eq(d, rngs + fl + gc): eqs += [q, -q]
                    if T.infeasible(es + [l for l in gl if l not in es], rngs + fl + eqs): continue
            else:
                nss = sb.p(w.size)
                if nss.var is None and infeasible_with(pc, [d + (size - 1), nss.leaf - 1 - d] + rngs + fl + gc): continue
            cand.append((w, wo.leaf))
        return cand

    # reading below the summary of all iterations k' in [0,K) of a loop
    def read_bar(self, node, obj, off, ty, size, pc, facts):
        info, K = node.x
        loc = info.local_ids()
        kk = info.k
        cand = self.bar_cands(info, K, obj, off, size, pc, facts)
        if not cand:
            return self.read(node.prev, obj, off, ty, size, pc, facts)
        if not (off.support & loc) or K is not pa(kk):
            pass
        # (a) loop-invariant location: memory cell
        inv = not (off.support & loc)
        if inv and all(w.off is not None and not (w.off.support & loc) for w, _ in cand) or \
                (inv and K is pa(kk)):
            s = self.cell(info, obj, off, ty, size, node)
            return self.slot_at(info, s, K, pc)
        # (b) one slot per iteration: solve for the iteration
        sols = None
        for w, wo in cand:
            if wo is None: sols = None; break
            r = self.solve_iter(info, w, off, size)
            if r is None: sols = None; break
            if sols is None: sols = r
            elif sols[0] is not r[0]:
                sols = None; break
        if sols is not None and info.latch_heads is not None and info.rdepth < 3:
            ks, woff, rho = sols
            lo = implied_ge0(pc, ks)
            hi = implied_ge0(pc, K - ks - 1)
            cond = TRUE
            if not lo: cond = band(cond, icmp(ks, 'ge', ZERO))
            if not hi: cond = band(cond, icmp(ks, 'lt', K))
            # the value of that slot at the end of iteration k
            save = self.loopstack
            self.loopstack = list(info.outer) + [info]
            info.rdepth += 1
            try:
                e = self.read(info.latch_heads.get(obj), obj, woff + pc_(rho), ty, size, info.latch_guard, ())
            finally:
                info.rdepth -= 1
            self.loopstack = save
            if not self.mentions_local(e, info):
                v = Subst({kk.id: ks}).m(e)
                if cond is TRUE: return v
                base = self.read(node.prev, obj, off, ty, size, band(pc, bnot(cond)), facts) \
                    if band(pc, bnot(cond)) is not FALSE else v
                return ite(cond, v, base)
        wide = (obj.name, repr(ty)) in info.norange
        r = self.opaque_read(('bar', info.id + '!' if wide else info.id), obj, off, ty) if K is pa(kk) else \
            self.opaque_after(info, obj, off, ty, K, wide)
        if ty.k == 'i' and r.var is None and not wide:
            (mono, _), = r.leaf.m.items()
            at = AT.byid[mono[0]]
            b = self.read(node.prev, obj, off, ty, size, pc, facts)
            rg = self.bar_range(cand, b)
            if at.lo is None and at.hi is None and rg is not None and rg != (None, None) and at.info is None:
                at.lo, at.hi = rg
                at.info = {'rng': True}
            if at.info is not None and at.info.get('rng'):
                # the range is an assumption until the writes of the final pass are known to respect it
                if not within(rg, at):
                    if info.done and at.id in info.valid: return r
                    if info.done:
                        return self.opaque_read(('bar', info.id + '!'), obj, off, ty) if K is pa(kk) else \
                            self.opaque_after(info, obj, off, ty, K, True)
                    info.norange.add((obj.name, repr(ty)))
                    return self.read_bar(node, obj, off, ty, size, pc, facts)
                if not info.done: info.rngs.append((at, node, obj, off, ty, size, pc, facts, K))
        return r

    def bar_range(self, cand, b):
        rg = self.range_of([w for w, _ in cand])
        if rg is not None:
            for l in leafset(b):
                if not isinstance(l, P): return None
                lo, hi = l.bounds()
                rg = (None if lo is None or rg[0] is None else min(lo, rg[0]),
                      None if hi is None or rg[1] is None else max(hi, rg[1]))
        return rg

    def check_ranges(self, info):
        """the ranges assumed for values written in this loop are inductive"""
        ok = True
        done, seen = list(info.rngs), set()
        for at, node, obj, off, ty, size, pc, facts, K in done:
            if (obj.name, repr(ty)) in info.norange or (at.id, pc) in seen: continue
            seen.add((at.id, pc))
            b = self.read(node.prev, obj, off, ty, size, pc, facts)
            if not within(self.bar_range(self.bar_cands(info, K, obj, off, size, pc, facts), b), at):
                info.norange.add((obj.name, repr(ty)))
                ok = False
        info.valid = {r[0].id for r in done}
        return ok

    def at_start(self, info, obj, off, ty, size, pc):
        """value of a location at the start of the generic iteration of a loop"""
        h = info.saved.get(obj)
        if obj in info.W: 
            h = Node('bar', h, None, None, None, None, info.pc0, ('bar', info.id), (info, pa(info.k)))
            h.obj = obj
        save, self.loopstack = self.loopstack, list(info.outer) + [info]
        try:
            return self.read(h, obj, off, ty, size, pc)
        finally:
            self.loopstack = save

    def at_end(self, info, obj, off, ty, size, pc):
        save, self.loopstack = self.loopstack, list(info.outer) + [info]
        try:
            return self.read(info.latch_heads.get(obj), obj, off, ty, size, pc)
        finally:
            self.loopstack = save

    def range_of(self, ws):
        lo = hi = None
        first = True
        for w in ws:
            if w.kind == 'w' and w.ty.k == 'i':
                for l in leafset(w.val):
                    if not isinstance(l, P): return None
                    a, b = l.bounds()
                    if first: lo, hi, first = a, b, False
                    else:
                        lo = None if a is None or lo is None else min(a, lo)
                        hi = None if b is None or hi is None else max(b, hi)
            elif w.kind == 'set' and w.val.var is None and w.val.leaf is ZERO:
                if first: lo, hi, first = 0, 0, False
                else:
                    lo = None if lo is None else min(lo, 0)
                    hi = None if hi is None else max(hi, 0)
            else: return None
        return None if first else (lo, hi)

    def mentions_local(self, e, info):
        """does the value depend on counters of inner loops (not expressible per iteration)?"""
        return bool(e.support & info.inner)

    def opaque_after(self, info, obj, off, ty, K, wide=False):
        a = AT.get('rd', (('bar', info.id + '!' if wide else info.id), obj.name, repr(ty)), (off,) + tuple(pa(l.k) for l in info.outer) + (K,),
                   isint=not is_f(ty))
        if is_p(ty):
            a.info = {'obj': self.deref_obj}
            return leaf(Ptr(self.deref_obj(a), ZERO))
        return leaf(fat(a)) if is_f(ty) else leaf(pa(a))

    def solve_iter(self, info, w, off, size):
        """iteration whose write covers `off`:  off = A + c*k + rho"""
        kk = info.k
        if w.off.support & info.inner: return None
        c = w.off.coef(kk.id)
        if c == 0: return None
        A = w.off - pa(kk).scale(c)
        if kk.id in A.support: return None
        ns = w.size if isinstance(w.size, int) else (int(w.size.const()) if w.size.const() is not None else None)
        if ns is None: return None
        d = off - A
        ac = abs(c)
        rho = d.m.get((), 0) % ac
        if rho + size > ns: return None
        q = d - rho
        if any(v % c for v in q.m.values()): return None
        return (q.scale(Fraction(1, c)), w.off, rho)

    def cell(self, info, obj, off, ty, size, node=None):
        key = (obj, off, repr(ty))
        s = info.cells.get(key)
        if s is None:
            s = Slot(('cell', obj.name, off.fp, repr(ty)))
            s.obj, s.off, s.ty, s.size = obj, off, ty, size
            s.cls = 'op'
            s.isint = not is_f(ty)
            s.isptr = is_p(ty)
            s.loop = info
            info.cells[key] = s
            info.newcell = True
            s.fresh = True
        if s.init is None or s.atom is None:
            s.init = self.read(info.saved.get(obj), obj, off, ty, size, info.pc0)
            self.mkatom(info, s)
            if s.fresh:
                s.fresh = False
                if s.isint and not s.isptr and s.init.var is None and isinstance(s.init.leaf, P) \
                        and s.init.leaf.const() is not None and not info.done: s.cls = 'inv'
                elif s.init.var is not None and not info.done: self.try_fin(info, s)
        s.used = True
        return s

    def mkatom(self, info, s):
        args = (pa(info.k),) + tuple(pa(l.k) for l in info.outer)
        s.atom = AT.get('phi', (info.id, s.name), args, isint=s.isint or s.isptr)
        s.atom.info = {'slot': s}
        if s.isptr:
            s.atom.info['obj'] = self.deref_obj

    def slot_cur(self, info, s):
        """value at the start of iteration k"""
        if s.cls == 'inv': return s.init
        if s.cls == 'dep':
            o, sg, c = s.t
            return iadd(leaf(c), imul(I(sg), self.slot_cur(info, o)))
        if s.cls == 'op' and s.fin is not None:
            lo, hi = s.fin
            r = I(hi)
            for v in range(hi - 1, lo - 1, -1):
                r = ite(icmp(pa(s.atom), 'eq', pc_(v)), I(v), r)
            return r
        if s.isptr:
            if s.cls == 'iv':
                return map1(lambda l: Ptr(l.obj, l.off + pa(info.k).scale(s.c), ()), s.init)
            return leaf(Ptr(self.deref_obj(s.atom), ZERO)) if s.obj2() is None else leaf(Ptr(s.obj2(), pa(s.atom)))
        if s.cls == 'iv':
            return iadd(s.init, leaf(pa(info.k).scale(s.c)))
        return leaf(pa(s.atom)) if s.isint else leaf(fat(s.atom))

    def slot_at(self, info, s, K, pc):
        if K is pa(info.k): return self.slot_cur(info, s)
        return self.closed(info, s, K)

    def closed(self, info, s, K):
        """value after K iterations"""
        if s.cls == 'inv': return s.init
        if s.cls == 'iv':
            return Subst({info.k.id: K}).m(self.slot_cur(info, s))
        if s.cls == 'sum':
            kap = pa(AT.get('kappa', info.depth, (), lo=0))
            body = T.indicator(Subst({info.k.id: kap}).m(s.t), T._only(kap).id)
            return radd(s.init, map1(lambda b: fsum(T._tof(b), K, info.depth), body))
        if s.cls == 'last':
            v = Subst({info.k.id: K - 1}).m(s.next)
            if implied_ge0(info.pc0, K - 1): return v
            return ite(icmp(K, 'gt', ZERO), v, s.init)
        cur = self.slot_cur(info, s)
        return Subst({info.k.id: K}).m(cur)

    # -------------------------------------------------------------- loops
    def exec_loop_or_havoc(self, fr, L, entry):
        lim = self.limit_havoc
        if lim is None or (L.parent is not None and L.parent.parent is not None) or self.depth > 1: return self.exec_loop(fr, L, entry)
        heads, env, nev, tag, seen = dict(self.heads), dict(fr.env), len(self.events), self.tag, set(self.loops_seen)
        stack = list(self.loopstack)
        nested = L.parent is None and bool(L.children)
        base = T._base[0]
        if not nested: T._base[0] = min(T._cnt[0] - T.NODE_LIMIT + lim, T._cnt[0])
        try:
            return self.exec_loop(fr, L, entry)
        except Undecided as ex:
            if nested: raise
            T._base[0] = T._cnt[0]
            self.heads, fr.env, self.tag, self.loopstack = heads, env, tag, stack
            del self.events[nev:]
            for i in [i for i in self.loops_seen if i not in seen]: del self.loops_seen[i]
            return self.havoc_loop(fr, L, entry, ex)
        finally:
            if not nested: T._base[0] = T._cnt[0]

    def havoc_loop(self, fr, L, entry, ex):
        """the loop may store anything into the objects its stores are based on and leave by any of its exits"""
        pc0 = FALSE
        for e in entry: pc0 = bor(pc0, e.g)
        lid = fr.path + '#' + L.header + self.tag
        defs = {}
        for b in L.blocks:
            for x in fr.fn.blocks[b]:
                if x.res is not None: defs[x.res] = x
        objs = []

        def root(o, seen):
            if o[0] == 'loc' and o[1] in defs:
                d = defs[o[1]]
                if o[1] in seen: return
                seen.add(o[1])
                if d.op == 'getelementptr': return root(d.ops[0], seen)
                if d.op in ('phi', 'select'):
                    for q in d.ops[-2:] if d.op == 'select' else d.ops: root(q, seen)
                    return
                raise ex
            v = self.val(fr, o, Ty('p'), pc0)
            for g, l in T.leaves(v):
                if not isinstance(l, Ptr) or l.obj is None: raise ex
                reg = self.hv_region(l.obj, l.off) if self.hv_region else None
                if (l.obj, reg) not in objs: objs.append((l.obj, reg))
        for b in L.blocks:
            for x in fr.fn.blocks[b]:
                if x.op == 'store': root(x.ops[1], set())
                elif x.op == 'call': raise ex
                elif x.op in ('ret', 'unreachable'): raise ex
        for o, reg in objs:
            if reg is None: self.havoc(o, pc0, ('hloop', lid, o.name))
            else: self.havoc(o, pc0, ('hloop', lid, o.name), 0, pc_(reg[0]), reg[1])
        self.havocked.append((lid, [o.name for o, _ in objs]))
        args = tuple(pa(l.k) for l in self.loopstack)
        edges = []
        for b in fr.cfg.rpo:
            if b not in L.blocks: continue
            t = fr.fn.blocks[b][-1]
            if t.op != 'br': continue
            for tgt in dict.fromkeys(t.x):
                if tgt not in L.blocks: edges.append((b, tgt))
        out, rest = [], pc0
        for i, (b, tgt) in enumerate(edges):
            if i < len(edges) - 1:
                ch = AT.get('choice', (lid, i), args)
                o = mvar(getvar('o', 'O', ch, ch.id))
                g, rest = band(rest, o), band(rest, bnot(o))
            else: g = rest
            ph = {}
            for p in fr.fn.blocks[tgt]:
                if p.op != 'phi': break
                for v, pb in zip(p.ops, p.x):
                    if pb != b: continue
                    if v[0] == 'loc' and v[1] in defs:
                        if is_p(p.ty): raise ex
                        a = AT.get('opq', ('hloop', lid, p.res, b), args, isint=not is_f(p.ty))
                        ph[p.res] = leaf(fat(a)) if is_f(p.ty) else leaf(pa(a))
                    else: ph[p.res] = self.val(fr, v, p.ty, g)
                    break
            out.append(Edge(g, ph, b, tgt))
        return out

    def exec_loop(self, fr, L, entry):
        saved = dict(self.heads)
        nev = len(self.events)
        tag0 = self.tag
        # --- try constant-trip expansion
        edges = entry
        outs = []
        it = 0
        ok = True
        tot_branchy = 0
        lid0 = fr.path + '#' + L.header + self.tag
        if lid0 in self.lcache:
            ok = False
        if ok and self.header_open(fr, L, entry): ok = False
        seen0 = set(self.loops_seen)
        if ok:
            pend = entry
            while True:
                self.tag = '%s|%s@%d' % (tag0, L.header, it)
                self._exitc_save = getattr(self, '_exitc', None)
                old = getattr(self, '_exitc', [])
                self._exitc = []
                r = self.run_iter(fr, L, pend)
                ec = [c for b, c in self._exitc if fr.cfg.inner.get(b) is L]
                self._exitc = old
                lat = [e for e in r if e.to == L.header]
                outs += [e for e in r if e.to != L.header]
                if it == 0 and lat and self.branchy(L, entry, nev) and not self.header_leaves(fr, L, lat):
                    tot_branchy = 1
                    if not self.force:
                        ok = False
                        break
                if not any(ec) and lat:
                    ok = False
                    break
                lat = [e for e in lat if e.g is not FALSE and not unsat(e.g)]
                if not lat: break
                pend = lat
                it += 1
                if it > (self.force if tot_branchy else UNROLL_CAP):
                    ok = False
                    break
            self.tag = tag0
        if ok: return outs
        for i in [i for i in self.loops_seen if i not in seen0]: del self.loops_seen[i]
        self.heads = dict(saved)
        del self.events[nev:]
        return self.exec_generic(fr, L, entry, saved, nev)

    def branchy(self, L, entry, nev):
        """the iteration stores under conditions that depend on data: summarise instead of expanding"""
        pc = FALSE
        for e in entry: pc = bor(pc, e.g)
        for e in self.events[nev:]:
            if e.kind in ('store', 'memcpy') and e.bpc is not pc:
                if constrain(e.bpc, pc) is not TRUE: return True
        return False

    def header_leaves(self, fr, L, lat):
        """the next header test surely leaves the loop"""
        lat = [e for e in lat if e.g is not FALSE and not unsat(e.g)]
        if not lat: return True
        t = fr.fn.blocks[L.header][-1]
        if t.op != 'br' or len(t.x) != 2 or all(x in L.blocks for x in t.x): return False
        r = self.try_header(fr, L, lat)
        return all(e.to not in L.blocks for e in r)

    def try_header(self, fr, L, entry):
        saved = dict(self.heads)
        env = dict(fr.env)
        nev = len(self.events)
        old = getattr(self, '_exitc', [])
        self._exitc = []
        tag0 = self.tag
        self.tag = '%s|%s@%s' % (tag0, L.header, 't')
        pc = FALSE
        for e in entry: pc = bor(pc, e.g)
        ph = {}
        for p in fr.fn.blocks[L.header]:
            if p.op != 'phi': break
            ph[p.res] = self.merge([(e.g, e.phis.get(p.res, UND)) for e in entry], pc)
        r = self.exec_block(fr, L.header, [Edge(pc, {}, None, L.header)], ph, L)
        self._tec = [c for b, c in self._exitc]
        self._exitc = old
        self.tag = tag0
        del self.events[nev:]
        self.heads = saved
        fr.env = env
        return r

    def header_open(self, fr, L, entry):
        """the only exit is the header's and it is not decided at loop entry: expansion is pointless"""
        for b in () if self.force else L.blocks:
            t = fr.fn.blocks[b][-1]
            if t.op == 'ret' or t.op == 'unreachable': return False
            if b != L.header and t.op == 'br' and any(x not in L.blocks for x in t.x): return False
            if t.op == 'switch' and b != L.header:
                if any(x not in L.blocks for x in [t.x[0]] + [q[1] for q in t.x[1]]): return False
        t = fr.fn.blocks[L.header][-1]
        if t.op != 'br' or len(t.x) != 2: return False
        self.try_header(fr, L, entry)
        return bool(self._tec) and not any(self._tec)

    def run_iter(self, fr, L, edges):
        # phis of the header from the incoming edges
        pc = FALSE
        for e in edges: pc = bor(pc, e.g)
        ph = {}
        for p in fr.fn.blocks[L.header]:
            if p.op != 'phi': break
            ph[p.res] = self.merge([(e.g, e.phis.get(p.res, UND)) for e in edges], pc)
        return self.run_region(fr, L.blocks, L.header, [Edge(pc, {}, None, L.header)], L, ph)

    def exec_generic(self, fr, L, entry, saved, nev):
        lid = fr.path + '#' + L.header + self.tag
        pc0 = FALSE
        for e in entry: pc0 = bor(pc0, e.g)
        info = self.lcache.get(lid)
        if info is None:
            info = LoopInfo(lid)
            info.k = AT.get('iv', lid, (), lo=0)
            info.fn = fr.fn.name
            info.line = next((x.line for x in fr.fn.blocks[L.header] if x.line), 0)
            self.lcache[lid] = info
        info.k.facts = []
        info.outer = tuple(self.loopstack)
        info.depth = len(self.loopstack)
        info.saved = saved
        info.pc0 = pc0
        info.latch_heads = None
        info.N = None
        info.done = False
        # initial values of the header phis
        for p in fr.fn.blocks[L.header]:
            if p.op != 'phi': break
            s = info.phis.get(p.res)
            if s is None:
                s = Slot(('phi', p.res))
                s.cls = 'op'
                s.fresh = True
                s.ty = p.ty
                s.isint = not is_f(p.ty)
                s.isptr = is_p(p.ty)
                info.phis[p.res] = s
            s.init = self.merge([(e.g, e.phis.get(p.res, UND)) for e in entry], pc0)
            if p.ty.k == 'i' and p.ty.a == 1:
                s.init = ite(self.boolify(s.init), I(1), I(0))
            self.mkatom(info, s)
            s.facts = []
            if s.fresh:
                s.fresh = False
                if s.isint and not s.isptr and s.init.var is None and isinstance(s.init.leaf, P) \
                        and s.init.leaf.const() is not None and not self.stepped(fr, L, p): s.cls = 'inv'
                elif s.init.var is not None and not self.stepped(fr, L, p): self.try_fin(info, s)
        for s in info.cells.values():
            s.init = self.read(saved.get(s.obj), s.obj, s.off, s.ty, s.size, pc0)
            self.mkatom(info, s)
            s.facts = []
        cands = None
        final = False
        phase = 0
        npass = 0
        while True:
            npass += 1
            if npass > 24: raise Undecided('loop at %s:%s does not stabilise' % (info.fn, info.line))
            reset_caches()
            self.heads = dict(saved)
            del self.events[nev:]
            for obj in info.W:
                n = Node('bar', saved.get(obj), None, None, None, None, pc0, ('bar', lid), (info, pa(info.k)))
                n.obj = obj
                self.heads[obj] = n
            info.newcell = False
            info.rngs = []
            for s in info.cells.values(): s.used = False
            self.loopstack.append(info)
            old = getattr(self, '_exitc', [])
            self._exitc = []
            ph = {}
            for nm, s in info.phis.items():
                v = self.slot_cur(info, s)
                if s.ty.k == 'i' and s.ty.a == 1: v = self.boolify(v)
                ph[nm] = v
            try:
                r = self.run_region(fr, L.blocks, L.header, [Edge(pc0, {}, None, L.header)], L, ph)
            finally:
                self._exitc = old
                self.loopstack.pop()
            lat = [e for e in r if e.to == L.header and e.g is not FALSE]
            exits = [e for e in r if e.to != L.header and e.g is not FALSE]
            lg = FALSE
            for e in lat: lg = bor(lg, e.g)
            changed = False
            # ---- write set
            W, inner = self.collect_writes(info, saved)
            sig = {}
            for obj, ws in W.items():
                for w in ws:
                    sig.setdefault(obj, set()).add((w.kind, w.off, w.size if isinstance(w.size, int) else
                                                    (w.size.fp if w.size is not None else None)))
            if sig != info.sig or inner != info.inner:
                changed = True
            info.W, info.sig, info.inner = W, sig, inner
            info.latch_heads = dict(self.heads)
            info.latch_guard = lg
            if info.newcell: changed = True
            if changed and npass < 12:
                phase = 0
                continue
            if lg is FALSE:
                # body never repeats: a single iteration
                info.single = True
            # ---- loop-carried quantities: classify
            self.loopstack.append(info)
            try:
                for nm, s in info.phis.items():
                    s.next = self.merge([(e.g, e.phis.get(nm, UND)) for e in lat], lg) if lat else s.init
                    if s.ty.k == 'i' and s.ty.a == 1 and lat: s.next = ite(self.boolify(s.next), I(1), I(0))
                for s in list(info.cells.values()):
                    s.next = self.read(self.heads.get(s.obj), s.obj, s.off, s.ty, s.size, lg) if lat else s.init
            finally:
                self.loopstack.pop()
            if any(not s.used for s in info.cells.values()):
                for kk in [kk for kk, s in info.cells.items() if not s.used]: del info.cells[kk]
            for s in list(info.phis.values()) + list(info.cells.values()):
                if self.classify(info, s, lg): changed = True
            if changed and npass < 20:
                phase = 0
                continue
            # ---- inductive facts
            if phase == 0:
                if self.houdini(info, lg):
                    phase = 1
                    continue
                phase = 1
            elif phase == 1:
                # re-validate the facts against the refined iteration
                if not self.revalidate(info, lg):
                    phase = 1
                    continue
            if not self.check_ranges(info):
                phase = 0
                continue
            break
        reset_caches()
        self.postclassify(info, lg)
        info.done = True
        info.visits += 1
        info.exits = exits
        self.loops_seen[lid] = info
        for l in self.loopstack: pass
        return self.leave(fr, L, info, exits, lat, saved)

    def stepped(self, fr, L, p):
        """the next value of this phi is syntactically phi + constant"""
        for v, b in zip(p.ops, p.x):
            if b in L.blocks and v[0] == 'loc':
                for x in fr.fn.blocks[b]:
                    if x.res == v[1] and x.op in ('add', 'sub') and x.ops[0] == ('loc', p.res): return True
                for bb in L.blocks:
                    for x in fr.fn.blocks[bb]:
                        if x.res == v[1] and x.op in ('add', 'sub') and x.ops[0] == ('loc', p.res): return True
        return False

    def collect_writes(self, info, saved):
        W = {}
        inner = set()
        for obj, h in self.heads.items():
            if saved.get(obj) is h: continue
            lst = []
            n = h
            ok = False
            stop = saved.get(obj)
            while n is not None:
                if n.kind == 'bar' and n.x[0] is info:
                    ok = True; break
                if n is stop:
                    ok = True; break
                lst.append(n)
                n = n.prev
            if n is None and stop is None and obj in saved: ok = True
            if obj not in saved:
                # object created inside the loop
                if obj.kind in ('alloca',): continue
                ok = True
            flat = []
            for w in reversed(lst):
                if w.kind in ('bar', 'ren'):
                    ii = w.x[0]
                    inner |= ii.inner | {ii.k.id}
                    for x in ii.W.get(obj, ()):
                        flat.append(x)
                else: flat.append(w)
            if flat or (obj in info.W and ok and False):
                W[obj] = flat
        # loops nested but not writing still contribute counters to values
        for e in self.events:
            for l in e.loops:
                if l is not info and info in e.loops and e.loops.index(l) > e.loops.index(info):
                    inner.add(l.k.id)
        return W, inner

    def classify(self, info, s, lg):
        """returns True when the class changed"""
        old = (s.cls, s.c)
        if s.cls == 'dep':
            o, sg, c = s.t
            want = constrain(iadd(leaf(c), imul(I(sg), o.next)), lg)
            if want is constrain(s.next, lg): return False
            s.cls, s.c, s.t, s.nodep = 'op', None, None, True
            return True
        cur = self.slot_cur(info, s)
        nxt = constrain(s.next, lg)
        cur = constrain(cur, lg)
        if nxt is cur:
            if s.cls in ('op', 'inv') and s.cls != 'inv':
                s.cls = 'inv'
            return (s.cls, s.c) != old
        if s.isptr:
            ok = False
            if cur.var is None and nxt.var is None and isinstance(nxt.leaf, Ptr) and isinstance(cur.leaf, Ptr) \
                    and nxt.leaf.obj is cur.leaf.obj:
                d = (nxt.leaf.off - cur.leaf.off).const()
                if d is not None and d != 0 and s.init.var is None and isinstance(s.init.leaf, Ptr):
                    s.cls, s.c = 'iv', d
                    ok = True
            if not ok: s.cls, s.c = 'op', None
            return (s.cls, s.c) != old
        if s.isint:
            try:
                d = constrain(isub(nxt, cur), lg)
            except Undecided:
                d = None
            if d is not None and d.var is None and d.leaf.const() is not None:
                c = d.leaf.const()
                if old[0] == 'inv' and c != 0 and abs(c) == 1 and self.try_fin(info, s, nxt): return True
                s.cls, s.c = ('iv', c) if c != 0 else ('inv', None)
            else:
                if old[0] == 'inv' and self.try_fin(info, s, nxt): return True
                if s.cls in ('iv', 'inv'): s.cls, s.c = 'op', None
            if s.fin is not None:
                cs = [l.const() if isinstance(l, P) else None for l in leafset(nxt)]
                if s.cls != 'op' or any(c is None or not (s.fin[0] <= c <= s.fin[1]) for c in cs):
                    s.fin, s.nodep = None, True
                    s.cls, s.c = 'op', None
                    return True
            return (s.cls, s.c) != old
        # reals
        if s.cls == 'inv': s.cls = 'op'
        return (s.cls, s.c) != old

    def try_fin(self, info, s, nxt=None):
        """optimistic: the slot only takes a few consecutive constants, maybe complementary to another slot's
        (re-checked by classify on every pass)"""
        if s.nodep or s.isptr or not s.isint: return False
        ls = leafset(s.init) + (leafset(nxt) if nxt is not None else [])
        cs = [l.const() if isinstance(l, P) else None for l in ls]
        if any(c is None for c in cs): return False
        lo, hi = int(min(cs)), int(max(cs))
        if not (0 < hi - lo <= 2): return False
        s.cls, s.c, s.fin, s.t = 'op', None, (lo, hi), None
        for o in self.slots(info):
            if o is s or o.cls != 'op' or o.fin is None or o.nodep or o.isptr: continue
            for f, sg in ((iadd, -1), (isub, 1)):
                c0 = f(s.init, o.init)
                if c0.var is not None or c0.leaf.const() is None: continue
                if nxt is not None:
                    if o.next is None: continue
                    try:
                        c1 = f(nxt, constrain(o.next, info.latch_guard))
                    except Undecided: continue
                    if c1 is not c0: continue
                s.cls, s.t, s.fin = 'dep', (o, sg, c0.leaf), None
                return True
        return True

    def postclassify(self, info, lg):
        kid = info.k.id
        for s in list(info.phis.values()) + list(info.cells.values()):
            if s.cls == 'dep': continue
            s.t = None
            if s.cls not in ('op', 'sum', 'last'): continue
            s.cls = 'op'
            if s.isptr: continue
            nxt = constrain(s.next, lg)
            if not s.isint:
                z = Subst({s.atom.id: fc(0)}).m(nxt)
                if s.atom.id not in z.support:
                    tot = radd(leaf(fat(s.atom)), z)
                    if tot is nxt:
                        s.cls, s.t = 'sum', z
                        continue
            # value of the last iteration only
            locs = set()
            for a in nxt.support:
                at = AT.byid[a]
                if at.kind == 'phi' and at.name[0] == info.id: locs.add(a)
                if a in info.inner: locs.add(a)
            if not locs: s.cls = 'last'

    # ---- inductive facts about loop-carried integers and reals
    def slots(self, info):
        return [s for s in list(info.phis.values()) + list(info.cells.values())]

    def houdini(self, info, lg):
        """find inductive facts; returns True when facts were added (so the iteration should be re-run)"""
        k = pa(info.k)
        S = [s for s in self.slots(info) if s.cls == 'op' and not s.isptr]
        cand = []     # (slot list, fn(valuemap,k)->cond)
        ivs = [s for s in self.slots(info) if s.cls == 'iv' and not s.isptr]
        ints = [s for s in S if s.isint]
        reals = [s for s in S if not s.isint]
        C = []
        for s in ints:
            a = pa(s.atom)
            il = s.init.leaf if s.init.var is None and isinstance(s.init.leaf, P) else None
            nxl = leafset(constrain(s.next, lg))
            consts = [l.const() for l in nxl if isinstance(l, P) and l.const() is not None]
            incs = []
            for l in nxl:
                if isinstance(l, P):
                    d = (l - a).const()
                    if d is not None: incs.append(d)
            if il is not None:
                C.append(('ge', a - il))
                C.append(('ge', il - a))
                if incs:
                    m = max(incs)
                    if m > 0: C.append(('ge', il + k.scale(m) - a))
                    m2 = min(incs)
                    if m2 < 0: C.append(('ge', a - il - k.scale(m2)))
            C.append(('ge', a))
            for c in set(consts) | ({il.const()} if il is not None and il.const() is not None else set()):
                C.append(('ge', pc_(c) - a))
                C.append(('ge', a - c))
            for b in self.bound_terms(info):
                C.append(('ge', b - a))
                C.append(('ge', b - a - 1))
        for i, s in enumerate(ints):
            for t in ints[i + 1:] :
                if s.init.var is None and t.init.var is None and isinstance(s.init.leaf, P) and isinstance(t.init.leaf, P):
                    sm = s.init.leaf + t.init.leaf
                    C.append(('eq', pa(s.atom) + pa(t.atom) - sm))
                    C.append(('eq', pa(s.atom) - pa(t.atom) - (s.init.leaf - t.init.leaf)))
                    C.append(('ge', pa(s.atom) - pa(t.atom)))
                    C.append(('ge', pa(t.atom) - pa(s.atom)))
        # induction variables against the loop bound (k <= N)
        for q in self.header_bounds(info):
            C.append(('ge', q))
        seen = set()
        C2 = []
        for c in C:
            if c[1].const() is not None: continue
            kk = (c[0], c[1])
            if kk not in seen:
                seen.add(kk); C2.append(c)
        C = C2
        RC = []
        cmpd = set()
        for e in self.events:
            if info in e.loops and e.kind == 'branch':
                for v in bsupport(e.x): cmpd |= VARS[v].support
        reals = [s for s in reals if s.atom.id in cmpd]
        for s in reals:
            for pr in ('ge', 'le', 'lt', 'gt'):
                RC.append((s, pr))
        if not C and not RC: return False
        # base case
        sub0 = {info.k.id: ZERO}
        for s in S:
            if s.init is None: return False
            sub0[s.atom.id] = s.init if s.init.var is not None or not isinstance(s.init.leaf, Undef) else s.init
        base_ok = []
        for c in C:
            if self.holds_sub(info.pc0, c, sub0): base_ok.append(c)
        C = base_ok
        RB = []
        for s, pr in RC:
            cnd = map1(lambda l: rcmp(T._tof(l), pr, fc(0)), s.init) if not any(isinstance(l, Undef) for l in leafset(s.init)) else FALSE
            if implies(info.pc0, constrain(cnd, info.pc0)): RB.append((s, pr))
        # post-facts for reals: hold after at least one iteration
        # induction
        for _ in range(12):
            self.set_facts(info, C, RB)
            T.clear_unsat(); reset_caches()
            sub1 = {info.k.id: k + 1}
            for s in S: sub1[s.atom.id] = s.next
            bad = [c for c in C if not self.holds_sub(lg, c, sub1)]
            rbad = []
            for s, pr in RB:
                cnd = self.real_cond(info, s, pr, lg)
                if not implies(lg, cnd): rbad.append((s, pr))
            if not bad and not rbad: break
            C = [c for c in C if c not in bad]
            RB = [r for r in RB if r not in rbad]
        else:
            C, RB = [], []
        self.set_facts(info, C, RB)
        info.facts, info.rfacts = C, RB
        # small finite domains and affinely dependent slots
        cs = {(c[0], c[1]) for c in C}
        for s in ints:
            a = pa(s.atom)
            if s.fin is None and not s.nodep:
                los = [c for c in (0, 1) if ('ge', a - c) in cs]
                his = [c for c in (1, 2, 3) if ('ge', pc_(c) - a) in cs]
                if los and his and max(los) < min(his):
                    s.fin = (max(los), min(his))
        for c in C:
            if c[0] != 'eq' or len(c[1].atoms()) != 2: continue
            ss = [s for s in ints if s.atom.id in c[1].atoms()]
            if len(ss) != 2: continue
            s0, t0 = ss
            if s0.fin is None or t0.cls == 'dep' or s0.cls == 'dep' or t0.nodep: continue
            ct = c[1].coef(t0.atom.id)
            if ct not in (1, -1): continue
            # ct*t + cs*s + r = 0
            cs_ = c[1].coef(s0.atom.id)
            r = c[1] - pa(t0.atom).scale(ct) - pa(s0.atom).scale(cs_)
            if r.const() is None: continue
            t0.cls, t0.t = 'dep', (s0, -cs_ * ct, r.scale(-ct))
        # facts valid once the body has been executed at least once
        info.post = []
        for s in reals:
            for pr in ('lt', 'gt', 'le', 'ge'):
                if (s, pr) in RB: continue
                # first iteration from init
                n0 = Subst({info.k.id: ZERO, s.atom.id: s.init}).m(constrain(s.next, lg))
                g0 = Subst({info.k.id: ZERO, s.atom.id: s.init}).m(lg)
                c0 = map1(lambda l: rcmp(T._tof(l), pr, fc(0)), n0)
                if not implies(g0, c0): continue
                a = fat(s.atom)
                asm = rcmp(a, pr, fc(0))
                c1 = map1(lambda l: rcmp(T._tof(l), pr, fc(0)), constrain(s.next, band(lg, asm)))
                if implies(band(lg, asm), c1): info.post.append((s, pr))
        return bool(C or RB)

    def revalidate(self, info, lg):
        k = pa(info.k)
        S = [s for s in self.slots(info) if s.cls == 'op' and not s.isptr]
        C, RB = info.facts, info.rfacts
        sub1 = {info.k.id: k + 1}
        for s in S: sub1[s.atom.id] = s.next
        sub0 = {info.k.id: ZERO}
        for s in S: sub0[s.atom.id] = s.init
        bad = [c for c in C if not self.holds_sub(lg, c, sub1) or not self.holds_sub(info.pc0, c, sub0)]
        rbad = [r for r in RB if not implies(lg, self.real_cond(info, r[0], r[1], lg))]
        if not bad and not rbad: return True
        info.facts = [c for c in C if c not in bad]
        info.rfacts = [r for r in RB if r not in rbad]
        self.set_facts(info, info.facts, info.rfacts)
        T.clear_unsat(); reset_caches()
        return False

    def real_cond(self, info, s, pr, lg):
        def f(l):
            l = T._tof(l)
            if l.op == 'at' and l.a[0] is s.atom: return TRUE      # assumed
            return rcmp(l, pr, fc(0))
        return map1(f, constrain(s.next, lg))

    def set_facts(self, info, C, RB):
        for s in self.slots(info):
            if s.atom is not None: s.atom.facts = []
        info.k.facts = []
        for kind, p in C:
            tgt = None
            for a in p.atoms():
                at = AT.byid[a]
                if at.kind == 'phi' and at.name[0] == info.id: tgt = at
            if tgt is None: tgt = info.k
            ats = [AT.byid[a] for a in p.atoms() if AT.byid[a].kind == 'phi' and AT.byid[a].name[0] == info.id] or [info.k]
            for t in ats:
                t.facts.append(p)
                if kind == 'eq': t.facts.append(-p)
        info.signfacts = {}
        for s, pr in RB:
            allowed = {'ge': {'0', '+'}, 'le': {'0', '-'}, 'lt': {'-'}, 'gt': {'+'}}[pr]
            cur = info.signfacts.get(s.atom.id)
            info.signfacts[s.atom.id] = allowed if cur is None else cur & allowed
        SIGNS.update({a: v for a, v in info.signfacts.items()})
        for s in self.slots(info):
            if s.atom is not None and s.atom.id not in info.signfacts: SIGNS.pop(s.atom.id, None)
        T.clear_unsat()

    def holds_sub(self, pc, c, sub):
        kind, p = c
        try:
            v = Subst(sub).p(p)
        except Undecided:
            return False
        cond = map1(lambda l: icmp(l, kind, ZERO), v)
        return implies(pc, constrain(cond, pc))

    def bound_terms(self, info):
        """candidate upper bounds for loop-carried integers: compile-time capacities compared in the body"""
        out = set()
        for e in self.events:
            if info in e.loops and e.kind == 'branch':
                for v in bsupport(e.x):
                    t = VARS[v]
                    if t.kind != 'i': continue
                    loc = [a for a in t.term.atoms() if AT.byid[a].kind == 'phi' and AT.byid[a].name[0] == info.id]
                    if len(loc) == 1 and t.term.coef(loc[0]) in (1, -1):
                        c = t.term.coef(loc[0])
                        rest = t.term - pa(AT.byid[loc[0]]).scale(c)
                        b = rest.scale(-c)
                        if not (b.support & info.local_ids()) and not any(
                                AT.byid[a].kind == 'phi' and AT.byid[a].name[0] == info.id for a in b.support):
                            out.add(b)
        return sorted(out, key=lambda b: b.fp)[:6]

    def header_bounds(self, info):
        """k <= N style candidates from comparisons of k in branch conditions"""
        out = set()
        for e in self.events:
            if e.kind == 'branch' and e.loops and e.loops[-1] is info:
                for v in bsupport(e.x):
                    t = VARS[v]
                    if t.kind != 'i': continue
                    c = t.term.coef(info.k.id)
                    if c == 0: continue
                    rest = t.term - pa(info.k).scale(c)
                    if rest.support & info.local_ids(): continue
                    if any(AT.byid[a].kind == 'phi' and AT.byid[a].name[0] == info.id for a in rest.support): continue
                    q = t.term if c < 0 else -t.term
                    out.add(q)
        return sorted(out, key=lambda b: b.fp)[:6]

    # ---- leaving a loop
    def trip_count(self, info, cc, pc0):
        """cc(k): continue condition as 'k < N' -> N"""
        cc = constrain(cc, pc0)
        vs = bsupport(cc)
        terms = {}
        for v in vs:
            if VARS[v].kind != 'i': return None
            terms[id(VARS[v].term)] = VARS[v].term
        if len(terms) != 1: return None
        q = list(terms.values())[0]
        c = q.coef(info.k.id)
        if c not in (1, -1): return None
        if (q - pa(info.k).scale(c)).support & info.local_ids(): return None
        if c == -1: q = -q
        r = q - pa(info.k)                     # q = k + r
        for a in r.support:
            at = AT.byid[a]
            if at.kind == 'phi' and at.name[0] == info.id: return None
        E, Lq = sgn_int(q)
        for pr, N in (('lt', -r), ('le', -r + 1), ('ne', -r)):
            if constrain(cmpz(E, Lq, pr), pc0) is cc: return N
        return None

    def leave(self, fr, L, info, exits, lat, saved):
        k = pa(info.k)
        pc0 = info.pc0
        hdr_exit = [e for e in exits if e.frm == L.header]
        N = None
        if len(exits) == 1 and lat:
            e = exits[0]
            gx = constrain(e.g, pc0)
            cc = bnot(gx)
            N = self.trip_count(info, cc, pc0) if e.frm == L.header else None
            bottom = False
            if N is None and e.frm != L.header and e.frm in L.latches and fr.cfg.dominates(e.frm, L.latches[0]):
                lgg = info.latch_guard
                n1 = self.trip_count(info, constrain(lgg, pc0), pc0)
                if n1 is not None:
                    N = n1 + 1
                    bottom = True
            if N is not None:
                if not implied_ge0(pc0, N):
                    a = AT.get('max0', '', (N,), lo=0)
                    if not a.facts: a.facts = [pa(a) - N]
                    nn = pa(a)
                    # when N may be negative the trip count is max(0,N)
                    N = nn
                info.N = N
                info.counted = True
                kx = N if not bottom else N - 1
                mp = {info.k.id: kx}
                slotmap = {}
                for s in self.slots(info):
                    if s.cls in ('sum', 'last') and s.atom is not None and not s.isptr:
                        slotmap[s.atom.id] = self.closed(info, s, kx)
                mp.update(slotmap)
                sb = Subst(mp)
                self.loopstack_save = None
                ph = {}
                for nm, v in e.phis.items():
                    ph[nm] = sbv(sb, v)
                for obj in list(info.W):
                    n = Node('bar', saved.get(obj), None, None, None, None, pc0, ('bar', info.id), (info, N))
                    n.obj = obj
                    self.heads[obj] = n
                # objects created in the loop stay as they are
                # post facts (>=1 iteration)
                if info.post and implied_ge0(pc0, N - 1):
                    for s, pr in info.post:
                        v = Subst({info.k.id: N}).m(self.slot_cur(info, s))
                        if v.var is None and v.leaf.op == 'at':
                            allowed = {'ge': {'0', '+'}, 'le': {'0', '-'}, 'lt': {'-'}, 'gt': {'+'}}[pr]
                            aid = v.leaf.a[0].id
                            SIGNS[aid] = allowed & SIGNS[aid] if aid in SIGNS else allowed
                for s, pr in info.rfacts if hasattr(info, 'rfacts') else ():
                    v = Subst({info.k.id: N}).m(self.slot_cur(info, s))
                    if v.var is None and v.leaf.op == 'at':
                        allowed = {'ge': {'0', '+'}, 'le': {'0', '-'}, 'lt': {'-'}, 'gt': {'+'}}[pr]
                        aid = v.leaf.a[0].id
                        SIGNS[aid] = allowed & SIGNS[aid] if aid in SIGNS else allowed
                T.clear_unsat(); reset_caches()
                return [Edge(pc0, ph, e.frm, e.to)]
        info.counted = False
        return self.open_exits(info, exits, pc0, saved, L.header)

    def open_exits(self, info, exits, pc0, saved, hdr):
        """loop without a closed trip count: every exit gets its own unknown exit iteration; what the exit
        test says about that iteration becomes a fact of its atoms, and the guard after the loop is the guard
        before it (one exit) or an opaque choice between the exits"""
        if not exits: return exits
        out = []
        rest = pc0
        args = tuple(pa(l.k) for l in info.outer)
        info.exit_k, info.exit_guard = {}, {}
        for i, e in enumerate(exits):
            if e.frm == hdr:
                # leaving through the header test after a known number of complete iterations
                N = self.trip_count(info, bnot(constrain(e.g, pc0)), pc0)
                if N is not None:
                    if not implied_ge0(pc0, N):
                        a = AT.get('max0', '', (N,), lo=0)
                        if not a.facts: a.facts = [pa(a) - N]
                        N = pa(a)
                    mp = {info.k.id: N}
                    for s in self.slots(info):
                        if s.cls in ('sum', 'last') and s.atom is not None and not s.isptr:
                            mp[s.atom.id] = self.closed(info, s, N)
                    sb = Subst(mp)
                    info.exit_k[i] = N
                    info.N = N
                    if len(exits) == 1: ng = pc0
                    elif i < len(exits) - 1:
                        ch = AT.get('choice', (info.id, i), args)
                        o = mvar(getvar('o', 'O', ch, ch.id))
                        ng = band(rest, o)
                        rest = band(rest, bnot(o))
                    else: ng = rest
                    info.exit_guard[i] = TRUE
                    out.append(Edge(ng, {nm: sbv(sb, v) for nm, v in e.phis.items()}, e.frm, e.to))
                    continue
            kx = AT.get('ivx', (info.id, i), args, lo=0)
            mp = {info.k.id: pa(kx)}
            sb = Subst(mp)
            g = sb.m(constrain(e.g, pc0))
            info.exit_k[i] = kx
            # counter facts carry over
            kx.facts = []
            for f in info.k.facts:
                r = sb.p(f)
                if r.var is None: kx.facts.append(r.leaf)
            keep = TRUE
            for v, pol in essential(g):
                x = VARS[v]
                if kx.id not in x.support:
                    lit = mvar(v) if pol else bnot(mvar(v))
                    keep = band(keep, lit)
            self.exit_facts(kx, essential(g))
            if len(exits) == 1: ng = pc0
            else:
                if i < len(exits) - 1:
                    ch = AT.get('choice', (info.id, i), args)
                    o = mvar(getvar('o', 'O', ch, ch.id))
                    ng = band(rest, o)
                    rest = band(rest, bnot(o))
                else: ng = rest
                ng = band(ng, keep)
            ph = {nm: sbv(sb, v) for nm, v in e.phis.items()}
            out.append(Edge(ng, ph, e.frm, e.to))
            info.exit_guard[i] = g
        # memory after the loop: the exit iteration's memory, renamed
        for obj in list(self.heads):
            if obj not in saved and obj.kind == 'alloca' and obj not in info.W:
                continue
            if saved.get(obj) is self.heads[obj] and obj not in info.W: continue
            if obj not in info.W: continue
            alts = [(out[i].g, constrain(e.g, pc0), info.exit_k[i]) for i, e in enumerate(exits)]
            n = Node('ren', saved.get(obj), None, None, None, None, pc0, ('ren', info.id), (info, self.heads[obj], alts))
            n.obj = obj
            self.heads[obj] = n
        return out

    def exit_facts(self, kx, lits):
        cons, ne = lits_to_cons(lits)
        for p in cons:
            for a in p.atoms():
                at = AT.byid[a]
                if kx.id in at.support and at.kind in ('phi', 'rd', 'ivx', 'lnk', 'pos'):
                    if p not in at.facts: at.facts = at.facts + [p]
        # signs of reals
        E, Lq = {}, {}
        for v, pol in lits:
            x = VARS[v]
            if x.kind != 'f' or kx.id not in x.support: continue
            (E if x.sub == 'E' else Lq)[x.term.fp] = (x.term, pol)
        for fp, (t, pol) in E.items():
            if t.op != 'at': continue
            if pol: al = {'0'}
            elif fp in Lq: al = {'-'} if Lq[fp][1] else {'+'}
            else: continue
            SIGNS[t.a[0].id] = al & SIGNS[t.a[0].id] if t.a[0].id in SIGNS else al
        T.clear_unsat()

    # -------------------------------------------------------------- calls
    def exec_call(self, fr, x, pc):
        callee = x.ops[0]
        if callee[0] != 'glb': raise Undecided('indirect call')
        nm = callee[1]
        env = fr.env
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.stackrestore') \
                or nm.startswith('llvm.assume') or nm.startswith('llvm.experimental.noalias'):
            return pc
        if nm.startswith('llvm.stacksave'):
            env[x.res] = UND
            return pc
        args = [constrain_v(self.val(fr, v, t, pc), pc) for t, v, a in x.x]
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove') or nm in ('memcpy', 'memmove'):
            dst, src, size = args[0], args[1], args[2]
            self.event('memcpy', fr, x, pc, (dst, src, size))
            for g, l in leaves(dst):
                gg = band(pc, g)
                if gg is FALSE or (g is not TRUE and unsat(gg)): continue
                if l is UNDEF and self.skip_undef: continue
                if not isinstance(l, Ptr): raise Undecided('memcpy to %r' % (l,))
                if 'oob' in l.facts: continue
                self.memcopy(l, src, constrain(size, gg), gg, self.vid(fr, x), x.line)
            return pc
        if nm.startswith('llvm.memset') or nm == 'memset':
            dst, v, size = args[0], args[1], args[2]
            self.event('memset', fr, x, pc, (dst, v, size))
            for g, l in leaves(dst):
                gg = band(pc, g)
                if gg is FALSE or (g is not TRUE and unsat(gg)): continue
                if l is UNDEF and self.skip_undef: continue
                if not isinstance(l, Ptr): raise Undecided('memset to %r' % (l,))
                sz = constrain(size, gg)
                if sz.var is not None: raise Undecided('memset size')
                self.memfill(l, v, sz.leaf, gg, self.vid(fr, x), x.line)
            return pc
        r = self.mathfn(nm, args, pc)
        if r is not None:
            if nm in ('sqrt',): self.event('sqrt', fr, x, pc, args)
            if x.res: env[x.res] = r
            return pc
        if self.ext is not None:
            r = self.ext(self, fr, x, nm, args, pc)
            if r is not None:
                if x.res: env[x.res] = r
                return pc
        f = self.funcs.get(nm)
        if f is not None and (f.internal or self.inline(nm)):
            self.event('call', fr, x, pc, (nm, args, True))
            # context identity: caller path + call site
            path = '%s%s>%s.%s' % (fr.path, self.tag, self.vid(fr, x).rsplit(':', 1)[1], nm)
            tag, self.tag = self.tag, ''
            old = getattr(self, '_exitc', [])
            self._exitc = []
            v, g = self.call_function(f, args, pc, path)
            self._exitc = old
            self.tag = tag
            self.event('endcall', fr, x, pc, (nm, args, v))
            if x.res: env[x.res] = v
            return pc if g is not FALSE else FALSE
        if nm in ('malloc', 'calloc', 'realloc'):
            o = self.newobj('heap:' + self.vid(fr, x), 'heap')
            o.line = x.line
            o.size = args[-1].leaf if args[-1].var is None and isinstance(args[-1].leaf, P) else None
            if nm == 'calloc': o.size = (args[0].leaf * args[1].leaf) if args[0].var is None and args[1].var is None else None
            self.event('alloc', fr, x, pc, (nm, args, o))
            self.heads[o] = None
            if nm == 'calloc': self.memfill(Ptr(o, ZERO), I(0), o.size, pc, self.vid(fr, x), x.line)
            if nm == 'realloc' :
                for g, l in leaves(args[0]):
                    if isinstance(l, Ptr) and l.obj is not None and o.size is not None:
                        self.memcopy(Ptr(o, ZERO), leaf(l), leaf(o.size), band(pc, g), self.vid(fr, x), x.line)
            env[x.res] = self.ptr_to(o)
            return pc
        self.event('call', fr, x, pc, (nm, args, False))
        if nm in ('free', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'putc', 'fflush', 'perror'):
            if x.res: env[x.res] = I(0)
            return pc
        if nm in ('exit', 'abort', '__assert_fail'): return FALSE
        # opaque call: everything reachable through pointer arguments may change
        for a, (t, _, at) in zip(args, x.x):
            if is_p(t) and not isinstance(a, tuple):
                if at.get('byval') is not None: continue
                for l in leafset(a):
                    if isinstance(l, Ptr) and l.obj is not None:
                        self.havoc(l.obj, pc, self.vid(fr, x), x.line)
        if x.res:
            if x.ty.k in ('i', 'f', 'p'):
                env[x.res] = self.opaque_call(nm, self.vid(fr, x), x.ty)
            else:
                t = fr.fn.mod.resolve(x.ty)
                env[x.res] = tuple(self.opaque_call(nm, self.vid(fr, x) + '.%d' % i, ft) for i, ft in enumerate(t.a))
        return pc

    def opaque_call(self, nm, vid, ty):
        a = AT.get('ret', (nm, vid), self.ks(), isint=not is_f(ty))
        if is_p(ty):
            a.info = {'obj': self.deref_obj}
            return leaf(Ptr(self.deref_obj(a), ZERO))
        if ty.k == 'i' and ty.a == 1: return self.boolify(leaf(pa(a)))
        return leaf(fat(a)) if is_f(ty) else leaf(pa(a))

    def mathfn(self, nm, args, pc):
        b = nm
        if nm.startswith('llvm.'):
            b = nm.split('.')[1]
        if b in ('sqrt', 'sin', 'cos', 'tan', 'floor', 'ceil', 'log2', 'log', 'exp', 'exp2', 'round', 'trunc', 'cbrt', 'acos', 'asin',
                 'atan', 'log10', 'rint', 'nearbyint'):
            def f(l):
                l = T._tof(l)
                if b in ('floor', 'ceil', 'trunc', 'round', 'rint'):
                    if l.op == 'i': return l
                c = fconst(l)
                if c is not None and b in ('floor', 'ceil'):
                    import math
                    return fc(math.floor(c) if b == 'floor' else math.ceil(c))
                if c is not None and b == 'sqrt' and c in (0, 1): return fc(c)
                return fat(AT.get('fn', b, (l,), False))
            return map1(f, args[0])
        if b == 'hypot':
            return self.mathfn('sqrt', [radd(rmul(args[0], args[0]), rmul(args[1], args[1]))], pc)
        if b in ('fabs', 'fabsf'):
            return map1(lambda l: ite(rcmp(T._tof(l), 'lt', fc(0)), leaf(fneg(T._tof(l))), leaf(T._tof(l))), args[0])
        if b == 'abs' and len(args) >= 1:
            return map1(lambda l: ite(icmp(T._tok(l), 'lt', ZERO), leaf(-l), leaf(l)), args[0])
        if b in ('fmin', 'minnum', 'fmax', 'maxnum'):
            mn = b in ('fmin', 'minnum')
            return map2(lambda u, v: ite(rcmp(T._tof(u), 'lt', T._tof(v)), leaf(u if mn else v), leaf(v if mn else u)), args[0], args[1])
        if b in ('smin', 'smax', 'umin', 'umax'):
            mn = b.endswith('min')
            return map2(lambda u, v: ite(icmp(T._tok(u), 'lt', T._tok(v)), leaf(u if mn else v), leaf(v if mn else u)), args[0], args[1])
        if b in ('fmuladd', 'fma'):
            return radd(rmul(args[0], args[1]), args[2])
        if b in ('pow', 'powi'):
            def pw(u, v):
                u = T._tof(u)
                if isinstance(v, P): c = v.const()
                else:
                    v = T._tof(v)
                    c = fconst(v)
                    if c is None and v.op == 'i': c = v.a[0].const()
                if c is not None and Fraction(c).denominator == 1 and abs(c) <= 64: return fpow(u, int(c))
                return fat(AT.get('fn', 'pow', (u, T._tof(v)), False))
            return map2(pw, args[0], args[1])
        if b == 'copysign': raise Undecided('copysign')
        return None


def _obj2(self): return None


Slot.obj2 = lambda self: None
SIGNS = {}


def split_eq(d, cons):
    """d == 0 with d = G*x + r, |r| < G  =>  x == 0 and r == 0"""
    co = [abs(int(c)) for k, c in d.m.items() if k]
    if not co: return []
    G = max(co)
    x = P({k: c for k, c in d.m.items() if k and c % G == 0})
    r = d - x
    c0 = r.m.get((), 0)
    q = (c0 // G) * G
    if not r.m or r.const() is not None: return []
    base = T.close_facts(list(cons) + [r])
    for sh in (0, G, -G):
        rr = r - sh
        if T.fm_infeasible(base + [rr - G]) and T.fm_infeasible(base + [-rr - G]):
            return [(x + sh).scale(Fraction(1, G)), rr]
    return []


def g_exact(d, size, ns):
    """overlap only possible at displacement 0"""
    g = 0
    for k_, v in d.m.items():
        if k_: g = gcd(g, abs(int(v)))
    return g and d.m.get((), 0) % g == 0 and g >= ns and g >= size and ns == size


def constrain_v(v, g):
    if isinstance(v, tuple): return tuple(constrain_v(x, g) for x in v)
    if v is None: return None
    return constrain(v, g)


def sbv(sb, v):
    if isinstance(v, tuple): return tuple(sbv(sb, x) for x in v)
    if v is None: return None
    return sb.m(v)


def default_sign(f):
    """sign facts of loop-carried reals"""
    if f.op == 'at':
        return SIGNS.get(f.a[0].id)
    if f.op == '-' and f.a[0].op == 'c' and f.a[0].a[0] == 0 and f.a[1].op == 'at':
        s = SIGNS.get(f.a[1].a[0].id)
        if s is not None: return {{'-': '+', '+': '-', '0': '0'}[x] for x in s}
    return None


CTX.sign = default_sign
