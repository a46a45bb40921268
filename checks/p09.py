"""P09: every access stays inside its object.
Every load and store the value-flow analysis sees (generic iteration of every loop, every path) gives obligations: each array index
within the array of the C type, each byte offset within the local array, variable-length array or documented argument buffer.
Running quantities get inductive range invariants (vertex counts 0..MAX, links 0..MAX-1, counters), inferred by elimination: all
candidates are assumed, those not preserved by every store and loop step are dropped, until stable.
Stores at the running vertex count are the capacity obligations; flood-fill stacks are bounded by a potential argument."""
from engine.fw import *
from engine.flow import Slot
from checks.p06 import setregion
from checks.p16 import setup, NAMES

LEVEL = 'proof'
ASSUME = ['the input polytope is well formed and within capacity: links in range and reciprocal', 'r2d_init_poly is given at most R2D_MAX_VERTS vertices',
          'documented argument buffers have their documented size']
NAME = {'r2': 'r2d', 'r3': 'r3d', 'rN': 'rNd'}


# ------------------------------------------------------------------ range invariants
class Ranges:
    def __init__(s, mc, polys, growing=False, outs=()):
        s.mc, s.polys = mc, {mc.param_obj(p.name): p for p in polys}
        for o in outs:
            if polys: s.polys[mc.param_obj(o)] = polys[0]
        s.MAX = polys[0].pm.max if polys else 1 << 30
        s.growing = growing
        s.grp = {}
        s.slots = {}
        for l in mc.loops_seen.values():
            for k, x in list(l.phis.items()) + list(l.cells.items()): s.slots[(l.id, k)] = s.slots[(l.id, x.name)] = (l, x)
        for a in AT.byid:
            if not a.isint or a.kind in PRECISE or a.kind in ('iv', 'choice', 'undef'): continue
            g = s.group(a)
            if g is not None: s.grp.setdefault(g, []).append(a)
        s.wl = {}
        s.found, s.nsearch = searches(mc)
        s.full = False
        s.rng = {}
        s.N = polys[0].N if len(polys) == 1 else None
        s.facts0 = {a.id: list(a.facts) for at in s.grp.values() for a in at}
        s.stores = {}
        for e in mc.events:
            if e.kind == 'store' and e.x[1].k == 'i': s.stores.setdefault(e.x[0].obj.name, []).append(e)
            elif e.kind in ('memset', 'memcpy'):
                for g, d in leaves(e.x[0]):
                    if isinstance(d, Ptr): s.stores.setdefault(d.obj.name, []).append(e)

    def cls(s, objname, off):
        """field of a polytope ('nv', 'nb', ...) or '' for a plain array"""
        for o, p in s.polys.items():
            if o.name == objname:
                try: return p.locate(off)[0]
                except Exception: return '?'
        return ''

    def group(s, a):
        if a.kind == 'phi' and a.name in s.slots:
            x = s.slots[a.name][1]
            if x.isint and x.isptr is False: return ('phi',) + tuple(a.name)
            return None
        if a.kind == 'rd' and isinstance(a.name, tuple) and len(a.name) == 3 and a.args:
            return ('rd', a.name[1], s.cls(a.name[1], a.args[0]))
        return None

    def infer(s):
        M_ = s.MAX
        for g in s.grp:
            nv = (g[0] == 'phi' and isinstance(g[2], tuple) and g[2][0] == 'cell' and s.cls(g[2][1], s.offof(g)) == 'nv') or (g[0] == 'rd' and g[2] == 'nv')
            s.rng[g] = [0, M_ if nv else 'N' if s.N is not None else M_ - 1, nv]
        rounds = 0
        while True:
            s.apply()
            ch = False
            for g in list(s.grp):
                lo, hi, nv = s.rng[g]
                if lo is None and hi is None: continue
                l, h = s.holds(g, lo, hi)
                if nv and s.growing: h = True           # capacity is its own obligation
                if not l and lo is not None: s.rng[g][0] = None; ch = True
                if not h and hi is not None:
                    s.rng[g][1] = M_ - 1 if hi == 'N' else M_ if hi == M_ - 1 else None; ch = True
            rounds += 1
            if not ch or rounds > 14: break
        if ch:
            for g in s.grp: s.rng[g] = [None, None, False]
            s.apply()

    def offof(s, g):
        x = s.slots[(g[1], g[2])][1]
        return x.off if getattr(x, 'off', None) is not None else pc_(g[2][2] if isinstance(g[2][2], int) else 0)

    def apply(s):
        for g, at in s.grp.items():
            lo, hi, nv = s.rng[g]
            for a in at:
                a.lo, a.hi = lo, None if hi == 'N' else hi
                a.facts = list(s.facts0[a.id]) + ([s.N - 1 - pa(a)] if hi == 'N' else [])
        T.reset_caches()

    def values(s, g):
        """(value, guard) of everything that can flow into the group"""
        if g[0] == 'phi':
            l, x = s.slots[(g[1], g[2])]
            if x.init is None or x.next is None: raise Undecided('loop not finished')
            yield x.init, l.pc0
            yield x.next, l.latch_guard
            return
        for e in s.stores.get(g[1], ()):
            if e.kind == 'memset': yield I(0), TRUE; continue
            if e.kind == 'memcpy': continue
            if g[2] and s.cls(g[1], e.x[0].off) not in (g[2], '?'): continue
            yield e.x[3], e.pc

    def holds(s, g, lo, hi):
        l = h = True
        try:
            for v, pc in s.values(g):
                if isinstance(v, tuple): return False, False
                if pc is None: pc = TRUE
                pc = band(pc, s.found)
                for gg, x in leaves(constrain(v, pc)):
                    if isinstance(x, Undef): continue
                    if not isinstance(x, P): return False, False
                    q = band(pc, gg)
                    if l and lo is not None and not impl(q, icmp(x, 'ge', pc_(lo))): l = False
                    if h and hi is not None and not impl(q, icmp(x, 'le', s.N - 1 if hi == 'N' else pc_(hi))): h = False
                    if not l and not h: return l, h
        except Undecided:
            return False, False
        return l, h


Undef = T.Undef


def impl(pc, c):
    c = constrain(c, pc)
    if c is TRUE or pc is FALSE: return True
    d = simp(band(pc, bnot(c)))
    return d is FALSE or unsat(d)


def reaches(cfg, a, b, avoid):
    seen, st = {avoid}, [a]
    while st:
        n = st.pop()
        if n == b: return True
        if n in seen: continue
        seen.add(n); st += list(cfg.succ.get(n, ()))
    return False


def searches(mc):
    """guard under which every pure search loop (no writes, left by break when found) finds what it looks for"""
    a = TRUE
    n = 0
    for l in mc.loops_seen.values():
        if len(l.exits) < 2 or l.W: continue
        hdr = l.id.split('#')[-1].split('|')[0]
        fn = [m.funcs[l.fn] for m in Env.mods.values() if l.fn in m.funcs and m.funcs[l.fn].blocks]
        if not fn: continue
        cfg = mc.cfg(fn[0])
        ex = [i for i, e in enumerate(l.exits) if e.frm == hdr]
        if len(ex) != 1: continue
        to = l.exits[ex[0]].to
        if not all(reaches(cfg, e.to, to, hdr) for i, e in enumerate(l.exits) if i != ex[0]): continue
        rest, args = TRUE, tuple(pa(q.k) for q in l.outer)
        for i, e in enumerate(l.exits):
            lit = rest
            if i < len(l.exits) - 1:
                o = mvar(T.getvar('o', 'O', AT.get('choice', (l.id, i), args), AT.get('choice', (l.id, i), args).id))
                lit, rest = band(rest, o), band(rest, bnot(o))
            if i == ex[0]: a = band(a, bnot(lit)); n += 1
    return a, n


# ------------------------------------------------------------------ deciding one obligation
def simp(d):
    """the inferred ranges, applied to the comparisons d is made of: for every quantity compared with several constants only the
    combinations some value in its range allows"""
    if d is FALSE or d is TRUE: return d
    by = {}
    for v in bsupport(d):
        V = T.VARS[v]
        if V.kind == 'i' and isinstance(V.term, P):
            by.setdefault((V.term - V.term.m.get((), 0)).fp, []).append((V.term, V.sub, v))
    for lits in by.values():
        p0 = lits[0][0]
        ds = [((t - p0).const(), sub, v) for t, sub, v in lits]
        if any(x[0] is None for x in ds) or len(ds) > 12: continue
        ok, seen = FALSE, set()
        for t in sorted({-x + e for x, _, _ in ds for e in (-1, 0, 1)}):
            if icmp(p0, 'eq', pc_(t)) is FALSE: continue
            pat = tuple((t + x == 0) if sub == 'E' else (t + x < 0) for x, sub, _ in ds)
            if pat in seen: continue
            seen.add(pat)
            c = TRUE
            for (x, sub, v), w in zip(ds, pat): c = band(c, mvar(v) if w else bnot(mvar(v)))
            ok = bor(ok, c)
        d = band(d, ok)
        if d is FALSE: break
    return d


def definite(mc, R, d, f):
    """is the failing region d of the index expression f one that real runs reach?  Only exact quantities may be involved:
    arguments, vertex numbers, the counters of loops that always run to their end."""
    single = {l.k.id for l in mc.loops_seen.values() if l.k is not None and l.counted and len(l.exits) <= 1}
    # loops that can be left early: their first pass is always reached
    early = {l.k.id: l for l in mc.loops_seen.values() if l.k is not None and len(l.exits) > 1}
    for v in bsupport(d):
        t = T.VARS[v].term
        for a in getattr(t, 'support', ()):
            if a in early and R.full: single.add(a)         # is_good on a valid polytope: every check passes, so the loops run on
            elif a in early: d = band(d, icmp(pa(AT.byid[a]), 'eq', ZERO)); single.add(a)
    if d is FALSE or unsat(d): return None

    def good(aid, seen=()):
        a = AT.byid[aid]
        if a.kind in PRECISE: return True
        if a.kind == 'iv': return a.id in single and all(good(b, seen + (aid,)) for q in a.facts for b in q.support if b != aid and b not in seen)
        return False
    if not all(good(a) for a in f.support): return None
    sup = set(f.support)
    for w in T.sat_cubes(d):
        ok = True
        for v, pol in w:
            V = T.VARS[v]
            t = V.term
            if t is None: ok = False; break
            if isinstance(t, P):
                if (t.support & sup or not sup) and not all(good(a) for a in t.support): ok = False; break
            elif imprecise(t) and not isinstance(t, F): ok = False; break
        if ok: return w
    return None


def judge(rec, mc, R, e, f, claim, fn):
    """f >= 0 on e.pc"""
    if f == 'oob':
        try:
            d = band(e.pc, R.found)
            w = None if unsat(d) else definite(mc, R, e.pc, ZERO)
        except Undecided as ex: rec.und(claim, 'line %d: %s' % (e.line, ex)); return
        if d is FALSE: return True
        if w is None: rec.und(claim, 'line %d: constant index outside the array on a path not known to be taken' % e.line); return
        rec.fail(claim, where(e.fn, e.line), '%s: constant index outside the array at line %d of %s' % (claim, e.line, e.fn)); return
    c = f.const()
    if c is not None and c >= 0: return True
    try:
        d = simp(band(band(e.pc, R.found), icmp(f, 'lt', ZERO)))
        if d is FALSE or unsat(d): return True
        w = depth(rec, mc, R, e, f, claim)
        if w is not None: return w
        w = definite(mc, R, simp(band(e.pc, icmp(f, 'lt', ZERO))), f)
    except Undecided as ex:
        rec.und(claim, 'line %d: %s' % (e.line, ex)); return
    if w is None:
        rec.und(claim, 'line %d: %s' % (e.line, str(f)[:150])); return
    rec.fail(claim, where(e.fn, e.line), '%s: line %d of %s goes outside when %s' % (claim, e.line, e.fn, T_lits(w)))


def worklist(mc, R, l, s):
    """s is the fill count of a work list: every iteration takes one entry and adds entries only after marking an unmarked place, and
    marks are never taken back in the loop.  -> (entries at the start, growth per marking, marking guard) or None"""
    ini = [v for g, v in leaves(constrain(s.init, l.pc0))]
    if len(ini) != 1 or not isinstance(ini[0], P) or ini[0].const() is None: return None
    grow, gg = 0, FALSE
    for g, v in leaves(constrain(s.next, l.latch_guard)):
        if not isinstance(v, P): return None
        c = (v - pa(s.atom)).const()
        if c is None: return None
        if c >= 0:
            grow = max(grow, c); gg = bor(gg, band(l.latch_guard, g))
    if gg is FALSE: return ini[0].const(), 0, FALSE
    inl = [e for e in mc.events if e.kind == 'store' and l in e.loops and e.x[1].k == 'i']
    for v, pol in T.essential(gg):
        V = T.VARS[v]
        if V.kind != 'i' or V.sub != 'E' or not pol or not isinstance(V.term, P): continue
        for a in V.term.support:
            at = AT.byid[a]
            nm = at.name[1] if at.kind == 'rd' else at.name[1][1] if at.kind == 'phi' and isinstance(at.name, tuple) and at.name[1][0] == 'cell' else None
            if nm is None: continue
            ws = [e for e in inl if e.x[0].obj.name == nm]
            if not ws: continue
            if not all(isinstance(q, P) and implies(band(e.pc, h), bnot(icmp(q, 'eq', ZERO))) for e in ws for h, q in leaves(e.x[3])): continue
            if at.kind == 'rd' and not any(e.x[0].off.fp == at.args[0].fp and implies(gg, e.pc) for e in ws): continue
            if at.kind == 'phi' and not any(implies(gg, e.pc) for e in ws): continue
            return ini[0].const(), grow, gg
    return None


def depth(rec, mc, R, e, f, claim):
    """obligation on an index made of the fill count of a work list"""
    if not isinstance(f, P) or len([a for a in f.support]) < 1: return None
    for l in e.loops:
        for s in list(l.phis.values()):
            if s.atom is None or not s.isint or s.cls != 'op': continue
            co = f.m.get((s.atom.id,))
            if co is None or co >= 0 or set(f.m) - {(), (s.atom.id,)}: continue
            k = (l.id, s.name)
            if k not in R.wl: R.wl[k] = worklist(mc, R, l, s)
            if R.wl[k] is None: return None
            n0, grow, gg = R.wl[k]
            top = n0 + grow * (R.MAX - (1 if gg is not FALSE and implies(e.pc, gg) else 0))
            worst = f.m.get((), 0) + co * top
            if worst >= 0: return True
            rec.fail(claim, where(e.fn, e.line), '%s: line %d of %s: the list can hold %d entries (each of %d markings adds %d), %d more than fit' %
                     (claim, e.line, e.fn, top, R.MAX, grow, -worst // -co))
            return False
    return None


def T_lits(w):
    from engine.fw import _lits
    return _lits(w)[:400]


def psz(x): return x if isinstance(x, P) else pc_(x) if isinstance(x, int) else x.leaf


class Agg:
    """undecided obligations, one entry per claim"""
    def __init__(s, rec): s.rec, s.d = rec, {}
    def __getattr__(s, n): return getattr(s.rec, n)
    def und(s, claim, msg): s.d.setdefault(claim, []).append(msg)
    def done(s):
        for c, ms in s.d.items(): s.rec.und(c, '%d obligations, lines %s; first: %s' % (len(ms), ','.join(sorted({m.split(':')[0].replace('line ', '') for m in ms if m.startswith('line ')})), ms[0][:120]))


def accesses(rec, mc, R, fn, sizes, growing=False):
    n = 0
    per = {}
    rec0, rec = rec, Agg(rec)
    for e in mc.events:
        if e.kind not in ('load', 'store'): continue
        l, ty, size = e.x[:3]
        if not isinstance(l, Ptr) or l.obj is None: continue
        nm = l.obj.name
        short = nm.split('/')[-1]
        fs = [f for f in l.facts]
        sz = None
        if l.obj.kind == 'alloca': sz = l.obj.size
        elif nm in sizes: sz = sizes[nm]
        if sz is not None: fs += [l.off, psz(sz) - l.off - size]
        key = (e.fn, short, e.kind)
        b = per.setdefault(key, [0, 0])
        for f in fs:
            if f != 'oob' and not isinstance(f, P): continue
            n += 1
            claim = '%s: %s of %s in %s stays inside' % (fn, e.kind, short, e.fn)
            if growing and f != 'oob' and room(rec, mc, R, e, f, fn): continue
            b[0] += 1
            if judge(rec, mc, R, e, f, claim, fn): b[1] += 1
    for (f_, o, k), (a, b) in per.items():
        if a == b: rec.ok('%s: %s of %s in %s stays inside (%d obligations)' % (fn, k, o, f_, a))
    rec.done()
    rec0.count('access_obligations', n)


def samecount(a, b):
    """the same running count in another loop of the nest"""
    return a.kind == b.kind == 'phi' and isinstance(a.name[1], tuple) and a.name[1] == b.name[1]


def room(rec, mc, R, e, f, fn):
    """a store to the vertex at the running vertex count: the count must be known to be below the capacity there"""
    if e.kind != 'store' or not isinstance(f, P): return False
    nv = [a for a in f.support if any(a == b.id for g in R.grp for b in R.grp[g] if R.rng[g][2])]
    if len(nv) != 1 or (f.m.get((nv[0],)) or 0) >= 0 or set(f.m) - {(), (nv[0],)}: return False
    claim = '%s: a vertex is only created while there is room' % fn
    d = simp(band(band(e.pc, R.found), icmp(f, 'lt', ZERO)))
    if d is FALSE or unsat(d): rec.ok(claim); return True
    # a check made beforehand (counting first) would be a guard with a large constant that does not mention the running count
    for v in bsupport(e.pc):
        t = T.VARS[v].term
        if isinstance(t, P) and nv[0] not in t.support and abs(t.m.get((), 0)) >= R.MAX // 2 and t.support:
            if all(AT.byid[a].kind in PRECISE or any(AT.byid[a] is b for g in R.grp for b in R.grp[g] if R.rng[g][2]) or samecount(AT.byid[a], AT.byid[nv[0]]) for a in {x for m_ in t.m for x in m_}):
                # about the count before anything is added: no help unless it refuses a count one below the capacity
                q = e.pc
                for a in {x for m_ in t.m for x in m_}: q = band(q, icmp(pa(AT.byid[a]), 'eq', pc_(R.MAX - 1)))
                if q is not FALSE and not unsat(q): continue
            rec.und(claim, 'checked beforehand: %s' % str(t)[:100]); return True
    rec.fail(claim, where(e.fn, e.line), '%s: line %d of %s writes a vertex at index nverts although nverts can be %d there, the number of vertices the buffer holds' % (claim, e.line, e.fn, R.MAX))
    return True


def go(rec, fn, polys, mk, sizes=None, pc=None, growing=False, outs=(), **kw):
    need(fn)
    hold = {}

    def mk2(mc):
        hold['mc'] = mc
        return mk(mc)
    try: run(rec, fn, polys, mk2, pc=pc, **kw)
    except Undecided as ex:
        if 'mc' not in hold: raise
        T._base[0] = T._cnt[0]
        rec.und('%s: everything after the analysis limit' % fn, str(ex))
    mc = hold['mc']
    R = Ranges(mc, [p for p in polys if isinstance(p, PolyIn)], growing, outs)
    R.infer()
    R.full = fn.endswith('_is_good')
    accesses(rec, mc, R, fn, sizes(mc) if callable(sizes) else sizes or {}, growing)
    return mc, R


def O(n): return lambda mc: pobj(mc, n)


def simple(fn, k, args, sizes=None, timeout=200, region=False, tag='', **kw):
    @ob('%s accesses%s' % (fn, tag), timeout)
    def f(rec):
        pm = Env.PMs[k]
        ps = [PolyIn(pm, a[1:]) for a in args if isinstance(a, str) and a.startswith('*')]

        def mk(mc):
            mc.skip_undef = True
            if region and ps:
                c = type('C', (), {})(); c.pm, c.fn = pm, fn
                setregion(c, mc)
            out = []
            for a in args:
                if callable(a): out.append(a(mc, pm))
                elif isinstance(a, str): out.append(pobj(mc, a.lstrip('*')))
                else: out.append(I(a))
            return out
        go(rec, fn, ps, mk, sizes={x: (y(pm) if callable(y) else y) for x, y in (sizes or {}).items()}, **kw)


RPAR = lambda n: (lambda mc, pm: leaf(rpar(n)))
IPAR = lambda n, lo, hi: (lambda mc, pm: leaf(ipar(n, lo, hi)))
AXIS = lambda n: (lambda mc, pm: leaf(ipar(n, 0, pm.dim - 1)))


def split(k, kind):
    pm = Env.PMs[k] if Env.PMs else None

    @ob('%s_%s accesses' % (NAME[k], kind), 400)
    def f(rec):
        pm = Env.PMs[k]
        p = PolyIn(pm, 'ip')

        def mk(mc):
            mc.skip_undef = True
            if kind == 'split': return [pobj(mc, 'ip'), I(1), pobj(mc, 'pl'), pobj(mc, 'op'), pobj(mc, 'on')]
            o = mc.newobj('outs', 'alloca', 16)
            for i in (0, 1): mc.write(Ptr(o, pc_(8 * i)), Ty('p'), 8, pobj(mc, OUTS[i]), TRUE, 'outs%d' % i, 0)
            return [pobj(mc, 'ip'), leaf(Ptr(o, ZERO)), leaf(rpar('coord')), leaf(ipar('ax', 0, pm.dim - 1))]
        go(rec, pm.pre + '_' + kind, [p], mk, {'pl': pm.pls, 'op': pm.psize, 'on': pm.psize}, growing=True, outs=OUTS)


OUTS = ('op', 'on')


@ob('rNd_split accesses', 100)
def rnsplit(rec):
    pm = Env.PMs['rN']

    def ext(mc, fr, x, nm, args, pc):
        if nm != 'rNd_clip': return None
        for h, l in leaves(args[0]):
            if not isinstance(l, Ptr): raise Undecided('clip argument')
            mc.havoc(l.obj, band(pc, h), mc.vid(fr, x), x.line, l.off, pm.psize)
        return I(0)

    def mk(mc):
        mc.skip_undef = True
        o = mc.newobj('outs', 'alloca', 16)
        for i in (0, 1): mc.write(Ptr(o, pc_(8 * i)), Ty('p'), 8, pobj(mc, OUTS[i]), TRUE, 'outs%d' % i, 0)
        return [pobj(mc, 'ip'), leaf(Ptr(o, ZERO)), leaf(rpar('coord')), leaf(ipar('ax', 0, pm.dim - 1))]
    go(rec, 'rNd_split', [PolyIn(pm, 'ip')], mk, {'op': pm.psize, 'on': pm.psize}, outs=OUTS, ext=ext)


def clamp(k):
    @ob('%s_clamp_ibox accesses' % NAME[k], 100)
    def f(rec):
        pm = Env.PMs[k]
        fn = pm.pre + '_clamp_ibox'

        def ext(mc, fr, x, nm, args, pc):
            if nm != pm.pre + '_clip': return None
            # clip reads as many planes as it is told there are
            for h, l in leaves(args[1]):
                for g, n in leaves(args[2]):
                    if not isinstance(l, Ptr) or not isinstance(n, P): continue
                    rec.count('access_obligations')
                    claim = '%s: the planes handed to clip lie inside the buffer' % fn
                    q = band(pc, band(h, g))
                    sz = l.obj.size if l.obj.kind == 'alloca' else None
                    if sz is None: rec.und(claim, 'size of %s' % l.obj.name); continue
                    if implies(q, icmp(l.off + n * pm.pls, 'le', psz(sz))): rec.ok(claim)
                    elif n.const() is None: rec.und(claim, str(n)[:100])
                    else: rec.fail(claim, where(fn, x.line), '%s hands %d planes to clip but the buffer holds %s bytes' % (fn, n.const(), sz))
            for h, l in leaves(args[0]):
                if isinstance(l, Ptr): mc.havoc(l.obj, band(pc, h), mc.vid(fr, x), x.line, l.off, pm.psize)
            return I(0)

        def mk(mc):
            mc.skip_undef = True
            return [pobj(mc, 'poly'), pobj(mc, 'ib'), pobj(mc, 'cb')] + ([leaf(rpar('d0')), leaf(rpar('d1'))] if k == 'r2' else [pobj(mc, 'd')])
        go(rec, fn, [PolyIn(pm, 'poly')], mk, {'ib': 2 * pm.dim * 4, 'cb': 2 * pm.dim * 4, 'd': 8 * pm.dim}, ext=ext, force=8)


def voxel(k, order):
    @ob('%s accesses, order %d' % (NAMES[k], order), 200)
    def f(rec):
        pm, D, fn, p, st, mc = setup(rec, k, order)
        R = Ranges(mc, [p])
        R.infer()
        accesses(rec, mc, R, fn, {'ibox': 8 * D, 'd': 8 * D})


for k_ in ('r2', 'r3', 'rN'):
    n_ = NAME[k_]
    D_ = {'r2': 2, 'r3': 3, 'rN': 4}[k_]
    pl = {'pl': lambda pm: pm.pls}
    PS = lambda pm: pm.psize
    simple(n_ + '_clip', k_, ['*poly', 'pl', 1], pl, 400, growing=True, region=k_ == 'rN')
    simple(n_ + '_is_good', k_, ['*poly'], {}, 400)
    for o_ in ([0] if k_ == 'rN' else [0, 1, 2]):
        nm_ = {'r2': (o_ + 1) * (o_ + 2) // 2, 'r3': (o_ + 1) * (o_ + 2) * (o_ + 3) // 6, 'rN': 1}[k_]
        simple(n_ + '_reduce', k_, ['*poly', 'mom', o_], {'mom': 8 * nm_}, 300, tag=', order %d' % o_)
        if k_ != 'rN': simple(n_ + '_shift_moments', k_, ['mom', o_] + ([RPAR('c0'), RPAR('c1')] if k_ == 'r2' else ['c']), {'mom': 8 * nm_, 'c': 24}, tag=', order %d' % o_)
    simple(n_ + '_init_box', k_, ['poly', 'rb'], {'rb': lambda pm: 2 * pm.dim * pm.rs, 'poly': PS})
    simple(n_ + '_get_ibox', k_, ['*poly', 'ib'] + ([RPAR('d0'), RPAR('d1')] if k_ == 'r2' else ['d']), {'ib': lambda pm: 2 * pm.dim * 4, 'd': lambda pm: 8 * pm.dim})
    simple(n_ + '_rotate', k_, ['*poly', RPAR('th')] + {'r2': [], 'r3': [AXIS('ax')], 'rN': [AXIS('a'), AXIS('b')]}[k_])
    simple(n_ + '_translate', k_, ['*poly'] + ([RPAR('c0'), RPAR('c1')] if k_ == 'r2' else ['c']), {'c': 8 * D_})
    simple(n_ + '_scale', k_, ['*poly'] + (['c'] if k_ == 'rN' else [RPAR('s')]), {'c': 8 * D_})
    simple(n_ + '_shear', k_, ['*poly', RPAR('s'), AXIS('axb'), AXIS('axs')])
    simple(n_ + '_affine', k_, ['*poly', 'mat'], {'mat': 8 * (D_ + 1) ** 2})
    if k_ != 'rN':
        simple(n_ + '_poly_center', k_, (['ret'] if k_ == 'r3' else []) + ['*poly'], {'ret': 24})
        simple(n_ + '_box_faces_from_verts', k_, ['faces', 'rb'], {'faces': lambda pm: 2 * pm.dim * pm.pls, 'rb': 16 * D_})
        for kind_ in ('split', 'split_coord'): split(k_, kind_)
    clamp(k_)
    voxel(k_, 0)
    if k_ != 'rN': voxel(k_, 1)
simple('r3d_tet_faces_from_verts', 'r3', ['faces', 'vs'], {'faces': lambda pm: 4 * pm.pls, 'vs': 96})
simple('r3d_init_tet', 'r3', ['poly', 'vs'], {'poly': PS, 'vs': 96})
simple('rNd_init_simplex', 'rN', ['poly', 'vs'], {'poly': PS, 'vs': 160})
simple('r3d_orient', 'r3', ['vs'], {'vs': 96})
simple('rNd_orient', 'rN', ['vs'], {'vs': 160})
simple('r2d_init_poly', 'r2', ['poly', 'vs', lambda mc, pm: leaf(ipar('numverts', 3, pm.max))], {'poly': PS, 'vs': lambda pm: ipar('numverts', 3, pm.max) * 16})
simple('r2d_poly_faces_from_verts', 'r2', ['faces', 'vs', IPAR('numverts', 3, None)], {'faces': lambda pm: ipar('numverts', 3, None) * pm.pls, 'vs': lambda pm: ipar('numverts', 3, None) * 16})
