"""Check driver: runs the static obligations of one property, each in its own forked process, and reports.

An obligation is a named piece of analysis of /repo's current source.  It records claims:
  ok(claim)                         decided, holds
  fail(key, where, msg)             decided, violated: names the construct
  und(claim, why)                   the analysis gives no verdict (reported in the evidence, never an alarm)
"""
import math, os, struct, sys, time, json, pickle, resource, signal, tempfile, shutil, traceback, threading, select
from . import build, model
from .terms import *
from . import terms as T
from .flow import Machine, Event
from .model import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# kinds of atoms that stand for inputs of the analysed function; anything else in a value is imprecision
PRECISE = {'par', 'pos', 'lnk', 'fnd', 'init', 'fn', 'max0', 'special', 'div0', 'kappa', 'int', 'fptosi', 'ind'}
LOOPK = {'iv'}


class Anchor(Exception):
    """something the property is anchored at is gone: the check is broken, not the code"""


class Env:
    """what obligations see: compiled modules, struct layouts"""
    mods = None
    dbg = None
    L = None
    PMs = None

    @classmethod
    def setup(cls, debug=False, noshift=False, deprecated=False, shiftall=False):
        d = tempfile.mkdtemp(prefix='verif_')
        try:
            cls.mods = build.build(d)
            cls.L = layout(d)
            cls.PMs = {k: PM(cls.L, k) for k in ('r2', 'r3', 'rN')}
            if debug: cls.dbg = build.build(d, ndebug=False)
            if noshift: cls.noshift = build.build(d, shift=False)
            if shiftall: cls.shiftall = build.build(d, defs=['SHIFT_POLY'])
            if deprecated: cls.dep = build.build(d, which='deprecated')
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @classmethod
    def fileof(cls, fn):
        for m in cls.mods.values():
            if fn in m.funcs: return m.src or "?"
        return '?'


class Rec:
    def __init__(s, name):
        s.name = name
        s.oks, s.fails, s.unds, s.info = [], [], [], []
        s.stats = {}

    def ok(s, claim): s.oks.append(claim)

    def fail(s, key, where, msg):
        if any(f[0] == key and f[1] == where for f in s.fails): return
        s.fails.append((key, where, msg[:1500]))

    def und(s, claim, why=''): s.unds.append((claim, str(why)[:300]))

    def note(s, m): s.info.append(m)

    def count(s, k, n=1): s.stats[k] = s.stats.get(k, 0) + n


OBS = []
CUR = [None]


def ob(name, timeout=240, mem=6, thorough=False, tmem=None):
    def deco(f):
        OBS.append((name, f, timeout, mem, thorough, f.__module__))
        return f
    return deco


# ------------------------------------------------------------------ running the analysis
def machine(units, polys=(), mods=None, **kw):
    """units: module names; polys: PolyIn objects (bound to the parameter object of the same name)"""
    mods = mods or Env.mods
    objs = {}

    def hook(mc, obj, off, ty):
        p = objs.get(obj)
        return p.initial(off, ty) if p is not None else None
    def sub(obj, off, elsize):
        # an element step in the vertex array of a polytope: the index is an index of that array (C typing)
        p = objs.get(obj)
        if p is None or elsize != p.pm.vs: return None
        d = off - p.base - p.pm.verts
        return p.pm.max if all(x % p.pm.psize == 0 for x in d.m.values()) else None
    mc = Machine([mods[u] for u in units if u in mods], hook=hook, **kw)
    mc.subhook = sub
    for p in polys: objs[mc.param_obj(p.obj if hasattr(p, 'obj') else p.name)] = p
    return mc


def allunits(mods=None): return sorted(mods or Env.mods)


def need(fn, mods=None):
    for m in (mods or Env.mods).values():
        f = m.funcs.get(fn)
        if f is not None and f.blocks: return f
    raise Anchor('function %s not found in the source' % fn)


def run(rec, fn, polys, mkargs, units=None, pc=None, mods=None, **kw):
    need(fn, mods)
    mc = machine(units or allunits(mods), polys, mods, **kw)
    args = mkargs(mc)
    v, g = mc.run(fn, args, pc or TRUE)
    mc.g = g
    mc.ret = v
    mc.fname = fn
    mc.rec = rec
    rec.count('functions_analysed', len(mc.fnvisited))
    rec.count('loops_summarised', len(mc.loops_seen))
    rec.count('events', len(mc.events))
    return mc


def pobj(mc, n): return mc.ptr_to(mc.param_obj(n))


def rd(mc, objname, off, ty=F64, pc=None):
    o = mc.objs[objname]
    sz = {'f': ty.bits // 8 if hasattr(ty, 'bits') else 8, 'i': 4, 'p': 8}
    n = 8 if ty in (F64, I64, PTR) else 4
    return mc.read(mc.heads.get(o), o, off if isinstance(off, P) else pc_(off), ty, n, pc if pc is not None else mc.g)


def inputs_r(mc, objname, off):
    """initial real at an input object"""
    o = mc.objs[objname]
    r = mc.initial(o, off if isinstance(off, P) else pc_(off), F64, 8)
    return r


def inputs_i(mc, objname, off):
    o = mc.objs[objname]
    return mc.initial(o, off if isinstance(off, P) else pc_(off), I32, 4)


# ------------------------------------------------------------------ comparing
def kinds(x):
    return {AT.byid[a].kind for a in x.support}


def imprecise(x, allow=()):
    """does this value depend on something the analysis lost track of?"""
    if isinstance(x, T.Undef): return True
    for a in x.support:
        k = AT.byid[a].kind
        if k in PRECISE or k in allow or a in allow: continue
        return True
    return False


def imprecise_cond(c, allow=()):
    for v in bsupport(c):
        t = T.VARS[v].term
        if t is None or imprecise(t, allow): return True
    return False


def where(fn, line=None):
    f = Env.fileof(fn)
    return '%s:%s%s' % (f, fn, ':%s' % line if line else '')


def sat(c):
    """not provably empty"""
    try:
        return not unsat(c)
    except Undecided:
        return True


def same(rec, claim, got, want, pc, wh, key=None, allow=(), what='value'):
    """got == want (decision diagrams of reals/ints) on every point of pc"""
    key = key or claim
    try:
        bad = None
        und = None
        d = map2(lambda a, b: _eq(a, b), got, want)
        d = band(pc, bnot(d))
        if d is FALSE or unsat(d):
            rec.ok(claim)
            return True
        # where does it differ?
        for c in sat_cubes(d):
            cc = TRUE
            for v, p in c: cc = band(cc, mvar(v) if p else bnot(mvar(v)))
            gl, wl = constrain(got, cc), constrain(want, cc)
            pa_, pb_ = T.leafset(gl), T.leafset(wl)
            if len(pa_) != 1 or len(pb_) != 1: und = (cc, pa_, pb_); continue
            if _eq_under(c, pa_[0], pb_[0]): continue
            if numerically_equal(pa_[0], pb_[0]): continue
            if imprecise(pa_[0], allow) or imprecise_cond(cc, allow):
                und = (cc, pa_[0], pb_[0]); continue
            bad = (cc, pa_[0], pb_[0])
            break
        if bad is not None:
            rec.fail(key, wh, '%s: %s is %s but must be %s%s' % (claim, what, _s(bad[1]), _s(bad[2]),
                     '' if bad[0] is TRUE else ' when ' + _s(bad[0])))
            return False
        if und is None:
            rec.ok(claim)
            return True
        rec.und(claim, 'imprecise: %s' % (_s(und),))
        return None
    except Undecided as e:
        rec.und(claim, e)
        return None


def _eq_under(cube, a, b):
    """are the terms equal once the equations among the cube's literals are used?"""
    if isinstance(a, P) and isinstance(b, P): a, b = fint(a), fint(b)
    if not isinstance(a, F) or not isinstance(b, F): return False
    for v, pol in cube:
        x = T.VARS[v]
        if x.sub != 'E' or not pol or x.kind not in 'if': continue
        t = x.term if x.kind == 'f' else fint(x.term)
        for aid in sorted(t.support, reverse=True):
            at = AT.byid[aid]
            try:
                if at.isint:
                    continue
                t0 = T._only_leaf(Subst({aid: fc(0)}).f(t))
                t1 = T._only_leaf(Subst({aid: fc(1)}).f(t))
                sl = fsub(t1, t0)
                if sl.fp == 0: continue
                sol = fneg(fdiv(t0, sl))
                S = Subst({aid: sol})
                if T._only_leaf(S.f(t)).fp != 0: continue
                a2, b2 = T._only_leaf(S.f(a)), T._only_leaf(S.f(b))
                if a2.fp == b2.fp: return True
                a, b = a2, b2
                break
            except (ValueError, AttributeError):
                continue
    return False


FN1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'fabs': abs, 'exp': math.exp, 'log': math.log,
       'floor': math.floor, 'ceil': math.ceil, 'cbrt': lambda x: abs(x) ** (1 / 3), 'log2': math.log2, 'log10': math.log10,
       'round': lambda x: math.floor(x + .5) if x >= 0 else math.ceil(x - .5), 'trunc': math.trunc, 'exp2': lambda x: 2.0 ** x,
       'wrap8': lambda x: (x + 128) % 256 - 128, 'wrap16': lambda x: (x + 32768) % 65536 - 32768,
       'uwrap8': lambda x: x % 256, 'uwrap16': lambda x: x % 65536,
       'float': lambda x: struct.unpack('f', struct.pack('f', max(-3e38, min(3e38, float(x)))))[0]}
FNK = {'fn', 'int', 'fptosi', 'ind'}


def _fn1(at):
    if at.kind == 'fptosi': return math.trunc
    if at.kind == 'ind': return (lambda t: Fraction(int(t == 0))) if at.name == 'E' else (lambda t: Fraction(int(t < 0)))
    return FN1.get(at.name) if at.kind in ('fn', 'int') and len(at.args) == 1 else None


def _pt(salt, at):
    """a rational point; several ranges, so that conditional values are seen on both sides"""
    h = H((salt, at.key))
    r = Fraction(h % 1021, 1024)
    if salt >= 24 and not at.isint:                                                       # points of very different scales
        return (2 * r - 1) * Fraction(10) ** ((-9, -6, -4, -2, 2, 4, 7)[salt % 7] + (h >> 40) % 2)
    if salt >= 12 and not at.isint: return Fraction((-2, -1, 1, 2, 4)[int(r * 5) % 5])       # points where quotients are whole numbers
    if salt >= 6 and not at.isint and at.kind in ('par', 'pos', 'init', 'phi'): return 40 * r - 20     # also negative values
    return Fraction(5, 8) + r


def feval(x, salt, memo):
    """value of a term at one point of the reals (atoms get pseudo-random values, elementary functions their meaning):
    used only to recognise that two differently written terms agree"""
    st = [x]
    while st:
        y = st[-1]
        if id(y) in memo: st.pop(); continue
        if isinstance(y, P):
            pend = [a for k in y.m for a in k if ('a', a) not in memo]
            if pend:
                for a in pend:
                    at = AT.byid[a]
                    if _fn1(at):
                        if id(at.args[0]) not in memo: st.append(at.args[0]); continue
                        memo[('a', a)] = _fn1(at)(memo[id(at.args[0])])
                    else: memo[('a', a)] = _pt(salt, at)
                continue
            memo[id(y)] = sum(Fraction(c) * math.prod(memo[('a', a)] for a in k) for k, c in y.m.items())
        elif y.op == 'c': memo[id(y)] = Fraction(y.a[0])
        elif y.op == 'i':
            if id(y.a[0]) not in memo: st.append(y.a[0]); continue
            memo[id(y)] = memo[id(y.a[0])]
        elif y.op == 'at':
            at = y.a[0]
            if ('a', at.id) not in memo:
                if _fn1(at):
                    if id(at.args[0]) not in memo: st.append(at.args[0]); continue
                    memo[('a', at.id)] = _fn1(at)(memo[id(at.args[0])])
                else: memo[('a', at.id)] = _pt(salt, at)
            memo[id(y)] = memo[('a', at.id)]
        else:
            sub = y.a[:1] if y.op == 'sum' else y.a
            pend = [z for z in sub if id(z) not in memo]
            if pend: st += pend; continue
            v = [memo[id(z)] for z in sub]
            memo[id(y)] = (v[0] + v[1] if y.op == '+' else v[0] - v[1] if y.op == '-' else v[0] * v[1] if y.op == '*'
                           else v[0] / v[1] if y.op == '/' else v[0] * (1 + Fraction(H((salt, 'sum', y.a[1].fp, y.a[2])) % 1021, 1024)))
    return memo[id(x)]


def numerically_equal(a, b):
    """same function although written with different elementary functions?  (up to 38 points; exact rationals as far as the functions allow)"""
    if isinstance(a, P): a = fint(a)
    if isinstance(b, P): b = fint(b)
    if not isinstance(a, F) or not isinstance(b, F): return False
    if not any(AT.byid[i].kind in FNK for i in a.support | b.support): return False
    good = 0
    for salt in range(38 if any(AT.byid[i].kind == 'ind' for i in a.support | b.support) else 24):
        try:
            memo = {}
            u, v = feval(a, salt, memo), feval(b, salt, memo)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if isinstance(u, Fraction) and isinstance(v, Fraction):
            if u != v: return False
            good += 1
            continue
        if salt >= 24:
            if abs(u - v) > 1e-3 * (abs(u) + abs(v)): return False
            continue
        if not (abs(u - v) <= 1e-6 * (abs(u) + abs(v)) + 1e-11): return False
        good += 1
    return good >= 4


def _lits(w):
    out = []
    for v, p in w:
        x = T.VARS[v]
        out.append('%s %s' % (str(x.term)[:70], ('== 0' if p else '!= 0') if x.sub == 'E' else ('< 0' if p else '> 0') if x.sub == 'L' else p))
    return ' and '.join(o for o in out[-8:])


def _s(x):
    try:
        return str(x)[:400]
    except Exception:
        return '?'


def _eq(a, b):
    if a is b: return TRUE
    if isinstance(a, T.Undef) or isinstance(b, T.Undef): return TRUE if isinstance(a, T.Undef) and isinstance(b, T.Undef) else FALSE
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return icmp(a.off, 'eq', b.off)
        return FALSE
    if a.fp == b.fp: return TRUE
    if isinstance(a, P) and isinstance(b, P): return icmp(a, 'eq', b)
    return FALSE


def must(rec, claim, pc, cond, wh, key=None, msg='', allow=()):
    """cond holds on every point of pc"""
    key = key or claim
    try:
        d = band(pc, bnot(cond))
        if d is FALSE or unsat(d):
            rec.ok(claim); return True
        w = next(T.sat_cubes(d), None)
        if w is None:
            rec.ok(claim); return True
        if imprecise_cond(d, allow):
            ks = {AT.byid[a].kind for v in bsupport(d) for a in (T.VARS[v].term.support if T.VARS[v].term is not None else ())}
            rec.und(claim, 'imprecise (%s): ' % (sorted(ks - PRECISE - set(allow)),) + _s(d)); return None
        cc = TRUE
        for v, p in w: cc = band(cc, mvar(v) if p else bnot(mvar(v)))
        rec.fail(key, wh, '%s%s: fails when %s' % (claim, ' (' + msg + ')' if msg else '', _lits(w)))
        return False
    except Undecided as e:
        rec.und(claim, e); return None


# ------------------------------------------------------------------ driver
def _child(o, wfd):
    name, f, tmo, mem = o[:4]
    rec = Rec(name)
    t = time.time()
    err = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        sys.setrecursionlimit(60000)
        threading.stack_size(512 << 20)
        box = []

        def go():
            try:
                f(rec)
            except Undecided as e:
                rec.und(name, 'analysis limit: %s' % e)
            except MemoryError:
                rec.und(name, 'analysis limit: memory')
            except RecursionError:
                rec.und(name, 'analysis limit: recursion')
            except Anchor as e:
                box.append('ANCHOR ' + str(e))
            except Exception:
                if os.environ.get('VERIF_TRACE'): traceback.print_exc()
                rec.und(name, 'analysis limit (internal): ' + traceback.format_exc()[-400:])
        th = threading.Thread(target=go)
        th.start()
        th.join()
        err = box[0] if box else None
    except BaseException:
        rec.und(name, traceback.format_exc()[-400:])
    rec.wall = time.time() - t
    data = pickle.dumps((rec, err))
    with os.fdopen(wfd, 'wb') as fh: fh.write(data)
    os._exit(0)


def run_all(obs, jobs=8, deadline=None):
    """-> list of (Rec, err)"""
    todo = sorted(range(len(obs)), key=lambda i: -obs[i][2])
    res = [None] * len(obs)
    live = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setsid()
                    _child(obs[i], w)
                finally:
                    os._exit(3)
            os.close(w)
            live[r] = [i, pid, time.time(), b'']
        rl, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for r in list(live):
            i, pid, ts, buf = live[r]
            done = False
            if r in rl:
                d = os.read(r, 1 << 16)
                if d: live[r][3] += d
                else: done = True
            lim = obs[i][2]
            if deadline: lim = min(lim, max(1, deadline - (ts - t0)))
            if not done and now - ts > lim:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                done = True
                live[r][3] = None
            if done:
                buf = live[r][3]
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                rec = None
                if buf:
                    try: rec = pickle.loads(buf)
                    except Exception: rec = None
                if rec is None:
                    rc = Rec(obs[i][0]); rc.wall = now - ts
                    rc.und(obs[i][0], 'analysis limit: time or memory')
                    rec = (rc, None)
                res[i] = rec
    return res


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']


# ------------------------------------------------------------------ running extrema
def all_slots(mc):
    for info in mc.loops_seen.values():
        for s in list(info.phis.values()) + list(info.cells.values()): yield info, s


def extremum(info, s):
    """('min'|'max', body) when the real slot s becomes min/max(s, body(k)) in every iteration, else None"""
    if s.isint or s.isptr or s.cls != 'op' or s.next is None: return None
    lg = info.latch_guard
    cur = fat(s.atom)
    nxt = constrain(s.next, lg)
    others = [l for l in leafset(nxt) if l.fp != cur.fp]
    if len(others) != 1 or not isinstance(others[0], (F, P)): return None
    b = T._tof(others[0])
    if s.atom.id in b.support: return None
    for kind, pr in (('min', 'lt'), ('max', 'gt')):
        want = ite(rcmp(b, pr, cur), leaf(b), leaf(cur))
        d = band(lg, bnot(map2(_eq, nxt, want)))
        try:
            if all(any(T.VARS[v].sub == 'E' and pol and T.VARS[v].kind == 'f' and T.VARS[v].term.fp in
                       (fsub(b, cur).fp, fsub(cur, b).fp) for v, pol in c) for c in cubes(d, 400)):
                return kind, b
        except Undecided:
            pass
    return None


def slot_final(mc, info, s):
    """value of the slot after the loop"""
    return mc.closed(info, s, info.N) if info.N is not None else None
