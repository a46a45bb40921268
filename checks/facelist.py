"""r3d_init_poly: common parts of P10 and P13"""
from checks.cut import *
from itertools import permutations

FN = 'r3d_init_poly'
FORCE = 4


def bsup(c): return {a for v in bsupport(c) if T.VARS[v].term is not None for a in T.VARS[v].term.support}


def mentions(c, v):
    """does the condition depend on the quantity v itself (an atom), not just on what v depends on?"""
    own = {single(l).id for l in leafset(v) if isinstance(l, T.P) and single(l) is not None}
    return bool(own & bsup(c))


class Init:
    def __init__(s, rec, pc=None, over=False):
        need(FN)
        s.pm = Env.PMs['r3']
        s.N, s.F = ipar('numverts', 1, None if over else s.pm.max), ipar('numfaces', 0, None)

        def mk(mc):
            mc.skip_undef = True
            mc.limit_havoc = 60000
            return [pobj(mc, 'poly'), pobj(mc, 'vertices'), leaf(s.N), pobj(mc, 'faceinds'), pobj(mc, 'nvpf'), leaf(s.F)]
        s.mc = run(rec, FN, [], mk, force=FORCE, pc=icmp(s.N, 'gt', pc_(s.pm.max)) if over else None)
        s.poly = s.mc.objs['poly']

    def loops(s): return list(s.mc.loops_seen.values())

    def faceloops(s):
        """pairs (loop over all faces, loop over all positions of the face)"""
        out = []
        for L in s.loops():
            if len(L.outer) != 1: continue
            O = L.outer[0]
            if num(O.N) != s.F: continue
            n = num(L.N)
            if n is None: continue
            a = n.atoms() if callable(getattr(n, 'atoms', None)) else n.atoms
            out.append((O, L))
        return out

    def stores(s, L, obj=None):
        return [e for e in s.mc.events if e.kind == 'store' and e.loops and e.loops[-1] is L and isinstance(e.x[0], Ptr) and (obj is None or e.x[0].obj is obj)]

    def extremes(s):
        """{('min'|'max', object): (loop, slot, final value)} over the faces-per-vertex array"""
        out = {}
        for L, sl in all_slots(s.mc):
            if L.outer or num(L.N) != s.N: continue
            x = iext(L, sl)
            if x is None: continue
            kind, b = x
            at = single(b)
            if at is None or at.kind != 'rd' or len(at.args) < 1: continue
            out[kind] = (L, sl, at)
        return out


def num(n):
    if n is None: return None
    return getattr(n, 'leaf', n) if not isinstance(n, T.P) else n


def single(p):
    """the atom when p is that atom"""
    ids = list(p.support)
    for i in ids:
        at = AT.byid[i]
        if pa(at) == p: return at
    return None


def iext(info, s):
    """('min'|'max', body) when the integer slot becomes min/max(s, body(k)) in every iteration"""
    if not s.isint or s.isptr or s.cls != 'op' or s.next is None: return None
    lg, cur = info.latch_guard, pa(s.atom)
    nxt = constrain(s.next, lg)
    others = [l for l in leafset(nxt) if isinstance(l, T.P) and l != cur]
    if len(others) != 1 or s.atom.id in others[0].support: return None
    b = others[0]
    for kind, pr in (('min', 'lt'), ('max', 'gt')):
        want = ite(icmp(b, pr, cur), leaf(b), leaf(cur))
        if unsat(band(band(lg, bnot(mcmp_i(nxt, 'eq', want))), TRUE)): return kind, b
    return None


def positions(Z, O, L):
    """the four cases of a position k on a face of n >= 3 vertices, as substitutions: k = 0, 0 < k <= n-3, k = n-2, k = n-1"""
    n = facesize(Z, O, L)[0]
    nid = single(n).id
    k, m = pa(L.k), ipar('m', 0, None)
    at = AT.get('max0', '', (n,), lo=0).id
    return [('first', Subst({nid: m + 3, at: m + 3, L.k.id: ZERO})), ('inside', Subst({nid: k + m + 4, at: k + m + 4, L.k.id: k + 1})),
            ('next to last', Subst({nid: m + 3, at: m + 3, L.k.id: m + 1})), ('last', Subst({nid: m + 3, at: m + 3, L.k.id: m + 2}))]


def facesize(Z, O, L):
    """(numvertsperface[f], f) for the face f visited, f running over all faces"""
    for f in (pa(O.k), Z.F - 1 - pa(O.k)):
        at = AT.tab.get(('init', ('nvpf', 'i32'), (f.scale(4).fp,), True))
        if at is not None and L.N is not None and at.id in num(L.N).support: return pa(at), f
    return None


def corner(p):
    """(position, face pointer argument) when p is faceinds[f][position]"""
    at = single(p)
    if at is None or at.kind != 'init' or at.name[0] != 'deref' or len(at.args) != 2: return None
    q = single(at.args[1])
    if q is None or q.kind != 'init' or q.name[0] != 'faceinds': return None
    return at.args[0], q.args[0], at


def covers(Z, O, L, pick):
    """as k runs over the positions of a face, does pick(case) -> byte offset run over all of them once?"""
    k = pa(L.k)
    n = facesize(Z, O, L)[0]
    ds, us = [], []
    for nm, sb in positions(Z, O, L):
        o = pick(sb)
        if o is None: return None
        n4 = lf(sb.p(n)).scale(4)
        kk = lf(sb.p(k)).scale(4)
        ds.append((o - kk, n4)); us.append((o + kk, n4))

    def same_mod(xs):
        cand = {x for x, n4 in xs} | {x - n4 for x, n4 in xs} | {x + n4 for x, n4 in xs}
        return any(c.const() is not None and all((x - c) in (ZERO, n4, n4.scale(-1)) for x, n4 in xs) for c in cand)
    return same_mod(ds) or same_mod(us)


def lf(x): return x.leaf if hasattr(x, 'leaf') and not isinstance(x, T.P) else x
