"""shared by the clip and split rules: signed distances, sign contexts, classification of stores"""
from engine.fw import *


def shift(q, b):
    """signs of x + b when the sign of x is in q"""
    if b == 0: return q
    if b > 0: return {'+'} if '-' not in q else None
    return {'-'} if '+' not in q else None


def counter(info, s):
    """guard g when the integer slot becomes s + [g] in every iteration, else None"""
    if not s.isint or s.isptr or s.next is None or s.atom is None: return None
    cur = pa(s.atom)
    g = FALSE
    for h, l in leaves(constrain(s.next, info.latch_guard)):
        if not isinstance(l, P): return None
        if l.fp == (cur + 1).fp: g = bor(g, h)
        elif l.fp != cur.fp: return None
    return g


class Cut:
    def __init__(s, k, pname='poly', lo=1, hi=None):
        s.k = k
        s.pm = Env.PMs[k]
        s.D = s.pm.dim
        s.p = PolyIn(s.pm, pname, lo=lo, hi=hi)
        s.mc = None
        s.mode = None
        s.n = s.d = None
        s._S = {}
        CUR[0] = s

    def plane(s, mc, obj='pl', off=0):
        pm = s.pm
        o = mc.param_obj(obj)
        s.n = [T._only_leaf(mc.initial(o, pc_(off + pm.pln + 8 * i), F64, 8)) for i in range(s.D)]
        s.d = T._only_leaf(mc.initial(o, pc_(off + pm.pld), F64, 8))

    def S(s, v):
        r = s._S.get(v.fp)
        if r is None:
            r = s.d
            for i in range(s.D): r = fadd(r, fmul(s.n[i], s.p.posF(v, pc_(i))))
            s._S[v.fp] = r
        return r

    # ---- sign contexts
    def matchS(s, f):
        """(sign, v) when f is sign*S(v), else None"""
        vs = {}
        for a in f.support:
            at = AT.byid[a]
            if at.kind == 'pos' and at.name == s.p.name: vs[at.args[0].fp] = at.args[0]
        for v in vs.values():
            S = s.S(v)
            if f.fp == S.fp: return 1, v
            if f.fp == fneg(S).fp: return -1, v
        return None

    def slot(s, at):
        for L in list(s.mc.loops_seen.values()) if s.mc else ():
            for sl in list(L.phis.values()) + list(L.cells.values()):
                if sl.atom is not None and sl.cls == 'op' and not sl.isint and not sl.isptr and (sl.name == (at.name[1] if isinstance(at.name, tuple) and len(at.name) == 2 else None)) and L.id == at.name[0]:
                    return L, sl
        return None

    def ext(s, at):
        """('min'|'max', complete) for the value at of a running extremum of S over the vertices 0..K"""
        sl = s.slot(at)
        if sl is None: return None
        L, sl = sl
        e = extremum(L, sl)
        if e is None: return None
        m = s.matchS(e[1])
        if m is None or m[0] < 0: return None
        ini = leafset(sl.init)
        if len(ini) != 1 or fconst(T._tof(ini[0])) is None: return None
        c = fconst(T._tof(ini[0]))
        if (e[0] == 'min') != (c > 0) or abs(c) < 1e29: return None
        full = L.counted and m[1].fp == pa(L.k).fp and L.N is not None and L.N.fp == s.p.N.fp and bool(at.args) and at.args[0].fp == s.p.N.fp
        return e[0], full

    def affine(s, f):
        """(atom, a, b) when f = a*atom + b with constants a != 0 and b"""
        ats = [AT.byid[a] for a in f.support if isinstance(AT.byid[a].name, tuple) and not AT.byid[a].isint]
        if len(ats) != 1: return None
        at = ats[0]
        try:
            f0 = T._only_leaf(Subst({at.id: fc(0)}).f(f))
            f1 = T._only_leaf(Subst({at.id: fc(1)}).f(f))
        except ValueError:
            return None
        b, c1 = fconst(f0), fconst(f1)
        if b is None or c1 is None or c1 == b: return None
        if fadd(fmul(fc(c1 - b), fat(at)), fc(b)).fp != f.fp: return None
        return at, c1 - b, b

    def hook(s, base):
        tab = {'in': {'0', '+'}, 'out': {'-'}, 'le': {'-', '0'}, 'touch': {'-', '0'}}
        neg = {'-': '+', '+': '-', '0': '0'}
        memo = {}

        def h(f):
            r = base(f) if base else None
            if s.d is None or s.mode is None: return r
            q = memo.get(f.fp, 0)
            if q == 0:
                q = None
                m = s.matchS(f)
                if m is not None and s.mode in tab:
                    q = tab[s.mode] if m[0] > 0 else {neg[x] for x in tab[s.mode]}
                else:
                    af = s.affine(f)
                    e = s.ext(af[0]) if af is not None else None
                    if e is not None:
                        kd, full = e
                        q = {('in', 'min'): {'0', '+'}, ('in', 'max'): {'0', '+'} if full else None,
                             ('out', 'min'): {'-'} if full else None, ('out', 'max'): {'-'},
                             ('le', 'min'): {'-'} if full else None, ('le', 'max'): {'-', '0'},
                             ('touch', 'min'): {'-'} if full else None, ('touch', 'max'): {'0'} if full else {'-', '0'},
                             ('mix', 'min'): {'-'} if full else None, ('mix', 'max'): {'+'} if full else None}[s.mode, kd]
                        if q is not None:
                            if af[1] < 0: q = {neg[x] for x in q}
                            q = shift(q, af[2])
                if q is not None: memo[f.fp] = q        # extrema become known only after their loop
            if q is None: return r
            return q if r is None else (r & q)
        return h

    def arm(s, mode):
        s.mode = mode
        T.CTX.sign = s.hook(T.CTX.sign)
        T.reset_caches()

    # ---- stores
    def stores(s, objname=None, kinds=('store', 'memcpy', 'memset', 'havoc')):
        """(event, ptr leaf, guard) of the writes to the object"""
        out = []
        for e in s.mc.events:
            if e.kind not in kinds: continue
            for g, l in leaves(e.x[0]) if isinstance(e.x[0], M) else [(TRUE, e.x[0])]:
                if isinstance(l, Ptr) and l.obj is not None and (objname is None or l.obj is s.mc.objs.get(objname)):
                    pc = band(e.pc, g)
                    if pc is FALSE or unsat(pc): continue
                    out.append((e, l, pc))
        return out

    def allow(s):
        """ids of atoms that stand for the exact minimum/maximum of S over the vertices: any value is possible"""
        out = set()
        for at in AT.byid:
            if isinstance(at.name, tuple) and len(at.name) == 2 and not at.isint and at.args:
                e = s.ext(at)
                if e is not None and e[1]: out.add(at.id)
        return out

    # ---- the insertion of vertices on cut edges
    def loc(s, l):
        return s.p.locate(l.off)

    def ends(s, *xs):
        """(a, j) of the links lnk(a, j) occurring in the terms / conditions"""
        out = {}
        ids = set()
        for x in xs:
            if isinstance(x, M):
                for v in bsupport(x):
                    if T.VARS[v].term is not None: ids |= T.VARS[v].term.support
                for l in leafset(x):
                    if hasattr(l, 'support'): ids |= l.support
            else: ids |= x.support
        for i in ids:
            at = AT.byid[i]
            if at.kind == 'lnk' and at.name == s.p.name and not any(AT.byid[q].kind == 'lnk' for z in at.args for q in z.support):
                out[at.id] = at.args
        return list(out.values())

    def cross(s, a, b, i):
        """coordinate i of the point where the segment (a, b) meets the plane"""
        Sa, Sb = s.S(a), s.S(b)
        return fdiv(fsub(fmul(Sa, s.p.posF(b, pc_(i))), fmul(Sb, s.p.posF(a, pc_(i)))), fsub(Sa, Sb))

    def cutcond(s, a, j):
        b = s.p.nbP(a, j)
        return band(band(band(icmp(a, 'ge', ZERO), icmp(a, 'lt', s.p.N)), band(icmp(j, 'ge', ZERO), icmp(j, 'lt', pc_(s.pm.nbn)))),
                    band(rcmp(s.S(a), 'ge', fc(0)), rcmp(s.S(b), 'lt', fc(0))))

    def counters(s):
        return {L.k.id for L in s.mc.loops_seen.values() if L.k is not None}


_must, _same = must, same
CUR = [None]


def bounds(*ms):
    """the vertex count never drops below the old one while vertices are inserted (that it only grows is a claim of its own)"""
    c = CUR[0]
    if c is None or c.mc is None: return TRUE
    ids = set()
    for m in ms:
        for v in bsupport(m):
            t = T.VARS[v].term
            if t is not None and hasattr(t, 'support'): ids |= set(t.support)
        for l in leafset(m):
            if hasattr(l, 'support'): ids |= set(l.support)
    r = TRUE
    for i in sorted(ids):
        at = AT.byid[i]
        if isinstance(at.name, tuple) and len(at.name) == 2 and at.name[1] == ('cell', c.p.name, c.pm.nv, 'i32'): r = band(r, icmp(pa(at), 'ge', c.p.N))
    if getattr(c, 'zeroN', None) and ids & c.zeroN: r = band(r, c.extra)
    for i in sorted(ids):
        at = AT.byid[i]
        if at.kind == 'max0' and implies(band(r, icmp(c.p.N, 'ge', pc_(1))), icmp(at.args[0], 'ge', ZERO)): r = band(r, icmp(pa(at), 'eq', at.args[0]))
    return r


def must(rec, claim, pc, cond, wh, key=None, msg='', allow=()):
    if implies(pc, cond): return _must(rec, claim, pc, cond, wh, key, msg, allow)
    return _must(rec, claim, band(pc, bounds(pc, cond)), cond, wh, key, msg, allow)


def same(rec, claim, got, want, pc, wh, key=None, allow=(), what='value'):
    return _same(rec, claim, got, want, band(pc, bounds(got, want, pc)), wh, key, allow, what)


def vloops(e): return [l for l in e.loops]


def eqguard(rec, cl, pc, want, wh, allow, key=None):
    a = must(rec, cl + ' (only then)', pc, want, wh, key=key, allow=allow)
    b = must(rec, cl + ' (always then)', want, pc, wh, key=key, allow=allow)
    return a and b


def choices(c):
    """a condition selecting, of each uncounted loop left on several ways, the way that occurs in c"""
    r = TRUE
    for v in bsupport(c):
        x = T.VARS[v]
        if x.kind != 'o' or x.term is None: continue
        if AT.byid[x.term.id].kind != 'choice' if isinstance(x.term, T.Atom) else True: continue
        for pol in (True, False):
            lit = mvar(v) if pol else bnot(mvar(v))
            if band(c, lit) is not FALSE and band(c, bnot(lit)) is FALSE: r = band(r, lit)
    return r


def insertion(rec, c, obj, fn, cap):
    """vertices put on cut edges; returns list of (a, j, X, pc) or None"""
    pm, p, D = c.pm, c.p, c.D
    wh0 = where(fn)
    groups = {}
    anyreal = False
    for e, l, pc in c.stores(obj, ('store',)):
        lo = c.loc(l)
        if lo is None or lo[0] != 'pos' or e.x[2] != 8: continue
        anyreal = True
        val = e.x[-1] if isinstance(e.x[-1], M) else leaf(e.x[-1])
        en = c.ends(constrain(val, pc)) or c.ends(pc)
        if len(en) != 1:
            rec.und('%s: new vertex at line %d' % (fn, e.line), 'cut edge not recognised (%d candidates)' % len(en)); continue
        a, j = en[0]
        g = groups.setdefault((a.fp, j.fp), (a, j, {}))
        i = lo[2].const()
        if i is None:
            rec.und('%s: new vertex at line %d' % (fn, e.line), 'coordinate index'); continue
        g[2].setdefault((lo[1].fp, int(i)), []).append((lo[1], int(i), val, pc, e))
    if not anyreal:
        rec.und('%s: insertion of vertices' % fn, 'no position is written'); return None
    out = []
    for a, j, sts in groups.values():
        b = p.nbP(a, j)
        want = c.cutcond(a, j)
        xs = {}
        for lst in sts.values():
            for X, i, val, pc, e in lst: xs.setdefault(X.fp, X)
        al = c.allow() | c.counters()
        for X in xs.values(): al |= X.support
        tot = FALSE
        line = None
        for lst in sts.values():
            for X, i, val, pc, e in lst:
                line = e.line
                same(rec, '%s: coordinate %d of the vertex put on a cut edge (line %d) is where the edge meets the plane' % (fn, i, e.line), val, leaf(c.cross(a, b, i)), pc, where(fn, e.line), allow=al)
                if i == 0: tot = bor(tot, pc)
        tag = '%s: a vertex is put on edge (a, link %s of a) exactly when a is inside or on the plane and the other end is strictly outside' % (fn, 'j' if j.const() is None else int(j.const()))
        capc = TRUE
        for X in xs.values(): capc = band(capc, icmp(X, 'lt', pc_(cap))) if cap else capc
        must(rec, tag + ' (only then)', tot, want, where(fn, line), allow=al)
        must(rec, tag + ' (always then)', band(want, capc), tot, where(fn, line), allow=al)
        for i in range(D):
            pcs = FALSE
            for (xf, ii), lst in sts.items():
                if ii == i:
                    for X, _, val, pc, e in lst: pcs = bor(pcs, pc)
            if pcs is not tot: must(rec, '%s: coordinate %d is written for every new vertex' % (fn, i), tot, pcs, where(fn, line), allow=al)
        # links
        L1 = L2 = FALSE
        for e, l, pc in c.stores(obj, ('store',)):
            lo = c.loc(l)
            if lo is None: continue
            val = e.x[-1] if isinstance(e.x[-1], M) else leaf(e.x[-1])
            if lo[0] == 'nb' and lo[1].fp == a.fp and lo[2].fp == j.fp:
                for X in xs.values():
                    h = band(pc, map1(lambda q: TRUE if isinstance(q, P) and q.fp == X.fp else FALSE, val))
                    L1 = bor(L1, h)
            if lo[0] == 'nb' and lo[1].fp in xs:
                want_j = pc_(1) - j if pm.k == 'r2' else ZERO
                if lo[2].fp == want_j.fp: L2 = bor(L2, band(pc, map1(lambda q: TRUE if isinstance(q, P) and q.fp == a.fp else FALSE, val)))
        must(rec, '%s: the cut link of the kept end is led to the new vertex' % fn, tot, L1, where(fn, line), allow=al)
        must(rec, '%s: the new vertex is linked back to the kept end%s' % (fn, ' in the opposite direction' if pm.k == 'r2' else ' by its first link'), tot, L2, where(fn, line), allow=al)
        out.append((a, j, xs, tot, line))
    # every vertex and link is looked at
    js = set()
    for a, j, xs, tot, line in out:
        (e,) = [e for e, l, pc in c.stores(obj, ('store',)) if e.line == line][:1]
        for L in e.loops:
            if L.k.id in a.support or L.k.id in j.support:
                isa = L.k.id in a.support
                x = a if isa else j
                sh = (x - pa(L.k)).const()
                if sh is None: rec.und('%s: range of the search for cut edges' % fn, str(x)[:80]); continue
                hi = (p.N if isa else pc_(pm.nbn)) - sh
                if sh > 0:
                    rec.fail('%s: range of the search for cut edges' % fn, where(fn, L.line), '%s: the search for cut edges starts at %s %d' % (fn, 'vertex' if isa else 'link', sh)); continue
                nm = '%s: every %s is looked at' % (fn, 'vertex' if isa else 'link of a kept vertex')
                if L.counted and L.N is not None:
                    if L.N.fp == hi.fp: rec.ok(nm)
                    elif imprecise(L.N, c.counters()): rec.und(nm, str(L.N)[:80])
                    else: must(rec, nm, L.pc0, icmp(L.N, 'ge', hi), where(fn, L.line))
                else:
                    okc = icmp(pa(L.k), 'ge', hi)
                    al = c.allow() | c.counters()
                    for X in xs.values():
                        al |= X.support
                        if cap: okc = bor(okc, icmp(X, 'ge', pc_(cap)))
                    for ex in L.exits:
                        if any(T.VARS[v].kind == 'o' for v in bsupport(ex.g)): continue      # left from an inner loop, checked there
                        must(rec, nm + ' (line %d)' % L.line, ex.g, okc, where(fn, L.line), allow=al)
        if j.const() is not None: js.add(int(j.const()))
    if js and js != set(range(pm.nbn)):
        rec.fail('%s: links searched' % fn, wh0, '%s: only links %s of a kept vertex are searched for cut edges' % (fn, sorted(js)))
    return out


def asM(x): return x if isinstance(x, M) else leaf(x)


def nvslot(c, L, obj):
    o = c.mc.objs[obj]
    for s in L.cells.values():
        if s.obj is o and s.off.const() == c.pm.nv: return s
    return None


def count_new(rec, c, obj, fn, ins):
    """each insertion advances the vertex count by one, starting from the old count"""
    for a, j, xs, tot, line in ins:
        al = c.allow() | c.counters()
        for X in xs.values(): al |= X.support
        inc = FALSE
        for e, l, pc in c.stores(obj, ('store',)):
            lo = c.loc(l)
            if lo != ('nv',): continue
            for X in xs.values():
                inc = bor(inc, band(pc, map1(lambda q: TRUE if isinstance(q, P) and q.fp == (X + 1).fp else FALSE, asM(e.x[-1]))))
        must(rec, '%s: the vertex count grows by one with each new vertex' % fn, tot, inc, where(fn, line), allow=al)
        # the first new vertex gets the old count as its index
        for X in xs.values():
            ok = False
            for L in c.mc.loops_seen.values():
                s = nvslot(c, L, obj)
                if s is None or s.atom is None: continue
                if any(AT.byid[i].name == s.atom.name for i in X.support if isinstance(AT.byid[i].name, tuple)) or True:
                    if s.init.var is None and isinstance(s.init.leaf, P) and s.init.leaf.fp == c.p.N.fp: ok = True
            if ok: rec.ok('%s: new vertices are numbered from the old count' % fn)
            else: rec.und('%s: new vertices are numbered from the old count' % fn, str(X)[:80])


def compaction(rec, c, obj, fn, al0):
    """kept vertices are moved down in order, the new count is their number, and every link is renumbered by the same map.
    returns True when recognised"""
    pm, p = c.pm, c.p
    cps = [(e, l, pc) for e, l, pc in c.stores(obj, ('memcpy',))]
    cps = [x for x in cps if c.loc(x[1]) is not None and isinstance(x[0].x[1], (Ptr, M))]
    done = False
    for e, l, pc in cps:
        src = T._only_leaf(e.x[1]) if isinstance(e.x[1], M) else e.x[1]
        sz = e.x[2]
        sz = T._only_leaf(sz) if isinstance(sz, M) else sz
        szc = sz if isinstance(sz, int) else sz.const()
        if not isinstance(src, Ptr) or src.obj is not c.mc.objs['poly'] or not e.loops: continue
        m = (l.off - pm.verts).scale(Fraction(1, pm.vs))
        v = (src.off - pm.verts).scale(Fraction(1, pm.vs))
        if any(isinstance(x, Fraction) for x in m.m.values()) or any(isinstance(x, Fraction) for x in v.m.values()): continue
        L = e.loops[-1]
        if v.fp != pa(L.k).fp: continue
        # the counter of kept vertices
        ms = [s for s in list(L.phis.values()) + list(L.cells.values()) if s.atom is not None and s.isint and pa(s.atom).fp == m.fp]
        if len(ms) != 1: continue
        ms = ms[0]
        done = True
        wh = where(fn, e.line)
        ch = choices(pc)
        al = al0 | c.allow() | c.counters() | m.support
        if L.N is not None: al |= L.N.support
        g = counter(L, ms)
        if szc == pm.vs: rec.ok('%s: a kept vertex is moved as a whole' % fn)
        else: rec.fail('%s: whole vertex moved' % fn, wh, '%s: only %s of the %d bytes of a vertex are moved' % (fn, szc, pm.vs))
        if g is None:
            rec.und('%s: numbering of the kept vertices' % fn, 'counter not recognised'); continue
        if ms.init.var is None and ms.init.leaf is ZERO: rec.ok('%s: kept vertices are numbered from 0' % fn)
        else: same(rec, '%s: kept vertices are numbered from 0' % fn, ms.init, I(0), L.pc0, wh)
        rng = band(icmp(pa(L.k), 'ge', ZERO), icmp(pa(L.k), 'lt', L.N)) if L.N is not None else TRUE
        keep = band(rng, bor(icmp(pa(L.k), 'ge', p.N), rcmp(c.S(pa(L.k)), 'ge', fc(0))))
        must(rec, '%s: a vertex is kept exactly when it is new or not strictly outside (only then)' % fn, band(pc, ch), keep, wh, allow=al)
        must(rec, '%s: a vertex is kept exactly when it is new or not strictly outside (always then)' % fn, band(keep, ch), pc, wh, allow=al)
        gg = band(band(g, rng), ch)
        must(rec, '%s: the number advances with each kept vertex' % fn, band(band(pc, rng), ch), g, wh, allow=al)
        must(rec, '%s: the number advances only with a kept vertex' % fn, gg, pc, wh, allow=al)
        # it runs over all vertices, old and new
        nvfin = c.mc.at_start(L, c.mc.objs[obj], pc_(pm.nv), I32, 4, L.pc0) if obj == 'poly' else None
        if L.N is not None and nvfin is not None:
            same(rec, '%s: all old and new vertices are visited when the list is compressed' % fn, leaf(L.N), nvfin, band(L.pc0, ch), wh, allow=al)
        # final count
        fin = c.mc.closed(L, ms, L.N) if L.N is not None else None
        if fin is not None:
            same(rec, '%s: the final vertex count is the number of kept vertices' % fn, rd(c.mc, obj, pm.nv, I32, ch), fin, ch, wh, allow=al)
            for x in leafset(fin): al |= x.support
        # renumbering
        cover = {}
        lost = False
        for e2, l2, pc2 in c.stores(obj, ('store',)):
            lo = c.loc(l2)
            if lo is None or lo[0] != 'nb' or not e2.loops or e2.seq < e.seq: continue
            if e2.loops[-1] is L: continue
            val = asM(e2.x[-1])
            q = lo[1]
            L2 = [x for x in e2.loops if x.k.id in q.support]
            if len(L2) != 1 or q.fp != pa(L2[0].k).fp: continue
            rds = [AT.byid[a] for a in set().union(*[T.VARS[vv].term.support for vv in bsupport(val) if T.VARS[vv].term is not None] + [x.support for x in leafset(val) if hasattr(x, 'support')]) if AT.byid[a].kind == 'rd']
            # old link = content before the renumbering loop
            pc2 = band(pc2, icmp(q, 'lt', pc_(pm.max)))             # the capacity is respected (P09)
            old = constrain(c.mc.at_start(L2[0], c.mc.objs[obj], l2.off, I32, 4, pc2), pc2)
            val = constrain(val, pc2)
            if old.var is not None:
                rec.und('%s: link renumbering' % fn, 'old link %s' % str(old)[:80]); lost = True; continue
            o = old.leaf
            cond = Subst({L.k.id: o}).m(g) if isinstance(o, P) else None
            if cond is None: continue
            want = Subst({L.k.id: o}).m(leaf(m))
            jn = lo[2]
            kk = [x for x in e2.loops if x.k.id in jn.support]
            a2 = al | o.support | L2[0].N.support
            for x in leafset(want): a2 |= x.support
            inr = band(icmp(o, 'ge', ZERO), icmp(o, 'lt', L.N))
            same(rec, '%s: link %s of every kept vertex is renumbered by the number its target got' % (fn, jn if jn.const() is None else int(jn.const())), val, want, band(band(band(pc2, cond), ch), inr), where(fn, e2.line), allow=a2)
            if fin is not None:
                same(rec, '%s: the links of all kept vertices are renumbered (link %s)' % (fn, jn if jn.const() is None else int(jn.const())), leaf(L2[0].N), fin, band(L2[0].pc0, ch), where(fn, e2.line), allow=a2)
            if jn.const() is not None: cover[int(jn.const())] = 1
            elif len(kk) == 1 and kk[0].N is not None and kk[0].N.const() is not None and jn.fp == pa(kk[0].k).fp:
                for i in range(int(kk[0].N.const())): cover[i] = 1
        if set(cover) >= set(range(pm.nbn)): rec.ok('%s: every link of a kept vertex is renumbered' % fn)
        elif cover and not lost: rec.fail('%s: links renumbered' % fn, wh, '%s: only links %s are renumbered after compression' % (fn, sorted(cover)))
        else: rec.und('%s: link renumbering' % fn, 'not recognised')
    if not done: rec.und('%s: compression of the vertex list' % fn, 'not recognised')
    return done


def rdatom(c, x):
    """(atom, location) when the integer term is one link read from the polytope in its present state"""
    if not isinstance(x, P) or len(x.m) != 1: return None
    (mono, k), = x.m.items()
    if len(mono) != 1 or k != 1: return None
    at = AT.byid[mono[0]]
    if at.kind == 'lnk' and at.name == c.p.name: return at, ('nb', at.args[0], at.args[1])
    if at.kind != 'rd' or not at.args: return None
    lo = c.p.locate(at.args[0])
    return (at, lo) if lo is not None and lo[0] == 'nb' else None


def sibling(c, at, v, e):
    """the same read at link e of vertex v"""
    if at.kind == 'lnk': return c.p.nbP(v, pc_(e))
    n = AT.get(at.kind, at.name, (c.pm.a_nb(v, e),) + tuple(at.args[1:]), at.isint)
    return pa(n)


def siblings(c, at, v, g):
    """what the condition g compares as link e of vertex v, for every e"""
    out = {}
    for x in bsupport(g):
        t = T.VARS[x].term
        if t is None or not hasattr(t, 'support'): continue
        for i in t.support:
            a = AT.byid[i]
            if a.kind not in ('rd', 'lnk') or not a.isint: continue
            r = rdatom(c, pa(a))
            if r is not None and r[1][1].fp == v.fp and r[1][2].const() is not None: out.setdefault(int(r[1][2].const()), pa(a))
    return [out.get(e) or sibling(c, at, v, e) for e in range(c.pm.nbn)]


def relink(rec, c, obj, fn, al0):
    """every new vertex is joined to the new vertex reached by following the face (the polygon) it lies on"""
    pm, p, k = c.pm, c.p, c.k
    tgt = 'face' if k == 'r3' else 'polygon'
    st = []
    for e, l, pc in c.stores(obj, ('store',)):
        lo = c.loc(l)
        if lo is None or lo[0] != 'nb' or lo[2].const() is None or not e.loops: continue
        st.append((e, lo, asM(e.x[-1]), pc))
    found = False
    for e1, lo1, w1, pc1 in st:
        L = e1.loops[-1]
        V = p.N + pa(L.k)
        if lo1[1].fp != V.fp: continue
        if w1.var is not None: rec.und('%s: relinking' % fn, 'conditional partner'); continue
        w = w1.leaf
        inner = [x for x in c.mc.loops_seen.values() if L in x.outer]
        walk = None
        for Lw in inner:
            ivx = [AT.byid[a] for a in w.support if AT.byid[a].kind == 'ivx' and AT.byid[a].name[0] == Lw.id]
            if len(ivx) == 1: walk = (Lw, ivx[0])
        if walk is None:
            rec.und('%s: relinking' % fn, 'no walk from the new vertex recognised'); continue
        Lw, ivx = walk
        ints = [s for s in list(Lw.phis.values()) + list(Lw.cells.values()) if s.isint and not s.isptr and s.atom is not None and s.next is not None]
        cur = {id(s): c.mc.slot_cur(Lw, s) for s in ints}
        # candidates for the walking variable(s)
        res = None
        for sc in ints:
            for NC in (sc.next, cur[id(sc)]):
                NCc = constrain(NC, TRUE)
                try:
                    wx = T._only_leaf(Subst({Lw.k.id: pa(ivx)}).m(NCc))
                except ValueError:
                    continue
                if not isinstance(wx, P) or wx.fp != w.fp: continue
                for sn in ints + [None]:
                    if sn is sc: continue
                    if sn is not None and not (sc.next.var is None and cur[id(sn)].var is None and sc.next.leaf.fp == cur[id(sn)].leaf.fp): continue
                    res = (sc, sn, NCc.leaf)
                    break
                if res: break
            if res and res[1] is not None: break
        if res is None:
            rec.und('%s: relinking' % fn, 'walk variables not recognised'); continue
        sc, sn, NC = res
        found = True
        wh = where(fn, e1.line)
        al = al0 | c.allow() | c.counters() | w.support | NC.support
        # where the walk stops
        for ex in Lw.exits: must(rec, '%s: the walk along the %s stops only at a new vertex' % (fn, tgt), ex.g, icmp(NC, 'ge', p.N), where(fn, Lw.line), allow=al | kindids('rd'))
        must(rec, '%s: the walk along the %s does not pass a new vertex' % (fn, tgt), Lw.latch_guard, icmp(NC, 'lt', p.N), where(fn, Lw.line), allow=al | kindids('rd'))
        # direction
        dirs = set()
        bad = None
        step = (sn or sc)
        frm = sc.next if sn is not None else cur[id(sc)]
        prevv = cur[id(sc)].leaf if sn is not None else None
        todo = [(step.next, frm, prevv, Lw.latch_guard)] if sn is not None else [(step.next, frm, None, Lw.latch_guard)]
        for src, fr_, pv, lg in todo:
            for g, x in leaves(constrain(src, lg)):
                ra = rdatom(c, x)
                if ra is None: bad = 'successor %s' % str(x)[:80]; break
                at, lo = ra
                fl = fr_.leaf if fr_.var is None else None
                if fl is None or lo[1].fp != fl.fp or lo[2].const() is None: bad = 'successor is a link of %s' % str(lo[1])[:60]; break
                jj = int(lo[2].const())
                if pv is None: dirs.add(jj); continue
                sib = siblings(c, at, fl, g)
                rc = FALSE
                for x2 in sib: rc = bor(rc, icmp(x2, 'eq', pv))
                g2 = band(g, rc)
                if g2 is FALSE or unsat(g2): continue
                eqs = [q for q in range(pm.nbn) if implies(g2, icmp(sib[q], 'eq', pv))]
                if not eqs: bad = 'back link not determined'; break
                for q in eqs: dirs.add((jj - q) % pm.nbn)
            if bad: break
        if bad:
            rec.und('%s: relinking walk' % fn, bad); continue
        if len(dirs) != 1 or (sn is not None and 0 in dirs):
            rec.fail('%s: direction of the relinking walk' % fn, where(fn, Lw.line), '%s: the walk does not follow one %s: offsets %s' % (fn, tgt, sorted(dirs))); continue
        rec.ok('%s: the relinking walk follows one %s' % (fn, tgt))
        dr = dirs.pop()
        # start: from the new vertex over its link to the kept end
        first = T._only_leaf(step.init) if step.init.var is None else None
        ra = rdatom(c, first) if first is not None else None
        startj = 0
        if ra is None or ra[1][1].fp != V.fp or ra[1][2].const() is None: rec.und('%s: start of the relinking walk' % fn, str(first)[:80])
        else:
            startj = int(ra[1][2].const())
            if k == 'r3' and startj != 0: rec.fail('%s: start of the relinking walk' % fn, wh, '%s: the walk starts over link %d of the new vertex, the kept end is link 0' % (fn, startj))
            elif k == 'r2' and startj != dr: rec.fail('%s: start of the relinking walk' % fn, wh, '%s: the walk starts over link %d and goes on over link %d' % (fn, startj, dr))
            else: rec.ok('%s: the relinking walk starts at the kept end' % fn)
        if sn is not None:
            i0 = sc.init.leaf if sc.init.var is None else None
            if isinstance(i0, P) and i0.fp == V.fp: rec.ok('%s: the relinking walk starts at the new vertex' % fn)
            else: rec.und('%s: relinking walk' % fn, 'previous vertex is %s' % str(i0)[:60])
        # the two links written
        jV = int(lo1[2].const())
        wantV, wantW = ((2, 1) if dr == 1 else (1, 2)) if k == 'r3' else (1 - dr, dr)
        if jV == wantV: rec.ok('%s: the new vertex is joined to the one reached by link %d' % (fn, wantV))
        else: rec.fail('%s: relinking slot' % fn, wh, '%s: the partner is stored in link %d of the new vertex, the orientation needs link %d' % (fn, jV, wantV))
        back = [(e2, lo2, pc2) for e2, lo2, w2, pc2 in st if e2.loops and e2.loops[-1] is L and lo2[1].fp == w.fp and w2.var is None and isinstance(w2.leaf, P) and w2.leaf.fp == V.fp]
        if not back: rec.und('%s: reciprocal link' % fn, 'not recognised')
        else:
            tot = FALSE
            for e2, lo2, pc2 in back:
                jW = int(lo2[2].const())
                if jW == wantW: rec.ok('%s: its partner is joined back by link %d' % (fn, wantW)); tot = bor(tot, pc2)
                else: rec.fail('%s: relinking slot of the partner' % fn, where(fn, e2.line), '%s: the new vertex is stored in link %d of its partner, the orientation needs link %d' % (fn, jW, wantW)); tot = bor(tot, pc2)
            if tot is not pc1: must(rec, '%s: joined both ways' % fn, pc1, tot, wh, allow=al | kindids('rd', 'choice'))
        # which new vertices
        ch = choices(pc1)
        nv0 = c.mc.at_start(L, c.mc.objs[obj], pc_(pm.nv), I32, 4, L.pc0)
        if L.N is not None: same(rec, '%s: every new vertex is visited for relinking' % fn, leaf(p.N + L.N), nv0, band(L.pc0, ch), where(fn, L.line), allow=al)
        rng = band(icmp(pa(L.k), 'ge', ZERO), icmp(pa(L.k), 'lt', L.N)) if L.N is not None else TRUE
        if k == 'r3':
            must(rec, '%s: every new vertex is relinked' % fn, band(rng, ch), pc1, wh, allow=al | (L.N.support if L.N is not None else frozenset()))
        else:
            old = c.mc.at_start(L, c.mc.objs[obj], pm.a_nb(V, jV), I32, 4, band(L.pc0, band(rng, icmp(V, 'lt', pc_(pm.max)))))
            if old.var is None and isinstance(old.leaf, P):
                must(rec, '%s: a new vertex is relinked exactly when that link is open' % fn, band(band(rng, ch), band(icmp(V, 'lt', pc_(pm.max)), icmp(old.leaf, 'lt', ZERO))), pc1, wh, allow=al | old.leaf.support | L.N.support)
            else: rec.und('%s: which new vertices are relinked' % fn, str(old)[:80])
    if not found: rec.und('%s: relinking' % fn, 'not recognised')


def kindids(*ks): return {a.id for a in AT.byid if a.kind in ks}
