"""P07: splitting.
The polytope is abstract: any number of vertices, any links, any positions. For one polytope the rules are
(all S(v) >= 0) whole copy in the first output, second empty; (all S(v) < 0) the reverse; (mixed) every link from
S >= 0 to S < 0 gets exactly two coincident new vertices, at the point where the edge meets the plane, linked to the two ends;
every vertex goes to exactly one output, by the sign of S, whole, and links are renumbered to where their targets went.
For many polytopes: iteration p touches only polytope p, uses no scratch left by another, and none is skipped.
rNd_split: both outputs are the input, clipped by the two opposite planes of the split."""
from checks.cut import *
from checks.p06 import used_atoms, exitlits, abnormal
from checks import cut

LEVEL = 'proof'
ASSUME = ['capacity is not exceeded (property P09)', 'the polytope is well formed: links in range and reciprocal']
OUT = ('op', 'on')


def go(rec, k, kind, mode, lo=1, hi=None, alias=False):
    c = Cut(k, 'ip', lo=lo, hi=hi)
    pm = c.pm
    c.memo = {}
    c.kind, c.fn, c.alias = kind, pm.pre + '_' + kind, alias
    c.out = ('ip' if alias else 'op', 'on')

    def mk(mc):
        c.mc = mc
        if kind == 'split':
            c.plane(mc)
            args = [pobj(mc, 'ip'), I(1), pobj(mc, 'pl'), pobj(mc, 'op'), pobj(mc, 'on')]
        else:
            coord, ax = rpar('coord'), ipar('ax', 0, c.D - 1)
            c.d = coord
            c.S = lambda v: fsub(coord, c.p.posF(v, ax))
            o = mc.newobj('outs', 'alloca', 16)
            for i in (0, 1): mc.write(Ptr(o, pc_(8 * i)), Ty('p'), 8, pobj(mc, c.out[i]), TRUE, 'outs%d' % i, 0)
            args = [pobj(mc, 'ip'), leaf(Ptr(o, ZERO)), leaf(coord), leaf(ax)]
        if mode: c.arm(mode)
        return args
    run(rec, c.fn, [c.p], mk, pc=icmp(c.p.N, 'eq', ZERO) if hi == 0 else None)
    return c


def onesided(rec, k, kind, mode, alias=False):
    c = go(rec, k, kind, mode, alias=alias)
    full, none = c.out if mode == 'in' else c.out[::-1]
    nm = '%s: a polytope entirely on the %s side' % (c.fn, 'inner (or on the plane)' if mode == 'in' else 'outer')
    if alias: nm += ' (output 0 is the input)'
    iscopy(rec, c, full, nm + ' is copied to that output')
    same(rec, nm + ' leaves the other output empty', rd(c.mc, none, c.pm.nv, I32), I(0), c.mc.g, where(c.fn))
    if c.fn == 'r3d_split': same(rec, '%s: returns 1 (%s)' % (c.fn, mode), c.mc.ret, I(1), c.mc.g, where(c.fn))


def iscopy(rec, c, obj, cl):
    pm, q, wh = c.pm, generic_vertex(c.p), where(c.fn)
    same(rec, cl + ': vertex count', rd(c.mc, obj, pm.nv, I32), leaf(c.p.N), c.mc.g, wh)
    for i in range(c.D):
        same(rec, cl + ': coordinate %d' % i, rd(c.mc, obj, pm.a_pos(q, i)), leaf(c.p.posF(q, pc_(i))), c.mc.g, wh)
    for j in range(pm.nbn):
        same(rec, cl + ': link %d' % j, rd(c.mc, obj, pm.a_nb(q, j), I32), leaf(c.p.nbP(q, j)), c.mc.g, wh)


def empty(rec, k, kind):
    c = go(rec, k, kind, None, lo=0, hi=0)
    for o in c.out: same(rec, '%s: an empty polytope gives an empty %s output' % (c.fn, o), rd(c.mc, o, c.pm.nv, I32), I(0), c.mc.g, where(c.fn))


def sidecount(c):
    """atoms that count the vertices with S < 0 over all vertices"""
    out = set()
    for L, s in all_slots(c.mc):
        if not (s.isint and not s.isptr and s.cls == 'op') or not L.counted or L.N is None or L.N.fp != c.p.N.fp: continue
        g = counter(L, s)
        if g is None or leafset(s.init) != [ZERO]: continue
        v = pa(L.k)
        rng = band(band(icmp(v, 'lt', c.p.N), icmp(v, 'ge', ZERO)), L.pc0)
        want = rcmp(c.S(v), 'lt', fc(0))
        ok = implies(band(rng, g), want) and implies(band(rng, want), g)
        if not ok:      # a condition on S alone, true for some values and false for others
            gg = constrain(g, rng)
            ts = [T.VARS[x].term for x in bsupport(gg)]
            ss = c.S(v).support
            ok = bool(ts) and all(t is not None and getattr(t, 'support', None) and t.support <= ss for t in ts) and not unsat(band(rng, gg)) and not unsat(band(rng, bnot(gg)))
        if ok:
            for at in AT.byid:
                if at.name == s.atom.name and at.kind == s.atom.kind and at.args and at.args[0].fp == c.p.N.fp: out.add(at.id)
    return out


def links(c):
    """reads of a link of a vertex with S >= 0 inside the insertion loop: the link as it was at the beginning"""
    mp, why = {}, None
    for e, l, pc in c.stores('ip', ('store',)):
        lo = c.loc(l)
        if lo is None or lo[0] != 'pos' or e.x[2] != 8: continue
        for L in e.loops:
            for at in AT.byid:
                if at.kind != 'rd' or not isinstance(at.name, tuple) or at.name[0] != ('bar', L.id) or at.name[1] != 'ip' or not at.isint: continue
                r = rdatom(c, pa(at))
                if r is None: continue
                a, j = r[1][1], r[1][2]
                if all(AT.byid[i].kind == 'iv' for i in a.support | j.support) and a.support: mp[at.id] = (a, j, e)
    return mp


def resolve(c, sb, top, x):
    """reads of local arrays inside the insertion loop, at vertices < N, which that loop writes only at indices >= N: the value at its start"""
    x = sb.m(x)
    inl = {l.id for l in c.mc.loops_seen.values() if l is top or top in l.outer}
    for _ in range(3):
        mp = {}
        ids = set()
        for v in bsupport(x): ids |= set(getattr(T.VARS[v].term, 'support', ()))
        for l in leafset(x): ids |= set(getattr(l, 'support', ()))
        for i in sorted(ids):
                at = AT.byid[i]
                if at.kind != 'rd' or not isinstance(at.name, tuple) or len(at.name) != 3 or at.id in mp: continue
                if not isinstance(at.name[0], tuple) or at.name[0][0] != 'bar' or at.name[0][1] not in inl: continue
                so = next((q for q in c.mc.heads if q.name == at.name[1]), None)
                if so is c.mc.objs.get('ip') and not at.isint:
                    lo = c.p.locate(at.args[0])
                    if lo is not None and lo[0] == 'pos' and len(lo[1].m) == 1 and all(AT.byid[z].kind in ('iv', 'lnk') for z in lo[1].support) and above(c, so, 0, top): mp[at.id] = c.p.posF(lo[1], lo[2])
                    continue
                if so is None or so.kind != 'alloca': continue
                ty = {'i32': I32, 'double': Ty('f', 64), 'i8': Ty('i', 8), 'i64': Ty('i', 64)}.get(at.name[2])
                if ty is None: continue
                st = ty.a // 8
                q = at.args[0].scale(Fraction(1, st))
                if not (len(q.m) == 1 and all(AT.byid[z].kind in ('iv', 'lnk') for z in q.support)): continue
                if not above(c, so, st, top): continue
                mp[at.id] = c.mc.at_start(top, so, at.args[0], ty, st, top.pc0)
        if not mp: break
        x = Subst(mp).m(x)
    return x


def above(c, so, st, top):
    r = c.memo.get((so.name, top.id))
    if r is None:
        r = True
        for e in c.mc.events:
            if e.kind not in ('store', 'memcpy', 'memset', 'havoc') or top not in e.loops: continue
            for g, l in leaves(e.x[0]) if isinstance(e.x[0], M) else [(TRUE, e.x[0])]:
                if not isinstance(l, Ptr) or l.obj is not so: continue
                pc = band(e.pc, g)
                if st: q = l.off.scale(Fraction(1, st))
                else:
                    lo = c.loc(l)
                    if lo is not None and lo[0] != 'pos': continue
                    if lo is None: r = False; continue
                    q = lo[1]
                if e.kind != 'store' or not implies(band(pc, bounds(pc, leaf(q))), icmp(q, 'ge', c.p.N)): r = False
        c.memo[so.name, top.id] = r
    return r


def mixed(rec, k, kind, alias=False):
    c = go(rec, k, kind, 'mix', alias=alias)
    pm, p, fn, mc = c.pm, c.p, c.fn, c.mc
    cnt = sidecount(c)
    c.zeroN = cnt
    c.extra = TRUE
    for i in sorted(cnt): c.extra = band(c.extra, band(bnot(icmp(pa(AT.byid[i]), 'eq', ZERO)), bnot(icmp(pa(AT.byid[i]), 'eq', p.N))))
    ins = insert2(rec, c)
    if not ins: return
    al = c.allow() | c.counters() | cnt
    for x in ins:
        for X in x['xs']: al |= X.support
    relink(rec, c, 'ip', fn, al)
    distribute(rec, c, ins, al)


def insert2(rec, c):
    pm, p, D, fn = c.pm, c.p, c.D, c.fn
    mp = links(c)
    sub = {}
    for i, (a, j, e) in mp.items(): sub[i] = p.nbP(a, j)
    sb = Subst(sub)
    sts = []
    ins = [e for e, l, pc in c.stores('ip', ('store',)) if (c.loc(l) or ('',))[0] == 'pos' and e.x[2] == 8 and e.loops]
    insl = ins[0].loops if ins else None
    for e, l, pc in c.stores('ip', ('store',)):
        lo = c.loc(l)
        if lo is None or not insl or insl[0] not in e.loops: continue
        val = asM(e.x[-1])
        pc = resolve(c, sb, insl[0], pc)
        val, lo = resolve(c, sb, insl[0], constrain(val, pc)), (lo[0],) + tuple(T._only_leaf(sb.p(x)) for x in lo[1:])
        if pc is FALSE or unsat(band(pc, bounds(pc))): continue
        sts.append((e, lo, val, pc))
    if not insl:
        rec.und('%s: insertion of vertices' % fn, 'no position is written'); return None
    top = insl[0]
    sts = [x for x in sts if top in x[0].loops]
    al = c.allow() | c.counters() | c.zeroN
    pos = {}
    for e, lo, val, pc in sts:
        if lo[0] != 'pos' or e.x[2] != 8: continue
        en = c.ends(constrain(val, pc)) or c.ends(pc)
        i = lo[2].const()
        if len(en) != 1 or i is None:
            rec.und('%s: new vertex at line %d' % (fn, e.line), 'cut edge not recognised (%d candidates)' % len(en)); return None
        a, j = en[0]
        g = pos.setdefault((a.fp, j.fp), (a, j, {}))
        g[2].setdefault(lo[1].fp, (lo[1], []))[1].append((int(i), val, pc, e))
    out = []
    for a, j, byx in pos.values():
        b = p.nbP(a, j)
        want = band(c.cutcond(a, j), c.extra)
        xs = [x for x, _ in byx.values()]
        x0 = xs[0]
        xs.sort(key=lambda x: 0 if (x0 - x).const() is None else (x - x0).const())
        if len(xs) != 2 or (xs[1] - xs[0]).const() is None:
            rec.und('%s: new vertices on a cut edge' % fn, '%d recognised' % len(xs)); return None
        if (xs[1] - xs[0]).const() != 1: rec.fail('%s: new vertices on a cut edge' % fn, where(fn), '%s: the two new vertices are %s apart' % (fn, (xs[1] - xs[0]).const()))
        a2 = al | xs[0].support
        capc = icmp(xs[1], 'lt', pc_(pm.max))
        tots = []
        for n, x in enumerate(xs):
            lst = byx[x.fp][1]
            tot = FALSE
            for i, val, pc, e in lst:
                same(rec, '%s: coordinate %d of new vertex %d of a cut edge (line %d) is where the edge meets the plane' % (fn, i, n, e.line), val, leaf(c.cross(a, b, i)), band(pc, bounds(pc)), where(fn, e.line), allow=a2)
                if i == 0: tot = bor(tot, pc)
                line = e.line
            wh = where(fn, line)
            tag = '%s: new vertex %d is put on an edge exactly when one end has S >= 0 and the other S < 0' % (fn, n)
            must(rec, tag + ' (only then)', tot, want, wh, allow=a2)
            must(rec, tag + ' (always then)', band(want, capc), tot, wh, allow=a2)
            for i in range(1, D):
                pcs = FALSE
                for ii, val, pc, e in lst:
                    if ii == i: pcs = bor(pcs, pc)
                must(rec, '%s: coordinate %d is written for new vertex %d' % (fn, i, n), tot, pcs, wh, allow=a2)
            tots.append(tot)
        # links
        eq = lambda val, x: map1(lambda q: TRUE if isinstance(q, P) and q.fp == x.fp else FALSE, val)
        got = {'kept': FALSE, 'k2': FALSE, 'far': FALSE, 'f2': FALSE}
        far = []
        for e, lo, val, pc in sts:
            if lo[0] != 'nb': continue
            if lo[1].fp == a.fp and lo[2].fp == j.fp: got['kept'] = bor(got['kept'], band(pc, eq(val, xs[0]))); continue
            if lo[1].fp == xs[0].fp and lo[2].fp == (pc_(1) - j if pm.k == 'r2' else ZERO).fp: got['k2'] = bor(got['k2'], band(pc, eq(val, a)))
            elif lo[1].fp == xs[1].fp and lo[2].fp == (j if pm.k == 'r2' else ZERO).fp: got['f2'] = bor(got['f2'], band(pc, eq(val, b)))
            elif lo[1].fp == b.fp:
                far.append((lo[2], pc, val, e))
                got['far'] = bor(got['far'], band(pc, eq(val, xs[1])))
            elif not implies(band(pc, bounds(pc, leaf(lo[1]))), icmp(lo[1], 'ge', p.N)):
                rec.und('%s: links during insertion' % fn, 'a link of vertex %s is changed (line %d)' % (str(lo[1])[:60], e.line))
        recip = TRUE
        if pm.k != 'r2':
            sep = TRUE
            for n_ in range(pm.nbn):       # different vertices have different link cells
                for z in [pm.a_nb(a, j)] + [pm.a_nb(X, 0) for X in xs]: sep = band(sep, bnot(icmp(z, 'eq', pm.a_nb(b, n_))))
            recip = FALSE
            for s_, pc, val, e in far:
                for v in bsupport(pc):
                    for i in getattr(T.VARS[v].term, 'support', ()):
                        r = rdatom(c, pa(AT.byid[i])) if AT.byid[i].isint else None
                        if r is not None and r[1][1].fp == b.fp: recip = bor(recip, icmp(pa(AT.byid[i]), 'eq', a))
        if pm.k != 'r2': recip = band(recip, sep)
        for nm, t, key in (('the link of the end with S >= 0 is led to the first new vertex', tots[0], 'kept'), ('the first new vertex is linked back to it', tots[0], 'k2'),
                           ('a link of the end with S < 0 is led to the second new vertex', tots[1], 'far'), ('the second new vertex is linked back to it', tots[1], 'f2')):
            must(rec, '%s: %s' % (fn, nm), band(t, recip) if key == 'far' else t, got[key], wh, allow=a2 | kindids('rd'))
        for s_, pc, val, e in far:
            if pm.k == 'r2':
                if s_.fp == (pc_(1) - j).fp: rec.ok('%s: the link changed at the far end is the opposite direction' % fn)
                else: rec.fail('%s: link of the far end' % fn, where(fn, e.line), '%s: link %s of the far end is changed, its link back is 1-j' % (fn, s_))
            else:
                if s_.const() is None: rec.und('%s: link changed at the far end' % fn, str(s_)[:60]); continue
                back = [pa(AT.byid[i]) for v in bsupport(pc) if T.VARS[v].term is not None for i in getattr(T.VARS[v].term, 'support', ()) if AT.byid[i].kind in ('rd', 'lnk')]
                cond = FALSE
                for x in back + [p.nbP(b, s_)]:
                    r = rdatom(c, x)
                    if r is not None and r[1][1].fp == b.fp and r[1][2].fp == s_.fp: cond = bor(cond, icmp(x, 'eq', a))
                must(rec, '%s: the link changed at the far end is its link back (link %d)' % (fn, int(s_.const())), pc, cond, where(fn, e.line), allow=a2 | kindids('rd'))
        # all vertices and links are looked at
        for L in insl:
            if L.k.id not in a.support | j.support: continue
            isa = L.k.id in a.support
            x = a if isa else j
            sh = (x - pa(L.k)).const()
            nm = '%s: every %s is looked at' % (fn, 'vertex' if isa else 'link of a vertex with S >= 0')
            if sh is None: rec.und(nm, str(x)[:60]); continue
            hi = (p.N if isa else pc_(pm.nbn)) - sh
            if sh > 0: rec.fail(nm, where(fn, L.line), '%s: the search for cut edges starts at %d' % (fn, sh))
            elif L.counted and L.N is not None:
                if L.N.fp == hi.fp: rec.ok(nm)
                elif imprecise(L.N, c.counters()): rec.und(nm, str(L.N)[:60])
                else: must(rec, nm, L.pc0, icmp(L.N, 'ge', hi), where(fn, L.line))
            else:
                okc = bor(icmp(pa(L.k), 'ge', hi), bor(icmp(xs[0], 'eq', pc_(pm.max)), icmp(xs[1], 'eq', pc_(pm.max))))
                for ex in L.exits:
                    if any(T.VARS[v].kind == 'o' for v in bsupport(ex.g)): continue
                    must(rec, nm + ' (line %d)' % L.line, ex.g, okc, where(fn, L.line), allow=a2 | kindids('rd'))
        # the count
        inc = FALSE
        for e, lo, val, pc in sts:
            if lo == ('nv',): inc = bor(inc, band(pc, eq(val, xs[1] + 1)))
        must(rec, '%s: the vertex count grows by two with each cut edge' % fn, tots[1], inc, wh, allow=a2)
        out.append(dict(a=a, j=j, xs=xs, tots=tots, line=line, top=top, loops=insl, res=lambda x: resolve(c, sb, top, x), sb=sb))
    return out


def distribute(rec, c, ins, al0):
    pm, p, fn, mc = c.pm, c.p, c.fn, c.mc
    res = {}
    for n, o in enumerate(c.out):
        cps = [(e, l, pc) for e, l, pc in c.stores(o, ('memcpy',)) if e.loops and c.mc.loops_seen and e.loops[-1] is not ins[0]['top']]
        for e, l, pc in cps:
            src = T._only_leaf(e.x[1]) if isinstance(e.x[1], M) else e.x[1]
            sz = T._only_leaf(e.x[2]) if isinstance(e.x[2], M) else e.x[2]
            szc = sz if isinstance(sz, int) else sz.const()
            if not isinstance(src, Ptr) or src.obj is not mc.objs['ip']: continue
            m = (l.off - pm.verts).scale(Fraction(1, pm.vs))
            v = (src.off - pm.verts).scale(Fraction(1, pm.vs))
            L = e.loops[-1]
            if v.fp != pa(L.k).fp: continue
            ms = [s for s in list(L.phis.values()) + list(L.cells.values()) if s.atom is not None and s.isint and pa(s.atom).fp == m.fp]
            if len(ms) != 1: continue
            res[n] = (e, L, m, ms[0], pc, szc)
    if set(res) != {0, 1} or res[0][1] is not res[1][1]:
        rec.und('%s: distribution of the vertices' % fn, 'not recognised'); return
    L = res[0][1]
    k = pa(L.k)
    wh = where(fn, res[0][0].line)
    ch = choices(res[0][4])
    rng = band(icmp(k, 'ge', ZERO), icmp(k, 'lt', L.N)) if L.N is not None else TRUE
    al = al0 | (L.N.support if L.N is not None else frozenset()) | kindids('choice')
    base = band(band(L.pc0, rng), ch)
    old = band(base, icmp(k, 'lt', p.N))
    S = c.S(k)
    # which local array tells the side
    sides = {}
    for n in (0, 1):
        for v in bsupport(res[n][4]):
            t = T.VARS[v].term
            for i in getattr(t, 'support', ()):
                at = AT.byid[i]
                if at.kind == 'rd' and at.isint and isinstance(at.name, tuple) and len(at.name) == 3:
                    ob_ = next((q for q in mc.heads if q.name == at.name[1]), None)
                    if ob_ is not None and ob_.kind == 'alloca' and L.k.id in at.args[0].support: sides[at.id] = (at, ob_)
    for n in (0, 1):
        e, _, m, ms, pc, szc = res[n]
        if szc == pm.vs: rec.ok('%s: output %d gets whole vertices' % (fn, n))
        else: rec.fail('%s: whole vertex copied' % fn, wh, '%s: only %s of the %d bytes of a vertex are copied to output %d' % (fn, szc, pm.vs, n))
        g = counter(L, ms)
        if g is None: rec.und('%s: numbering in output %d' % (fn, n), 'counter'); return
        same(rec, '%s: output %d is numbered from 0' % (fn, n), ms.init, I(0), L.pc0, wh)
        a3 = al | kindids('rd') | m.support
        must(rec, '%s: the number in output %d advances with each vertex put there' % (fn, n), band(base, pc), g, wh, allow=a3)
        must(rec, '%s: the number in output %d advances only then' % (fn, n), band(base, g), pc, wh, allow=a3)
    must(rec, '%s: every vertex goes to one output' % fn, base, bor(res[0][4], res[1][4]), wh, allow=al | kindids('rd'))
    d = band(base, band(res[0][4], res[1][4]))
    if d is FALSE or unsat(d): rec.ok('%s: no vertex goes to both outputs' % fn)
    else: must(rec, '%s: no vertex goes to both outputs' % fn, d, FALSE, wh, allow=al | kindids('rd'))
    if len(sides) == 1:
        at, so = next(iter(sides.values()))
        off = at.args[0]
        cur = constrain(mc.at_start(L, so, off, I32, 4, old), old)
        # the destination as a function of the mark
        for n in (0, 1):
            gv = Subst({at.id: cur}).m(res[n][4])
            want = rcmp(S, 'ge' if n == 0 else 'lt', fc(0))
            cl = '%s: an old vertex goes to output %d exactly when S %s 0' % (fn, n, '>=' if n == 0 else '<')
            must(rec, cl + ' (only then)', band(old, gv), want, wh, allow=al)
            must(rec, cl + ' (always then)', band(old, want), gv, wh, allow=al)
        # new vertices
        for x in ins:
            for n, X in enumerate(x['xs']):
                mark = None
                tot = FALSE
                stray = False
                for e, l, pc in c.stores(so.name, ('store',)) if so.name in mc.objs else ostores(c, so):
                    if x['top'] not in e.loops: continue
                    pc = x['res'](pc)
                    lo = T._only_leaf(x['sb'].p(l.off))
                    i = Subst({L.k.id: ZERO}).p(leaf(off) if not isinstance(off, P) else off)
                    stride = off.coef(L.k.id)
                    if lo.fp != (X.scale(stride)).fp: continue
                    val = asM(e.x[-1])
                    if val.var is not None or not isinstance(val.leaf, P) or val.leaf.const() is None: stray = True; continue
                    if mark is not None and mark != int(val.leaf.const()): stray = True
                    mark = int(val.leaf.const())
                    tot = bor(tot, pc)
                if stray: rec.und('%s: side of new vertex %d' % (fn, n), 'mark'); continue
                cl = '%s: new vertex %d of a cut edge goes to output %d' % (fn, n, n)
                if mark is None: mk = initmark(c, so, x)
                else:
                    mk = mark
                    must(rec, cl + ' (always marked)', x['tots'][n], tot, wh, allow=al | X.support)
                if mk is None: rec.und(cl, 'mark before insertion'); continue
                gv = Subst({at.id: pc_(mk)}).m(constrain(res[n][4], band(base, icmp(pa(at), 'eq', pc_(mk)))))
                if gv is TRUE or implies(band(base, icmp(pa(at), 'eq', pc_(mk))), res[n][4]): rec.ok(cl)
                else: rec.fail(cl, wh, '%s: new vertex %d of a cut edge is marked %d and goes to the other output' % (fn, n, mk))
    elif not sides:
        for n in (0, 1):
            want = rcmp(S, 'ge' if n == 0 else 'lt', fc(0))
            cl = '%s: an old vertex goes to output %d exactly when S %s 0' % (fn, n, '>=' if n == 0 else '<')
            must(rec, cl + ' (only then)', band(old, res[n][4]), want, wh, allow=al)
            must(rec, cl + ' (always then)', band(old, want), res[n][4], wh, allow=al)
            for x in ins:
                X = x['xs'][n]
                new = Subst({L.k.id: X}).m(constrain(res[n][4], base))
                must(rec, '%s: new vertex %d of a cut edge goes to output %d' % (fn, n, n), band(x['tots'][n], icmp(X, 'ge', p.N)), new, wh, allow=al | X.support | kindids('rd'))
    else: rec.und('%s: side of a vertex' % fn, '%d marks' % len(sides))
    # all old and new vertices
    h = mc.at_start(L, mc.objs['ip'], pc_(pm.nv), I32, 4, L.pc0) if not c.alias else None
    if h is not None and L.N is not None: same(rec, '%s: all old and new vertices are distributed' % fn, leaf(L.N), h, band(L.pc0, ch), wh, allow=al)
    # final counts and links
    numb = []
    for n in (0, 1):
        e, _, m, ms, pc, szc = res[n]
        fin = mc.closed(L, ms, L.N)
        a3 = al | kindids('rd')
        if fin is None: rec.und('%s: vertex count of output %d' % (fn, n), ''); return
        for x in leafset(fin): a3 |= x.support
        same(rec, '%s: the vertex count of output %d is the number of vertices put there' % (fn, n), rd(mc, c.out[n], pm.nv, I32, ch), fin, band(ch, c.extra), wh, allow=a3)
        numb.append((fin, a3))
    for n in (0, 1):
        cover = {}
        lost = False
        fin, a3 = numb[n]
        for e2, l2, pc2 in c.stores(c.out[n], ('store',)):
            lo = c.loc(l2)
            if lo is None or lo[0] != 'nb' or not e2.loops or e2.seq < res[0][0].seq or e2.loops[-1] is L: continue
            q = lo[1]
            L2 = [x for x in e2.loops if x.k.id in q.support]
            if len(L2) != 1 or (q - pa(L2[0].k)).const() is None: continue
            sh = (q - pa(L2[0].k)).const()
            if sh > 0 and not covered0(c, n, sh, e2):
                rec.fail('%s: all vertices of output %d are renumbered' % (fn, n), where(fn, e2.line), '%s: the links of vertices below %d of output %d are not renumbered' % (fn, sh, n)); lost = True; continue
            if sh < 0: continue
            pc2 = band(pc2, icmp(q, 'lt', pc_(pm.max)))
            oldl = constrain(mc.at_start(L2[0], mc.objs[c.out[n]], l2.off, I32, 4, pc2), pc2)
            val = constrain(asM(e2.x[-1]), pc2)
            if oldl.var is not None or not isinstance(oldl.leaf, P): rec.und('%s: link renumbering in output %d' % (fn, n), str(oldl)[:60]); lost = True; continue
            o = oldl.leaf
            sbo = Subst({L.k.id: o})
            want = ite(sbo.m(constrain(res[1][4], base)), sbo.m(leaf(res[1][2])), sbo.m(leaf(res[0][2])))
            inr = band(icmp(o, 'ge', ZERO), icmp(o, 'lt', L.N))
            jn = lo[2]
            a4 = a3 | o.support | L2[0].N.support if L2[0].N is not None else a3 | o.support
            for x in leafset(want): a4 |= x.support
            same(rec, '%s: link %s of every vertex of output %d becomes the number its target got' % (fn, jn if jn.const() is None else int(jn.const()), n), val, want, band(band(pc2, ch), inr), where(fn, e2.line), allow=a4 | kindids('rd'))
            if L2[0].N is not None: same(rec, '%s: all vertices of output %d are renumbered' % (fn, n), leaf(L2[0].N + sh), fin, band(L2[0].pc0, ch), where(fn, e2.line), allow=a3)
            if jn.const() is not None: cover[int(jn.const())] = 1
            else:
                kk = [x for x in e2.loops if x.k.id in jn.support]
                if len(kk) == 1 and kk[0].N is not None and kk[0].N.const() is not None and jn.fp == pa(kk[0].k).fp:
                    for i in range(int(kk[0].N.const())): cover[i] = 1
        if set(cover) >= set(range(pm.nbn)): rec.ok('%s: every link in output %d is renumbered' % (fn, n))
        elif cover and not lost: rec.fail('%s: links renumbered in output %d' % (fn, n), wh, '%s: only links %s of output %d are renumbered' % (fn, sorted(cover), n))
        else: rec.und('%s: link renumbering in output %d' % (fn, n), 'not recognised')


def covered0(c, n, sh, e2):
    """another store renumbers the first vertices"""
    for e, l, pc in c.stores(c.out[n], ('store',)):
        lo = c.loc(l)
        if e is not e2 and lo is not None and lo[0] == 'nb' and e.seq >= 0 and (lo[1].const() is not None and lo[1].const() < sh): return True
    return False


def ostores(c, o):
    out = []
    for e in c.mc.events:
        if e.kind != 'store': continue
        for g, l in leaves(e.x[0]) if isinstance(e.x[0], M) else [(TRUE, e.x[0])]:
            if isinstance(l, Ptr) and l.obj is o: out.append((e, l, band(e.pc, g)))
    return out


def initmark(c, so, x):
    """mark of an index >= N before the insertion loop"""
    L = x['top']
    q = AT.get('par', 'qnew', (), True, 0, c.pm.max - 1)
    pc = band(L.pc0, icmp(pa(q), 'ge', c.p.N))
    try:
        h = L.saved.get(so)
        r = constrain(c.mc.read(h, so, pa(q).scale(4), I32, 4, pc), pc)
    except Undecided:
        return None
    if r.var is None and isinstance(r.leaf, P) and r.leaf.const() is not None: return int(r.leaf.const())
    return None


class Many:
    """array of polytopes: polytope number k is at k*sizeof"""
    base = ZERO

    def __init__(s, pm, name): s.pm, s.name, s.one = pm, name, {}

    def at(s, off):
        ks = [(m, x) for m, x in off.m.items() if len(m) == 1 and x == s.pm.psize]
        if len(ks) != 1: return None, None
        a = AT.byid[ks[0][0][0]]
        p = s.one.get(a.id)
        if p is None:
            p = PolyIn(s.pm, '%s[%s]' % (s.name, a.name))
            s.one[a.id] = p
        return p, off - pa(a).scale(s.pm.psize)

    def initial(s, off, ty):
        p, o = s.at(off)
        return p.initial(o, ty) if p is not None else None


def many(rec, k):
    c = Cut(k, 'ip')
    pm, fn = c.pm, c.pm.pre + '_split'
    np = ipar('npolys')
    def mk(mc):
        mc.skip_undef = True
        return [pobj(mc, 'ip'), leaf(np), pobj(mc, 'pl'), pobj(mc, 'op'), pobj(mc, 'on')]
    mc = run(rec, fn, [Many(pm, 'ip')], mk)
    top = [L for L in mc.loops_seen.values() if not L.outer and any(L in e.loops and e.kind in ('store', 'memcpy', 'memset') for e in mc.events)]
    if len(top) != 1:
        rec.und('%s: loop over the polytopes' % fn, '%d loops' % len(top)); return
    L = top[0]
    kk = pa(L.k)
    wh = where(fn, L.line)

    def own(off):
        ks = [x for m, x in off.m.items() if L.k.id in m]
        return len(ks) == 1 and ks[0] == pm.psize
    bad = 0
    for e in mc.events:
        if e.kind not in ('store', 'memcpy', 'memset'): continue
        ptrs = [e.x[0]] + ([e.x[1]] if e.kind == 'memcpy' else [])
        for x in ptrs:
            for g, l in leaves(x) if isinstance(x, M) else [(TRUE, x)]:
                if not isinstance(l, Ptr) or l.obj is None or l.obj.name not in ('ip', 'op', 'on'): continue
                if unsat(band(e.pc, g)): continue
                if not own(l.off):
                    bad += 1
                    rec.fail('%s: iteration p handles polytope p' % fn, where(fn, e.line), '%s: iteration p accesses %s at %s, outside polytope p' % (fn, l.obj.name, str(l.off)[:80]))
    for at in used_atoms(mc, False):
        if at.kind in ('init', 'rd') and isinstance(at.name, tuple) and at.name[0 if at.kind == 'init' else 1] in ('ip', 'op', 'on') and at.args and isinstance(at.args[0], P) and not own(at.args[0]):
            bad += 1
            if at.args[0].const() is not None or L.k.id in at.args[0].support:
                rec.fail('%s: iteration p handles polytope p' % fn, wh, '%s: iteration p reads %s at %s, outside polytope p' % (fn, at.name, str(at.args[0])[:80]))
            else: rec.und('%s: iteration p handles polytope p' % fn, str(at)[:80])
    if not bad: rec.ok('%s: iteration p reads and writes only inpolys[p], out_pos[p] and out_neg[p]' % fn)
    stale = 0
    for at in used_atoms(mc, False):
        if at.kind == 'rd' and isinstance(at.name, tuple) and isinstance(at.name[0], tuple) and at.name[0][0] == 'bar' and at.name[0][1] != L.id:
            # a local array read in an inner loop: what it holds when the outermost of those loops begins
            Li = mc.loops_seen.get(at.name[0][1])
            o = next((x for x in mc.heads if x.name == at.name[1]), None)
            if Li is None or o is None or o.kind != 'alloca' or L not in Li.outer: continue
            if any(AT.byid[a].kind in ('rd', 'lnk') for a in at.args[0].support): continue
            A_ = next((z for z in Li.outer if z.outer and z.outer[-1] is L), Li)
            try: val = constrain(mc.read(A_.saved.get(o), o, at.args[0], F64 if not at.isint else I32, 8 if not at.isint else 4, A_.pc0), A_.pc0)
            except Undecided: continue
            ids = set()
            for v in bsupport(val): ids |= set(getattr(T.VARS[v].term, 'support', ()))
            for l in leafset(val): ids |= set(getattr(l, 'support', ()))
            if any(AT.byid[i].kind == 'rd' and AT.byid[i].name[0] == ('bar', L.id) and AT.byid[i].name[1] == o.name for i in ids):
                stale += 1
                rec.fail('%s: scratch memory of an earlier polytope' % fn, wh, '%s: iteration p uses %s as an earlier polytope left it' % (fn, o.name))
                break
            continue
        if at.kind == 'rd' and isinstance(at.name, tuple) and at.name[0] == ('bar', L.id):
            o = next((x for x in mc.heads if x.name == at.name[1]), None)
            if o is None or o.kind != 'alloca': continue
            if any(AT.byid[a].kind in ('rd', 'lnk') for a in at.args[0].support): continue
            end = mc.at_end(L, o, at.args[0], F64 if not at.isint else I32, 8 if not at.isint else 4, L.latch_guard)
            if all(getattr(x, 'const', lambda: None)() is not None if isinstance(x, P) else fconst(x) is not None for x in leafset(end) if not isinstance(x, Ptr)): continue
            stale += 1
            rec.fail('%s: scratch memory of an earlier polytope' % fn, wh, '%s: iteration p uses %s as an earlier polytope left it' % (fn, o.name))
        elif isinstance(at.name, tuple) and len(at.name) == 2 and at.name[0] == L.id and at.kind in ('phi', 'cell', 'opq'):
            sl = next((q for q in list(L.phis.values()) + list(L.cells.values()) if q.atom is at), None)
            if sl is None or sl.cls == 'inv': continue
            stale += 1
            rec.fail('%s: value of an earlier polytope' % fn, wh, '%s: iteration p uses the value %s carried over from an earlier polytope' % (fn, str(at.name[1])[:60]))
    if not stale: rec.ok('%s: no scratch memory or value is carried over from one polytope to the next' % fn)
    for ex, lit in exitlits(L):
        if abnormal(mc, L, ex.g): continue
        cl = '%s: every polytope is split' % fn
        if implies(ex.g, icmp(kk, 'ge', np)): rec.ok(cl)
        else:
            cap = any(T.VARS[v].term is not None and isinstance(T.VARS[v].term, P) and abs(abs(T.VARS[v].term.m.get((), 0)) - pm.max) <= 2 for v in bsupport(ex.g))
            if cap: rec.ok('%s: returns early only when a buffer is full' % fn)
            else: rec.fail(cl, wh, '%s: the loop over the polytopes is left early' % fn)


def viaclip(rec):
    """rNd_split"""
    c = Cut('rN', 'ip')
    pm, fn = c.pm, 'rNd_split'
    for alias in (False, True):
        tag = fn + (' (output 0 is the input)' if alias else '')
        T.reset_caches()
        coord, ax = rpar('coord'), ipar('ax', 0, c.D - 1)
        outs = ('ip' if alias else 'op', 'on')
        calls = []

        def ext(mc, fr, x, nm, args, pc):
            if nm != 'rNd_clip': return None
            po, pl, n = args
            if po.var is not None or pl.var is not None: raise Undecided('clip arguments')
            calls.append((pc, po.leaf, pl.leaf, n, x.line, dict(mc.heads)))
            mc.havoc(po.leaf.obj, pc, mc.vid(fr, x), x.line, po.leaf.off, pm.psize)
            return I(0)

        def mk(mc):
            o = mc.newobj('outs', 'alloca', 16)
            for i in (0, 1): mc.write(Ptr(o, pc_(8 * i)), Ty('p'), 8, pobj(mc, outs[i]), TRUE, 'outs%d' % i, 0)
            return [pobj(mc, 'ip'), leaf(Ptr(o, ZERO)), leaf(coord), leaf(ax)]
        mc = run(rec, fn, [c.p], mk, ext=ext)
        byo = {}
        for z in calls: byo.setdefault(z[1].obj.name, []).append(z)
        for o, z in byo.items():
            if o not in outs: rec.fail('%s: only outputs are clipped' % tag, where(fn, z[0][4]), '%s clips %s' % (fn, o))
        q = generic_vertex(c.p)
        for n, o in enumerate(outs):
            z = byo.get(o, [])
            if len(z) != 1:
                (rec.fail if not z and calls else rec.und)(*(('%s: output %d is clipped once' % (tag, n), where(fn), '%s: output %d is clipped %d times' % (fn, n, len(z))) if not z and calls else ('%s: output %d is clipped once' % (tag, n), '%d clips' % len(z)))); continue
            pc, po, pl, np, line, heads = z[0]
            wh = where(fn, line)
            rd_ = lambda ob_, off, ty, sz: mc.read(heads.get(ob_), ob_, off, ty, sz, TRUE)
            same(rec, '%s: output %d is always clipped' % (tag, n), leaf(pc) if not isinstance(pc, M) else ite(pc, I(1), I(0)), I(1), TRUE, wh)
            same(rec, '%s: output %d is clipped by one plane' % (tag, n), np, I(1), TRUE, wh)
            if po.off.const() != 0: rec.fail('%s: output %d clipped whole' % (tag, n), wh, '%s clips at offset %s' % (fn, po.off))
            for what, off, ty, sz, want in [('vertex count', pc_(pm.nv), I32, 4, leaf(c.p.N))] + [('coordinate %d' % i, pm.a_pos(q, i), F64, 8, leaf(c.p.posF(q, pc_(i)))) for i in range(c.D)] + \
                    [('link %d' % j, pm.a_nb(q, j), I32, 4, leaf(c.p.nbP(q, j))) for j in range(pm.nbn)] + \
                    [('2-face (%d,%d)' % (i, j), pm.a_find(q, i, j), I32, 4, leaf(c.p.fndP(q, pc_(i), pc_(j)))) for i in range(c.D) for j in range(c.D)] + \
                    [('number of 2-faces', pc_(pm.nf), I32, 4, None)]:
                want = mc.initial(mc.objs['ip'], off, ty, sz) if want is None else want
                same(rec, '%s: output %d is the input before it is clipped: %s' % (tag, n, what), rd_(po.obj, off, ty, sz), want, TRUE, wh)
            sg = fc(-1) if n == 0 else fc(1)
            dv = rd_(pl.obj, pl.off + pm.pld, F64, 8)
            same(rec, '%s: plane distance for output %d is %scoord' % (tag, n, '' if n == 0 else '-'), dv, leaf(fmul(fneg(sg), coord)), TRUE, wh)
            for i in range(c.D):
                got = rd_(pl.obj, pl.off + pm.pln + 8 * i, F64, 8)
                same(rec, '%s: plane normal for output %d, component %d' % (tag, n, i), got, ite(icmp(ax, 'eq', pc_(i)), leaf(sg), leaf(fc(0))), TRUE, wh)
        # nothing is done to the outputs afterwards
        after = [e for e in mc.events if e.kind in ('store', 'memcpy', 'memset') and e.line > max([z[4] for z in calls] or [10 ** 9])]
        for e in after:
            for g, l in leaves(e.x[0]) if isinstance(e.x[0], M) else [(TRUE, e.x[0])]:
                if isinstance(l, Ptr) and l.obj is not None and l.obj.name in outs: rec.und('%s: outputs after clipping' % tag, 'line %d' % e.line)


ob('rN split', 120)(viaclip)
for k_ in ('r2', 'r3'):
    ob('%s_split many' % k_, 300)(lambda rec, k=k_: many(rec, k))
for k_ in ('r2', 'r3'):
    def mk_(k):
        for kind in ('split', 'split_coord'):
            def mk3(kind):
                ob('%s_%s inside' % (k, kind), 120)(lambda rec: onesided(rec, k, kind, 'in'))
                ob('%s_%s outside' % (k, kind), 120)(lambda rec: onesided(rec, k, kind, 'out'))
                if kind == 'split': ob('%s_%s empty' % (k, kind), 120)(lambda rec: empty(rec, k, kind))
                else:
                    ob('%s_%s inside in place' % (k, kind), 120)(lambda rec: onesided(rec, k, kind, 'in', True))
                    ob('%s_%s outside in place' % (k, kind), 120)(lambda rec: onesided(rec, k, kind, 'out', True))
                ob('%s_%s cut' % (k, kind), 300)(lambda rec: mixed(rec, k, kind))
            mk3(kind)
    mk_(k_)
