"""Rule: get_ibox must write, per axis, floor(min/spacing) and ceil(max/spacing), where min and max are running extrema (recognised as
loop slots with next = min/max(slot, coordinate of vertex k)) that start at a sentinel beyond every coordinate and cover every vertex.
clamp_ibox must (a) empty the polytope and zero the box exactly when the boxes do not overlap on some axis, (b) otherwise write the
intersection of the two boxes and pass to clip, unless the list is empty, exactly the planes of those clamp faces that cut the old box,
each with an inward axis normal and the offset clamp index times spacing, and write nothing else."""
from engine.fw import *

LEVEL = 'proof'
ASSUME = ['get_ibox: the polytope is not empty and coordinates are smaller in magnitude than the 1e30 sentinel',
          'clamp_ibox: clip itself is summarised (its behaviour is properties P06/P08)']


def spacing(k, mc):
    pm = Env.PMs[k]
    if k == 'r2': return [leaf(rpar('d0')), leaf(rpar('d1'))], [rpar('d0'), rpar('d1')]
    return [pobj(mc, 'd')], [T._only_leaf(mc.initial(mc.param_obj('d'), pc_(8 * i), F64, 8)) for i in range(pm.dim)]


def get_ibox(rec, k):
    pm = Env.PMs[k]
    fn = pm.pre + '_get_ibox'
    p = PolyIn(pm, 'poly', lo=1)
    ds = []

    def mk(mc):
        a, dd = spacing(k, mc)
        ds.extend(dd)
        return [pobj(mc, 'poly'), pobj(mc, 'ibox')] + a
    mc = run(rec, fn, [p], mk, force=8)
    # running extrema
    good = {}      # slot atom id -> (kind, coordinate)
    for info, s in all_slots(mc):
        e = extremum(info, s)
        if e is None or info.N is None: continue
        kind, b = e
        sh = None
        for i in range(pm.dim):
            for c in (0, 1):
                if b.fp == p.posF(pa(info.k) + c, i).fp: sh = (c, i)
        if sh is None: continue
        c, i = sh
        init = s.init.leaf if s.init.var is None else None
        ci = fconst(init) if isinstance(init, F) else None
        wide = ci is not None and (ci >= 10 ** 29 if kind == 'min' else ci <= -10 ** 29)
        first = isinstance(init, F) and init.fp == p.posF(ZERO, i).fp
        cover = (info.N.fp == (p.N - c).fp) if isinstance(info.N, P) else False
        if cover and ((c == 0 and (wide or first)) or (c == 1 and first)):
            f = slot_final(mc, info, s)
            if f is not None and f.var is None: good[(kind, i)] = T._tof(f.leaf); rec.ok('%s: running %s of coordinate %d covers all vertices' % (fn, kind, i))
    slotatoms = {}
    for info, s in all_slots(mc):
        if not s.isint and not s.isptr: slotatoms[s.atom.name] = (info, s)
    for i in range(pm.dim):
        for j, (kind, f) in enumerate((('min', 'floor'), ('max', 'ceil'))):
            cl = '%s: ibox[%d] axis %d is %s(%s/d)' % (fn, j, i, f, kind)
            got = rd(mc, 'ibox', 4 * (pm.dim * j + i), I32)
            if (kind, i) in good:
                q = fdiv(good[(kind, i)], ds[i])
                want = leaf(pa(AT.get('int', f, (q,))))
                same(rec, cl, got, want, mc.g, where(fn), allow=('phi',), key=cl)
                continue
            # which loop slot feeds it?
            sup = [AT.byid[a] for l in leafset(got) if not isinstance(l, T.Undef) for a in l.support if AT.byid[a].kind == 'phi']
            cand = [slotatoms[a.name] for a in sup if a.name in slotatoms]
            if not sup:
                same(rec, cl, got, leaf(pa(AT.get('int', f, (fdiv(rpar('extremum'), ds[i]),)))), mc.g, where(fn), key=cl)
                continue
            bad = None
            for info, s in cand:
                e = extremum(info, s)
                if e is not None and not imprecise(e[1], ('iv',)) and info.N is not None and not imprecise(info.N):
                    bad = 'the running %s of %s over %s iterations does not cover the vertices of axis %d' % (e[0], e[1], info.N, i)
                elif base_refuted(info, s, p, i, kind):
                    bad = 'after the first vertex the running %s of axis %d is not that vertex coordinate' % (kind, i)
            if bad: rec.fail(cl, where(fn, cand[0][0].line), bad)
            else: rec.und(cl, 'the reduction over vertices was not recognised')


def base_refuted(info, s, p, i, kind):
    """first iteration, started from the initial values, leaves the slot different from coordinate i of vertex 0 although that
    coordinate lies strictly between the sentinels"""
    mp = {info.k.id: ZERO}
    for t in list(info.phis.values()) + list(info.cells.values()):
        if t.isptr or t.init.var is not None or t.cls in ('inv', 'iv', 'dep'): continue
        mp[t.atom.id] = t.init.leaf
    n = Subst(mp).m(constrain(s.next, info.latch_guard))
    c = p.posF(ZERO, i)
    big = fc(Fraction(10 ** 29))
    g = band(rcmp(c, 'lt', big), rcmp(c, 'gt', fneg(big)))
    for gg, l in leaves(n):
        if imprecise_cond(gg) or not isinstance(l, (F, P)): continue
        if T._tof(l).fp == c.fp: continue
        # are all of the conditions on this leaf comparisons of the coordinate with a sentinel, satisfied inside?
        okc = True
        for cu in cubes(gg, 50):
            okc = True
            for v, pol in cu:
                x = T.VARS[v]
                if x.kind != 'f' or x.term.support != c.support: okc = False; break
                # value of term at c = 0 decides its sign inside (-1e29,1e29) when the constant part dominates
                z = T._only_leaf(Subst({a: fc(0) for a in c.support}).f(x.term))
                zc = fconst(z)
                if zc is None or abs(zc) < 10 ** 29: okc = False; break
                truth = (x.sub == 'L') and zc < 0
                if truth != pol: okc = False; break
            if okc: break
        if okc: return True
    return False


def clamp(rec, k):
    pm = Env.PMs[k]
    D = pm.dim
    fn = pm.pre + '_clamp_ibox'
    p = PolyIn(pm, 'poly')
    ds = []

    def mk(mc):
        a, dd = spacing(k, mc)
        ds.extend(dd)
        return [pobj(mc, 'poly'), pobj(mc, 'ibox'), pobj(mc, 'clampbox')] + a

    def ext(mc, fr, x, nm, args, pc):
        if nm != pm.pre + '_clip': return None
        mc.event('clip', fr, x, pc, args)
        # state of the plane list at the call
        mc.clips = getattr(mc, 'clips', [])
        mc.clips.append((pc, args, dict(mc.heads), x.line))
        for g, l in leaves(args[0]):
            if isinstance(l, Ptr): mc.havoc(l.obj, band(pc, g), mc.vid(fr, x), x.line, l.off, pm.psize)
        return I(1)
    mc = run(rec, fn, [p], mk, force=8, ext=ext)
    W = where(fn)
    ini = lambda o, j, i: T._only_leaf(mc.initial(mc.objs[o], pc_(4 * (D * j + i)), I32, 4))
    I0 = [ini('ibox', 0, i) for i in range(D)]
    I1 = [ini('ibox', 1, i) for i in range(D)]
    C0 = [ini('clampbox', 0, i) for i in range(D)]
    C1 = [ini('clampbox', 1, i) for i in range(D)]
    disj = FALSE
    for i in range(D): disj = bor(disj, bor(icmp(I1[i], 'le', C0[i]), icmp(I0[i], 'ge', C1[i])))
    over = bnot(disj)
    g = mc.g
    nv = rd(mc, 'poly', pm.nv, I32)
    same(rec, '%s: disjoint boxes empty the polytope' % fn, constrain(nv, disj), I(0), band(g, disj), W)
    for j in range(2):
        for i in range(D):
            got = rd(mc, 'ibox', 4 * (D * j + i), I32)
            want = ite(icmp(I0[i], 'lt', C0[i]), leaf(C0[i]), leaf(I0[i])) if j == 0 else ite(icmp(I1[i], 'gt', C1[i]), leaf(C1[i]), leaf(I1[i]))
            want = ite(disj, I(0), want)
            same(rec, '%s: ibox[%d] axis %d' % (fn, j, i), got, want, g, W)
            same(rec, '%s: clampbox[%d] axis %d unchanged' % (fn, j, i), rd(mc, 'clampbox', 4 * (D * j + i), I32), leaf((C0, C1)[j][i]), g, W)
    # planes handed to clip
    cuts = []
    for i in range(D):
        cuts.append((band(over, icmp(I0[i], 'lt', C0[i])), i, 1, fneg(fmul(fint(C0[i]), ds[i]))))
        cuts.append((band(over, icmp(I1[i], 'gt', C1[i])), i, -1, fmul(fint(C1[i]), ds[i])))
    anyc = FALSE
    for c in cuts: anyc = bor(anyc, c[0])
    called = FALSE
    clips = getattr(mc, 'clips', [])
    for pc, args, heads, line in clips:
        called = bor(called, pc)
    must(rec, '%s: clip is called whenever a clamp face cuts the box' % fn, band(g, anyc), called, W)
    if len(clips) > 1:
        rec.und('%s: planes passed to clip' % fn, 'several clip calls'); return
    for pc, args, heads, line in clips:
        W2 = where(fn, line)
        same(rec, '%s: the polytope itself is clipped' % fn, args[0], pobj(mc, 'poly'), pc, W2)
        must(rec, '%s: disjoint boxes are not clipped' % fn, band(pc, disj), FALSE, W2)
        n = constrain(args[2], pc)
        must(rec, '%s: at most %d planes' % (fn, 2 * D), pc, mcmp_i(n, 'le', I(2 * D)), W2)
        try:
            planes = []
            for q in range(2 * D):
                row = []
                for off in [pm.pln + pm.rs * i for i in range(D)] + [pm.pld]:
                    v = None
                    for gg, l in leaves(args[1]):
                        if not isinstance(l, Ptr): raise Undecided('plane list pointer')
                        r = mc.read(heads.get(l.obj), l.obj, l.off + pm.pls * q + off, F64, 8, pc)
                        v = r if v is None else ite(gg, r, v)
                    row.append(v)
                planes.append(row)
            isface = {}
            for c, i, sg, dd in cuts:
                for q in range(2 * D):
                    eq = mcmp_i(n, 'gt', I(q))
                    for a in range(D):
                        eq = band(eq, map1(lambda l, a=a: TRUE if not isinstance(l, T.Undef) and T._tof(l).fp == fc(sg if a == i else 0).fp else FALSE, planes[q][a]))
                    isface[(i, sg, q)] = band(eq, map1(lambda l: TRUE if not isinstance(l, T.Undef) and T._tof(l).fp == dd.fp else FALSE, planes[q][D]))
            for q in range(2 * D):
                any_ = FALSE
                for (i, sg, qq), e in isface.items():
                    if qq == q: any_ = bor(any_, e)
                must(rec, '%s: plane %d of the list is a clamp face' % (fn, q), band(pc, mcmp_i(n, 'gt', I(q))), any_, W2)
            # every needed face is in the list, in some position below the count
            for c, i, sg, dd in cuts:
                found = FALSE
                for q in range(2 * D): found = bor(found, isface[(i, sg, q)])
                must(rec, '%s: %s clamp face of axis %d is clipped against when it cuts the box' % (fn, 'lower' if sg > 0 else 'upper', i),
                     band(pc, c), found, W2)
        except Undecided as e:
            rec.und('%s: planes passed to clip' % fn, e)
    # nothing else written to the polytope
    q = generic_vertex(p)
    for a in range(D):
        same(rec, '%s: positions untouched when not clipped' % fn, rd(mc, 'poly', pm.a_pos(q, a), F64, band(g, bnot(called))), leaf(p.posF(q, a)), band(g, bnot(called)), W)
    ins = band(g, bnot(bor(anyc, bor(disj, called))))
    same(rec, '%s: vertex count untouched when the box lies inside' % fn, rd(mc, 'poly', pm.nv, I32, ins), leaf(p.N), ins, W)


for k in ('r2', 'r3', 'rN'):
    ob('%s get_ibox' % k, 200)(lambda rec, k=k: get_ibox(rec, k))
    ob('%s clamp_ibox' % k, 300)(lambda rec, k=k: clamp(rec, k))
