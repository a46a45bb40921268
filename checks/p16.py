"""Rule: the generic step of the subdivision loop of rasterize/voxelize, for any popped element with index box B (all sides >= 1):
an empty element is dropped; a single-cell element is reduced and its moments are added, moment by moment, to the grid cell with
row-major index of B relative to the requested box, and nothing else in the grid is written; any larger element is split at the plane
coord = spacing * cut on an axis where cut is strictly inside B, the lower fragment gets the box below the cut and the upper fragment
the box above it, both stay on the stack and nothing below them changes.  The first element is the input polytope with the requested
box.  The stack is long enough for the deepest subdivision.  Bad arguments write nothing."""
from engine.fw import *

LEVEL = 'proof'
ASSUME = ['split_coord / rNd split write only their input and output polytopes, reduce only its moments (their behaviour is P05/P07)',
          'grid dimensions whose cell count fits an int; moment orders 0..2 (N dimensions: 0)']
NAMES = {'r2': 'r2d_rasterize', 'r3': 'r3d_voxelize', 'rN': 'rNd_voxelize'}


def setup(rec, k, order, ibox=None):
    pm = Env.PMs[k]
    D = pm.dim
    fn = NAMES[k]
    p = PolyIn(pm, 'poly')
    st = {'splits': [], 'reduces': []}

    def mk(mc):
        st['d'] = [rpar('d0'), rpar('d1')] if k == 'r2' else \
            [T._only_leaf(mc.initial(mc.param_obj('d'), pc_(8 * i), F64, 8)) for i in range(D)]
        d = [leaf(x) for x in st['d']] if k == 'r2' else [pobj(mc, 'd')]
        return [pobj(mc, 'poly'), pobj(mc, 'ibox'), pobj(mc, 'grid')] + d + [I(order)]

    def ext(mc, fr, x, nm, args, pc):
        if nm in (pm.pre + '_split_coord', 'rNd_split'):
            outs = []
            for q in range(2):
                o = None
                for g, l in leaves(args[1]):
                    if not isinstance(l, Ptr): raise Undecided('list of outputs')
                    v = mc.read(mc.heads.get(l.obj), l.obj, l.off + 8 * q, PTR, 8, band(pc, g))
                    o = v if o is None else ite(g, v, o)
                outs.append(o)
            for a in [args[0]] + outs:
                for h, l in leaves(a):
                    if not isinstance(l, Ptr): raise Undecided('split output')
                    mc.havoc(l.obj, band(pc, h), mc.vid(fr, x), x.line, l.off, pm.psize)
            mc.event('split', fr, x, pc, (pc, args, outs, dict(mc.heads), x.line, list(mc.loopstack), 0))
            return I(0)
        if nm == pm.pre + '_reduce':
            for h, l in leaves(args[1]):
                if not isinstance(l, Ptr): raise Undecided('moment buffer')
                mc.havoc(l.obj, band(pc, h), mc.vid(fr, x), x.line)
            mc.event('reduce', fr, x, pc, (pc, args, dict(mc.heads), x.line, list(mc.loopstack), 0))
            return I(0)
        return None
    mc = run(rec, fn, [p], mk, ext=ext, force=8)
    for e in mc.events:
        if e.kind in ('split', 'reduce'): st[e.kind + 's'].append(e.x)
    return pm, D, fn, p, st, mc


def basis(mc, obj, head):
    """offsets in obj at which the input polytope and the requested box were put before the loop"""
    pb = bb = None
    n = head
    while n is not None:
        if n.kind == 'cp' and n.off is not None:
            so, soff = n.x[0], n.x[1]
            if so.name == 'poly' and pb is None: pb = n.off - soff
            if so.name == 'ibox' and bb is None: bb = n.off - soff
        if n.kind == 'w' and bb is None and n.val.var is None and isinstance(n.val.leaf, P):
            for a in n.val.leaf.support:
                at = AT.byid[a]
                if at.kind == 'init' and at.name[0] == 'ibox' and n.val.leaf.fp == pa(at).fp: bb = n.off - at.args[0]
        n = n.prev
    return pb, bb


def step(rec, k, order):
    pm, D, fn, p, st, mc = setup(rec, k, order)
    W = where(fn)
    PRE = '%s order %d: ' % (fn, order)
    nmom = 1 if k == 'rN' else getattr(Env.L, '%s_nm%d' % (k, order))
    if len(st['splits']) != 1:
        rec.und(PRE + 'subdivision step', 'expected one split site, found %d' % len(st['splits'])); return
    pcS, aS, outs, hS, lineS, lsS, _ = st['splits'][0]
    if not lsS: rec.und(PRE + 'subdivision step', 'split is not in a loop'); return
    info = lsS[0]
    if len(lsS) != 1: rec.und(PRE + 'subdivision step', 'split is in a nested loop'); return
    if aS[0].var is not None or not isinstance(aS[0].leaf, Ptr): rec.und(PRE + 'subdivision step', 'split input pointer'); return
    ob_, offE = aS[0].leaf.obj, aS[0].leaf.off
    pb, bb = basis(mc, ob_, info.saved.get(ob_))
    if pb is None or bb is None: rec.und(PRE + 'subdivision step', 'stack layout not recognised'); return
    # element size and stack height
    hs = [(s, c) for _, s in all_slots(mc) if _ is info and s.isint and not s.isptr and s.cls == 'op' for c in [offE.coef(s.atom.id)] if c]
    if len(hs) != 1: rec.und(PRE + 'subdivision step', 'stack height not recognised'); return
    hgt, S = hs[0]
    S = int(S)
    if offE.fp != (pa(hgt.atom).scale(S) - S + pb).fp: rec.und(PRE + 'subdivision step', 'element addressing'); return
    n = pa(hgt.atom)
    rd0 = lambda off, ty, pc: mc.at_start(info, ob_, off, ty, 8 if ty in (F64, PTR) else 4, pc)
    rd1 = lambda off, ty, pc: mc.at_end(info, ob_, off, ty, 8 if ty in (F64, PTR) else 4, pc)
    box = lambda e, j, i: e - pb + bb + 4 * (D * j + i)
    pc0 = info.pc0
    ini = [[T._only_leaf(mc.initial(mc.objs['ibox'], pc_(4 * (D * j + i)), I32, 4)) for i in range(D)] for j in range(2)]
    grid = [ini[1][i] - ini[0][i] for i in range(D)]
    valid = icmp(p.N, 'gt', ZERO)
    for i in range(D): valid = band(valid, icmp(grid[i], 'gt', ZERO))
    # --- start
    must(rec, PRE + 'a non-empty polytope and box is processed', valid, pc0, W, allow=('nonnull',))
    must(rec, PRE + 'bad arguments are not processed', pc0, valid, W)
    rdS = lambda off, ty: mc.read(info.saved.get(ob_), ob_, off, ty, 8 if ty is F64 else 4, pc0)
    q = generic_vertex(p)
    same(rec, PRE + 'one element at the start', hgt.init, I(1), pc0, W)
    same(rec, PRE + 'first element is the polytope (count)', rdS(pb + pm.nv, I32), leaf(p.N), pc0, W)
    for i in range(D): same(rec, PRE + 'first element is the polytope (positions)', rdS(pb + pm.a_pos(q, i), F64), leaf(p.posF(q, i)), pc0, W)
    for i in range(pm.nbn): same(rec, PRE + 'first element is the polytope (links)', rdS(pb + pm.a_nb(q, i), I32), leaf(p.nbP(q, i)), pc0, W)
    for j in range(2):
        for i in range(D): same(rec, PRE + 'first element has the requested box', rdS(bb + 4 * (D * j + i), I32), leaf(ini[j][i]), pc0, W)
    # --- step
    OPQ = ('rd', 'phi', 'ret', 'hav', 'iv', 'int:div')
    B = []
    for j in range(2):
        row = []
        for i in range(D):
            v = rd0(box(offE, j, i), I32, pc0)
            if v.var is not None: rec.und(PRE + 'step', 'box of the popped element'); return
            row.append(v.leaf)
        B.append(row)
    NVm = rd0(offE + pm.nv, I32, pc0)
    NV = NVm.leaf
    A = band(pc0, icmp(n, 'gt', ZERO))
    single = TRUE
    for i in range(D):
        A = band(A, icmp(B[1][i] - B[0][i], 'gt', ZERO))
        single = band(single, icmp(B[1][i] - B[0][i], 'le', ONE))
    full = icmp(NV, 'gt', ZERO)
    AL = OPQ
    leafpc = FALSE
    for r in st['reduces']: leafpc = bor(leafpc, r[0])
    must(rec, PRE + 'every non-empty multi-cell element is split', band(A, band(full, bnot(single))), pcS, where(fn, lineS), allow=AL)
    must(rec, PRE + 'only non-empty multi-cell elements are split', band(A, pcS), band(full, bnot(single)), where(fn, lineS), allow=AL)
    must(rec, PRE + 'every non-empty single-cell element is reduced', band(A, band(full, single)), leafpc, W, allow=AL)
    must(rec, PRE + 'only non-empty single-cell elements are reduced', band(A, leafpc), band(full, single), W, allow=AL)
    lg = info.latch_guard
    must(rec, PRE + 'the loop runs until the stack is empty', A, lg, W, allow=AL)
    G = band(A, pcS)
    WS = where(fn, lineS)
    same(rec, PRE + 'a split leaves one more element', constrain(hgt.next, band(G, lg)), leaf(n + 1), band(G, lg), WS, allow=AL)
    ng = band(band(A, lg), bnot(pcS))
    same(rec, PRE + 'a leaf or empty element is popped', constrain(hgt.next, ng), leaf(n - 1), ng, W, allow=AL)
    # outputs
    o0, o1 = constrain(outs[0], G), constrain(outs[1], G)
    lo = up = None
    if o0.var is None and o1.var is None and isinstance(o0.leaf, Ptr) and isinstance(o1.leaf, Ptr) and o0.leaf.obj is ob_ and o1.leaf.obj is ob_:
        lo, up = o0.leaf.off, o1.leaf.off
        okp = {lo.fp, up.fp} == {offE.fp, (offE + S).fp}
        if okp: rec.ok(PRE + 'both fragments stay on the stack')
        elif imprecise(lo, AL) or imprecise(up, AL): rec.und(PRE + 'both fragments stay on the stack', '')
        else: rec.fail(PRE + 'both fragments stay on the stack', WS, 'fragments are put at %s and %s' % (lo, up))
    else: rec.und(PRE + 'both fragments stay on the stack', 'output pointers')
    if lo is not None:
        L = [[constrain(rd1(box(lo, j, i), I32, G), G) for i in range(D)] for j in range(2)]
        U = [[constrain(rd1(box(up, j, i), I32, G), G) for i in range(D)] for j in range(2)]
        ax = constrain(aS[3], G)
        must(rec, PRE + 'split axis is valid', G, band(mcmp_i(ax, 'ge', I(0)), mcmp_i(ax, 'lt', I(D))), WS, allow=AL)
        for a in range(D):
            ga = band(G, mcmp_i(ax, 'eq', I(a)))
            if ga is FALSE or unsat(ga): continue
            cut = constrain(U[0][a], ga)
            same(rec, PRE + 'axis %d: the boxes meet at the cut' % a, constrain(L[1][a], ga), cut, ga, WS, allow=AL)
            must(rec, PRE + 'axis %d: the cut is strictly inside the box' % a, ga, band(mcmp_i(cut, 'gt', leaf(B[0][a])), mcmp_i(cut, 'lt', leaf(B[1][a]))), WS, allow=AL)
            # the fragment put on top of the stack must be at most half as long: this bounds the height by the sum of log2 of the sides
            size = map1(lambda l: (B[1][a] - l).scale(2) if isinstance(l, P) else T.UNDEF, cut) if up.fp == (offE + S).fp else \
                map1(lambda l: (l - B[0][a]).scale(2) if isinstance(l, P) else T.UNDEF, cut)
            must(rec, PRE + 'axis %d: the fragment pushed on top has at most half the cells' % a, ga, mcmp_i(size, 'le', leaf(B[1][a] - B[0][a] + 1)), WS, allow=AL)
            same(rec, PRE + 'axis %d: the plane lies on the cut' % a, constrain(aS[2], ga),
                 map1(lambda l: fmul(st['d'][a], fint(l)) if isinstance(l, P) else T.UNDEF, cut), ga, WS, allow=AL)
            for j in range(2):
                for i in range(D):
                    if not (i == a and j == 1): same(rec, PRE + 'axis %d: lower box side %d,%d' % (a, j, i), constrain(L[j][i], ga), leaf(B[j][i]), ga, WS, allow=AL)
                    if not (i == a and j == 0): same(rec, PRE + 'axis %d: upper box side %d,%d' % (a, j, i), constrain(U[j][i], ga), leaf(B[j][i]), ga, WS, allow=AL)
        # the fragments are what split wrote
        for nm, off in (('lower', lo), ('upper', up)):
            for ty, o in ((I32, pm.nv), (F64, pm.a_pos(q, 0)), (I32, pm.a_nb(q, 0))):
                save, mc.loopstack = mc.loopstack, [info]
                w = mc.read(hS.get(ob_), ob_, off + o, ty, 8 if ty is F64 else 4, G)
                mc.loopstack = save
                same(rec, PRE + 'the %s fragment is left as split made it' % nm, constrain(rd1(off + o, ty, G), G), constrain(w, G), G, WS, allow=AL)
    # elements below the popped one
    ta = AT.get('par', ('below',), (), lo=0)
    ta.facts = [n - pa(ta) - 2]
    below = pa(ta).scale(S) + pb
    gb = band(A, band(lg, icmp(n, 'ge', pc_(2))))
    for ty, o in ((I32, pm.nv), (I32, pm.a_nb(q, 0)), (I32, bb - pb), (I32, bb - pb + 4 * (2 * D - 1))):
        same(rec, PRE + 'elements below are not touched', constrain(rd1(below + o, ty, gb), gb), constrain(rd0(below + o, ty, gb), gb), gb, W, allow=AL)
    # --- accumulation
    gr = mc.objs['grid']
    idx = ZERO
    for i in range(D):
        strd = ONE
        for j in range(i + 1, D): strd = strd * grid[j]
        idx = idx + (B[0][i] - ini[0][i]) * strd
    GL = band(A, band(full, single))
    if len(st['reduces']) != 1: rec.und(PRE + 'accumulation', 'several reduce sites'); return
    pcR, aR, hR, lineR, lsR, _ = st['reduces'][0]
    WR = where(fn, lineR)
    same(rec, PRE + 'the popped polytope is reduced', aR[0], leaf(Ptr(ob_, offE)), band(A, pcR), WR, allow=AL)
    same(rec, PRE + 'the requested order is reduced', aR[2], I(order), band(A, pcR), WR, allow=AL)
    offs = set()
    for m in range(nmom):
        off = (idx.scale(nmom) + m).scale(8)
        offs.add(off.fp)
        got = mc.at_end(info, gr, off, F64, 8, GL)
        old = mc.at_start(info, gr, off, F64, 8, GL)
        mp = aR[1].leaf if aR[1].var is None else None
        if not isinstance(mp, Ptr): rec.und(PRE + 'accumulation', 'moment buffer'); return
        save, mc.loopstack = mc.loopstack, [info]
        mom = mc.read(hR.get(mp.obj), mp.obj, mp.off + 8 * m, F64, 8, GL)
        mc.loopstack = save
        same(rec, PRE + 'moment %d is added to its grid cell' % m, constrain(got, GL), constrain(radd(old, mom), GL), GL, WR, allow=AL)
    for e in mc.events:
        if e.kind != 'store': continue
        for g, l in leaves(e.x[0]) if hasattr(e.x[0], 'var') else [(TRUE, e.x[0])]:
            if not isinstance(l, Ptr) or l.obj is not gr: continue
            cl = PRE + 'only the cell of the element is written'
            ee = band(e.pc, g)
            inloop = e.loops and e.loops[0] is info
            if not inloop: must(rec, cl, ee, FALSE, where(e.fn, e.line)); continue
            if l.off.fp in offs: rec.ok(cl); continue
            if band(ee, A) is FALSE or unsat(band(ee, A)): continue
            if imprecise(l.off, AL): rec.und(cl, l.off)
            else: rec.fail(cl, where(e.fn, e.line), 'store to grid offset %s' % l.off)
    for e in mc.events:
        if e.kind in ('memcpy', 'memset'):
            for l in leafset(e.x[0]):
                if isinstance(l, Ptr) and l.obj is gr: rec.fail(PRE + 'block write to the grid', where(e.fn, e.line), 'the grid is overwritten')
    # --- capacity
    size = ob_.size
    if ob_.kind != 'alloca' or size is None: rec.und(PRE + 'stack capacity', 'stack is not a local array'); return
    ids = {next(iter(ini[j][i].support)): (j, i) for j in range(2) for i in range(D)}
    bad = None
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129]
    import itertools as it
    cnt = 0
    for c in it.product(sizes, repeat=D):
        if D == 4 and (sum(c) * 7919 + c[0] + c[1] * 3) % 97: continue
        memo = {}
        for aid, (j, i) in ids.items(): memo[('a', aid)] = float(c[i] if j == 1 else 0)
        try: v = feval(size, 1, memo)
        except (ValueError, ZeroDivisionError): v = None
        if v is None: bad = bad or (c, None); continue
        cnt += 1
        needed = sum((x - 1).bit_length() for x in c) + 1
        if v < needed * S - 1e-6: bad = (c, v / S, needed); break
    if not (size.support <= set(ids)) and any(AT.byid[a].kind not in ('fn', 'int', 'fptosi', 'init') for a in size.support): rec.und(PRE + 'stack capacity', 'size depends on %s' % size)
    elif bad and bad[1] is not None: rec.fail(PRE + 'stack capacity', where(fn, ob_.line), 'grid %s needs %d elements, the stack has %g' % (bad[0], bad[2], bad[1]))
    elif bad: rec.und(PRE + 'stack capacity', bad)
    else: rec.ok(PRE + 'stack capacity: %d grid shapes' % cnt)


for k in ('r2', 'r3', 'rN'):
    for o in ((0, 1, 2) if k != 'rN' else (0,)):
        ob('%s order %d' % (k, o), 300)(lambda rec, k=k, o=o: step(rec, k, o))
