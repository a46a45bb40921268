"""P08: shift_moments is the exact translation of a moment list and poly_center the average of the vertices.
shift_moments: for every order analysed, each value left in the list must be, as a polynomial in the old values and the shift, the
binomial sum over the documented monomials; moment 0 and everything behind the list keep their value, whatever the numbers are.
poly_center: closed form of the vertex loop; the result is the sum of the positions over the number of vertices."""
from engine.fw import *
from checks.p05 import monos, shift_back, kap, evalsum, leaf_for

LEVEL = 'proof'
ASSUME = ['pow with an integer exponent is the integer power']


def shift(rec, D, order):
    fn = 'r%dd_shift_moments' % D
    need(fn)
    vn = ['vc.%s' % 'xyz'[i] for i in range(D)]
    if D == 2: mk = lambda mc: [pobj(mc, 'mom'), I(order), leaf(rpar('vc.x')), leaf(rpar('vc.y'))]
    else: mk = lambda mc: [pobj(mc, 'mom'), I(order), pobj(mc, 'vc')]
    mc = run(rec, fn, [], mk)
    wh = where(fn)
    t = [rpar('vc.x'), rpar('vc.y')] if D == 2 else [T._only_leaf(inputs_r(mc, 'vc', 8 * i)) for i in range(3)]
    ms = monos(D, order)
    old = {a: inputs_r(mc, 'mom', 8 * m) for m, a in enumerate(ms)}
    old = {a: (x if isinstance(x, F) else x.leaf) for a, x in old.items()}
    for m, a in enumerate(ms):
        same(rec, '%s order %d: moment %d (%s) is translated exactly' % (fn, order, m, ' '.join('xyz'[i] + str(e) for i, e in enumerate(a))),
             rd(mc, 'mom', 8 * m), leaf(shift_back(lambda b: old[b], a, t)), mc.g, wh, key='%s order %d moment %d' % (fn, order, m))
    b = len(ms)
    for k in (-1, b, b + 1):
        same(rec, '%s order %d: entry %d, outside the list, is not touched' % (fn, order, k), rd(mc, 'mom', 8 * k), inputs_r(mc, 'mom', 8 * k), mc.g, wh)


def part(v, i):
    if not isinstance(v, tuple) or len(v) <= i: raise Undecided('return value')
    return v[i]


def average(rec, cl, f, want, p, i, wh):
    if f is None: return rec.und(cl, 'conditional value')
    if f.fp == want.fp: return rec.ok(cl)
    if imprecise(f): return rec.und(cl, str(f)[:200])
    try:
        for n in (1, 2, 3, 4, 5, 7):
            a = evalsum(f, p, n, None)
            b = fc(0)
            for v in range(n): b = fadd(b, p.posF(pc_(v), pc_(i)))
            b = fdiv(b, fc(n))
            if a.fp != b.fp and not numerically_equal(a, b): return rec.fail(cl, wh, '%s: for %d vertices the value is %s' % (cl, n, str(a)[:300]))
        rec.ok(cl + ' (closed form compared for 1..7 vertices)')
    except Undecided as e: rec.und(cl, e)


def center(rec, D):
    pm = Env.PMs['r%d' % D]
    fn = 'r%dd_poly_center' % D
    need(fn)
    p = PolyIn(pm, 'poly')
    sret = D == 3
    mc = run(rec, fn, [p], lambda mc: [pobj(mc, 'out'), pobj(mc, 'poly')] if sret else [pobj(mc, 'poly')])
    wh = where(fn)
    pos = icmp(p.N, 'gt', ZERO)
    for i in range(D):
        want = fdiv(fsum(p.posF(kap(), pc_(i)), p.N, 0), fint(p.N))
        got = rd(mc, 'out', 8 * i) if sret else part(mc.ret, i)
        average(rec, '%s: component %d is the average over all vertices' % (fn, i), leaf_for(got, mc.g, pos), want, p, i, wh) if leaf_for(got, mc.g, pos) is not None else same(rec, '%s: component %d is the average over all vertices' % (fn, i), got, leaf(want), band(mc.g, pos), wh)
    vv = ipar('v', 0, None)
    for i in range(D):
        o = pm.verts + pm.pos + pm.rs * i
        same(rec, '%s: component %d of the positions is unchanged' % (fn, i), rd(mc, 'poly', vv.scale(pm.vs) + o), leaf(p.posF(vv, pc_(i))), mc.g, wh)


for o_ in range(8):
    def mk_(o):
        @ob('r2d_shift_moments order %d' % o, 200, thorough=o > 6)
        def f(rec): shift(rec, 2, o)
        if o < 7:
            @ob('r3d_shift_moments order %d' % o, 400, thorough=o > 4)
            def g(rec): shift(rec, 3, o)
    mk_(o_)
for d_ in (2, 3):
    def mc_(d):
        @ob('r%dd_poly_center' % d, 100)
        def f(rec): center(rec, d)
    mc_(d_)
