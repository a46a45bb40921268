"""Rule: the planes written by every *_faces_from_verts routine must be, up to order, exactly the face planes of the documented
solid: unit normal, pointing to the inside of a positively oriented solid, passing through the face's vertices.  Box, tetrahedron
and the 2D polygon (generic edge of a polygon with any vertex count) are decided as identities over all coordinates; the general
polyhedron routine for a generic face in a generic face list, in face-size contexts 3..6."""
from engine.fw import *
from checks.p02 import det3, corner

LEVEL = 'proof'


def ini(mc, o, off): return T._only_leaf(mc.initial(mc.objs[o], off if isinstance(off, P) else pc_(off), F64, 8))


def sqrtF(x): return fat(AT.get('fn', 'sqrt', (x,), False))


def dotF(a, b):
    s = fc(0)
    for x, y in zip(a, b): s = fadd(s, fmul(x, y))
    return s


def cross(a, b):
    return [fsub(fmul(a[(i + 1) % 3], b[(i + 2) % 3]), fmul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def sub(a, b): return [fsub(x, y) for x, y in zip(a, b)]


def unit(n):
    l = sqrtF(dotF(n, n))
    return [fdiv(x, l) for x in n]


def planes(rec, mc, k, fn, nf, want):
    """want: list of (n, d)"""
    pm = Env.PMs[k]
    left = list(range(len(want)))
    wh = where(fn)
    for f in range(nf):
        n = [rd(mc, 'faces', pm.pls * f + pm.pln + 8 * i) for i in range(pm.dim)]
        d = rd(mc, 'faces', pm.pls * f + pm.pld)
        if any(x.var is not None for x in n + [d]): rec.und('%s: face %d' % (fn, f), 'conditional'); continue
        hit = [w for w in left if all(a.leaf.fp == b.fp for a, b in zip(n, want[w][0])) and d.leaf.fp == want[w][1].fp]
        if hit:
            left.remove(hit[0]); rec.ok('%s: face %d is a unit inward face plane' % (fn, f))
        elif any(imprecise(x.leaf) for x in n + [d]): rec.und('%s: face %d' % (fn, f), 'imprecise')
        else:
            rec.fail('%s: face %d' % (fn, f), wh, 'plane %d: n=(%s), d=%s is not an inward unit face plane of the solid (or repeats one)' % (
                f, ', '.join(str(x)[:100] for x in n), str(d)[:160]))


def box(rec, k, fn):
    pm = Env.PMs[k]
    D = pm.dim
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'faces'), pobj(mc, 'rb')])
    want = []
    for i in range(D):
        e = [fc(1 if j == i else 0) for j in range(D)]
        want.append((e, fneg(ini(mc, 'rb', 8 * i))))
        want.append(([fneg(x) for x in e], ini(mc, 'rb', 8 * (D + i))))
    planes(rec, mc, k, fn, 2 * D, want)


@ob('r2d_box_faces_from_verts')
def _(rec): box(rec, 'r2', 'r2d_box_faces_from_verts')


@ob('r3d_box_faces_from_verts')
def _(rec): box(rec, 'r3', 'r3d_box_faces_from_verts')


@ob('r3d_tet_faces_from_verts')
def _(rec):
    fn = 'r3d_tet_faces_from_verts'
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'faces'), pobj(mc, 'vs')])
    v = [[ini(mc, 'vs', 24 * i + 8 * j) for j in range(3)] for i in range(4)]
    vol = det3(sub(v[1], v[0]), sub(v[2], v[0]), sub(v[3], v[0]))
    want = []
    for i in range(4):
        a, b, c = [v[j] for j in range(4) if j != i]
        n = cross(sub(b, a), sub(c, a))
        h = dotF(n, sub(v[i], a))
        if h.fp != vol.fp: n = [fneg(x) for x in n]
        u = unit(n)
        want.append((u, fneg(dotF(u, a))))
    planes(rec, mc, 'r3', fn, 4, want)


@ob('r2d_poly_faces_from_verts')
def _(rec):
    fn = 'r2d_poly_faces_from_verts'
    n = ipar('numverts', 1, None)
    pm = Env.PMs['r2']
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'faces'), pobj(mc, 'vs'), leaf(n)])
    a = AT.get('par', 'q', (), lo=0)
    a.facts = [n - pa(a) - 1]
    q = pa(a)
    V = lambda i: [ini(mc, 'vs', i.scale(16) + 8 * j) for j in range(2)]
    got = [rd(mc, 'faces', q.scale(pm.pls) + pm.pln + 8 * i) for i in range(2)] + [rd(mc, 'faces', q.scale(pm.pls) + pm.pld)]
    for nm, pc, nx in (('interior', icmp(q, 'lt', n - 1), q + 1), ('closing', icmp(q, 'eq', n - 1), ZERO)):
        p0, p1 = V(q), V(nx)
        N = unit([fsub(p0[1], p1[1]), fsub(p1[0], p0[0])])
        w = N + [fneg(dotF(N, p0))]
        # on the closing edge q = n-1: rewrite the values with that equation
        for i in range(3):
            g = got[i]
            ww = leaf(w[i])
            if nm == 'closing':
                S = Subst({AT.byid[a.id].id: n - 1})
                g, ww = S.m(g), S.m(ww)
                same(rec, '%s edge: component %d' % (nm, i), g, ww, TRUE, where(fn))
            else:
                same(rec, '%s edge: component %d' % (nm, i), g, ww, band(pc, mc.g), where(fn))


def polyfaces(K):
    @ob('r3d_poly_faces_from_verts[%d]' % K)
    def _(rec):
        fn = 'r3d_poly_faces_from_verts'
        nf = ipar('numfaces', 1, None)
        pm = Env.PMs['r3']
        need(fn)

        def hook(mc, obj, off, ty):
            if obj.name == 'npf': return I(K)
            return None
        mc = Machine([Env.mods[u] for u in allunits()], hook=hook)
        v, g = mc.run(fn, [pobj(mc, 'faces'), pobj(mc, 'vs'), leaf(ipar('numverts', 3, None)), pobj(mc, 'fi'), pobj(mc, 'npf'), leaf(nf)])
        mc.g = g
        rec.count('functions_analysed', len(mc.fnvisited)); rec.count('loops_summarised', len(mc.loops_seen))
        a = AT.get('par', 'q', (), lo=0)
        a.facts = [nf - pa(a) - 1]
        q = pa(a)
        fp_ = T._only_leaf(mc.initial(mc.objs['fi'], q.scale(8), PTR, 8))
        idx = [T._only_leaf(mc.initial(fp_.obj, fp_.off + 4 * j, I32, 4)) for j in range(K)]
        p = [[ini(mc, 'vs', i.scale(24) + 8 * c) for c in range(3)] for i in idx]
        S1 = [fc(0)] * 3
        S2 = [fc(0)] * 3
        for j in range(K):
            c1 = cross(sub(p[(j + 1) % K], p[j]), sub(p[(j + 2) % K], p[j]))
            c2 = cross(p[j], p[(j + 1) % K])
            S1 = [fadd(x, y) for x, y in zip(S1, c1)]
            S2 = [fadd(x, y) for x, y in zip(S2, c2)]
        cen = [fc(0)] * 3
        for x in p: cen = [fadd(c, y) for c, y in zip(cen, x)]
        cen = [fdiv(c, fc(K)) for c in cen]
        got = [rd(mc, 'faces', q.scale(pm.pls) + pm.pln + 8 * i) for i in range(3)] + [rd(mc, 'faces', q.scale(pm.pls) + pm.pld)]
        U = [unit(S1), unit(S2)]
        if any(x.var is not None for x in got): rec.und('plane', 'conditional'); return
        un = [u for u in U if all(x.leaf.fp == y.fp for x, y in zip(got, u))]
        if not un:
            if any(imprecise(x.leaf) for x in got[:3]): rec.und('normal', 'imprecise')
            else: rec.fail('normal', where(fn), 'the normal of a %d-gon face is (%s), not the unit vector area of the face' % (K, ', '.join(str(x)[:120] for x in got[:3])))
            return
        rec.ok('%d-gon: unit normal along the vector area' % K)
        if any(got[3].leaf.fp == fneg(dotF(un[0], x)).fp for x in [cen] + p): rec.ok('%d-gon: plane passes through the face' % K)
        elif imprecise(got[3].leaf): rec.und('offset', 'imprecise')
        else: rec.fail('offset', where(fn), 'd=%s does not put the plane through the centroid (or a vertex) of the face' % str(got[3])[:300])


for K in (3, 4, 5, 6): polyfaces(K)
