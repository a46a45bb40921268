"""Rule: for every transform entry point (and every legal axis argument) the abstract post-state of a generic
vertex q in [0,nverts) must equal the documented linear map of its pre-state, its links, face indices, the vertex count and
the transform arguments must be unchanged.  Decided by gated value flow over the LLVM IR: the vertex loop is summarised from
one generic iteration, so the verdict covers every polytope, every vertex count and every parameter value."""
from engine.fw import *

LEVEL = 'proof'
ASSUME = ['axis arguments are within the documented range']


def transform(rec, k, fn, mkargs, spec, extra=()):
    pm = Env.PMs[k]
    p = PolyIn(pm, 'poly')
    mc = run(rec, fn, [p], lambda mc: [pobj(mc, 'poly')] + mkargs(mc))
    q = generic_vertex(p)
    old = [p.posF(q, i) for i in range(pm.dim)]
    want = spec(mc, old)
    tag = getattr(rec, 'tag', '')
    wh = where(fn)
    for i in range(pm.dim):
        same(rec, '%s%s: coordinate %d' % (fn, tag, i), rd(mc, 'poly', pm.a_pos(q, i)), leaf(want[i]), mc.g, wh,
             what='coordinate %d of vertex q' % i)
    for j in range(pm.nbn):
        same(rec, '%s%s: link %d unchanged' % (fn, tag, j), rd(mc, 'poly', pm.a_nb(q, j), I32), leaf(p.nbP(q, j)), mc.g, wh)
    same(rec, '%s%s: vertex count unchanged' % (fn, tag), rd(mc, 'poly', pm.a_nv(), I32), leaf(p.N), mc.g, wh)
    if k == 'rN':
        for i in range(pm.dim):
            for j in range(pm.dim):
                same(rec, '%s%s: face index unchanged' % (fn, tag), rd(mc, 'poly', pm.a_find(q, i, j), I32), leaf(p.fndP(q, i, j)), mc.g, wh)
        same(rec, '%s%s: face count unchanged' % (fn, tag), rd(mc, 'poly', pc_(pm.nf), I32), p.initial(pc_(pm.nf), I32), mc.g, wh)
    for e in mc.events:
        if e.kind in ('store', 'memcpy', 'memset') and not _dead(e):
            for o in targets(e):
                if o.kind == 'param' and o.name != 'poly':
                    rec.fail('%s: writes its argument' % fn, where(e.fn, e.line), 'the transform writes through argument %s' % o.name)


def targets(e):
    d = e.x[0] if isinstance(e.x, tuple) else e.x
    d = e.x.get('ptr') if isinstance(d, dict) else d
    out = []
    if isinstance(d, M):
        for l in T.leafset(d):
            if isinstance(l, Ptr) and l.obj is not None: out.append(l.obj)
    return out


def _dead(e): return e.pc is FALSE


def fnA(name, x): return fat(AT.get('fn', name, (x,), False))


def sc(mc, nm):
    th = rpar(nm)
    return fnA('sin', th), fnA('cos', th)


def par(mc, o, i): return T._only_leaf(mc.initial(mc.objs[o], pc_(8 * i), F64, 8))


RP = lambda n: leaf(rpar(n))


def rot(a, b):
    def spec(mc, x):
        s, c = sc(mc, 'th')
        y = list(x)
        y[a] = fsub(fmul(c, x[a]), fmul(s, x[b]))
        y[b] = fadd(fmul(s, x[a]), fmul(c, x[b]))
        return y
    return spec


def shear(a, b):
    def spec(mc, x):
        y = list(x)
        y[a] = fadd(x[a], fmul(rpar('sh'), x[b]))
        return y
    return spec


def affine(D):
    def spec(mc, x):
        h = x + [fc(1)]
        w = [fc(0)] * (D + 1)
        for i in range(D + 1):
            for j in range(D + 1): w[i] = fadd(w[i], fmul(par(mc, 'mat', i * (D + 1) + j), h[j]))
        return [fdiv(w[i], w[D]) for i in range(D)]
    return spec


def mat(mc): return [pobj(mc, 'mat')]


@ob('r2d_rotate')
def _(rec): transform(rec, 'r2', 'r2d_rotate', lambda mc: [RP('th')], rot(0, 1))


@ob('r2d_translate')
def _(rec): transform(rec, 'r2', 'r2d_translate', lambda mc: [RP('sx'), RP('sy')], lambda mc, x: [fadd(x[0], rpar('sx')), fadd(x[1], rpar('sy'))])


@ob('r2d_scale')
def _(rec): transform(rec, 'r2', 'r2d_scale', lambda mc: [RP('s')], lambda mc, x: [fmul(v, rpar('s')) for v in x])


@ob('r2d_shear')
def _(rec):
    for a in range(2):
        for b in range(2):
            rec.tag = '[axb=%d,axs=%d]' % (a, b)
            transform(rec, 'r2', 'r2d_shear', lambda mc: [RP('sh'), I(a), I(b)], shear(a, b))


@ob('r2d_affine')
def _(rec): transform(rec, 'r2', 'r2d_affine', mat, affine(2))


@ob('r3d_rotate')
def _(rec):
    for ax in range(3):
        rec.tag = '[axis=%d]' % ax
        transform(rec, 'r3', 'r3d_rotate', lambda mc: [RP('th'), I(ax)], rot((ax + 1) % 3, (ax + 2) % 3))


@ob('r3d_translate')
def _(rec): transform(rec, 'r3', 'r3d_translate', lambda mc: [pobj(mc, 'sh')], lambda mc, x: [fadd(x[i], par(mc, 'sh', i)) for i in range(3)])


@ob('r3d_scale')
def _(rec): transform(rec, 'r3', 'r3d_scale', lambda mc: [RP('s')], lambda mc, x: [fmul(v, rpar('s')) for v in x])


@ob('r3d_shear')
def _(rec):
    for a in range(3):
        for b in range(3):
            rec.tag = '[axb=%d,axs=%d]' % (a, b)
            transform(rec, 'r3', 'r3d_shear', lambda mc: [RP('sh'), I(a), I(b)], shear(a, b))


@ob('r3d_affine')
def _(rec): transform(rec, 'r3', 'r3d_affine', mat, affine(3))


@ob('rNd_rotate')
def _(rec):
    for a in range(4):
        for b in range(4):
            if a == b: continue
            rec.tag = '[ax1=%d,ax2=%d]' % (a, b)
            transform(rec, 'rN', 'rNd_rotate', lambda mc: [RP('th'), I(a), I(b)], rot(a, b))


@ob('rNd_translate')
def _(rec): transform(rec, 'rN', 'rNd_translate', lambda mc: [pobj(mc, 'sh')], lambda mc, x: [fadd(x[i], par(mc, 'sh', i)) for i in range(4)])


@ob('rNd_scale')
def _(rec): transform(rec, 'rN', 'rNd_scale', lambda mc: [pobj(mc, 'sc')], lambda mc, x: [fmul(x[i], par(mc, 'sc', i)) for i in range(4)])


@ob('rNd_shear')
def _(rec):
    for a in range(4):
        for b in range(4):
            rec.tag = '[axb=%d,axs=%d]' % (a, b)
            transform(rec, 'rN', 'rNd_shear', lambda mc: [RP('sh'), I(a), I(b)], shear(a, b))


@ob('rNd_affine')
def _(rec): transform(rec, 'rN', 'rNd_affine', mat, affine(4))
