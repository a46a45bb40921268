"""Rule: the abstract post-state of every constructor must be the documented polytope: vertex count, the documented set of
vertex positions (each exactly once), links that are in range, distinct, reciprocal; for 3D the face walks used by the library
close up, use every directed edge once, satisfy Euler's formula and enclose exactly the documented signed volume (a
polynomial identity in the input coordinates); for N dimensions every 2-face index is symmetric, in range, consistent along edges
and unique per pair at each vertex.  r2d_init_poly is decided for a generic vertex of a generic polygon (any vertex count)."""
from engine.fw import *
import itertools

LEVEL = 'proof'


def cint(m):
    """a constant integer value, or None"""
    if m is None or m.var is not None or not isinstance(m.leaf, P): return None
    c = m.leaf.const()
    return None if c is None else int(c)


def graph(rec, mc, k, fn, obj='poly'):
    pm = Env.PMs[k]
    n = cint(rd(mc, obj, pm.a_nv(), I32))
    if n is None:
        rec.und('%s: vertex count' % fn, 'not a constant'); return None
    if not (0 < n <= pm.max):
        rec.fail('%s: vertex count' % fn, where(fn), 'vertex count %d' % n); return None
    nb = [[cint(rd(mc, obj, pm.a_nb(v, j), I32)) for j in range(pm.nbn)] for v in range(n)]
    pos = [[rd(mc, obj, pm.a_pos(v, i)) for i in range(pm.dim)] for v in range(n)]
    for v in range(n):
        for j in range(pm.nbn):
            if nb[v][j] is None:
                m = rd(mc, obj, pm.a_nb(v, j), I32)
                if kinds(m) & {'init', 'lnk'} and not (kinds(m) - {'init', 'lnk', 'par'}):
                    rec.fail('%s: link set' % fn, where(fn), 'link %d of vertex %d is never written' % (j, v))
                else: rec.und('%s: links' % fn, 'link %d of %d not constant' % (j, v))
                return None
    return n, nb, pos


def links(rec, fn, n, nb):
    wh = where(fn)
    bad = None
    for v in range(n):
        for j, u in enumerate(nb[v]):
            if not (0 <= u < n): bad = bad or 'link %d of vertex %d is %d, outside [0,%d)' % (j, v, u, n)
            elif u == v: bad = bad or 'vertex %d links to itself' % v
            elif nb[v].count(u) != 1: bad = bad or 'vertex %d links twice to %d' % (v, u)
            elif nb[u].count(v) != 1: bad = bad or 'link %d->%d is not returned' % (v, u)
    if bad:
        rec.fail('%s: links' % fn, wh, bad); return False
    rec.ok('%s: %d links in range, distinct, reciprocal' % (fn, sum(map(len, nb))))
    return True


def positions(rec, fn, pos, want, pc):
    """the multiset of positions is the wanted one; returns the permutation (vertex -> index in want)"""
    perm = []
    for v, p in enumerate(pos):
        if any(c.var is not None for c in p):
            rec.und('%s: positions' % fn, 'conditional'); return None
        hit = [w for w in range(len(want)) if w not in perm and all(c.leaf.fp == want[w][i].fp for i, c in enumerate(p) if not isinstance(c.leaf, T.Undef))]
        if not hit:
            if any(imprecise(c.leaf) for c in p): rec.und('%s: positions' % fn, 'imprecise')
            else: rec.fail('%s: positions' % fn, where(fn), 'vertex %d is at (%s), which is not one of the documented vertices (or a repeated one)' % (v, ', '.join(_c(x) for x in p)))
            return None
        perm.append(hit[0])
    if len(perm) != len(want):
        rec.fail('%s: positions' % fn, where(fn), '%d vertices instead of %d' % (len(perm), len(want))); return None
    rec.ok('%s: %d vertex positions' % (fn, len(want)))
    return perm


def _c(x): return str(x)[:60]


def faces3(nb):
    """face walks as the library does them: arriving at u from v leave by the slot after v's"""
    n = len(nb)
    seen = set(); fs = []
    for v in range(n):
        for j in range(3):
            if (v, j) in seen: continue
            f = []
            a, s = v, j
            while (a, s) not in seen:
                seen.add((a, s))
                f.append(a)
                b = nb[a][s]
                s = (nb[b].index(a) + 1) % 3
                a = b
            fs.append(f)
    return fs


def det3(a, b, c):
    def m(x, y): return fmul(x, y)
    return fadd(fsub(fmul(a[0], fsub(m(b[1], c[2]), m(b[2], c[1]))), fmul(a[1], fsub(m(b[0], c[2]), m(b[2], c[0])))),
                fmul(a[2], fsub(m(b[0], c[1]), m(b[1], c[0]))))


def vol3(fs, pos):
    s = fc(0)
    for f in fs:
        p0 = [c.leaf for c in pos[f[0]]]
        for i in range(1, len(f) - 1):
            # orientation convention of the library's face walks (r3d_reduce): (v0, next, cur)
            s = fadd(s, det3(p0, [c.leaf for c in pos[f[i + 1]]], [c.leaf for c in pos[f[i]]]))
    return fdiv(s, fc(6))


def corner(mc, o, D, c):
    return [T._only_leaf(mc.initial(mc.objs[o], pc_(8 * (D * b + i)), F64, 8)) for i, b in enumerate(c)]


def box_edges(rec, fn, n, nb, perm, corners):
    for v in range(n):
        for u in nb[v]:
            if sum(a != b for a, b in zip(corners[perm[v]], corners[perm[u]])) != 1:
                rec.fail('%s: edges' % fn, where(fn), 'vertices %d and %d are linked but are not adjacent corners of the box' % (v, u)); return
    rec.ok('%s: links follow box edges' % fn)


def extent(mc, D):
    r = fc(1)
    for i in range(D):
        lo, hi = [T._only_leaf(mc.initial(mc.objs['rb'], pc_(8 * (D * b + i)), F64, 8)) for b in (0, 1)]
        r = fmul(r, fsub(hi, lo))
    return r


def area2(nb, pos):
    n = len(nb)
    s = fc(0)
    for v in range(n):
        a, b = [c.leaf for c in pos[v]], [c.leaf for c in pos[nb[v][0]]]
        s = fadd(s, fsub(fmul(a[0], b[1]), fmul(a[1], b[0])))
    return fdiv(s, fc(2))


def volume(rec, fn, got, want, what):
    if got.fp == want.fp: rec.ok('%s: encloses %s' % (fn, what))
    else: rec.fail('%s: volume' % fn, where(fn), 'the linked polytope encloses %s, not %s' % (_c(got), what))


@ob('r2d_init_box')
def _(rec):
    fn = 'r2d_init_box'
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'rb')])
    g = graph(rec, mc, 'r2', fn)
    if not g or not links(rec, fn, g[0], g[1]): return
    cs = list(itertools.product((0, 1), repeat=2))
    perm = positions(rec, fn, g[2], [corner(mc, 'rb', 2, c) for c in cs], mc.g)
    if perm is None: return
    box_edges(rec, fn, g[0], g[1], perm, cs)
    cyc2(rec, fn, g[1])
    volume(rec, fn, area2(g[1], g[2]), extent(mc, 2), 'the box area, counter-clockwise')


def cyc2(rec, fn, nb):
    for v in range(len(nb)):
        if nb[nb[v][0]][1] != v: rec.fail('%s: cycle' % fn, where(fn), 'pnbrs[0] and pnbrs[1] are not inverse at vertex %d' % v); return
    v, k = 0, 0
    while True:
        v = nb[v][0]; k += 1
        if v == 0 or k > len(nb): break
    if k != len(nb): rec.fail('%s: cycle' % fn, where(fn), 'the boundary is not one cycle')
    else: rec.ok('%s: one closed boundary cycle' % fn)


@ob('r3d_init_box')
def _(rec):
    fn = 'r3d_init_box'
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'rb')])
    g = graph(rec, mc, 'r3', fn)
    if not g or not links(rec, fn, g[0], g[1]): return
    cs = list(itertools.product((0, 1), repeat=3))
    perm = positions(rec, fn, g[2], [corner(mc, 'rb', 3, c) for c in cs], mc.g)
    if perm is None: return
    box_edges(rec, fn, g[0], g[1], perm, cs)
    fs = faces3(g[1])
    if sorted(map(len, fs)) != [4] * 6: rec.fail('%s: faces' % fn, where(fn), 'face walks give %s instead of six quadrilaterals' % sorted(map(len, fs)))
    else: rec.ok('%s: six quadrilateral faces' % fn)
    volume(rec, fn, vol3(fs, g[2]), extent(mc, 3), 'the box volume with positive orientation')


@ob('r3d_init_tet')
def _(rec):
    fn = 'r3d_init_tet'
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'vs')])
    g = graph(rec, mc, 'r3', fn)
    if not g or not links(rec, fn, g[0], g[1]): return
    want = [[T._only_leaf(mc.initial(mc.objs['vs'], pc_(24 * v + 8 * i), F64, 8)) for i in range(3)] for v in range(4)]
    if positions(rec, fn, g[2], want, mc.g) is None: return
    fs = faces3(g[1])
    if sorted(map(len, fs)) != [3] * 4: rec.fail('%s: faces' % fn, where(fn), 'face walks give %s instead of four triangles' % sorted(map(len, fs)))
    else: rec.ok('%s: four triangular faces' % fn)
    e = [[fsub(want[k][i], want[0][i]) for i in range(3)] for k in (1, 2, 3)]
    volume(rec, fn, vol3(fs, g[2]), fdiv(det3(*e), fc(6)), 'the signed tetrahedron volume')


def facesN(rec, fn, mc, n, nb):
    pm = Env.PMs['rN']
    D = pm.dim
    nf = cint(rd(mc, 'poly', pc_(pm.nf), I32))
    wh = where(fn)
    if nf is None: rec.und('%s: face count' % fn, 'not constant'); return
    fd = [[[cint(rd(mc, 'poly', pm.a_find(v, i, j), I32)) if i != j else None for j in range(D)] for i in range(D)] for v in range(n)]
    used = set()
    for v in range(n):
        ids = set()
        for i in range(D):
            for j in range(D):
                if i == j: continue
                f = fd[v][i][j]
                if f is None:
                    m = rd(mc, 'poly', pm.a_find(v, i, j), I32)
                    if kinds(m) <= {'init', 'par'} and kinds(m): rec.fail('%s: face index' % fn, wh, 'finds[%d][%d] of vertex %d is never written' % (i, j, v))
                    else: rec.und('%s: face index' % fn, 'not constant')
                    return
                if not 0 <= f < nf: rec.fail('%s: face index' % fn, wh, 'finds[%d][%d] of vertex %d is %d, outside [0,%d)' % (i, j, v, f, nf)); return
                if f != fd[v][j][i]: rec.fail('%s: face index' % fn, wh, 'finds of vertex %d is not symmetric at (%d,%d)' % (v, i, j)); return
                if i < j:
                    if f in ids: rec.fail('%s: face index' % fn, wh, 'two link pairs of vertex %d share face %d' % (v, f)); return
                    ids.add(f); used.add(f)
                # the neighbour along link i sees the same face, through its link back
                u = nb[v][i]
                b = nb[u].index(v)
                if f not in [fd[u][b][t] for t in range(D) if t != b]:
                    rec.fail('%s: face index' % fn, wh, 'face %d of vertex %d is unknown to its neighbour %d along the shared edge' % (f, v, u)); return
    # following a face index from any corner closes up and never leaves the face (parallel faces may share an index)
    for v0 in range(n):
        for i0 in range(D):
            for j0 in range(D):
                if i0 == j0: continue
                f = fd[v0][i0][j0]
                v, i, k = v0, i0, 0
                while True:
                    u = nb[v][i]
                    b = nb[u].index(v)
                    t = [t for t in range(D) if t != b and fd[u][b][t] == f]
                    if len(t) != 1: break
                    v, i = u, t[0]
                    k += 1
                    if v == v0 or k > n: break
                if v != v0 or k < 3 or k > n:
                    rec.fail('%s: face cycle' % fn, wh, 'the 2-face walk of index %d from vertex %d does not close' % (f, v0)); return
    rec.ok('%s: %d two-faces symmetric, consistent, closed' % (fn, nf))


@ob('rNd_init_box')
def _(rec):
    fn = 'rNd_init_box'
    D = Env.PMs['rN'].dim
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'rb')])
    g = graph(rec, mc, 'rN', fn)
    if not g or not links(rec, fn, g[0], g[1]): return
    cs = list(itertools.product((0, 1), repeat=D))
    perm = positions(rec, fn, g[2], [corner(mc, 'rb', D, c) for c in cs], mc.g)
    if perm is None: return
    box_edges(rec, fn, g[0], g[1], perm, cs)
    facesN(rec, fn, mc, g[0], g[1])


@ob('rNd_init_simplex')
def _(rec):
    fn = 'rNd_init_simplex'
    D = Env.PMs['rN'].dim
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'vs')])
    g = graph(rec, mc, 'rN', fn)
    if not g or not links(rec, fn, g[0], g[1]): return
    want = [[T._only_leaf(mc.initial(mc.objs['vs'], pc_(8 * D * v + 8 * i), F64, 8)) for i in range(D)] for v in range(D + 1)]
    if positions(rec, fn, g[2], want, mc.g) is None: return
    facesN(rec, fn, mc, g[0], g[1])


@ob('r2d_init_poly')
def _(rec):
    fn = 'r2d_init_poly'
    pm = Env.PMs['r2']
    n = ipar('numverts', 1, pm.max)
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'vs'), leaf(n)])
    a = AT.get('par', 'q', (), lo=0)
    a.facts = [n - pa(a) - 1]
    q = pa(a)
    wh = where(fn)
    same(rec, 'vertex count', rd(mc, 'poly', pm.a_nv(), I32), leaf(n), mc.g, wh)
    for i in range(2):
        same(rec, 'vertex q is vertices[q], coordinate %d' % i, rd(mc, 'poly', pm.a_pos(q, i)), mc.initial(mc.objs['vs'], q.scale(16) + 8 * i, F64, 8), mc.g, wh)
    same(rec, 'pnbrs[0] of q is the cyclic successor', rd(mc, 'poly', pm.a_nb(q, 0), I32), ite(icmp(q, 'lt', n - 1), leaf(q + 1), leaf(ZERO)), mc.g, wh)
    same(rec, 'pnbrs[1] of q is the cyclic predecessor', rd(mc, 'poly', pm.a_nb(q, 1), I32), ite(icmp(q, 'gt', ZERO), leaf(q - 1), leaf(n - 1)), mc.g, wh)
