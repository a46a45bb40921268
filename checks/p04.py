"""Rule: the value returned by each *_orient routine must be identical, as a polynomial in all coordinates, to the signed
volume of the simplex (Leibniz determinant of the edge vectors divided by the factorial of the dimension)."""
from engine.fw import *
import itertools

LEVEL = 'proof'


def detF(rows):
    n = len(rows)
    s = fc(0)
    for perm in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if perm[j] > perm[i])
        t = fc(-1 if inv % 2 else 1)
        for i in range(n): t = fmul(t, rows[i][perm[i]])
        s = fadd(s, t)
    return s


def simplex(v):
    D = len(v) - 1
    f = 1
    for i in range(1, D + 1): f *= i
    return fdiv(detF([[fsub(v[k][i], v[0][i]) for i in range(D)] for k in range(1, D + 1)]), fc(f))


@ob('r2d_orient')
def _(rec):
    nm = ('ax', 'ay', 'bx', 'by', 'cx', 'cy')
    mc = run(rec, 'r2d_orient', [], lambda mc: [leaf(rpar(x)) for x in nm])
    v = [[rpar(nm[2 * i + j]) for j in range(2)] for i in range(3)]
    same(rec, 'r2d_orient is the signed area', mc.ret, leaf(simplex(v)), mc.g, where('r2d_orient'))


def vec(rec, fn, D):
    mc = run(rec, fn, [], lambda mc: [pobj(mc, 'vs')])
    v = [[T._only_leaf(mc.initial(mc.objs['vs'], pc_(8 * (D * k + i)), F64, 8)) for i in range(D)] for k in range(D + 1)]
    same(rec, '%s is the signed simplex volume' % fn, mc.ret, leaf(simplex(v)), mc.g, where(fn))


@ob('r3d_orient')
def _(rec): vec(rec, 'r3d_orient', 3)


@ob('rNd_orient')
def _(rec): vec(rec, 'rNd_orient', Env.PMs['rN'].dim)
