"""Data model of the library: memory layout of the public structs (taken from the headers by the compiler,
so reordering members is harmless), and abstract inputs."""
import os, subprocess
from .terms import *
from . import terms as T
from .irparse import Ty, parse_module
from . import build as B

F64 = Ty('f', 64)
I32 = Ty('i', 32)
I64 = Ty('i', 64)
PTR = Ty('p')


class Lay:
    pass


_LAY = r'''
#include <stddef.h>
#include <stdint.h>
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#define Q(n,e) const long q_##n = (long)(e);
#define POLY(p,P,D,PV) Q(p##_dim,D) Q(p##_max,PV) Q(p##_psize,sizeof(P##_poly)) Q(p##_vs,sizeof(P##_vertex)) \
 Q(p##_verts,offsetof(P##_poly,verts)) Q(p##_nv,offsetof(P##_poly,nverts)) Q(p##_nb,offsetof(P##_vertex,pnbrs)) \
 Q(p##_pos,offsetof(P##_vertex,pos)) Q(p##_pln,offsetof(P##_plane,n)) Q(p##_pld,offsetof(P##_plane,d)) \
 Q(p##_pls,sizeof(P##_plane)) Q(p##_rs,sizeof(P##_real)) Q(p##_nbn,sizeof(((P##_vertex*)0)->pnbrs)/4)
POLY(r2,r2d,2,R2D_MAX_VERTS)
POLY(r3,r3d,3,R3D_MAX_VERTS)
POLY(rN,rNd,RND_DIM,RND_MAX_VERTS)
Q(rN_nf,offsetof(rNd_poly,nfaces)) Q(rN_fi,offsetof(rNd_vertex,finds))
Q(r2_box,sizeof(r2d_dvec2)) Q(r3_box,sizeof(r3d_dvec3)) Q(rN_box,sizeof(rNd_dvec))
Q(br_size,sizeof(r3d_brep)) Q(br_v,offsetof(r3d_brep,vertices)) Q(br_nv,offsetof(r3d_brep,numvertices))
Q(br_fi,offsetof(r3d_brep,faceinds)) Q(br_npf,offsetof(r3d_brep,numvertsperface)) Q(br_nf,offsetof(r3d_brep,numfaces))
#define NM(o) Q(r2_nm##o,R2D_NUM_MOMENTS(o)) Q(r3_nm##o,R3D_NUM_MOMENTS(o))
NM(0) NM(1) NM(2) NM(3) NM(4) NM(5) NM(6) NM(7) NM(8) NM(9)
'''


def layout(tmp):
    cfgd = os.path.join(tmp, 'cfg11')
    os.makedirs(cfgd, exist_ok=True)
    if not os.path.exists(os.path.join(cfgd, 'r3d-config.h')):
        open(os.path.join(cfgd, 'r3d-config.h'), 'w').write('#define R3D_MAX_VERTS 512\n#define SHIFT_POLY\n')
    src = os.path.join(tmp, 'lay.c')
    open(src, 'w').write(_LAY)
    r = subprocess.run([B.CLANG, '-std=gnu11', '-w', '-S', '-emit-llvm', '-I' + cfgd, '-I' + os.path.join(B.REPO, 'src'), src, '-o', '-'],
                       capture_output=True, text=True)
    if r.returncode: raise B.BuildError(r.stderr)
    L = Lay()
    import re
    for m in re.finditer(r'^@q_(\w+) = .*constant i64 (-?\d+)', r.stdout, re.M):
        setattr(L, m.group(1), int(m.group(2)))
    return L


class PM:
    """polytope layout for one of r2/r3/rN"""

    def __init__(s, L, k):
        for f in 'dim max psize vs verts nv nb pos pln pld pls rs nbn box'.split():
            setattr(s, f, getattr(L, '%s_%s' % (k, f)))
        s.k = k
        s.pre = {'r2': 'r2d', 'r3': 'r3d', 'rN': 'rNd'}[k]
        s.vpre = {'r2': 'v2d', 'r3': 'v3d', 'rN': 'vNd'}[k]
        s.units = [s.pre, s.vpre]
        if k == 'rN':
            s.nf, s.fi = L.rN_nf, L.rN_fi

    # addresses (P)
    def a_nv(s, base=ZERO): return base + s.nv
    def a_nb(s, v, j, base=ZERO): return base + _p(v).scale(s.vs) + (s.verts + s.nb) + _p(j).scale(4)
    def a_pos(s, v, i, base=ZERO): return base + _p(v).scale(s.vs) + (s.verts + s.pos) + _p(i).scale(s.rs)
    def a_find(s, v, i, j): return _p(v).scale(s.vs) + (s.verts + s.fi) + _p(i).scale(4 * s.dim) + _p(j).scale(4)


def _p(x): return x if isinstance(x, P) else pc_(x)


class PolyIn:
    """abstract input polytope: nverts in [0,MAX], neighbour links in [0,nverts), free positions"""

    def __init__(s, pm, name, lo=0, hi=None, links=True, base=ZERO):
        s.pm, s.name, s.base = pm, name, base
        s.n = AT.get('par', name + '.nverts', (), lo=lo, hi=pm.max if hi is None else hi)
        s.N = pa(s.n)
        s.links = links

    def nb_atom(s, v, j):
        a = AT.get('lnk', s.name, (_p(v), _p(j)), lo=0)
        if not a._fdone:
            a._fdone = True
            if s.links:
                a.facts = [s.N - pa(a) - 1]
        return a

    def pos_atom(s, v, i):
        return AT.get('pos', s.name, (_p(v), _p(i)), isint=False)

    def nbP(s, v, j): return pa(s.nb_atom(v, j))
    def posF(s, v, i): return fat(s.pos_atom(v, i))
    def fndP(s, v, i, j): return pa(AT.get('fnd', s.name, (_p(v), _p(i), _p(j)), lo=0))

    def locate(s, off):
        """byte offset -> ('nv',) ('nb',v,j) ('pos',v,i) ('find',v,i,j); indices may be symbolic"""
        pm = s.pm
        d = off - s.base
        c = d.const()
        end = pm.verts + pm.vs * pm.max
        if c is not None and not (pm.verts <= c < end):
            if c == pm.nv: return ('nv',)
            if pm.k == 'rN' and c == pm.nf: return ('nf',)
            return ('other',)
        r = d - pm.verts
        k0 = r.m.get((), 0)
        rho = k0 % pm.vs
        q = r - rho
        big = P({k: x for k, x in q.m.items() if x % pm.vs == 0})
        small = q - big
        v = big.scale(Fraction(1, pm.vs))
        if not small.m:
            if pm.nb <= rho < pm.nb + 4 * pm.nbn: return ('nb', v, pc_(int((rho - pm.nb) // 4)))
            if pm.pos <= rho < pm.pos + pm.rs * pm.dim: return ('pos', v, pc_(int((rho - pm.pos) // pm.rs)))
            if pm.k == 'rN' and pm.fi <= rho < pm.fi + 4 * pm.dim * pm.dim:
                z = (rho - pm.fi) // 4
                return ('find', v, pc_(int(z // pm.dim)), pc_(int(z % pm.dim)))
            return ('pad',)
        # a symbolic member index: it stays inside its array (C typing of the access; bounds are an obligation elsewhere)
        if v.m and k0 - rho: v = v
        cand = []
        vs_, sm = v, small + rho
        for lo, n, step, tag in ((pm.nb, pm.nbn, 4, 'nb'), (pm.pos, pm.dim, pm.rs, 'pos')) + \
                (((pm.fi, pm.dim * pm.dim, 4, 'find'),) if pm.k == 'rN' else ()):
            for sh in (0, pm.vs):
                t = sm - lo - sh
                if any(x % step for x in t.m.values()): continue
                if tag == 'find':
                    D = pm.dim
                    hi_ = P({k: x for k, x in t.m.items() if k and x % (4 * D) == 0})
                    c0 = t.m.get((), 0)
                    j = t - hi_ - c0
                    ci = (c0 // (4 * D)) if j.m else c0 // (4 * D)
                    i = hi_.scale(Fraction(1, 4 * D)) + ci
                    j = j.scale(Fraction(1, 4)) + (c0 - ci * 4 * D) // 4
                    if not (_small(i, D) and _small(j, D)): continue
                    cand.append(('find', vs_ + (1 if sh else 0), i, j))
                else:
                    j = t.scale(Fraction(1, step))
                    if not _small(j, n): continue
                    cand.append((tag, vs_ + (1 if sh else 0), j))
        if len(cand) == 1: return cand[0]
        # several members possible: the constant part decides (member base + small index)
        cand = [c for c in cand if c[0] != 'find'] or cand
        for c in cand:
            if c[1] is vs_: return c
        return None

    def initial(s, off, ty):
        l = s.locate(off)
        if l is None: return None
        if l[0] == 'nv': return leaf(s.N)
        if l[0] == 'nb' and ty.k == 'i': return leaf(s.nbP(l[1], l[2]))
        if l[0] == 'pos' and ty.k == 'f': return leaf(s.posF(l[1], l[2]))
        if l[0] == 'find' and ty.k == 'i': return leaf(s.fndP(l[1], l[2], l[3]))
        if l[0] == 'nf':
            return leaf(pa(AT.get('par', s.name + '.nfaces', (), lo=0)))
        return None


def _small(j, n):
    """could this index range over [0,n)?  (constant part small, coefficients small)"""
    c = j.const()
    if c is not None: return 0 <= c < n
    c0 = j.m.get((), 0)
    lo = hi = c0
    for k, x in j.m.items():
        if not k: continue
        a = AT.byid[k[0]] if len(k) == 1 else None
        l, h = (a.lo, a.hi) if a is not None else (None, None)
        if x < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + x * l
        hi = None if hi is None or h is None else hi + x * h
    if (lo is not None and lo >= n) or (hi is not None and hi < 0): return False
    return -n <= c0 <= n and all(abs(x) <= n for k, x in j.m.items() if k)


def generic_vertex(poly, name='q'):
    """an arbitrary vertex index 0 <= q < nverts"""
    a = AT.get('par', (poly.name, name), (), lo=0)
    a.facts = [poly.N - pa(a) - 1]
    return pa(a)


def rpar(name): return fat(AT.get('par', name, (), False))


def ipar(name, lo=None, hi=None): return pa(AT.get('par', name, (), True, lo, hi))
