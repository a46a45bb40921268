"""Rule: for every polynomial order analysed, the moments written by reduce must be the exact integrals of the documented monomials
in the documented order.  2D: the closed form of the whole edge loop (sum over a generic vertex of a generic polygon) must be the
sum of the triangle integrals; N dimensions: the closed form must be the Lawrence-type sum over vertices.  3D: the generic step
of the face walk must add, to every accumulator, exactly the integral over the tetrahedron (origin, start, next, current) with the
orientation matching the direction of the walk, the walk must step from each directed edge to the next edge of the same face, and the final scaling and shift must be the exact
binomial shift.  Empty polytopes must yield zeros.  Decided on the summaries of the loops, for every polytope."""
from engine.fw import *
import itertools
from math import comb, factorial

LEVEL = 'proof'
NEEDS = {'noshift': True, 'shiftall': True}
ASSUME = ['the polytope is well formed: links in range and reciprocal',
          'polynomial orders 0..5 (2D: 0..9) are analysed in the quick tier']


def monos(D, order):
    """documented order: 1; x, y, z; x^2, xy, xz, y^2, yz, z^2; ..."""
    out = []
    for c in range(order + 1):
        for e in itertools.product(range(c, -1, -1), repeat=D - 1):
            r = c - sum(e)
            if r >= 0: out.append(e + (r,))
    return out


def detF(rows):
    n = len(rows)
    s = fc(0)
    for perm in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if perm[j] > perm[i])
        t = fc(-1 if inv % 2 else 1)
        for i in range(n): t = fmul(t, rows[i][perm[i]])
        s = fadd(s, t)
    return s


def simplex_moment(pts, alpha, det=None):
    """integral of x^alpha over the simplex (0, pts...), signed"""
    D = len(pts)
    det = det or detF(pts)
    poly = {(0,) * D: fc(1)}
    for i, e in enumerate(alpha):
        for _ in range(e):
            q = {}
            for b, c in poly.items():
                for k in range(D):
                    b2 = b[:k] + (b[k] + 1,) + b[k + 1:]
                    t = fmul(c, pts[k][i])
                    q[b2] = fadd(q[b2], t) if b2 in q else t
            poly = q
    s = fc(0)
    n = sum(alpha)
    for b, c in poly.items():
        w = 1
        for x in b: w *= factorial(x)
        s = fadd(s, fmul(c, fc(Fraction(w, factorial(n + D)))))
    return fmul(det, s)


def shift_back(get, alpha, t):
    """sum over beta<=alpha of binom * t^(alpha-beta) * get(beta)"""
    s = fc(0)
    for b in itertools.product(*[range(a + 1) for a in alpha]):
        w = 1
        x = get(b)
        for a, bb, ti in zip(alpha, b, t):
            w *= comb(a, bb)
            x = fmul(x, fpow(ti, a - bb))
        s = fadd(s, fmul(fc(w), x))
    return s


def kap(d=0): return pa(AT.get('kappa', d, (), lo=0))


def evalsum(f, p, n, nb):
    """instantiate the closed form at n vertices with constant links: pure term rewriting on the summary"""
    memo = {}

    def P_(q, env):
        s = fc(0)
        for mono, c in q.m.items():
            t = fc(c)
            for a in mono: t = fmul(t, A_(AT.byid[a], env))
            s = fadd(s, t)
        return s

    def A_(a, env):
        k = (a.id, env)
        if k in memo: return memo[k]
        if a is p.n: r = fc(n)
        elif a.kind == 'kappa':
            if len(env) <= a.name: raise Undecided('index')
            r = fc(env[a.name])
        elif a.kind == 'lnk':
            v, j = [fconst(P_(x, env)) for x in a.args]
            if v is None or j is None or not (0 <= v < n): raise Undecided('link')
            r = fc(nb(int(v), int(j)))
        elif a.kind == 'pos':
            v, i = [fconst(P_(x, env)) for x in a.args]
            if v is None or i is None: raise Undecided('position')
            r = p.posF(pc_(int(v)), pc_(int(i)))
        elif a.kind == 'ind':
            x = F_(a.args[0], env) if isinstance(a.args[0], F) else P_(a.args[0], env)
            c = fconst(x)
            r = fat(AT.get('ind', a.name, (x,), False)) if c is None else fc(int(c == 0 if a.name == 'E' else c < 0))
        elif a.kind == 'fn': r = fat(AT.get('fn', a.name, tuple(F_(x, env) for x in a.args), a.isint))
        elif a.kind == 'max0':
            c = fconst(P_(a.args[0], env))
            if c is None: raise Undecided('max0')
            r = fc(max(c, 0))
        elif not a.args: r = fat(a) if not a.isint else fint(pa(a))
        else: raise Undecided('atom %s' % a.kind)
        memo[k] = r
        return r

    def F_(x, env):
        k = (id(x), env)
        if k in memo: return memo[k]
        if x.op == 'c': r = x
        elif x.op == 'at': r = A_(x.a[0], env)
        elif x.op == 'i': r = P_(x.a[0], env)
        elif x.op == 'sum':
            d = x.a[2]
            m = fconst(P_(x.a[1], env))
            if m is None: raise Undecided('trip count')
            r = fc(0)
            for c in range(int(m)):
                e2 = tuple((env + (0,) * (d + 1))[:d]) + (c,)
                r = fadd(r, F_(x.a[0], e2))
        else:
            u, v = F_(x.a[0], env), F_(x.a[1], env)
            r = {'+': fadd, '-': fsub, '*': fmul, '/': fdiv}[x.op](u, v)
        memo[k] = r
        return r
    return F_(f, ())


def leaf_for(r, pc, cond):
    """the single value of r under pc & cond, or None"""
    l = T.leafset(constrain(r, band(pc, cond)))
    return l[0] if len(l) == 1 else None


def center(p, D, depth=0): return [fdiv(fsum(p.posF(kap(depth), pc_(i)), p.N, depth), fint(p.N)) for i in range(D)]


def empty(rec, cl, r, pc, p, wh):
    for l in T.leafset(constrain(r, pc)):
        try:
            if isinstance(l, F) and evalsum(l, p, 0, None).fp == 0: continue
        except Undecided as e:
            pass
        if imprecise(l): return rec.und(cl, str(l)[:200])
        return rec.fail(cl, wh, '%s: the value written is %s' % (cl, str(l)[:300]))
    rec.ok(cl)


# ------------------------------------------------------------------ 2D
def red2(rec, order, mods, cfg):
    pm = Env.PMs['r2']
    p = PolyIn(pm, 'poly')
    fn = 'r2d_reduce'
    mc = run(rec, fn, [p], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'mom'), I(order)], mods=mods)
    wh = where(fn)
    ms = monos(2, order)
    if len(ms) != getattr(Env.L, 'r2_nm%d' % order):
        rec.fail('%s: number of moments' % fn, wh, 'R2D_NUM_MOMENTS(%d) is %d, there are %d monomials' % (order, getattr(Env.L, 'r2_nm%d' % order), len(ms)))
    pos = icmp(p.N, 'gt', ZERO)
    K = kap()
    cand = [[fc(0)] * 2, center(p, 2)]
    tri = {}

    def tmom(ti, b):
        if (ti, b) not in tri:
            t = cand[ti]
            a = [fsub(p.posF(K, pc_(i)), t[i]) for i in range(2)]
            c = [fsub(p.posF(p.nbP(K, 0), pc_(i)), t[i]) for i in range(2)]
            tri[ti, b] = fsum(simplex_moment([a, c], b), p.N, 0)
        return tri[ti, b]
    for m, al in enumerate(ms):
        r = rd(mc, 'mom', 8 * m)
        cl = '%s[%s] order %d: moment %d = integral of x^%d y^%d' % (fn, cfg, order, m, al[0], al[1])
        empty(rec, '%s[%s] order %d: moment %d of an empty polygon is 0' % (fn, cfg, order, m), r, band(mc.g, bnot(pos)), p, wh)
        f = leaf_for(r, mc.g, pos)
        if f is None: rec.und(cl, 'conditional value %s' % str(r)[:200]); continue
        if any(f.fp == shift_back(lambda b: tmom(ti, b), al, cand[ti]).fp for ti in (0, 1)):
            rec.ok(cl); continue
        if imprecise(f): rec.und(cl, 'imprecise %s' % str(f)[:200]); continue
        try:
            bad = None
            for n in (3, 4, 5):
                got = evalsum(f, p, n, lambda v, j: (v + (1, n - 1)[j]) % n)
                want = fc(0)
                for v in range(n):
                    want = fadd(want, simplex_moment([[p.posF(pc_(v), pc_(i)) for i in range(2)], [p.posF(pc_((v + 1) % n), pc_(i)) for i in range(2)]], al))
                if got.fp != want.fp and not numerically_equal(got, want): bad = n; break
            if bad: rec.fail('moment %d order %d %s' % (m, order, cfg), wh, '%s: for a %d-gon the value written is a different function of the coordinates: %s' % (cl, bad, str(f)[:300]))
            else: rec.ok(cl + ' (closed form compared for 3..5 vertices)')
        except Undecided as e:
            rec.und(cl, e)


# ------------------------------------------------------------------ N dimensions
def redN(rec):
    pm = Env.PMs['rN']
    D = pm.dim
    p = PolyIn(pm, 'poly')
    fn = 'rNd_reduce'
    mc = run(rec, fn, [p], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'mom'), I(0)])
    wh = where(fn)
    r = rd(mc, 'mom', 0)
    K = kap()
    x = [p.posF(K, pc_(i)) for i in range(D)]
    e = [[fsub(x[i], p.posF(p.nbP(K, j), pc_(i))) for i in range(D)] for j in range(D)]
    dot = lambda a, b: _sum([fmul(u, v) for u, v in zip(a, b)])
    gs = {}

    def basis(pre):
        if pre in gs: return gs[pre]
        if not pre: gs[pre] = []; return []
        b = basis(pre[:-1])
        t = e[pre[-1]]
        for u in b:
            d = dot(t, u)
            t = [fsub(a, fmul(d, c)) for a, c in zip(t, u)]
        n = fat(AT.get('fn', 'sqrt', (dot(t, t),), False))
        gs[pre] = b + [[fdiv(a, n) for a in t]]
        return gs[pre]
    tot = fc(0)
    for pr in itertools.permutations(range(D)):
        t = fc(1)
        for d, u in enumerate(basis(pr)): t = fmul(t, fdiv(dot(u, x), fc(d + 1)))
        tot = fadd(tot, t)
    same(rec, '%s: moment 0 is the sum over vertices of the boundary-frame volume terms' % fn, r, leaf(fsum(tot, p.N, 0)), mc.g, wh)
    empty(rec, '%s: moment 0 of an empty polytope is 0' % fn, r, band(mc.g, icmp(p.N, 'eq', ZERO)), p, wh)


def _sum(l):
    s = fc(0)
    for x in l: s = fadd(s, x)
    return s


# ------------------------------------------------------------------ 3D
def red3(rec, order, mods, cfg):
    pm = Env.PMs['r3']
    p = PolyIn(pm, 'poly')
    fn = 'r3d_reduce'
    mc = run(rec, fn, [p], lambda mc: [pobj(mc, 'poly'), pobj(mc, 'mom'), I(order)], mods=mods)
    wh = where(fn)
    ms = monos(3, order)
    M_ = len(ms)
    tg = '%s[%s] order %d' % (fn, cfg, order)
    if M_ != getattr(Env.L, 'r3_nm%d' % order):
        rec.fail('%s: number of moments' % fn, wh, 'R3D_NUM_MOMENTS(%d) is %d, there are %d monomials' % (order, getattr(Env.L, 'r3_nm%d' % order), M_))
    pos = icmp(p.N, 'gt', ZERO)
    fin = []
    for m in range(M_):
        r = rd(mc, 'mom', 8 * m)
        empty(rec, '%s: moment %d of an empty polyhedron is 0' % (tg, m), r, band(mc.g, bnot(pos)), p, wh)
        fin.append(leaf_for(r, mc.g, pos))
    if any(f is None for f in fin): return rec.und(tg, 'conditional final value')
    # accumulators: opaque running values of the walk loop
    acc = {}
    for f in fin:
        for a in f.support:
            at = AT.byid[a]
            nm = at.name
            if isinstance(nm, tuple) and len(nm) == 2 and isinstance(nm[1], tuple) and nm[1][0] == 'cell' and not at.isint:
                acc.setdefault(at.key[1], at)
    byslot = {}
    loops = [l for l in mc.loops_seen.values()]
    walk = None
    for l in loops:
        for s in l.cells.values():
            if s.atom is None or s.next is None or s.isint: continue
            nx = T.indicator(s.next, None)
            at = T._only_leaf(s.atom) if isinstance(s.atom, M) else s.atom
            if not isinstance(at, F): at = fat(at) if not isinstance(at, P) else None
            if at is None or not isinstance(nx.leaf, F): continue
            inc = fsub(nx.leaf, at)
            if any(AT.byid[i].kind == 'pos' for i in inc.support):
                byslot.setdefault(l.id, {})[s.name] = (inc, at, s)
    cands = []
    for lid, d in byslot.items():
        names = {a for a in acc}
        hit = {n: k for k, n in ((k, n) for n in names for k in d if (lid, k) == n or n[1] == k)}
        if len(hit) >= 1: cands.append((lid, d, hit))
    if len(cands) != 1: return rec.und(tg, 'accumulation loop not recognised (%d candidates)' % len(cands))
    lid, d, hit = cands[0]
    L = [l for l in loops if l.id == lid][0]
    # accumulator of moment m: the one with the pure coefficient in final moment m
    names = sorted(hit, key=str)
    atoms = {n: acc[n] for n in names}
    if len(names) != M_ or any(len([a for f in fin for a in f.support if AT.byid[a].key[1] == n]) and len({a for f in fin for a in f.support if AT.byid[a].key[1] == n}) != 1 for n in names):
        return rec.und(tg, '%d accumulators for %d moments' % (len(names), M_))

    def coef(f, n):
        z = {atoms[k].id: fc(0) for k in names}
        f0 = T._only_leaf(Subst(z).f(f))
        z[atoms[n].id] = fc(1)
        return fsub(T._only_leaf(Subst(z).f(f)), f0), f0
    order_of = {}
    C = []
    for m in range(M_):
        row = {}
        tot = fc(0)
        for n in names:
            if atoms[n].id not in fin[m].support: continue
            c, f0 = coef(fin[m], n)
            if f0.fp != 0: return rec.und(tg, 'final value not linear in the accumulators')
            row[n] = c
            tot = fadd(tot, fmul(c, fat(atoms[n])))
        if tot.fp != fin[m].fp: return rec.und(tg, 'final value not linear in the accumulators')
        C.append(row)
    # accumulator numbering by memory offset
    nm = {n: n[1][2] // 8 for n in names if n[1][1] == 'mom'}
    if sorted(nm.values()) != list(range(M_)): return rec.und(tg, 'accumulators are not the output array')
    inv = {v: k for k, v in nm.items()}
    c = []
    for m in range(M_):
        x = C[m].get(inv[m])
        k = fconst(x) if x is not None else None
        if k is None: return rec.und(tg, 'leading coefficient of moment %d not constant: %s' % (m, str(x)[:100]))
        c.append(k)
    zero = fc(0)
    if order >= 1:
        ix = [ms.index(tuple(1 if i == j else 0 for i in range(3))) for j in range(3)]
        t = [fdiv(C[ix[j]].get(inv[0], zero), fc(c[0])) for j in range(3)]
    else:
        t = None
    if t is not None:
        for j in range(3):
            if imprecise(t[j]): return rec.und(tg, 'shift vector imprecise')
        for m, al in enumerate(ms):
            want = {}
            for m2, be in enumerate(ms):
                if all(b <= a for a, b in zip(al, be)):
                    w = fc(c[m2])
                    for a, b, tj in zip(al, be, t): w = fmul(fmul(w, fc(comb(a, b))), fpow(tj, a - b))
                    want[m2] = w
            bad = [m2 for m2 in range(M_) if fsub(C[m].get(inv[m2], zero), want.get(m2, zero)).fp != 0]
            cl = '%s: moment %d (x^%d y^%d z^%d) is shifted back by the exact binomial expansion' % ((tg, m) + al)
            if bad: rec.fail('shift of moment %d, order %d, %s' % (m, order, cfg), wh, '%s: contribution of moment %d is %s, must be %s' % (cl, bad[0], str(C[m].get(inv[bad[0]], zero))[:200], str(want.get(bad[0], zero))[:200]))
            else: rec.ok(cl)
    # ---- the step of the face walk
    inc0 = d[inv[0][1]][0]
    vs = {}
    for a in inc0.support:
        at = AT.byid[a]
        if at.kind == 'pos': vs.setdefault(at.args[0].fp, at.args[0])
    vs = [v for v in vs.values() if not any(AT.byid[a].kind == 'kappa' for a in v.support)]
    if len(vs) != 3: return rec.und(tg, 'the step uses %d vertices' % len(vs))
    slots = list(L.phis.values()) + list(L.cells.values())
    byatom = {}
    for s in slots:
        if s.atom is None: continue
        av = s.atom if not isinstance(s.atom, M) else s.atom.leaf
        av = pa(av) if isinstance(av, T.Atom) and av.isint else av
        if isinstance(av, P): byatom[av.fp] = s
    role = None
    for cur, nxt in itertools.permutations(vs, 2):
        sc, sn = byatom.get(cur.fp), byatom.get(nxt.fp)
        if sc is None or sn is None or sc.next is None: continue
        if sc.next.var is None and isinstance(sc.next.leaf, P) and sc.next.leaf.fp == nxt.fp: role = (cur, nxt, sc, sn)
    if role is None: return rec.und(tg, 'walk variables not recognised')
    cur, nxt, sc, sn = role
    st = [v for v in vs if v.fp not in (cur.fp, nxt.fp)][0]
    # direction of the walk
    dirs = set()
    for src, frm, prev in ((sn.next, sc.next, cur), (sn.init, sc.init, None)):
        for g, l in leaves_(src):
            if not isinstance(l, P) or len(l.m) != 1: return rec.und(tg, 'walk successor %s' % str(l)[:100])
            (mono, k), = l.m.items()
            at = AT.byid[mono[0]] if len(mono) == 1 and k == 1 else None
            if at is None or at.kind != 'lnk': return rec.und(tg, 'walk successor %s' % str(l)[:100])
            v, j = at.args
            frml = T._only_leaf(frm) if frm.var is None else None
            if frml is None or frml.fp != v.fp: return rec.und(tg, 'walk successor is a link of %s' % v)
            pv = prev if prev is not None else st
            jj = j.const()
            if jj is None: return rec.und(tg, 'link slot %s' % j)
            rc = bor(bor(icmp(p.nbP(v, 0), 'eq', pv), icmp(p.nbP(v, 1), 'eq', pv)), icmp(p.nbP(v, 2), 'eq', pv))
            g = band(g, rc)
            if g is FALSE: continue
            eqs = [e for e in range(3) if implies(g, icmp(p.nbP(v, e), 'eq', pv))]
            if not eqs:
                return rec.und(tg, 'back link of the walk not determined')
            for e in eqs:
                dirs.add((int(jj) - e) % 3)
    if len(dirs) != 1: 
        rec.fail('face walk direction', wh, '%s: from the edge (cur,next) the walk continues at offsets %s from the back link: faces are not closed' % (tg, sorted(dirs))); return
    dr = dirs.pop()
    if dr == 0: rec.fail('face walk direction', wh, '%s: the walk returns along the edge it came from' % tg); return
    rec.ok('%s: each step continues along the same face' % tg)
    # initial edge: cur_init is a link of the start vertex
    if sc.init.var is None and isinstance(sc.init.leaf, P) and len(sc.init.leaf.m) == 1:
        (mono, k), = sc.init.leaf.m.items()
        at = AT.byid[mono[0]] if len(mono) == 1 else None
        if at is not None and at.kind == 'lnk' and at.args[0].fp == st.fp: rec.ok('%s: the walk starts along an edge of the start vertex' % tg)
        else: rec.und('%s: first edge' % tg, str(sc.init)[:100])
    x = lambda v: [fsub(p.posF(v, i), t[i] if t else zero) for i in range(3)]
    if t is None:
        cs = [[zero] * 3] + [center(p, 3, dd) for dd in (0, 1, 2)]
    else: cs = [t]
    ok = None
    for tt in cs:
        y = lambda v: [fsub(p.posF(v, pc_(i)), tt[i]) for i in range(3)]
        pts = [y(st), y(nxt), y(cur)] if dr == 1 else [y(st), y(cur), y(nxt)]
        det = detF(pts)
        res = []
        for m, al in enumerate(ms):
            inc = fmul(fc(c[m]), d[inv[m][1]][0])
            want = simplex_moment(pts, al, det)
            res.append((m, al, inc, want, inc.fp == want.fp or ('ind' in kinds(inc) and numerically_equal(inc, want))))
        if ok is None or all(r[4] for r in res): ok = res
        if all(r[4] for r in res): break
    for m, al, inc, want, good in ok:
        cl = '%s: a walk step adds the exact tetrahedron integral of x^%d y^%d z^%d' % ((tg,) + al)
        if good: rec.ok(cl)
        elif imprecise(inc, ('iv', 'phi') + tuple({AT.byid[a].kind for v in vs for a in v.support})): rec.und(cl, 'imprecise ' + str(inc)[:200])
        else: rec.fail('step of moment %d, order %d, %s' % (m, order, cfg), wh, '%s: it adds %s, must add %s' % (cl, str(inc)[:200], str(want)[:200]))


def kinds(f): return {AT.byid[a].kind for a in f.support}


def leaves_(m):
    return [(g, l) for g, l in T.leaves(m)] if m.var is not None else [(TRUE, m.leaf)]


for o_ in range(10):
    def mk_(o):
        @ob('r2d_reduce order %d' % o, 200)
        def f(rec): red2(rec, o, None, 'default')

        @ob('r2d_reduce order %d shifted build' % o, 200)
        def h(rec): red2(rec, o, Env.shiftall, 'SHIFT_POLY')
    mk_(o_)
for o_ in range(8):
    def mk3_(o):
        @ob('r3d_reduce order %d' % o, 400, thorough=o > 5)
        def f(rec): red3(rec, o, None, 'default')

        @ob('r3d_reduce order %d unshifted build' % o, 400, thorough=o > 5)
        def h(rec): red3(rec, o, Env.noshift, 'no SHIFT_POLY')
    mk3_(o_)


@ob('rNd_reduce', 300)
def rn(rec): redN(rec)
