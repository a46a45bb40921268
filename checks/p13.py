"""Rule, r3d_init_poly with every vertex in exactly three faces (the case without duplicates): this case is taken exactly when all counts
are three; vertex v gets vertices[v] and unset links; every corner of every face is visited once and changes the links of its own
vertex only.  The effect of one corner (previous, next) on the three links is read off the loop as a function, and applying it for the
three corners (a,b), (b,c), (c,a) of a vertex in every order must give links in which the previous vertex of each corner follows the
next one cyclically.  The case that needs duplicate vertices is judged only for which corner goes to which duplicate."""
from checks.facelist import *

LEVEL = 'proof'
ASSUME = ['faceinds describes a closed polyhedron: every edge of a vertex lies in two of its faces, in opposite directions', 'every face has at least three vertices']


def simple(Z):
    """(outer loop, inner loop) building the links in place"""
    pm = Z.pm
    return [(O, L) for O, L in Z.faceloops() if any(e.x[1].k == 'i' for e in Z.stores(L, Z.poly))]


@ob('r3d_init_poly: three faces at every vertex', 600, 10)
def three(rec):
    Z = Init(rec)
    mc, pm, wh = Z.mc, Z.pm, where(FN)
    sp = simple(Z)
    cl = FN + ': links, three faces at every vertex'
    if len(sp) != 1: return rec.und(cl, '%d loops over face corners write links' % len(sp))
    O, L = sp[0]
    if facesize(Z, O, L) is None: return rec.und(cl, 'number of corners of a face')
    chosen(rec, Z, O)
    start(rec, Z, O)
    visits(rec, Z, O, L)
    for nm, sb in positions(Z, O, L): step(rec, Z, O, L, nm, sb)
    later(rec, Z, O)


def chosen(rec, Z, O):
    """in place exactly when min = max = 3"""
    ex = Z.extremes()
    cl = FN + ': links are built in place exactly when every vertex lies in three faces'
    if 'min' not in ex: return rec.und(cl, 'smallest number of faces per vertex not found')
    if 'max' not in ex: return missed(rec, Z, O, cl, ex)
    al, c = set(), icmp(Z.N, 'le', pc_(Z.pm.max))
    al |= {a.id for a in AT.byid if a.kind == 'choice'}
    fin = {}
    for kind, (L, s, at) in ex.items():
        v = slot_final(Z.mc, L, s)
        if not mentions(O.pc0, v): continue
        fin[kind] = v
        al |= set(v.support)
        c = band(c, mcmp_i(v, 'eq', I(3)))
        for l in leafset(s.init):
            k = l.const() if isinstance(l, T.P) else None
            if k is None: rec.und(cl, 'initial value')
            elif kind == 'min' and k < 3 or kind == 'max' and k > 3: rec.fail(cl, where(FN), 'the %s over the vertices starts from %d' % (kind, k))
    if 'max' not in fin: return rec.und(cl, 'the choice does not depend on the largest number of faces per vertex')
    if 'min' in fin:
        must(rec, cl, c, O.pc0, where(FN), msg='a polyhedron with three faces at every vertex takes the other branch', allow=al)
        must(rec, cl, band(O.pc0, mcmp_i(fin['min'], 'le', fin['max'])), c, where(FN), msg='a polyhedron with a vertex in more faces is built without duplicates', allow=al)
    else: must(rec, cl, O.pc0, mcmp_i(fin['max'], 'eq', I(3)), where(FN), msg='a polyhedron with a vertex in more faces is built without duplicates', allow=al)


def missed(rec, Z, O, cl, ex):
    """no maximum: does the quantity that decides miss some vertex?"""
    L, s, at = ex['min']
    for M, o in all_slots(Z.mc):
        if M is not L or o is s or not o.isint or o.isptr or o.cls != 'op' or o.next is None: continue
        if not mentions(O.pc0, slot_final(Z.mc, L, o)): continue
        d = band(L.latch_guard, mcmp_i(constrain(o.next, L.latch_guard), 'lt', leaf(pa(at))))
        if not unsat(d) and not imprecise_cond(d, {at.id, s.atom.id, o.atom.id} | set(at.support)) and not unsat(d):
            return rec.fail(cl, where(FN, L.line), '%s: the scan for the largest number of faces per vertex can pass over a vertex' % FN)
    rec.und(cl, 'largest number of faces per vertex not found')


def start(rec, Z, O):
    mc, pm = Z.mc, Z.pm
    q = ipar('q', 0, None)
    g = band(O.pc0, icmp(q, 'lt', Z.N))
    al = {a.id for a in AT.byid if a.kind == 'choice'}
    for L, s, at in Z.extremes().values(): al |= set(slot_final(mc, L, s).support)
    for i in range(3):
        off = pm.a_pos(q, i)
        same(rec, FN + ': vertex v is placed at vertices[v] (coordinate %d)' % i, mc.read(O.saved.get(Z.poly), Z.poly, off, F64, 8, g), inputs_r(mc, 'vertices', q.scale(24) + pc_(8 * i)), g, where(FN), allow=al)
    same(rec, FN + ': the vertex count is the number of vertices given', mc.read(O.saved.get(Z.poly), Z.poly, pc_(pm.nv), I32, 4, O.pc0), leaf(Z.N), O.pc0, where(FN), allow=al)


def init_links(Z, O):
    mc, pm = Z.mc, Z.pm
    q = ipar('q', 0, None)
    g = band(O.pc0, icmp(q, 'lt', Z.N))
    out = []
    for j in range(3):
        v = constrain(mc.read(O.saved.get(Z.poly), Z.poly, pm.a_nb(q, j), I32, 4, g), g)
        ls = leafset(v)
        if len(ls) != 1 or not isinstance(list(ls)[0], T.P) or list(ls)[0].const() is None: return None
        out.append(int(list(ls)[0].const()))
    return out


def nb0(pm): return int(pm.a_nb(ZERO, 0).const())


def target(Z, O, L, sb):
    """(corner, its atom) of the one vertex whose links are written under g, with the slot of each store; sb: the case"""
    hit = set()
    for e in Z.stores(L, Z.poly):
        if unsat(sb.m(e.pc)): continue
        if e.x[1].k != 'i': return 'a coordinate is written'
        off = lf(sb.p(e.x[0].off))
        for j in range(3):
            c = corner((off - pc_(nb0(Z.pm) + 4 * j)).scale(Fraction(1, Z.pm.vs)))
            if c: hit.add(c); break
        else: return 'a store that is not to a link of a corner'
    if len(hit) != 1: return '%d vertices are written' % len(hit)
    return hit.pop()


def corners(Z, L):
    """vertices whose links the loop stores to, as written"""
    out = []
    for e in Z.stores(L, Z.poly):
        for j in range(3):
            c = corner((e.x[0].off - pc_(nb0(Z.pm) + 4 * j)).scale(Fraction(1, Z.pm.vs)))
            if c and c[2] not in out: out.append(c[2])
    return out


def visits(rec, Z, O, L):
    cl = FN + ': every corner of every face is visited once'
    n, f = facesize(Z, O, L)
    if num(L.N) not in (n, pa(AT.get('max0', '', (n,), lo=0))): return rec.fail(cl, where(FN, L.line), '%s: the loop over the corners of face f does not run numvertsperface[f] times' % FN)
    bad = []

    def pick(sb):
        t = target(Z, O, L, sb)
        if isinstance(t, str): bad.append(t); return None
        if t[1] != f.scale(8): bad.append('face index'); return None
        return t[0]
    r = covers(Z, O, L, pick)
    if r is None: rec.und(cl, bad[0] if bad else '')
    elif r: rec.ok(cl)
    else: rec.fail(cl, where(FN, L.line), '%s: some corner is visited twice or not at all' % FN)


def step(rec, Z, O, L, nm, sb):
    mc, pm = Z.mc, Z.pm
    cl = FN + ': links of a vertex, its three faces in any order (corner %s)' % nm
    t = target(Z, O, L, sb)
    g0 = L.latch_guard
    g = sb.m(g0)
    if isinstance(t, str): return rec.und(cl, t)
    pos, fp, cur = t
    k, n = pa(L.k), facesize(Z, O, L)[0]
    n4 = lf(sb.p(n)).scale(4)

    def nbr(d):
        o = pos + pc_(4 * d)
        # wrap into [0, n)
        if implies(g, icmp(o, 'lt', ZERO)): o = o + n4
        elif implies(g, icmp(o, 'ge', n4)): o = o - n4
        elif not (implies(g, icmp(o, 'ge', ZERO)) and implies(g, icmp(o, 'lt', n4))): return None
        return pa(AT.get(cur.kind, cur.name, (o,) + tuple(cur.args[1:])))
    P_, N_ = nbr(-1), nbr(1)
    if P_ is None or N_ is None: return rec.und(cl, 'position of the neighbours')
    raw = next((c for c in corners(Z, L) if lf(sb.p(pa(c))) == pa(cur) and not unsat(band(g0, TRUE))), None)
    if raw is None: return rec.und(cl, 'the vertex of the corner')
    X = pa(raw)
    s0 = [constrain(sb.m(mc.at_start(L, Z.poly, pm.a_nb(X, j), I32, 4, g0)), g) for j in range(3)]
    s1 = [constrain(sb.m(mc.at_end(L, Z.poly, pm.a_nb(X, j), I32, 4, g0)), g) for j in range(3)]
    atoms = []
    for v in s0:
        ls = list(leafset(v))
        a = single(ls[0]) if len(ls) == 1 and isinstance(ls[0], T.P) else None
        if a is None: return rec.und(cl, 'links at the start of the step')
        atoms.append(a)
    u = init_links(Z, O)
    if u is None: return rec.und(cl, 'links are not set to constants first')
    pa_, na_ = single(P_), single(N_)

    def apply(st, p, q, x):
        mp = {atoms[j].id: pc_(st[j]) for j in range(3)}
        mp.update({pa_.id: pc_(p), na_.id: pc_(q), cur.id: pc_(x)})
        out = []
        for v in s1:
            r = constrain(Subst(mp).m(v), Subst(mp).m(g))
            ls = list(leafset(r))
            if len(ls) != 1 or not isinstance(ls[0], T.P) or ls[0].const() is None:
                return {a for a in r.support | set(x for l in ls if isinstance(l, T.P) for x in l.support) | bsup(r)}
            out.append(int(ls[0].const()))
        return out
    n_ = 0
    for names in ((0, 1, 2), (511, 509, 510), (2, 0, 1)):
        x = 7
        cyc = [(names[0], names[1]), (names[1], names[2]), (names[2], names[0])]
        for order in permutations(range(3)):
            st = list(u)
            for i in order:
                st = apply(st, cyc[i][0], cyc[i][1], x)
                if isinstance(st, set):
                    ks = {(AT.byid[a].kind, str(AT.byid[a].name)) for a in st}
                    if st and any(k == 'init' and 'vertices' in nm for k, nm in ks) and not any(k not in ('init', 'par', 'iv') for k, nm in ks):
                        return rec.fail(cl, where(FN, L.line), '%s: what a corner does to the links depends on the coordinates' % FN)
                    return rec.und(cl, 'the effect of a corner depends on more than the links, the previous and the next vertex: %s' % sorted(ks)[:4])
            n_ += 1
            ok = sorted(st) == sorted(names) and all(st[(st.index(q) + 1) % 3] == p for p, q in cyc)
            if not ok:
                return rec.fail(cl, where(FN, L.line), '%s: corners (previous, next) = %s leave the links %s, which are not the neighbours in the order of the faces' % (FN, [cyc[i] for i in order], st))
    rec.count('corner_sequences', n_)
    rec.ok(cl)


def later(rec, Z, O):
    """nothing written to the polytope after the links are built"""
    cl = FN + ': the finished links and coordinates are not changed again'
    last = max([i for i, e in enumerate(Z.mc.events) if O in e.loops], default=-1)
    for e in Z.mc.events[last + 1:]:
        if e.kind in ('store', 'memcpy', 'memset') and any(isinstance(l, Ptr) and l.obj is Z.poly for l in ([e.x[0]] if e.kind == 'store' else leafset(e.x[0]))) and not unsat(band(e.pc, O.pc0)):
            return rec.und(cl, 'line %s' % e.line)
    rec.ok(cl)
