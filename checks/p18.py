"""P18: is_good accepts exactly the graphs that pass its documented checks.
The function is summarised for an arbitrary vertex count and arbitrary link values (also out of range).  Rules, per function:
(1) a return value of 1 requires every vertex loop to run to its end, and the generic step of such a loop only continues when the
vertex has no link below 0, none beyond the count, none to itself and no two equal; every early exit has such a reason;
(2) the generic step adds to the count of every vertex exactly the number of links pointing to it, and a later loop over all vertices
only continues when the count is the dimension (and only refuses when it is not);
(3) work-list fills: each step takes the top entry; if it is marked already nothing else changes; otherwise it becomes marked, nothing
else does, and every link of it is put on the list; the fill ends only with an empty list;
(4) region numbers: one fill from every vertex without a number, numbers non-zero and new for each fill;
(5) 3D: every pair of vertices of one region is masked in turn, a fill starts from a third vertex of the region, and the pair is only
passed when every vertex of the region is marked.
N dimensions: rule 5 for the enumeration of masked subsets is not judged (the mask and the final test are)."""
from engine.fw import *
from engine.flow import Slot
from fractions import Fraction

LEVEL = 'proof'
ASSUME = ['the vertex count is between 0 and the capacity; nothing is assumed about the links']
AL = ('choice', 'rd', 'phi', 'iv', 'ivx', 'hav')


class G:
    """everything about one is_good"""
    def __init__(s, rec, k):
        s.rec, s.pm = rec, Env.PMs[k]
        s.fn = s.pm.pre + '_is_good'
        need(s.fn)
        s.D = s.pm.nbn
        s.p = PolyIn(s.pm, 'poly', links=False)
        s.p.N.support

        def mk(mc):
            mc.skip_undef = True
            s.mc = mc
            return [pobj(mc, 'poly')]
        run(rec, s.fn, [s.p], mk, **({} if k == "r2" else {"force": s.D}))
        s.N = s.p.N
        s.loops = list(s.mc.loops_seen.values())
        s.ok = FALSE
        for g, l in leaves(s.mc.ret):
            if not isinstance(l, P): raise Undecided('return value')
            s.ok = bor(s.ok, band(g, bnot(icmp(l, 'eq', ZERO))))
        s.top = [l for l in s.loops if not l.outer]
        s.W = where(s.fn)

    def hdr(s, l): return l.id.split('#')[-1].split('|')[0]

    def normal(s, l):
        """number of the exit taken when the loop runs to its end"""
        ex = [i for i, e in enumerate(l.exits) if e.frm == s.hdr(l)]
        return ex[0] if len(ex) == 1 else None

    def exitlit(s, l, i):
        if len(l.exits) == 1: return TRUE
        args = tuple(pa(q.k) for q in l.outer)
        rest = TRUE
        for j in range(len(l.exits)):
            lit = rest
            if j < len(l.exits) - 1:
                at = AT.get('choice', (l.id, j), args)
                o = mvar(T.getvar('o', 'O', at, at.id))
                lit, rest = band(rest, o), band(rest, bnot(o))
            if j == i: return lit

    def ends(s, l):
        i = s.normal(l)
        return FALSE if i is None else s.exitlit(l, i)

    def idx(s, l):
        """the vertex number a loop over all vertices is at"""
        if l.k is None or l.N is None or l.N.fp != s.N.fp: return None
        for x in l.phis.values():
            if x.isint and not x.isptr and x.cls == 'iv' and x.atom is not None:
                v = s.mc.slot_cur(l, x)
                if v.var is None and isinstance(v.leaf, P):
                    sp = span(l.k, l.N, v.leaf)
                    if sp and sp[0].fp == ZERO.fp and sp[1].fp == (s.N - 1).fp: return v.leaf
        return pa(l.k)

    def over(s, l):
        """loops over all vertices"""
        return s.idx(l) is not None

    def step(s, l):
        k = pa(l.k)
        return band(icmp(k, 'ge', ZERO), icmp(k, 'lt', l.N if l.N is not None else s.N))

    def lnk(s, v, j):
        r = s.p.nbP(v, j)
        return r


def bads(g, v):
    out = []
    for j in range(g.D):
        x = g.lnk(v, j)
        out.append(('link %d below 0' % j, icmp(x, 'lt', ZERO)))
        out.append(('link %d beyond the vertices' % j, icmp(x, 'ge', g.N)))
        out.append(('link %d to itself' % j, icmp(x, 'eq', v)))
        for i in range(j): out.append(('links %d and %d equal' % (i, j), icmp(g.lnk(v, i), 'eq', x)))
    return out


def span(k, N, idx):
    """first and last value of an index that moves by one per iteration k = 0 .. N-1"""
    c = idx.coef(k.id)
    if c not in (1, -1) or k.id in (idx - pa(k).scale(c)).support: return None
    a = idx - pa(k).scale(c)
    return (a, a + N - 1) if c == 1 else (a - N + 1, a)


def covers(rec, claim, sp, lo, hi, pc, at):
    """every number of lo..hi is met"""
    must(rec, claim, band(pc, icmp(hi, 'ge', lo)), band(icmp(sp[0], 'le', lo), icmp(sp[1], 'ge', hi)), at, allow=AL)


def links(g):
    """rule 1: -> loops that check links"""
    rec, ck = g.rec, []
    # the loops a positive answer has passed
    full = [l for l in g.top if g.over(l) and implies(g.ok, g.ends(l))]
    for l in g.top:
        if l in full or not g.over(l): continue
        if l.exits and len(l.exits) > 1: rec.und('a positive answer requires loop %s to run to its end' % l.id, '')
    names = [n for n, _ in bads(g, ZERO)]
    for i, n in enumerate(names):
        cl = 'never accepted: %s' % n
        got, worst = False, None
        for l in full:
            try:
                d = band(l.latch_guard, bads(g, g.idx(l))[i][1])
                if d is FALSE or unsat(d): got = True; ck += [l] if l not in ck else []; break
                if not imprecise_cond(d, AL): worst = d
            except Undecided: pass
        if got: rec.ok(cl)
        elif not full: rec.und(cl, 'no loop over all vertices found that a positive answer passes')
        elif worst is not None and all(l in full for l in g.top if len(l.exits) > 1):
            rec.fail(cl, g.W, 'no loop over the vertices stops at a vertex with this defect: %s' % n)
        else: rec.und(cl, 'not found in %s' % [l.id for l in full])
    for l in full:
        bd = FALSE
        for _, b in bads(g, g.idx(l)): bd = bor(bd, b)
        for i, e in enumerate(l.exits):
            if i == g.normal(l): continue
            ks = {AT.byid[a].kind for v in bsupport(e.g) for a in (T.VARS[v].term.support if T.VARS[v].term is not None else ())}
            if l in ck and not ks & {'rd', 'phi'}:
                must(rec, 'a vertex is only refused for a bad link', e.g, bd, g.W, allow=AL)
    return ck, full


def counts(g, ck, full):
    """rule 2"""
    rec, mc = g.rec, g.mc
    tests = []
    for l in [q for q in g.top if len(q.exits) > 1 and q.N is not None and implies(g.ok, g.ends(q))]:
        for i, e in enumerate(l.exits):
            if i == g.normal(l): continue
            for v in T.essential(e.g):
                V = T.VARS[v[0]]
                if V.kind == 'i' and isinstance(V.term, P) and l not in [t[0] for t in tests]:
                    for a in V.term.support:
                        at = AT.byid[a]
                        nm = objof(at)
                        if nm and at.args: tests.append((l, nm, at.args[0]))
    tests = [t for t in tests if any(o.name == t[1] for q in g.top if q is not t[0] for o in (q.W or ()))]
    if not tests:
        # nothing tests a count
        arrs = [o for l in g.top for o in (l.W or ()) if o.kind == 'alloca']
        multi = [l for l in g.top if len(l.exits) > 1 and l not in ck]
        rd = any(e.kind == 'load' and isinstance(e.x[0], Ptr) and e.x[0].obj in arrs and not any(o is e.x[0].obj for q in e.loops for o in (q.W or ())) for e in mc.events)
        if not arrs or (g.D == 2 and not multi and not rd): rec.fail('vertices are counted', g.W, 'no loop refuses a vertex that the wrong number of links point to')
        else: rec.und('vertices are counted', 'no loop tests a count')
        return
    L2, nm, where_ = tests[0]
    obj = [o for q in g.top for o in (q.W or ()) if o.name == nm][0]
    # L2: continue iff count == D
    try: k = where_.scale(Fraction(1, 4))
    except Exception: k = None
    sp = span(L2.k, L2.N, k) if k is not None else None
    if sp is None: rec.und('vertices are counted', 'the loop that tests the counts does not step through them'); return
    covers(rec, 'the count of every vertex is tested', sp, ZERO, g.N - 1, g.ok, g.W)
    rng = band(icmp(k, 'ge', ZERO), icmp(k, 'lt', g.N))
    cnt = mc.at_start(L2, obj, k * 4, I32, 4, band(rng, g.step(L2)))
    eq = mcmp_i(cnt, 'eq', I(g.D))
    # every link is in range and counted, so the counts add up to D per vertex: none above D (or none below) means all equal D
    lg2 = band(L2.latch_guard, rng)
    if implies(lg2, mcmp_i(cnt, 'le', I(g.D))) or implies(lg2, mcmp_i(cnt, 'ge', I(g.D))): rec.ok('a vertex passes only with %d links to it' % g.D)
    else: must(rec, 'a vertex passes only with %d links to it' % g.D, lg2, eq, g.W, allow=AL)
    for i, e in enumerate(L2.exits):
        if i != g.normal(L2): must(rec, 'a vertex with %d links to it is not refused' % g.D, e.g, bnot(eq), g.W, allow=AL)
    # the counting loop
    before = g.loops[:g.loops.index(L2)]
    cl = [l for l in before if not l.outer and obj in (l.W or ())]
    if len(cl) != 1 or not g.over(cl[0]): rec.und('counting step', 'counted in %d loops' % len(cl)); return
    L1 = cl[0]
    must(rec, 'every vertex is counted before a positive answer', g.ok, g.ends(L1), g.W, allow=AL)
    # nothing else touches the counts in between
    idx = [i for i, e in enumerate(mc.events) if e.kind in ('store', 'memset') and touches(e, obj)]
    i1 = [i for i in idx if L1 in mc.events[i].loops]
    i2 = [i for i, e in enumerate(mc.events) if L2 in e.loops]
    if any(i for i in idx if i1 and i2 and max(i1) < i < min(i2)): rec.und('counting step', 'counts changed between'); return
    j = ipar('j', 0, g.pm.max - 1)
    kk = g.idx(L1)
    for q in range(g.D):
        o = g.lnk(kk, q) * 4
        old, new = mc.at_start(L1, obj, o, I32, 4, L1.latch_guard), mc.at_end(L1, obj, o, I32, 4, L1.latch_guard)
        same(rec, 'each link counts once for the vertex it points to', constrain(new, L1.latch_guard), constrain(madd(old, 1), L1.latch_guard), L1.latch_guard, g.W, allow=AL)
    pc = band(L1.latch_guard, icmp(j, 'lt', g.N))
    for q in range(g.D): pc = band(pc, bnot(icmp(g.lnk(kk, q), 'eq', j)))
    old, new = mc.at_start(L1, obj, j * 4, I32, 4, pc), mc.at_end(L1, obj, j * 4, I32, 4, pc)
    same(rec, 'no other vertex is counted', constrain(new, pc), constrain(old, pc), pc, g.W, allow=AL)
    st = mc.read(L1.saved.get(obj), obj, j * 4, I32, 4, L1.pc0)
    same(rec, 'counting starts at zero', st, I(0), band(L1.pc0, icmp(j, 'lt', g.N)), g.W, allow=AL)


def madd(m, c): return map1(lambda l: l + c if isinstance(l, P) else T.UNDEF, m)


def objof(at):
    """name of the array a quantity was read from"""
    if at.kind == 'rd' and isinstance(at.name, tuple) and len(at.name) == 3: return at.name[1]
    if at.kind == 'phi' and isinstance(at.name, tuple) and isinstance(at.name[1], tuple) and at.name[1][0] == 'cell': return at.name[1][1]
    return None


def touches(e, obj):
    for x in leafset(e.x[0]) if isinstance(e.x[0], M) else [e.x[0]]:
        if isinstance(x, Ptr) and x.obj is obj: return True
    return False


def fills(g):
    """the work-list loops: [(loop, count slot, list object, mark object, taken vertex)]"""
    mc, out = g.mc, []
    for l in g.loops:
        if l.N is not None or len(l.W or ()) < 2 or any(l in q.outer for q in g.loops): continue
        ss = [s for s in l.phis.values() if s.isint and s.cls == 'op' and s.atom is not None]
        if len(ss) != 1: g.rec.und('fill %s' % l.id, 'list length not recognised'); continue
        s = ss[0]
        n = pa(s.atom)
        objs = [o for o in l.W if o.kind == 'alloca']
        got = None
        for o in objs:
            # the list is the object whose top entry is used to index the others
            t = mc.at_start(l, o, (n - 1) * 4, I32, 4, l.latch_guard)
            if t.var is None and isinstance(t.leaf, P):
                for e in mc.events:
                    if e.kind == 'store' and l in e.loops and isinstance(e.x[0], Ptr) and e.x[0].obj in objs and e.x[0].obj is not o and e.x[0].off.fp == t.leaf.scale(4).fp:
                        got = (l, s, o, e.x[0].obj, t.leaf)
        if got is None: g.rec.und('fill %s' % l.id, 'list and marks not recognised'); continue
        out.append(got)
    return out


def fill(g, f, tag):
    """rule 3"""
    rec, mc = g.rec, g.mc
    l, s, lst, mark, vc = f
    n = pa(s.atom)
    lg = l.latch_guard
    A = band(icmp(n, 'gt', ZERO), band(icmp(vc, 'ge', ZERO), icmp(vc, 'lt', g.N)))
    pc = band(lg, A)
    for j in range(g.D): pc = band(pc, band(icmp(g.lnk(vc, j), 'ge', ZERO), icmp(g.lnk(vc, j), 'lt', g.N)))
    m0 = mc.at_start(l, mark, vc * 4, I32, 4, pc)
    un = mcmp_i(m0, 'eq', I(0))
    i = g.normal(l)
    if i is None or len(l.exits) != 1: rec.und(tag + 'ends with an empty list', 'several exits')
    else: must(rec, tag + 'ends only with an empty list', l.exits[i].g, icmp(n, 'le', ZERO), g.W, allow=AL)
    j = ipar('j', 0, g.pm.max - 1)
    pj = band(pc, icmp(j, 'lt', g.N))
    a0, a1 = mc.at_start(l, mark, j * 4, I32, 4, pj), mc.at_end(l, mark, j * 4, I32, 4, pj)
    same(rec, tag + 'no other vertex changes its mark', constrain(a1, pj), constrain(a0, pj), band(pj, bnot(icmp(j, 'eq', vc))), g.W, allow=AL)
    v1 = mc.at_end(l, mark, vc * 4, I32, 4, pc)
    must(rec, tag + 'the taken vertex is marked', pc, bnot(mcmp_i(v1, 'eq', I(0))), g.W, allow=AL)
    # entries
    below = ipar('b', 0, None)
    pb = band(pc, icmp(below, 'lt', n - 1))
    b0, b1 = mc.at_start(l, lst, below * 4, I32, 4, pb), mc.at_end(l, lst, below * 4, I32, 4, pb)
    same(rec, tag + 'entries below the taken one stay', constrain(b1, pb), constrain(b0, pb), pb, g.W, allow=AL)
    pu = band(pc, un)
    nx = constrain(s.next, pu)
    mx = 0
    for gg, x in leaves(nx):
        if not isinstance(x, P): rec.und(tag + 'list length', x); return
        c = (x - n).const()
        if c is None or c < -1: rec.und(tag + 'list length', x); return
        mx = max(mx, int(c))
    ent = []
    for q in range(-1, mx):
        ent.append((q, constrain(mc.at_end(l, lst, (n + q) * 4, I32, 4, pu), pu)))
    for jj in range(g.D):
        w = g.lnk(vc, jj)
        there = FALSE
        for q, m in ent:
            for gg, x in leaves(m):
                if isinstance(x, P) and x.fp == w.fp:
                    there = bor(there, band(gg, mcmp_i(nx, 'gt', leaf(n + q))))
        mw = mc.at_start(l, mark, w * 4, I32, 4, pu)
        there = bor(there, band(bnot(mcmp_i(mw, 'eq', I(0))), TRUE))
        there = bor(there, icmp(w, 'eq', vc))
        must(rec, tag + 'link %d of the taken vertex is put on the list' % jj, pu, there, g.W, allow=AL)
    # an already marked vertex adds nothing that never ends: the list shrinks
    pm_ = band(pc, bnot(un))
    must(rec, tag + 'a marked vertex is dropped', pm_, mcmp_i(constrain(s.next, pm_), 'lt', leaf(n)), g.W, allow=AL)


def regions(g, f):
    """rule 4"""
    rec, mc = g.rec, g.mc
    l, s, lst, mark, vc = f
    if len(l.outer) != 1 or not g.over(l.outer[0]): rec.und('regions: one fill from every vertex', 'not in a loop over the vertices'); return
    V = l.outer[0]
    k = g.idx(V)
    must(rec, 'regions: all vertices are seen before a positive answer', g.ok, g.ends(V), g.W, allow=AL)
    r0 = mc.at_start(V, mark, k * 4, I32, 4, g.step(V))
    A = band(band(V.pc0, g.step(V)), mcmp_i(r0, 'eq', I(0)))
    must(rec, 'regions: every vertex without a number starts a fill', A, l.pc0, g.W, allow=AL)
    must(rec, 'regions: no other vertex starts a fill', band(l.pc0, g.step(V)), mcmp_i(r0, 'eq', I(0)), g.W, allow=AL)
    same(rec, 'regions: a fill starts with one entry', s.init, I(1), l.pc0, g.W, allow=AL)
    same(rec, 'regions: a fill starts at the vertex', mc.read(l.saved.get(lst), lst, ZERO, I32, 4, l.pc0), leaf(k), l.pc0, g.W, allow=AL)
    j = ipar('j', 0, g.pm.max - 1)
    same(rec, 'regions: no vertex has a number at first', mc.read(V.saved.get(mark), mark, j * 4, I32, 4, V.pc0), I(0), band(V.pc0, icmp(j, 'lt', g.N)), g.W, allow=AL)
    # numbers
    pc = l.latch_guard
    v1 = constrain(mc.at_end(l, mark, vc * 4, I32, 4, pc), band(pc, mcmp_i(mc.at_start(l, mark, vc * 4, I32, 4, pc), 'eq', I(0))))
    if v1.var is not None or not isinstance(v1.leaf, P): rec.und('regions: numbers are new', 'value %s' % str(v1)[:100]); return
    lab = v1.leaf
    ns = [x for x in V.phis.values() if x.atom is not None and x.isint and x.atom.id in lab.support]
    if ns:
        x = ns[0]
        c = (lab - pa(x.atom)).const()
        if c is None: rec.und('regions: numbers are new', lab); return
        must(rec, 'regions: numbers are not zero', V.pc0, mcmp_i(x.init, 'gt', I(-int(c))), g.W, allow=AL)
        nx = band(V.latch_guard, l.pc0)
        must(rec, 'regions: every fill has a new number', nx, mcmp_i(constrain(x.next, nx), 'gt', leaf(pa(x.atom))), g.W, allow=AL)
        nn = band(V.latch_guard, bnot(l.pc0))
        must(rec, 'regions: numbers never go back', nn, mcmp_i(constrain(x.next, nn), 'ge', leaf(pa(x.atom))), g.W, allow=AL)
    elif lab.const() is not None:
        rec.fail('regions: every fill has a new number', g.W, 'every region gets the number %s' % lab)
    elif lab.support == {V.k.id}:
        c = (lab - k).const()
        if c is None: rec.und('regions: numbers are new', lab); return
        if c >= 1: rec.ok('regions: every fill has a new number'); rec.ok('regions: numbers are not zero')
        else: rec.fail('regions: numbers are not zero', g.W, 'vertex %d gives its region the number 0' % -c)
    else: rec.und('regions: numbers are new', lab)


def pairs(g, f, reg):
    """rule 5"""
    rec, mc = g.rec, g.mc
    l, s, lst, mark, vc = f
    region = reg[3]
    inner = tuple(l.outer)
    chk = [q for q in g.loops if q.outer[:len(inner)] == inner and len(q.outer) == len(inner) and g.loops.index(q) > g.loops.index(l) and len(q.exits) > 1]
    chk = [q for q in chk if g.over(q)]
    if len(chk) != 1: rec.und('connectivity: final test', '%d loops' % len(chk)); return
    C = chk[0]
    k = g.idx(C)
    same_mark = not any(e.kind in ('store', 'memset') and touches(e, mark) and l not in e.loops for e in mc.events[max(i for i, e in enumerate(mc.events) if l in e.loops) + 1:min(i for i, e in enumerate(mc.events) if C in e.loops)])
    if not same_mark: rec.und('connectivity: final test', 'marks change before it')
    # which region
    R = lambda v, pc: constrain(mc.read(l.saved.get(region), region, v * 4, I32, 4, pc), pc)
    gC = band(C.pc0, g.step(C))
    rk = mc.at_start(C, region, k * 4, I32, 4, gC)
    mk = mc.at_start(C, mark, k * 4, I32, 4, gC)
    unm = mcmp_i(mk, 'eq', I(0))
    if g.D == 3 and len(inner) == 2:
        VA, VB = inner
        va, kb = pa(VA.k), pa(VB.k)
        if VA.N is None or VB.N is None: rec.und('connectivity: every pair is tried', 'loops not counted'); return
        # the two masked vertices
        ix = []
        for e in mc.events:
            if e.kind == 'store' and e.loops and e.loops[-1] is VB and isinstance(e.x[0], Ptr) and e.x[0].obj is mark:
                o = e.x[0].off.scale(Fraction(1, 4))
                if o.fp not in [q.fp for q in ix]: ix.append(o)
        ia = [o for o in ix if VB.k.id not in o.support and span(VA.k, VA.N, o)]
        ib = [o for o in ix if VB.k.id in o.support and span(VB.k, VB.N, o)]
        if len(ix) == 1: rec.fail('connectivity: the pair is masked', g.W, 'only vertex %s is masked' % ix[0]); return
        if len(ia) != 1 or len(ib) != 1: rec.und('connectivity: every pair is tried', 'masked vertices %s' % ix); return
        va, vb = ia[0], ib[0]
        sa, sb = span(VA.k, VA.N, va), span(VB.k, VB.N, vb)
        must(rec, 'connectivity: all first vertices are tried before a positive answer', g.ok, g.ends(VA), g.W, allow=AL)
        must(rec, 'connectivity: all second vertices are tried', VA.latch_guard, g.ends(VB), g.W, allow=AL)
        inn = band(icmp(va, 'ge', ZERO), icmp(va, 'lt', g.N))
        up = implies(band(VB.pc0, inn), icmp(sb[0], 'ge', va))
        down = implies(band(VB.pc0, inn), icmp(sb[1], 'le', va))
        if up:
            covers(rec, 'connectivity: every pair is tried', sb, va + 1, g.N - 1, band(VA.latch_guard, inn), g.W)
            covers(rec, 'connectivity: every pair is tried', sa, ZERO, g.N - 2, g.ok, g.W)
        elif down:
            covers(rec, 'connectivity: every pair is tried', sb, ZERO, va - 1, band(VA.latch_guard, inn), g.W)
            covers(rec, 'connectivity: every pair is tried', sa, pc_(1), g.N - 1, g.ok, g.W)
        else:
            covers(rec, 'connectivity: every pair is tried', sb, ZERO, g.N - 1, band(VA.latch_guard, inn), g.W)
            covers(rec, 'connectivity: every pair is tried', sa, ZERO, g.N - 1, g.ok, g.W)
        dom = band(band(VB.pc0, inn), band(icmp(vb, 'lt', g.N), band(icmp(vb, 'ge', ZERO), bnot(icmp(va, 'eq', vb)))))
        ra = mc.at_start(VB, region, va * 4, I32, 4, dom)
        rb = mc.at_start(VB, region, vb * 4, I32, 4, dom)
        eq = meq(ra, rb)
        kb = pa(VB.k)
        kbr = band(icmp(kb, 'ge', ZERO), icmp(kb, 'lt', VB.N))
        must(rec, 'connectivity: a pair of one region is only passed after the test', band(VB.latch_guard, band(dom, band(kbr, eq))), g.ends(C), g.W, allow=AL)
        # mask
        j = ipar('j', 0, g.pm.max - 1)
        pj = band(l.pc0, icmp(j, 'lt', g.N))
        m = mc.read(l.saved.get(mark), mark, j * 4, I32, 4, pj)
        isab = bor(icmp(j, 'eq', va), icmp(j, 'eq', vb))
        must(rec, 'connectivity: the pair is masked', band(pj, isab), bnot(mcmp_i(m, 'eq', I(0))), g.W, allow=AL)
        must(rec, 'connectivity: nothing else is masked', band(pj, bnot(isab)), mcmp_i(m, 'eq', I(0)), g.W, allow=AL)
        # start vertex
        same(rec, 'connectivity: the fill starts with one entry', s.init, I(1), l.pc0, g.W, allow=AL)
        srch = [q for q in g.loops if q.outer == inner and len(q.exits) == 2 and g.over(q) and q is not C and not q.W]
        if len(srch) == 1:
            S = srch[0]
            i = 1 - g.normal(S)
            c = g.idx(S)
            rc = mc.at_start(S, region, c * 4, I32, 4, band(S.pc0, g.step(S)))
            good = band(meq(rc, mc.at_start(S, region, va * 4, I32, 4, S.pc0)), band(bnot(icmp(c, 'eq', va)), bnot(icmp(c, 'eq', vb))))
            must(rec, 'connectivity: the fill starts at a third vertex of the region', S.exits[i].g, good, g.W, allow=AL)
            must(rec, 'connectivity: a third vertex of the region is not passed over', band(S.latch_guard, g.step(S)), bnot(good), g.W, allow=AL)
        else: rec.und('connectivity: start vertex', '%d search loops' % len(srch))
        want = mc.at_start(C, region, va * 4, I32, 4, gC)
    else:
        rec.und('connectivity: the enumeration of masked subsets below the last index', 'not judged')
        want = None
        so = [o for o in (inner[-1].W or ()) if o.kind == 'alloca' and o is not mark and o is not lst] if inner else []
        if len(so) == 1:
            el = [constrain(mc.at_start(l, so[0], pc_(4 * i), I32, 4, l.pc0), l.pc0) for i in range(g.D - 1)]
            if all(e.var is None and isinstance(e.leaf, P) for e in el):
                want = mc.at_start(C, region, el[0].leaf.scale(4), I32, 4, gC)
                j = ipar('j', 0, g.pm.max - 1)
                pj = band(l.pc0, icmp(j, 'lt', g.N))
                m = mc.read(l.saved.get(mark), mark, j * 4, I32, 4, pj)
                ins = FALSE
                for e in el: ins = bor(ins, icmp(j, 'eq', e.leaf))
                must(rec, 'connectivity: the subset is masked', band(pj, ins), bnot(mcmp_i(m, 'eq', I(0))), g.W, allow=AL)
                must(rec, 'connectivity: nothing else is masked', band(pj, bnot(ins)), mcmp_i(m, 'eq', I(0)), g.W, allow=AL)
                same(rec, 'connectivity: the fill starts with one entry', s.init, I(1), l.pc0, g.W, allow=AL)
                # which subsets are tested: all of its vertices in one region
                one = TRUE
                for e in el[1:]: one = band(one, meq(mc.at_start(l, region, e.leaf.scale(4), I32, 4, l.pc0), mc.at_start(l, region, el[0].leaf.scale(4), I32, 4, l.pc0)))
                O = inner[-1]
                must(rec, 'connectivity: a subset of one region is only passed after the test', band(O.latch_guard, band(one, TRUE)), g.ends(C), g.W, allow=AL)
                must(rec, 'connectivity: all subsets are tried before a positive answer', g.ok, g.ends(O), g.W, allow=AL)
                for i, e in enumerate(O.exits):
                    if e.frm == g.hdr(O): must(rec, 'connectivity: the subsets end only with one beyond the vertices', e.g, bor(icmp(el[-1].leaf, 'ge', g.N), FALSE), g.W, allow=AL)
                # the enumeration: the last index moves up by one exactly when the ones below it are packed against it
                LG = O.latch_guard
                eo = [mc.at_start(O, so[0], pc_(4 * i), I32, 4, LG) for i in range(g.D - 1)]
                if all(e.var is None and isinstance(e.leaf, P) for e in eo):
                    eo = [e.leaf for e in eo]
                    packed = TRUE
                    for i in range(g.D - 2): packed = band(packed, icmp(eo[i], 'ge', eo[i + 1] - 1))
                    end = mc.at_end(O, so[0], pc_(4 * (g.D - 2)), I32, 4, LG)
                    same(rec, 'connectivity: the last index moves up by one, only when the others are used up', constrain(end, LG), constrain(ite(packed, leaf(eo[-1] + 1), leaf(eo[-1])), LG), LG, g.W, allow=AL)
                srch = [q for q in g.loops if q.outer == inner and len(q.exits) >= 2 and g.over(q) and q is not C and not q.W]
                if len(srch) == 1 and g.normal(srch[0]) is not None:
                    S = srch[0]
                    c = g.idx(S)
                    rc = mc.at_start(S, region, c * 4, I32, 4, band(S.pc0, g.step(S)))
                    good = meq(rc, mc.at_start(S, region, el[0].leaf.scale(4), I32, 4, S.pc0))
                    for e in el: good = band(good, bnot(icmp(c, 'eq', e.leaf)))
                    for i, e in enumerate(S.exits):
                        if i != g.normal(S): must(rec, 'connectivity: the fill starts at another vertex of the region', e.g, good, g.W, allow=AL)
                    must(rec, 'connectivity: another vertex of the region is not passed over', band(S.latch_guard, g.step(S)), bnot(good), g.W, allow=AL)
                else: rec.und('connectivity: start vertex', '%d search loops' % len(srch))
        if want is None: rec.und('connectivity: final test', 'region of the subset not recognised'); return
    same_r = meq(rk, want)
    must(rec, 'connectivity: passed only if every vertex of the region was reached', band(C.latch_guard, band(g.step(C), same_r)), bnot(unm), g.W, allow=AL)
    for i, e in enumerate(C.exits):
        if i != g.normal(C): must(rec, 'connectivity: refused only for a vertex of the region that was not reached', e.g, band(same_r, unm), g.W, allow=AL)


def meq(a, b): return T.mcmp(a, 'eq', b) if hasattr(T, 'mcmp') else mcmp_i(a, 'eq', b)


def accesses(g, ck):
    """no access with an unchecked link before the check"""
    rec, mc = g.rec, g.mc
    if not ck: return
    last = max(g.loops.index(l) for l in ck)
    n = 0
    for e in mc.events:
        if e.kind not in ('load', 'store') or not isinstance(e.x[0], Ptr): continue
        o = e.x[0].obj
        if o.kind != 'alloca' or o.size is None: continue
        t = e.loops[0] if e.loops else None
        if t is None or t not in ck: continue
        off = e.x[0].off
        if not any(AT.byid[a].kind == 'lnk' or AT.byid[a].kind == 'init' for a in off.support): continue
        n += 1
        sz = o.size if isinstance(o.size, P) else pc_(o.size)
        must(rec, 'links are only used as an index after they were checked', e.pc, band(icmp(off, 'ge', ZERO), icmp(sz - off - e.x[2], 'ge', ZERO)), where(e.fn, e.line), allow=AL)
    rec.count('index_uses', n)


def main(k):
    @ob('%s_is_good' % {'r2': 'r2d', 'r3': 'r3d', 'rN': 'rNd'}[k], 500, 9)
    def f(rec):
        g = G(rec, k)
        ck, full = links(g)
        counts(g, ck, full)
        accesses(g, ck)
        if k != 'r2':
            fs = fills(g)
            for f_ in fs: fill(g, f_, 'fill %d: ' % fs.index(f_))
            a = [x for x in fs if len(x[0].outer) == 1 and g.over(x[0].outer[0])]
            b = [x for x in fs if x not in a]
            if len(a) == 1: regions(g, a[0])
            else: rec.und('regions', '%d fills' % len(a))
            if len(a) == 1 and len(b) == 1: pairs(g, b[0], a[0])
            elif len(fs) < 2 and not any(l.N is None for l in g.loops if l not in [x[0] for x in fs]):
                rec.fail('connectivity is tested', g.W, 'there are %d fills; connectivity with masked vertices needs one for the regions and one per mask' % len(fs))
            else: rec.und('connectivity', '%d fills' % len(b))
        rec.count('loops', len(g.loops))


for k_ in ('r2', 'r3', 'rN'): main(k_)
