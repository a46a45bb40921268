"""Rule: every path of r3d_clip, r3d_split or r3d_init_poly that returns 0 from inside the work leaves a loop.  Following the exits of
the nested loops down to the test that caused it, the vertex count held in memory there must leave no room for what comes next (one
vertex in r3d_clip, one vertex on each side in r3d_split); r3d_init_poly: the vertices asked for, or the running sum of
faces per vertex, must exceed the capacity, or some vertex lies in fewer than three faces.  Every path that returns 1 has completed all
planes (polytopes, vertices), or leaves the polytope empty.  Nothing but 0 and 1 is returned.  A refusal whose cause cannot be traced to
the running count is left undecided."""
from checks.facelist import *

LEVEL = 'proof'
ASSUME = ['the number of planes and of polytopes is not negative', 'distinct pointer arguments do not overlap']
ONE = I(1).leaf


def loops(mc): return list(mc.loops_seen.values())


def picked(info, i):
    """condition under which control leaves the loop through exit i"""
    ar = tuple(pa(l.k) for l in info.outer)
    g = TRUE
    for j in range(min(i + 1, len(info.exits) - 1)):
        ch = AT.get('choice', (info.id, j), ar)
        o = mvar(T.getvar('o', 'O', ch, ch.id))
        g = band(g, o if j == i else bnot(o))
    return g


def line(info, e):
    f = next((m.funcs[info.fn] for m in Env.mods.values() if info.fn in m.funcs), None)
    if f is None or e.frm not in f.blocks: return None
    return next((x.line for x in reversed(f.blocks[e.frm]) if x.line), None)


def decides(c, L):
    """does the condition depend on how the loop is left?"""
    return any(AT.byid[a].kind == 'choice' and AT.byid[a].name[0] == L.id for a in bsup(c))


class Why:
    """does leaving a loop here imply that the capacity is reached?"""

    def __init__(s, mc, obj, k):
        s.mc, s.obj, s.k, s.pm = mc, obj, k, Env.PMs['r3']

    def at(s, f, L, g): return constrain(f(L, s.obj, I(s.pm.nv).leaf, I32, 4, g), g)

    def full(s, L, g):
        """True / False / None (cannot be read off)"""
        cap = s.pm.max
        g = band(g, mcmp_i(s.at(s.mc.at_start, L, g), 'ge', I(0)))         # a count of vertices
        a, b = s.at(s.mc.at_start, L, g), s.at(s.mc.at_end, L, g)
        if implies(g, mcmp_i(b, 'ge', I(cap))) or implies(g, mcmp_i(a, 'ge', I(cap + 1 - s.k))): return True
        d = isub(b, a)
        steps = [l for h, l in leaves(d) if not unsat(band(g, h))]
        if not all(isinstance(l, T.P) and l.const() is not None for l in steps): return None
        if implies(g, mcmp_i(b, 'ge', I(cap + 1 - s.k))) and all(l.const() % s.k == 0 for l in steps): return True
        own = {at.id for at in AT.byid if isinstance(at.name, tuple) and at.name and at.name[0] == L.id}
        return False if own & set(a.support) else None

    def exit(s, L, i, extra=TRUE):
        """[] when leaving L through exit i is explained, else [(loop, exit, False/None)]"""
        e = L.exits[i]
        g = band(extra, e.g)
        if unsat(g): return []
        r = s.full(L, g)
        if r: return []
        worst = [(L, e, r)]
        for M in loops(s.mc):
            if not M.outer or M.outer[-1] is not L or len(M.exits) < 2: continue
            live = [j for j in range(len(M.exits)) if not unsat(band(g, picked(M, j)))]
            if len(live) == len(M.exits): continue                  # this loop has no say in it
            bad = [x for j in live for x in s.exit(M, j)]
            if not bad: return []
            if len(live) == 1: worst = bad
        return worst


def top(mc): return [L for L in loops(mc) if not L.outer]


def refusals(rec, fn, mc, obj, allowed, k):
    """returning 0 outside `allowed` only with the vertex buffer full"""
    cl = '%s: 0 is returned only when a vertex does not fit' % fn
    for l in leafset(mc.ret):
        if l not in (ZERO, ONE): return rec.fail('%s: returns 0 or 1' % fn, where(fn), '%s returns %s' % (fn, _sh(l))) if isinstance(l, T.P) and l.const() is not None else rec.und('%s: returns 0 or 1' % fn, _sh(l))
    rec.ok('%s: returns 0 or 1' % fn)
    z = band(mcmp_i(mc.ret, 'eq', I(0)), bnot(allowed))
    W = Why(mc, obj, k)
    left, n, failed = z, 0, False
    for L in top(mc):
        if len(L.exits) < 2: continue
        ways = [picked(L, i) for i in range(len(L.exits))]
        if not decides(z, L): continue          # this loop has no say in it
        for i, g in enumerate(ways):
            if unsat(band(z, g)): continue
            bad = W.exit(L, i)
            if not bad:
                left = band(left, bnot(g)); n += 1; continue
            if not unsat(band(band(band(g, bnot(z)), bnot(allowed)), band(mc.g, L.pc0))): continue                  # the decision is made later
            for M, e, r in bad:
                if r is False:
                    ln = line(M, e)
                    rec.fail(cl, where(M.fn, ln), '%s gives up although there is room: the test at %s:%s passes with fewer than %d vertices in the buffer' % (fn, M.fn, ln, W.pm.max + 1 - k))
                    failed = True
            if failed: left = band(left, bnot(g))
    if unsat(left):
        if not failed: rec.ok(cl)
    elif not failed: rec.und(cl, 'a refusal could not be traced to a test of the capacity')
    rec.count('refusing_exits', n)
    return z


def followed(rec, fn, mc, obj, k):
    """a full buffer noticed while vertices are created ends the call with 0"""
    W = Why(mc, obj, k)
    cl = '%s: a full vertex buffer ends the call with 0' % fn
    no = mcmp_i(mc.ret, 'eq', I(0))
    seen = 0

    def leads(M, j):
        """None, or why leaving M through exit j need not end in 0"""
        g = band(picked(M, j), M.pc0 if M.pc0 is not None else TRUE)
        if not M.outer: return None if implies(band(mc.g, g), no) else 'the call can return 1'
        O = M.outer[-1]
        if not unsat(band(O.latch_guard, g)): return 'the loop around it goes on'
        for i, e in enumerate(O.exits):
            if not unsat(band(e.g, g)):
                w = leads(O, i)
                if w: return w
        return None
    for M in loops(mc):
        for j, e in enumerate(M.exits):
            if len(M.exits) < 2 or unsat(e.g) or not W.full(M, e.g): continue
            w = leads(M, j)
            seen += 1
            if w: rec.fail(cl, where(M.fn, line(M, e)), '%s: the vertex buffer is found full at %s:%s, but %s' % (fn, M.fn, line(M, e), w))
            else: rec.ok(cl)
    if not seen: rec.und(cl, 'no test of the capacity inside the loops')


def _sh(x): return str(x)[:60]


def completes(rec, fn, mc, n, obj, what):
    """returning 1 only after the outer loop ran n times, or with an empty polytope"""
    cl = '%s: 1 is returned only when every %s was processed or nothing is left' % (fn, what)
    one = mcmp_i(mc.ret, 'eq', I(1))
    pm = Env.PMs['r3']
    for L in top(mc):
        if L.N is None or L.N != n and getattr(L.N, 'leaf', None) != n: continue
        for i, e in enumerate(L.exits):
            g = band(one, picked(L, i))
            if unsat(g): continue
            if implies(e.g, icmp(pa(L.k), 'ge', n)): rec.ok(cl); continue
            b = constrain(rd(mc, obj, pm.nv, I32), g)
            if implies(g, mcmp_i(b, 'le', I(0))): rec.ok(cl + ' (early exit)'); continue
            ln = line(L, e)
            st = constrain(mc.at_start(L, mc.objs[obj], I(pm.nv).leaf, I32, 4, e.g), e.g)
            if imprecise(b) and not (leafset(constrain(mc.at_end(L, mc.objs[obj], I(pm.nv).leaf, I32, 4, e.g), e.g)) == leafset(st) and not stored_after(mc, L, obj, g)): rec.und(cl, 'vertex count at the exit at line %s' % ln)
            else: rec.fail(cl, where(L.fn, ln), '%s returns 1 through the exit at %s:%s, before every %s was processed and with vertices left' % (fn, L.fn, ln, what))
        return
    rec.und(cl, 'no loop over the %ss' % what)


def stored_after(mc, L, obj, g):
    """is the count written between leaving the loop and returning?"""
    return any(e.kind == 'store' and L not in e.loops and isinstance(e.x[0], Ptr) and e.x[0].obj is mc.objs[obj] and not unsat(band(e.pc, g)) for e in mc.events)


@ob('status of r3d_clip', 400, 8)
def clip(rec):
    fn = 'r3d_clip'; need(fn)
    p = PolyIn(Env.PMs['r3'], 'poly')
    np = ipar('nplanes', 0, None)

    def mk(mc):
        mc.skip_undef = True
        return [pobj(mc, 'poly'), pobj(mc, 'pl'), leaf(np)]
    mc = run(rec, fn, [p], mk)
    refusals(rec, fn, mc, mc.objs['poly'], icmp(p.N, 'le', ZERO), 1)
    completes(rec, fn, mc, np, 'poly', 'plane')
    followed(rec, fn, mc, mc.objs['poly'], 1)


@ob('status of r3d_split, one polytope', 400, 8)
def split(rec):
    fn = 'r3d_split'; need(fn)
    p = PolyIn(Env.PMs['r3'], 'poly')

    def mk(mc):
        mc.skip_undef = True
        return [pobj(mc, 'poly'), I(1), pobj(mc, 'pl'), pobj(mc, 'op'), pobj(mc, 'on')]
    mc = run(rec, fn, [p], mk)
    refusals(rec, fn, mc, mc.objs['poly'], FALSE, 2)
    followed(rec, fn, mc, mc.objs['poly'], 2)


@ob('status of r3d_init_poly', 400, 8)
def init(rec):
    fn = FN
    Z = Init(rec)
    mc, wh, cap = Z.mc, where(FN), Z.pm.max
    for l in leafset(mc.ret):
        if l not in (ZERO, ONE): rec.fail('%s: returns 0 or 1' % fn, wh, '%s returns %s' % (fn, _sh(l)))
    z = band(mcmp_i(mc.ret, 'eq', I(0)), mc.g)
    ex = Z.extremes()
    cl = '%s: returns 0 exactly when a vertex lies in fewer than three faces or the vertices do not fit' % fn
    if 'min' not in ex: return rec.und(cl, 'the smallest number of faces per vertex was not found')
    L, s, at = ex['min']
    few = mcmp_i(slot_final(mc, L, s), 'lt', I(3))
    al = set()
    for L_, s_, at_ in ex.values(): al |= set(at_.support) | set(slot_final(mc, L_, s_).support) | {a.id for a in AT.byid if a.kind == at_.kind and a.name == at_.name}
    al |= {a.id for a in AT.byid if a.kind == 'choice'}
    usesmin = mentions(z, slot_final(mc, L, s))
    if usesmin: must(rec, cl, mc.g, ite(few, z, TRUE), wh, msg='%s accepts a vertex that lies in fewer than three faces' % fn, allow=al)
    for l in leafset(s.init):
        c = l.const() if isinstance(l, T.P) else None
        if c is None or c < 3: rec.fail(cl, wh, '%s: the smallest number of faces per vertex starts from %s' % (fn, _sh(l))) if c is not None else rec.und(cl)
    if at.args[0] not in (pa(L.k).scale(4), (Z.N - 1 - pa(L.k)).scale(4)): rec.und(cl, 'the scan does not read one entry per vertex')
    arr = next((o for o in mc.heads if o.name == at.name[1]), None)
    counted(rec, Z, arr, L)
    left = band(z, bnot(few)) if usesmin else z
    n, small = 0, False
    for M in top(mc):
        if len(M.exits) < 2: continue
        ways = [picked(M, i) for i in range(len(M.exits))]
        if not decides(left, M): continue
        for i, g in enumerate(ways):
            if unsat(band(left, g)): continue
            e = M.exits[i]
            if not unsat(band(band(g, bnot(z)), band(mc.g, M.pc0))): continue                  # the decision is made later
            have = mc.at_start(M, Z.poly, I(Z.pm.nv).leaf, I32, 4, e.g)
            mine = [mc.at_start(M, arr, x.scale(4), I32, 4, e.g) for x in (pa(M.k), Z.N - 1 - pa(M.k))]
            n += 1
            if any(implies(e.g, mcmp_i(iadd(have, m), 'gt', I(cap))) for m in mine): left = band(left, bnot(g)); continue
            if any(implies(e.g, mcmp_i(m, 'lt', I(3))) for m in mine):
                left = band(left, bnot(g))
                small = small or num(M.N) == Z.N or num(M.trips if hasattr(M, 'trips') else None) == Z.N or any(implies(M.latch_guard, mcmp_i(m, 'ge', I(3))) for m in mine)
                continue
            ln = line(M, e)
            own = al | set(have.support) | set(mine[0].support) | set(mine[1].support)
            if imprecise_cond(e.g, own) or not ((set(mine[0].support) | set(mine[1].support)) & bsup(e.g)): rec.und(cl, 'the cause of the refusal at line %s is not known' % ln); return
            rec.fail(cl, where(fn, ln), '%s gives up at line %s although the vertices needed so far fit' % (fn, ln)); return
    if not usesmin and not small: rec.und(cl, 'the test of the number of faces per vertex was not found') if ex['min'] and not unsat(left) else rec.fail(cl, wh, '%s never refuses a vertex that lies in fewer than three faces' % fn)
    must(rec, cl, left, FALSE, wh, msg='%s refuses valid input' % fn, allow=al)
    rec.count('refusing_exits', n)


def counted(rec, Z, arr, scan):
    """one step of the counting loops: every corner of every face adds one to the entry of its vertex"""
    mc = Z.mc
    cl = '%s: every corner of every face is counted once, at its vertex' % FN
    if arr is None: return rec.und(cl, 'no array of faces per vertex')
    seen = False
    for O, L in Z.faceloops():
        st = Z.stores(L, arr)
        if not st: continue
        seen = True
        g = L.latch_guard
        offs = {e.x[0].off for e in st}
        if len(offs) != 1: return rec.und(cl, 'more than one entry is written')
        off = offs.pop()
        c = corner(off.scale(Fraction(1, 4)))
        if c is None: return rec.und(cl, 'the entry written is not indexed by a corner of a face')
        k, f = pa(L.k), pa(O.k)
        n = facesize(Z, O, L)
        if n is None: return rec.und(cl, 'number of corners of a face')
        n, fi = n
        if num(L.N) not in (n, pa(AT.get('max0', '', (n,), lo=0))) or c[0] not in (k.scale(4), (n - 1 - k).scale(4)) or c[1] != fi.scale(8):
            return rec.fail(cl, where(FN, st[0].line), '%s: the counting loops do not visit every corner of every face exactly once' % FN)
        a, b = mc.at_start(L, arr, off, I32, 4, g), mc.at_end(L, arr, off, I32, 4, g)
        same(rec, cl, b, iadd(a, I(1)), g, where(FN, st[0].line))
        v = ipar('vq', 0, None)
        ends = [mc.read(O.saved.get(arr), arr, pc_(4 * c), I32, 4, O.pc0) for c in (0, Z.pm.max - 1)]
        if any(isinstance(l, T.Undef) or isinstance(l, T.P) and (l.const() or any(AT.byid[a].kind == 'uninit' for a in l.support)) for r in ends for l in leafset(r)):
            rec.fail('%s: the counts start from zero' % FN, where(FN), 'some of the counts are not zero before they are incremented')
        else: same(rec, '%s: the counts start from zero' % FN, mc.read(O.saved.get(arr), arr, v.scale(4), I32, 4, band(O.pc0, icmp(v, 'lt', Z.N))), I(0), band(O.pc0, icmp(v, 'lt', Z.N)), where(FN))
    if not seen: rec.und(cl, 'no loops over the corners of the faces write the counts')


@ob('r3d_init_poly with too many vertices', 200, 8)
def toomany(rec):
    Z = Init(rec, over=True)
    same(rec, '%s: returns 0 for more vertices than fit' % FN, Z.mc.ret, I(0), Z.mc.g, where(FN))
