"""Rule, for an arbitrary polytope and an arbitrary plane with signed distance S: every vertex inside or on the plane -> nothing is
written; every vertex strictly outside, or outside or on it -> the polytope becomes empty; an empty polytope stays as it is.
Otherwise (S takes both signs): a vertex is created on the link (a, j) exactly when S(a) >= 0 and S(b) < 0, at the exact intersection
point, linked both ways to the kept end, and every vertex and link is looked at; new vertices are joined pairwise by a walk that
follows one face (2D: the polygon) and stops exactly at the next new vertex, in the link slots the orientation needs; a vertex is
kept exactly when it is new or S >= 0, whole vertices are copied, and links and the count are renumbered consistently.  For any number of planes: iteration p uses planes[p] only, uses no scratch
memory of earlier planes, and leaves planes out only when the polytope is empty.  Decided on loop summaries with S as an
uninterpreted quantity of known sign; in N dimensions the loop closing the new 2-faces is not judged (its effect is taken as arbitrary)."""
from checks.cut import *

LEVEL = 'proof'
ASSUME = ['capacity is not exceeded (property P09)', 'signed distances lie inside the +-1e30 sentinels', 'the polytope is well formed: links in range']



def setregion(c, mc):
    """a loop beyond the budget may write anything into the vertex array and the counters it stores to"""
    end = c.pm.max * c.pm.vs
    mc.limit_havoc = 150000
    mc.hv_region = lambda o, off: None if o is not mc.objs.get('poly') or off.const() is None else \
        (0, end) if off.const() < end else (int(off.const()), 4)


def clip(rec, k, mode, lo=1, hi=None, nplanes=1, partial=False):
    c = Cut(k, lo=lo, hi=hi)
    fn = c.pm.pre + '_clip'

    def mk(mc):
        c.mc = mc
        if partial: setregion(c, mc)
        c.plane(mc)
        if mode: c.arm(mode)
        return [pobj(mc, 'poly'), pobj(mc, 'pl'), I(nplanes)]
    c.fn = fn
    try:
        run(rec, fn, [c.p], mk, pc=icmp(c.p.N, 'eq', ZERO) if hi == 0 else None)
    except T.Undecided as ex:
        if not partial: raise
        T._base[0] = T._cnt[0]
        rec.und('%s: closing of the new faces and compression of the vertex list' % fn, str(ex))
    return c


def inside(rec, k):
    c = clip(rec, k, 'in')
    unchanged(rec, c, '%s: a polytope with every vertex on the inner side or on the plane is left alone' % c.fn)
    if k == 'r3': same(rec, '%s: returns 1 when nothing is cut' % c.fn, c.mc.ret, I(1), c.mc.g, where(c.fn))


def unchanged(rec, c, cl):
    """no write at all, or every member of a generic vertex reads back as it was"""
    if not c.stores('poly'): return rec.ok(cl)
    pm, q, wh = c.pm, generic_vertex(c.p), where(c.fn)
    al = c.allow()
    same(rec, cl + ': vertex count', rd(c.mc, 'poly', pm.nv, I32), leaf(c.p.N), c.mc.g, wh, allow=al)
    for i in range(c.D):
        same(rec, cl + ': coordinate %d' % i, rd(c.mc, 'poly', pm.a_pos(q, i)), leaf(c.p.posF(q, pc_(i))), c.mc.g, wh, allow=al)
    for j in range(pm.nbn):
        same(rec, cl + ': link %d' % j, rd(c.mc, 'poly', pm.a_nb(q, j), I32), leaf(c.p.nbP(q, j)), c.mc.g, wh, allow=al)


def outside(rec, k, mode):
    c = clip(rec, k, mode)
    cl = '%s: a polytope with every vertex %s becomes empty' % (c.fn, 'strictly outside' if mode == 'out' else 'outside or on the plane and some on it')
    r = rd(c.mc, 'poly', c.pm.nv, I32)
    # a count of kept vertices that includes the ones on the plane is positive here
    al = set(c.allow())
    for L, s in all_slots(c.mc):
        g = counter(L, s) if s.isint and not s.isptr and s.cls == 'op' else None
        if g is None or leafset(s.init) != [ZERO]: continue
        v = pa(L.k)
        if mode == 'touch' and implies(band(band(L.pc0 if L.pc0 is not None else TRUE, icmp(v, 'lt', c.p.N)), band(icmp(v, 'ge', ZERO), rcmp(c.S(v), 'eq', fc(0)))), g):
            for at in AT.byid:
                if at.name == s.atom.name and at.kind == s.atom.kind: al |= at.support
    same(rec, cl, r, I(0), c.mc.g, where(c.fn), allow=al)
    if k == 'r3': same(rec, '%s: returns 1 when everything is cut away (%s)' % (c.fn, mode), c.mc.ret, I(1), c.mc.g, where(c.fn))


def empty(rec, k):
    c = clip(rec, k, None, lo=0, hi=0)
    unchanged(rec, c, '%s: an empty polytope stays as it is' % c.fn)


def mixed(rec, k):
    c = clip(rec, k, 'mix', partial=k == 'rN')
    ins = insertion(rec, c, 'poly', c.fn, c.pm.max)
    al = set()
    for x in ins or []:
        for X in x[2].values(): al |= X.support
    if ins: count_new(rec, c, 'poly', c.fn, ins)
    if k != 'rN': relink(rec, c, 'poly', c.fn, al)
    compaction(rec, c, 'poly', c.fn, al)


for k_ in ('r2', 'r3', 'rN'):
    def mk_(k):
        ob('%s inside' % k, 120)(lambda rec: inside(rec, k))
        ob('%s outside' % k, 120)(lambda rec: outside(rec, k, 'out'))
        ob('%s outside touching' % k, 120)(lambda rec: outside(rec, k, 'touch'))
        ob('%s empty' % k, 120)(lambda rec: empty(rec, k))
        ob('%s cut' % k, 300)(lambda rec: mixed(rec, k))
    mk_(k_)


def planes(rec, k):
    """any number of planes: the loop over the planes"""
    c = Cut(k)
    pm, fn = c.pm, c.pm.pre + '_clip'
    c.fn = fn
    np = ipar('nplanes')

    def mk(mc):
        c.mc = mc
        if k == 'rN': setregion(c, mc)
        return [pobj(mc, 'poly'), pobj(mc, 'pl'), leaf(np)]
    mc = run(rec, fn, [c.p], mk)
    po = mc.objs['poly']
    top = [L for L in mc.loops_seen.values() if not L.outer]
    used = {}
    for at in used_atoms(mc):
        if at.kind == 'init' and at.name[0] == 'pl' and at.args and isinstance(at.args[0], P):
            for L in top:
                if L.k.id in at.args[0].support: used.setdefault(L.id, (L, []))[1].append(at.args[0])
    if len(used) != 1:
        rec.und('%s: loop over the planes' % fn, '%d candidates' % len(used)); return
    L, offs = next(iter(used.values()))
    kk = pa(L.k)
    size = pm.pls
    for o in {o.fp: o for o in offs}.values():
        r = (o - kk.scale(size)).const()
        if r is None or not 0 <= r < size: rec.fail('%s: plane used' % fn, where(fn, L.line), '%s: iteration p reads planes at offset %s, not inside planes[p]' % (fn, str(o)[:80]))
        else: rec.ok('%s: iteration p uses planes[p] (byte %d)' % (fn, r))
    stale = 0
    for at in used_atoms(mc):
        if at.kind != 'rd' or not isinstance(at.name, tuple) or at.name[0] != ('bar', L.id): continue
        o = mc.objs.get(at.name[1])
        o = next((x for x in mc.heads if x.name == at.name[1]), o)
        if o is None or o.kind != 'alloca': continue
        # indexed by a link: in range (assumption), and then covered by the loop over the vertices
        if any(AT.byid[a].kind in ('rd', 'lnk') for a in at.args[0].support): continue
        end = mc.at_end(L, o, at.args[0], F64 if not at.isint else I32, 8 if not at.isint else 4, L.latch_guard)
        if all(getattr(x, 'const', lambda: None)() is not None if isinstance(x, P) else fconst(x) is not None for x in leafset(end) if not isinstance(x, Ptr)): continue
        stale += 1
        rec.fail('%s: scratch memory of an earlier plane' % fn, where(fn, L.line), '%s: iteration p uses %s as an earlier plane left it' % (fn, o.name))
    if not stale: rec.ok('%s: no scratch memory is carried over from one plane to the next' % fn)
    cl = '%s: the next planes are left out only when the polytope has become empty' % fn
    for ex, lit in exitlits(L):
        if abnormal(mc, L, ex.g): continue
        if implies(ex.g, icmp(kk, 'ge', np)): rec.ok('%s: all planes are handled' % fn); continue
        lit = band(mc.g, lit)
        r = constrain(rd(mc, 'poly', pm.nv, I32, lit), lit)
        bad = [x for x in leafset(r) if not (isinstance(x, P) and x.const() == 0)]
        if not bad: rec.ok(cl)
        elif all(not imprecise_only(x) for x in bad): rec.fail(cl, where(fn, L.line), '%s: the loop over the planes is left at line %d with planes to come and a vertex count of %s' % (fn, L.line, str(bad[0])[:60]))
        else: rec.und(cl, str(bad[0])[:80])


def imprecise_only(x):
    """nothing is known about the count x (the count before a plane is an arbitrary positive number)"""
    return not isinstance(x, P) or any(AT.byid[a].kind in ('opq',) for a in x.support)


def exitlits(L):
    rest = TRUE
    args = tuple(pa(l.k) for l in L.outer)
    out = []
    for i, e in enumerate(L.exits):
        lit = rest
        if i < len(L.exits) - 1:
            ch = AT.get('choice', (L.id, i), args)
            o = mvar(T.getvar('o', 'O', ch, ch.id))
            lit, rest = band(rest, o), band(rest, bnot(o))
        out.append((e, lit))
    return out


def used_atoms(mc, cells=True):
    ids = set()

    def add(x):
        if isinstance(x, M):
            for v in bsupport(x):
                t = T.VARS[v].term
                if t is not None and hasattr(t, 'support'): ids.update(t.support)
            for l in leafset(x): add(l)
        elif isinstance(x, Ptr): add(x.off)
        elif hasattr(x, 'support'): ids.update(x.support)
        elif isinstance(x, (tuple, list)):
            for y in x: add(y)
    for e in mc.events:
        if e.kind == 'branch' or e.kind == 'ret' or e.kind == 'store' or e.kind == 'memcpy':
            add(e.pc); add(e.x)
    for L in mc.loops_seen.values():
        for s in list(L.phis.values()) + (list(L.cells.values()) if cells else []):
            if s.next is not None: add(s.next)
            if s.init is not None: add(s.init)
    todo = list(ids)
    while todo:
        for z in AT.byid[todo.pop()].args:
            for i in getattr(z, 'support', ()):
                if i not in ids: ids.add(i); todo.append(i)
    return [AT.byid[i] for i in sorted(ids)]


def abnormal(mc, L, g):
    """the exit is an exit of an inner loop left early (that exit is judged with one plane)"""
    for I_ in mc.loops_seen.values():
        if L not in I_.outer or len(I_.exits) < 2: continue
        normal, known = FALSE, False
        for e, lit in exitlits(I_):
            if I_.N is not None and implies(e.g, icmp(pa(I_.k), 'ge', I_.N)): normal, known = bor(normal, lit), True
        if known and band(g, normal) is FALSE: return True
    return False


for k_ in ('r2', 'r3', 'rN'):
    def mk2_(k):
        ob('%s planes' % k, 300)(lambda rec: planes(rec, k))
    mk2_(k_)
