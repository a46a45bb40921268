"""P12: calls share nothing.
Effect summaries (engine/pts.py) of every function of the library in the release build: no store to any object with static storage, no
read of a variable others can set, no library call that keeps or reads process state, no output outside the print functions and the
diagnostics of is_good, no heap use outside the boundary representation, no call that ends the process."""
import re
from engine.fw import *
from engine.pts import Pts, PURE, WRITES, ALLOC, PRINT, ABORT, FREE, STATE

LEVEL = 'proof'
ASSUME = ['the C library functions called are themselves reentrant']
MAYPRINT = lambda f: f.endswith('_print') or f.endswith('_is_good') or f.endswith('_print_brep')
HEAP = {'r3d_init_brep', 'r3d_free_brep'}
API = lambda f: f.startswith(('r2d_', 'r3d_', 'rNd_'))


def gl(mod):
    return {g: d for g, d in mod.globals.items()}


def uses(f):
    """(kind, global, line) for direct loads/stores/addresses"""
    out = []

    def walk(v, kind, line):
        if not isinstance(v, tuple): return
        if v[0] == 'glb': out.append((kind, v[1].strip('"'), line))
        elif v[0] == 'cgep':
            for t, q in v[2]: walk(q, kind, line)
    for b in f.order:
        for x in f.blocks[b]:
            if x.op == 'call':
                for t, v, a in x.x if isinstance(x.x, list) else (): walk(v, 'arg', x.line)
                continue
            for q, v in enumerate(x.ops or ()):
                walk(v, 'store' if x.op == 'store' and q == 1 else 'use', x.line)
    return out


def state(rec):
    P = Pts(Env.mods)
    gs = {}
    for u, m in Env.mods.items():
        for g, d in m.globals.items(): gs[g] = (u, d)
    stored = {}
    for fn, f in P.funcs.items():
        for obj, why in P.sum[fn].items():
            if obj[0] == 'glb':
                for w in why: stored.setdefault(obj[1], w)
    for fn in sorted(P.funcs):
        bad = 0
        for obj, why in P.sum[fn].items():
            if obj[0] != 'glb' or obj[1] in P.funcs: continue
            w = sorted(why)[0]
            if w[0] != fn: bad += 1; continue        # reported at the function that stores
            bad += 1
            u, d = gs.get(obj[1], (None, {}))
            if d.get('tls'): rec.und('%s: no state is kept between calls' % fn, 'thread-local %s is written' % obj[1])
            elif w[2].endswith('?'): rec.und('%s: no state is kept between calls' % fn, 'static %s may be written' % obj[1])
            else: rec.fail('%s: no state is kept between calls' % fn, where(fn, w[1]), '%s writes the static object %s (line %d): calls in other threads, or later calls, see it' % (fn, obj[1], w[1]))
        for kind, g, line in uses(P.funcs[fn]):
            if g in P.funcs or g not in gs: continue
            u, d = gs[g]
            if d['const'] or g in stored: continue
            if re.match(r'(internal|private)\b', d['text']): continue      # never written: a constant
            if g in ('stderr', 'stdout', 'stdin'): continue
            bad += 1
            rec.fail('%s: the result depends on the arguments only' % fn, where(fn, line), '%s reads the variable %s, which code outside the function can change' % (fn, g))
        if not bad: rec.ok('%s: writes no static object and reads no variable' % fn)
    rec.count('functions_analysed', len(P.funcs))
    rec.count('static_objects', len(gs))
    if len(P.funcs) < 30: raise Anchor('most of the interface is gone')


def calls(rec):
    P = Pts(Env.mods)
    # helpers inherit the permissions of the functions that call them
    callers = {}
    for fn in P.funcs:
        for c, l in P.calls[fn]: callers.setdefault(c, set()).add(fn)

    def allowed(fn, pred, seen=()):
        if pred(fn): return True
        if API(fn) or fn in seen: return False
        cs = callers.get(fn, ())
        return bool(cs) and all(allowed(c, pred, seen + (fn,)) for c in cs)
    n = 0
    for fn in sorted(P.funcs):
        bad = 0
        for c, line in P.calls[fn]:
            n += 1
            if c is None: rec.und('%s: calls' % fn, 'indirect call at line %d' % line); bad += 1; continue
            if c in P.funcs or c in PURE or c in WRITES: continue
            wh = where(fn, line)
            if c in STATE:
                bad += 1; rec.fail('%s: no process state is used' % fn, wh, '%s calls %s' % (fn, c))
            elif c in ABORT:
                bad += 1; rec.fail('%s: the process is never ended' % fn, wh, '%s calls %s in the release build' % (fn, c))
            elif c in PRINT:
                if not allowed(fn, MAYPRINT): bad += 1; rec.fail('%s: prints nothing' % fn, wh, '%s calls %s in the release build' % (fn, c))
            elif c in ALLOC or c in FREE:
                if not allowed(fn, lambda f: f in HEAP): bad += 1; rec.fail('%s: uses no heap memory' % fn, wh, '%s calls %s' % (fn, c))
            else: bad += 1; rec.und('%s: calls' % fn, 'unknown function %s' % c)
        if not bad: rec.ok('%s: calls nothing that keeps state, prints, allocates or ends the process beyond its purpose' % fn)
    rec.count('call_sites', n)


ob('state', 120)(state)
ob('calls', 120)(calls)
