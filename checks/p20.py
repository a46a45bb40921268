"""P20: the debug build computes what the release build computes.
Every source file is compiled to IR with and without NDEBUG, with assert(e) replaced by the evaluation of e and the printf family by a
function without effects.  Rules: (1) code of source lines that only one build has must vanish under the optimiser (it has no effect on
memory, control or results); (2) the same line must not use different constants in the two builds; (3) same functions in both."""
import re, subprocess, tempfile, shutil, os
from engine.fw import *
from engine import build
from engine.pts import Pts, PURE, PRINT
from engine.irparse import parse_module

LEVEL = 'proof'
ASSUME = ['assert and printing are the only intended difference']
SHIM = '''#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <assert.h>
extern int vp_nop() __attribute__((const, nothrow, leaf));
#undef assert
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((void)(e))
#endif
#define printf(...) ((void)vp_nop(__VA_ARGS__))
#define fprintf(...) ((void)vp_nop(__VA_ARGS__))
#define puts(...) ((void)vp_nop(__VA_ARGS__))
#define fflush(...) ((void)vp_nop(__VA_ARGS__))
#define fputs(...) ((void)vp_nop(__VA_ARGS__))
'''


def emit(src, incs, d, ndebug, opt):
    # a private copy of assert.h: including it again must not bring the real macro back
    out = os.path.join(d, 'x.ll')
    cmd = [build.CLANG, '-std=gnu11', '-O2' if opt else '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-ffp-contract=off', '-g1', '-w', '-include', os.path.join(d, 'shim.h')] + (['-DNDEBUG'] if ndebug else [])
    cmd += ['-I' + i for i in [os.path.join(d, 'inc')] + incs] + ['-S', '-emit-llvm', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise build.BuildError(r.stderr)
    return parse_module(open(out).read(), 'src/' + os.path.basename(src))


def lines(mod):
    """function -> {line: [inst]}"""
    out = {}
    for n, f in mod.funcs.items():
        if not f.blocks: continue
        d = out.setdefault(n, {})
        for b in f.order:
            for x in f.blocks[b]:
                if x.op == 'call' and x.ops and x.ops[0][0] == 'glb' and x.ops[0][1].startswith('llvm.dbg'): continue
                if x.line: d.setdefault(x.line, []).append(x)
    return out


def consts(x):
    vs = list(x.ops or ())
    if x.op == 'call' and isinstance(x.x, list): vs += [v for t, v, a in x.x]
    return tuple(v for v in vs if v[0] in ('int', 'fp'))


QUIET = set()        # functions without any effect (in either build): calling them in one build only changes nothing


def isnop(x): return x.op == 'call' and x.ops and x.ops[0][0] == 'glb' and ('vp_nop' in x.ops[0][1] or x.ops[0][1].strip('"') in QUIET)


def quiet():
    P = Pts(Env.mods)
    good = {f for f in P.funcs if not P.sum[f]}
    ok = lambda c, good: c in good or c in PURE or c in PRINT or c.startswith('llvm.dbg') or c.startswith(('llvm.mem', 'llvm.fabs', 'llvm.fmul', 'llvm.lifetime'))
    while True:
        n = {f for f in good if all(ok(c, good) for c, l in P.calls[f])}
        if n == good: return good
        good = n


def unit(rec, u):
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        os.makedirs(os.path.join(d, 'inc'))
        open(os.path.join(d, 'shim.h'), 'w').write(SHIM)
        open(os.path.join(d, 'inc', 'assert.h'), 'w').write('')
        open(os.path.join(d, 'inc', 'r3d-config.h'), 'w').write('#define R3D_MAX_VERTS 512\n#define SHIFT_POLY\n')
        sh = open(os.path.join(d, 'shim.h')).read().replace('#include <assert.h>\n', '')
        open(os.path.join(d, 'shim.h'), 'w').write(sh)
        sd = os.path.join(build.REPO, 'src')
        src = os.path.join(sd, u)
        rm = [emit(src, [sd], d, nd, False) for nd in (False, True)]
        raw = [lines(m) for m in rm]
        allocs = [{n: [x for b in f.order for x in f.blocks[b] if x.op == 'alloca'] for n, f in m.funcs.items() if f.blocks} for m in rm]
        om = [emit(src, [sd], d, nd, True) for nd in (False, True)]
        opt = [lines(m) for m in om]
        full = [{n: [x for b in f.order for x in f.blocks[b]] for n, f in m.funcs.items() if f.blocks} for m in om]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    nm = ('debug', 'release')
    QUIET.clear(); QUIET.update(quiet())
    for i in (0, 1):
        for fn in sorted(set(raw[i]) - set(raw[1 - i])): rec.und('%s: same functions in both builds' % u, '%s only in the %s build' % (fn, nm[i]))
    nl = 0
    for fn in sorted(set(raw[0]) & set(raw[1])):
        bad = 0
        for i in (0, 1):
            only = set(raw[i][fn]) - set(raw[1 - i][fn])
            for ln in sorted(only):
                left = [x for x in opt[i].get(fn, {}).get(ln, ()) if x.op in ('store', 'call', 'br', 'switch', 'select', 'phi', 'ret') and not isnop(x)]
                nl += 1
                if not left: continue
                bad += 1
                st = [x for x in left if x.op in ('store', 'call')] or [x for x in left if x.op in ('br', 'switch', 'select')] or left
                if st[0].op in ('phi',): rec.und('%s: code of the %s build only (line %d)' % (fn, nm[i], ln), 'phi left')
                else: rec.fail('%s: code of the %s build only' % (fn, nm[i]), where(fn, ln), '%s: line %d exists in the %s build only and has an effect (%s)' % (fn, ln, nm[i], st[0].op))
        seq = [[(x.op, consts(x)) for x in full[i][fn] if not isnop(x)] for i in (0, 1)]
        for i in (0, 1):
            shared = {x.res for l_ in allocs[1 - i].get(fn, ()) for x in [l_]}
            rets = [ln for ln in set(raw[i][fn]) - set(raw[1 - i][fn]) for x in raw[i][fn][ln] if (x.op == 'store' and x.ops[1][0] == 'loc' and x.ops[1][1] in shared) or x.op == 'ret']
            if rets and not bad and seq[0] != seq[1]:
                bad += 1
                rec.fail('%s: same results in both builds' % fn, where(fn, min(rets)), '%s: line %d returns or changes a variable in the %s build only' % (fn, min(rets), nm[i]))
        for ln in sorted(set(raw[0][fn]) & set(raw[1][fn])):
            nl += 1
            a, b = [[x for x in raw[i][fn][ln] if not isnop(x)] for i in (0, 1)]
            if [x.op for x in a] == [x.op for x in b]:
                diff = [(x, y) for x, y in zip(a, b) if consts(x) != consts(y)]
                if diff:
                    bad += 1
                    rec.fail('%s: same values in both builds' % fn, where(fn, ln), '%s: line %d uses %s in the debug build and %s in the release build' % (fn, ln, consts(diff[0][0]), consts(diff[0][1])))
            else:
                oa, ob_ = [sorted(x.op for x in opt[i].get(fn, {}).get(ln, ()) if x.op in ('store', 'call', 'br', 'switch') and not isnop(x)) for i in (0, 1)]
                if oa != ob_ and seq[0] != seq[1]:
                    bad += 1
                    rec.fail('%s: same code in both builds' % fn, where(fn, ln), '%s: line %d keeps %s in the debug build and %s in the release build' % (fn, ln, oa or 'nothing', ob_ or 'nothing'))
                elif oa != ob_: bad += 1; rec.und('%s: line %d does the same in both builds' % (fn, ln), '%s / %s' % (oa, ob_))
        if not bad: rec.ok('%s: both builds do the same' % fn)
    rec.count('lines_compared', nl)
    rec.count('functions_analysed', len(raw[0]))


for u_ in sorted(x for x in os.listdir(os.path.join(build.REPO, 'src')) if x.endswith('.c')):
    ob('builds %s' % u_, 120)(lambda rec, u=u_: unit(rec, u))
