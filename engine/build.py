"""Compile /repo's current sources to LLVM IR (no linking, nothing is run)."""
import os, subprocess, tempfile, shutil, sys
from .irparse import parse_module

REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang' if os.path.exists(LLVM + 'clang') else 'clang'
OPT = LLVM + 'opt' if os.path.exists(LLVM + 'opt') else 'opt'
PASSES = 'sroa,simplifycfg,instsimplify,loop-simplify,lcssa'


class BuildError(Exception):
    pass


def emit(src, incs, defs, out, ndebug=True):
    cmd = [CLANG, '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-ffp-contract=off', '-g1', '-w'] + (['-DNDEBUG'] if ndebug else [])
    cmd += ['-D' + d for d in defs] + ['-I' + i for i in incs] + ['-S', '-emit-llvm', src, '-o', out + '.raw']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr))
    r = subprocess.run([OPT, '-S', '-passes=' + PASSES, out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr)
    return open(out).read()


def build(tmp, ndebug=True, shift=True, which='src', defs=()):
    """-> {unit: Mod}"""
    cfgd = os.path.join(tmp, 'cfg%d%d' % (ndebug, shift))
    os.makedirs(cfgd, exist_ok=True)
    with open(os.path.join(cfgd, 'r3d-config.h'), 'w') as f:
        f.write('#define R3D_MAX_VERTS 512\n')
        if shift: f.write('#define SHIFT_POLY\n')
    mods = {}
    if which == 'src':
        sd = os.path.join(REPO, 'src')
        for u in sorted(os.listdir(sd)):
            if not u.endswith('.c'): continue
            t = emit(os.path.join(sd, u), [cfgd, sd], list(defs), os.path.join(cfgd, u + '.ll'), ndebug)
            mods[u[:-2]] = parse_module(t, 'src/' + u)
    else:
        sd = os.path.join(REPO, 'deprecated')
        for u in sorted(os.listdir(sd)):
            if not u.endswith('.c'): continue
            t = emit(os.path.join(sd, u), [sd], [], os.path.join(cfgd, 'dep_' + u + '.ll'), ndebug)
            mods[u[:-2]] = parse_module(t, 'deprecated/' + u)
    return mods
