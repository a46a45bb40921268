#!/usr/bin/env python3
"""Developer tool (no check uses it): builds and validates planted bugs.
   mkseed.py SPEC.py [id...]   SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C source, libs='')]
   mkseed.py --validate [id...] re-validates what is in /verif/seeded
Everything runs on private copies of /repo, bind-mounted over /repo in a user+mount namespace."""
import sys, os, json, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# compiles demo.c against the library sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O1 -g %s -DNDEBUG -w -Isrc -I_build "$here/demo.c" src/*.c -lm -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''

def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)

def make(s):
    d = os.path.join(V, s['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in s['edits']:
            p = os.path.join(t, 'r', f); x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh(['git', '-C', t + '/r', 'diff']).stdout)
    finally: shutil.rmtree(t)
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO_SH % s.get('flags', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)

def inns(copy, script):
    return sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && { %s\n}' % (copy, script)])

def validate(i, tests=True):
    d = os.path.join(V, i); meta = json.load(open(d + '/meta.json')); out = [i]
    t = tempfile.mkdtemp(prefix='seedv')
    try:
        sh(['cp', '-a', '/repo', t + '/r'])
        r = inns(t + '/r', 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
        out.append('clean-demo:%s' % ('ok' if r.returncode == 0 else 'BAD rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:])))
        a = sh(['git', '-C', t + '/r', 'apply', d + '/patch.diff'])
        if a.returncode: return ' '.join(out) + ' APPLY-FAILED ' + a.stderr
        r = inns(t + '/r', 'bash /opt/vp/build.sh >/dev/null 2>&1 && bash %s/demo.sh' % d)
        out.append('bug-demo:%s' % ('ok(rc=%d)' % r.returncode if r.returncode not in (0, 3) else 'BAD rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:])))
        if tests:
            r = inns(t + '/r', 'bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1' % t)
            res = json.load(open(t + '/o.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = sorted(st - set(res['passed']))
            out.append('tests:%s' % ('ok' if not miss else 'BROKEN ' + ','.join(miss)))
        r = sh(['timeout', '900', 'python3', '/verif/check.py', meta['property']], env=dict(os.environ, VERIF_REPO=t + '/r', VERIF_EVID=t + '/ev'))
        out.append('check %s: rc=%d %s' % (meta['property'], r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED'))
        if r.returncode == 1: out.append('\n     ' + '\n     '.join(l[:200] for l in r.stdout.splitlines()[1:6]))
        else: out.append(r.stdout[-300:])
    finally: shutil.rmtree(t)
    return ' '.join(out)

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    if '--validate' in sys.argv: ids = a or sorted(os.listdir(V))
    else:
        S = runpy.run_path(a[0])['SEEDS']
        if a[1:]: S = [s for s in S if s['id'] in a[1:]]
        for s in S: make(s)
        ids = [s['id'] for s in S]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: validate(i, '--notests' not in sys.argv), ids): print(r, flush=True)
main()
