#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py (developer tool)."""
import json, os, sys
sys.path.insert(0, '/verif/tools')
from props import PROPS, NA
ids = set()
out = []
checks = []
for p in PROPS:
    if not os.path.exists('/verif/checks/%s.py' % p['id'].lower()): continue
    ids.add(p['id'])
    out.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
na = []
for p in NA:
    out.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    na.append({'property': p['id'], 'reason': p['reason']})
for o in out:
    assert len(o['title']) <= 80, o['id']
with open('/verif/properties.jsonl', 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q engine checks || true', 'checks': checks, 'not_applicable': na,
           'notes': 'One driver, check.py; every check compiles /repo/src (and, where stated, /repo/deprecated) to LLVM IR with clang in a scratch directory and analyses the IR; nothing from /repo is executed.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
import subprocess
for schema, doc in (('MANIFEST', [json.load(open('/verif/MANIFEST.json'))]), ('PROPERTIES', out)):
    open('/tmp/_s.json', 'w').write(json.dumps(doc))
    subprocess.run(['python3-vt', '-c', 'import json,jsonschema\ns=json.load(open("/root/.vp/%s.schema.json"))\nfor d in json.load(open("/tmp/_s.json")): jsonschema.validate(d,s)' % schema], check=True)
print(len(checks), 'claimed;', len(na), 'not applicable')
