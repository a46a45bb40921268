#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (developer tool)."""
import json, glob, re
rows = ['| id | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
d = open('/verif/DESIGN.md').read()
d = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', d, flags=re.S)
open('/verif/DESIGN.md', 'w').write(d)
