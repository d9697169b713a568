#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md (between the seeds markers) from seeded/*/meta.json and a seedcatch log."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d+) rc=(\d)(.*)', l)
    if m: caught[m[1]] = m[2] if m[3] == '1' and 'VIOLATION' in m[4] else 'missed'
rows = ['| planted bug | breaks | caught by |', '|---|---|---|']
for i in sorted(os.listdir(root + '/seeded')):
    j = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append(f"| `{i}` | {j['property']}: {j['what_it_breaks']} (needs: {j['needs']}) | {caught.get(i, 'not run')} |")
p = root + '/DESIGN.md'; s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@@SEEDS@@', t) if '@@SEEDS@@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
