#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seedstatus.txt (NAME caught|missed)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st = dict(l.split(None, 1) for l in open(H + '/tools/seedstatus.txt').read().splitlines() if l.strip())
rows = ['| bug | property | needs | the check |', '|---|---|---|---|']
for n in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{n}/meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {st.get(n, 'not yet run').strip()} |")
s = open(H + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->\n'
if a not in s: s = s.replace('SEEDTABLE\n', a + b)
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(H + '/DESIGN.md', 'w').write(s)
