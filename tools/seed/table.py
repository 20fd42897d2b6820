#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and results.txt (id: what happened)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
res = {}
p = os.path.join(V, 'tools/seed/results.txt')
for l in open(p):
    if ':' in l:
        a, b = l.split(':', 1)
        res[a.strip()] = b.strip()
out = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->', s, flags=re.S)
open(f, 'w').write(s)
