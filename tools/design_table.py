#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, 'tools', 'missed_first.json')))
rows = ['| planted bug | caught by | needs | missed first |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {NOTE.get(i, '')} |")
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
