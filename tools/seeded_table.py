#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug (property = check that catches it) | what it breaks | needs |', '|---|---|---|']
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} ({m['property']}) | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
d = open(f'{V}/DESIGN.md').read()
d = re.sub(r'(?s)<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', d)
open(f'{V}/DESIGN.md', 'w').write(d)
