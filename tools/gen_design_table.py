#!/usr/bin/env python3
"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->\n'
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs'], m['what_it_breaks']))
rows.sort()
text = open(root + '/DESIGN.md').read()
head = text.split(MARK)[0]
out = head + MARK + f'\n{len(rows)} changes; each is caught by the quick check of its property.\n\n| property | change | needs | breaks |\n|---|---|---|---|\n'
for r in rows:
    out += '| ' + ' | '.join(x.replace('|', '/').replace('\n', ' ') for x in r) + ' |\n'
open(root + '/DESIGN.md', 'w').write(out)
