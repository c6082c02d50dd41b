#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
rows = ['| planted bug | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    c = lambda t: ' '.join(t.split()).replace('|', '/')
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']}, caught by its quick check | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
p = '/verif/DESIGN.md'
s = open(p).read()
i = s.index('SEEDTABLE') if 'SEEDTABLE' in s else s.index(rows[0])
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
