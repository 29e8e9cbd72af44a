#!/usr/bin/env python3
"""DESIGN.md = design_head + design_props + design_tail + the table of planted bugs (from seeded/*/meta.json)."""
import json, os, glob
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
s = ''.join(open(T + '/' + f).read() for f in ('design_head.md', 'design_props.md', 'design_tail.md'))
s += '## Planted bugs (seeded/) and what catches them\n\nEach is caught by the quick check of its property unless noted in the last column.\n\n| bug | property | needs | result |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = ' '.join(m['needs'].split()).replace('|', '/')
    s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], n, m.get('result', 'caught'))
open(V + '/DESIGN.md', 'w').write(s)
