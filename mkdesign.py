#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md (between the markers), from seeded/*/meta.json."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'DESIGN.md')
head = open(p).read().split('<!-- bugs -->')[0].rstrip() + '\n\n<!-- bugs -->\n'
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '\\|')))
open(p, 'w').write(head + '| bug | caught by the check of | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
