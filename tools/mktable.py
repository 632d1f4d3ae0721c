#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = json.load(open(here + '/tools/also_caught.json')) if os.path.exists(here + '/tools/also_caught.json') else {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    own = extra.get(i, {}).get('own', True)
    by = ([d['property']] if own else []) + extra.get(i, {}).get('also', [])
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/'), ' '.join(by) or 'missed'))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
