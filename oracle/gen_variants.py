#!/usr/bin/env python3
"""Writes harness/src/variants.rs: for each property enum, (short alias, full alias, Rust variant).
Run once; output committed. usage: gen_variants.py icu_names.tsv PropertyValueAliases.json props.rs variants.rs"""
import json, re, sys
icu, pvaf, props, out = sys.argv[1:5]
pva = json.load(open(pvaf))
src = open(props).read()
alias = {}
for l in open(icu):
    p, n, s, f = l.rstrip('\n').split('\t'); alias.setdefault(p, {})[s] = (f, int(n))
norm = lambda s: s.lower().replace('_', '').replace('.', '')
key = {'insc': 'InSC', 'gcb': 'GCB', 'wb': 'WB', 'incb': 'InCB'}
o = open(out, 'w')
o.write('// Written by oracle/gen_variants.py from the Unicode 15.1 PropertyValueAliases; committed.\nuse seshat::unicode::props::*;\n')
for E in 'Gc Ccc Bc Dt Gcb Wb Hst Insc Incb Blk Sc Age'.split():
    body = re.search(r'pub enum %s \{(.*?)\n\}' % E, src, re.S).group(1)
    ids = re.findall(r'^\s+(\w+)(?: = \d+)?,', body, re.M)
    p = E.lower(); names = {}
    if p == 'ccc':
        for s, (f, n) in alias['ccc'].items():
            names[s] = (s, f, str(n))
    else:
        for s, f in pva[key.get(p, p)].items():
            names[s] = (s, f, s)
            if p in alias and s in alias[p]: assert norm(alias[p][s][0]) == norm(f), (p, s, f, alias[p][s])
    byid = {}
    for s, (short, full, k) in names.items(): byid[norm('V' + s if p == 'age' and s != 'NA' else s)] = (short, full, k)
    rows = []
    for i in ids:
        m = byid.get(norm(i))
        if m is None: print('no alias for', E, i); continue
        rows.append((m[2], m[0], m[1], i))
    used = {norm(i) for i in ids}
    print(E, len(ids), 'aliases without variant:', [v for k, v in byid.items() if k not in used])
    o.write('/// (key in the frozen data, short alias, long alias, variant)\npub static %s: &[(&str, &str, &str, %s)] = &[\n' % (E.upper(), E))
    for k, s, f, i in rows: o.write('    ("%s", "%s", "%s", %s::%s),\n' % (k, s, f, E, i))
    o.write('];\n')
