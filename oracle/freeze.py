#!/usr/bin/env python3
"""Builds the frozen oracle files of /verif/oracle (run once, outputs committed; no check runs this).

Sources: ICU 74 (Unicode 15.1) through icu_dump.cpp for every property ICU exposes, and the
UCD 15.1 JSON in /repo/tools/ucd-tool/data/15.1.0 for the contributory ones; where both
exist they are cross-checked and any difference aborts.

  g++ -O1 icu_dump.cpp -licuuc -o /tmp/icu_dump && /tmp/icu_dump > /tmp/icu.tsv
  python3 freeze.py /tmp/icu.tsv /repo/tools/ucd-tool/data/15.1.0 /verif/oracle
"""
import json, sys
tsv, jdir, out = sys.argv[1:4]
N = 0x110000
ENUMS = "ccc bc dt gc gcb wb hst insc blk sc age".split()
f = open(tsv)
hdr = next(f).rstrip('\n').split('\t')
cols = {h: [] for h in hdr}
for line in f:
    for h, v in zip(hdr, line.rstrip('\n').split('\t')):
        cols[h].append(v)
assert len(cols['cp']) == N
J = lambda p: json.load(open(jdir + '/' + p))
def rng(s):
    a = s.split('..'); return range(int(a[0], 16), int(a[-1], 16) + 1)
pl = J('PropList.json')
pa = J('PropertyValueAliases.json')
prop_alias = {v: k for k, v in J('PropertyAliases.json').items()}
def binset(name, src):
    s = [0] * N
    for r in src[name]:
        for c in rng(r): s[c] = 1
    return s
bins = {}
for h in hdr:
    if h not in ENUMS and h not in ('cp', 'dm', 'na'):
        bins[h] = [int(x) for x in cols[h]]
# cross-check PropList / emoji / comp_ex with ICU, take the contributory ones from PropList
em = J('emoji/emoji-data.json'); dn = J('DerivedNormalizationProps.json')
for src in (pl, em, {'Full_Composition_Exclusion': dn['Full_Composition_Exclusion']}):
    for name in src:
        short = prop_alias.get(name, name).lower()
        s = binset(name, src)
        short = {'extpict': 'ext_pict'}.get(short, short)
        if short in bins:
            assert bins[short] == s, (name, short)
            print('cross-checked', name)
        elif short in ('omath','oalpha','olower','oupper','odi','oidc','oids','ogr_ext'):
            bins[short] = s; print('from UCD JSON only', name)
        else:
            print('not exposed by the crate:', name)
ce = [0] * N
for c in J('CompositionExclusions.json'): ce[int(c, 16)] = 1
bins['ce'] = ce
ud = J('UnicodeData.json')
for k, v in ud.items():
    c = int(k, 16)
    assert cols['gc'][c] == v['gc'] and cols['ccc'][c] == v['ccc'] and cols['bc'][c] == v['bc'], k
    d = v['dm'].split('>')[-1].strip()
    if not 0xAC00 <= c <= 0xD7A3: assert cols['dm'][c] == d, (k, d, cols['dm'][c])
nm = J('extracted/DerivedName.json')
names = [''] * N
for k, v in nm.items():
    for c in rng(k): names[c] = v.replace('*', '%04X' % c) if '..' in k else v
for c in range(N): assert names[c] == cols['na'][c], hex(c)
for fn, p in (('Scripts.json','sc'),('Blocks.json','blk'),('HangulSyllableType.json','hst'),('IndicSyllabicCategory.json','insc'),
          ('auxiliary/GraphemeBreakProperty.json','gcb'),('auxiliary/WordBreakProperty.json','wb'),('DerivedAge.json','age'),('extracted/DerivedDecompositionType.json','dt')):
    key = {'insc':'InSC','gcb':'GCB','wb':'WB'}.get(p, p)
    full2short = {v: k for k, v in pa[key].items()}
    norm = lambda s: s.lower().replace('_','').replace('-','').replace(' ','')
    nf = {norm(k): v for k, v in full2short.items()}
    n = 0
    for k, v in J(fn).items():
        short = v if p == 'age' else full2short.get(v) or nf.get(norm(v)) or (v if v in pa[key] else None)
        for c in rng(k):
            got = cols[p][c]
            assert norm(got) == norm(short), (fn, k, v, short, got)
            n += 1
    print('cross-checked', fn, n, 'code points')
# Age Unassigned
cols['age'] = ['NA' if x == '0.0' else x for x in cols['age']]
# InCB, UAX #44 15.1
S = set('Beng Deva Gujr Mlym Orya Telu'.split())
incb = []
for c in range(N):
    sc, insc, gcb, ccc = cols['sc'][c], cols['insc'][c], cols['gcb'][c], cols['ccc'][c]
    if sc in S and insc == 'Virama': v = 'Linker'
    elif sc in S and insc == 'Consonant': v = 'Consonant'
    elif gcb == 'EX' and ccc != '0' and insc in ('Virama', 'Consonant'): v = '?'   # see DESIGN.md: readings differ
    elif (gcb == 'EX' and ccc != '0') or gcb == 'ZWJ': v = 'Extend'
    else: v = 'None'
    incb.append(v)
cols['incb'] = incb
with open(out + '/ucd-15.1.0.txt', 'w') as o:
    for p in ENUMS + ['incb']:
        o.write('@enum %s\n' % p)
        a = 0
        for c in range(1, N + 1):
            if c == N or cols[p][c] != cols[p][a]:
                o.write('%X %X %s\n' % (a, c - 1, cols[p][a])); a = c
    for p in sorted(bins):
        o.write('@bin %s\n' % p)
        a = None
        for c in range(N + 1):
            if c < N and bins[p][c]:
                if a is None: a = c
            elif a is not None:
                o.write('%X %X\n' % (a, c - 1)); a = None
    o.write('@dm\n')
    for c in range(N):
        if cols['dm'][c] and not 0xAC00 <= c <= 0xD7A3: o.write('%X %s\n' % (c, cols['dm'][c]))
with open(out + '/names-15.1.0.txt', 'w') as o:
    for k, v in sorted(nm.items(), key=lambda x: int(x[0].split('..')[0], 16)):
        if '..' in k: o.write('%s %s\n' % (k, v))
        else: o.write('%s %s\n' % (k, v))
