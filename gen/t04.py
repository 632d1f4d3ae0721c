"""T04: the emitters of map and list files (binary properties, names, decompositions, exclusions) and the small scripts."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile
from common import *

L = None
LAST = 0x10FFFF
# Table 4-8 of the standard with Extension I: names of these are derived by rule
DERIVED = [(0xAC00, 0xD7A3), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0x20000, 0x2A6DF), (0x2A700, 0x2B739), (0x2B740, 0x2B81D),
           (0x2B820, 0x2CEA1), (0x2CEB0, 0x2EBE0), (0x2EBF0, 0x2EE5D), (0x30000, 0x3134A), (0x31350, 0x323AF), (0x17000, 0x187F7),
           (0x18D00, 0x18D08), (0x18B00, 0x18CD5), (0x1B170, 0x1B2FB), (0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x2F800, 0x2FA1D)]


def need(c, m):
    if not c:
        raise Broken(m)


def scratch():
    d = os.path.join(VERIF, 'target', 'gen')
    os.makedirs(d, exist_ok=True)
    return d


def put(name, data):
    with open(os.path.join(own_tool()[1], name), 'w') as f:
        json.dump(data, f)


def key(a, b):
    return '%04X' % a if a == b else '%04X..%04X' % (a, b)


LONG = {'wspace': 'White_Space', 'ahex': 'ASCII_Hex_Digit', 'odi': 'Other_Default_Ignorable_Code_Point'}
POS = [0, 1, 2, 3, 4, 5]


def where(base, i):
    return {0: i, 1: 0xFFFD + i, 2: LAST - 5 + i}[base]


def runs(mask, cut):
    r, i = [], 0
    while i < 6:
        if mask >> i & 1:
            j = i
            while cut and j < 5 and mask >> (j + 1) & 1:
                j += 1
            r.append((i, j))
            i = j
        i += 1
    return r


def world(kind, w, k):
    """(module text, checks) of one data world"""
    L = own_tool()[0]
    if kind == 'props':
        base, props, masks, cut = w
        put('PropList.json', {LONG[p]: [key(where(base, a), where(base, b)) for a, b in runs(m, cut)] for p, m in zip(props, masks)})
        txt = L.tool.binary_props_rs()
        ask = ''
        for p, m in zip(props, masks):
            pts = {where(base, i): bool(m >> i & 1) for i in range(6)}
            for x in (0, 0x41, 0xFFFF, 0xFFFC, 0x10003, LAST - 6, LAST):
                pts.setdefault(x, False)
            ask += '    for (c, v) in [%s] { if m%d::%s(c) != v { println!("%d %s of {c:X} is {}", !v); } }\n' % (
                ', '.join('(%d, %s)' % (c, str(v).lower()) for c, v in pts.items()), k, p, k, p)
        return txt, ask
    if kind == 'ce':
        put('CompositionExclusions.json', ['%04X' % c for c in w])
        txt = L.tool.ce_rs()
        pts = sorted(set(w) | {x + d for x in w for d in (-1, 1) if 0 <= x + d} | {0, 0x41, 0x958})
        return txt, '    for (c, v) in [%s] { if m%d::ce(c) != v { println!("%d ce of {c:X} is {}", !v); } }\n' % (
            ', '.join('(%d, %s)' % (c, str(c in w).lower()) for c in pts), k, k)
    if kind == 'na':
        put('extracted/DerivedName.json', {'%04X' % c: n for c, n in w})
        txt = L.tool.na_table_rs()
        exp = [(c, n) for c, n in w if not any(a <= c <= b for a, b in DERIVED)]
        return 'mod t { %s }\npub fn get() -> Vec<(u32, &\'static str)> { t::NA_MAP.to_vec() }\n' % txt, \
            '    { let e: &[(u32, &str)] = &[%s]; let g = m%d::get(); if g != e { println!("%d the names are {:X?}", g.iter().take(6).collect::<Vec<_>>()); } }\n' % (
                ', '.join('(%d, "%s")' % x for x in exp), k, k)
    if kind == 'dm':
        put('UnicodeData.json', {'%04X' % c: {'na': 'X', 'gc': 'Lo', 'ccc': '0', 'bc': 'L', 'dm': d} for c, d in w})
        txt = L.tool.dm_map_rs()
        def cps(d):
            return [int(x, 16) for x in re.sub(r'^<[^>]*> ', '', d).split(' ')]
        esc = lambda l: ''.join('\\u{%X}' % c for c in l)
        exp = [(c, esc(cps(d))) for c, d in w if d]
        rev = sorted((cps(d), c) for c, d in w if d and not d.startswith('<'))
        return 'mod t { %s }\npub fn get() -> (Vec<(u32, &\'static str)>, Vec<(&\'static str, u32)>) { (t::DM_MAP.to_vec(), t::RDM_MAP.to_vec()) }\n' % txt, \
            '''    { let e: &[(u32, &str)] = &[%s]; let r: &[(&str, u32)] = &[%s]; let (g, h) = m%d::get();
      if g != e { println!("%d the mappings are {:X?}", g); }
      let mut q = h.clone(); q.sort();
      if q != r || h.windows(2).any(|w| w[0].0 > w[1].0) { println!("%d the reversed mappings are {:X?}", h); } }
''' % (', '.join('(%d, "%s")' % x for x in exp), ', '.join('("%s", %d)' % (esc(a), b) for a, b in rev), k, k, k)
    raise RuntimeError(kind)


def batch(case):
    _, kind, ws = case
    src, main = '#![allow(dead_code, unused)]\n', ''
    for k, w in enumerate(ws):
        t, a = world(kind, w, k)
        src += 'pub mod m%d {\n%s}\n' % (k, t)
        main += a
    out = rustc_run(src + 'fn main() {\n' + main + '}\n').strip()
    if out:
        n, m = out.splitlines()[0].split(' ', 1)
        raise Broken('world %s: %s' % (json.dumps(ws[int(n)]), m))
    return len(ws), sum(len(w) > 1 if kind != 'props' else sum(map(bool, w[2])) > 0 for w in ws)


def script(name, files, tree='d'):
    """runs a script of the tool directory in a scratch copy on the given data files; (stdout, written files)"""
    d = tempfile.mkdtemp(prefix='t04s', dir=scratch())
    try:
        t = os.path.join(d, 'tools', 'ucd-tool')
        shutil.copytree(TOOL, t, ignore=shutil.ignore_patterns('data', '__pycache__'))
        os.makedirs(os.path.join(d, 'tests'))
        dd = os.path.join(t, VERSION_DIR)
        os.makedirs(dd + '/auxiliary')
        for f, x in files.items():
            with open(os.path.join(dd, f), 'w') as g:
                json.dump(x, g)
        p = subprocess.run([sys.executable, '-B', name], cwd=t, capture_output=True, text=True, timeout=CASE_S)
        if p.returncode:
            raise Broken('%s fails: %s' % (name, p.stderr.strip().splitlines()[-1:]))
        w = {}
        for f in os.listdir(os.path.join(d, 'tests')):
            with open(os.path.join(d, 'tests', f)) as g:
                w[f] = g.read()
        return p.stdout, w
    finally:
        shutil.rmtree(d, ignore_errors=True)


VERSION_DIR = 'data/15.1.0'


def pascal(s):
    return s.lower().title().replace('_', '')


def valnames(case):
    """gen-{sc,blk}-{enum,name}.py"""
    _, which, al = case
    E = {'sc': 'Sc', 'blk': 'Blk'}[which]
    files = {'PropertyValueAliases.json': {which: dict(al), 'zz': {'Aa': 'Bb'}, {'sc': 'blk', 'blk': 'sc'}[which]: {'Oo': 'Other'}}}
    out, _ = script('gen-%s-enum.py' % which, files)
    out2, _ = script('gen-%s-name.py' % which, files)
    src = '#![allow(dead_code, unused)]\n#[derive(Clone, Copy)] pub struct PropertyName { pub full: &\'static str, pub abbr: &\'static str }\n#[derive(Clone, Copy)]\n%s\n%s\nfn main() {\n' % (out, out2)
    for a, full in al:
        src += '    { let n = %s_name(%s::%s); if (n.full, n.abbr) != ("%s", "%s") { println!("%s is {} {}", n.full, n.abbr); } }\n' % (which, E, pascal(a), full, a, a)
    src += '    let all = |x: %s| match x { %s };\n}\n' % (E, ', '.join('%s::%s => 0' % (E, pascal(a)) for a, _ in al) or '')
    o = rustc_run(src).strip()
    need(not o, o)
    return len(al) > 1


def testcases(case):
    """gen-grapheme-break-test.py, gen-normalization-test.py"""
    _, which, data = case
    hexs = lambda s: ''.join('\\u{%X}' % int(x, 16) for x in s.split(' '))
    if which == 'gb':
        _, w = script('gen-grapheme-break-test.py', {'auxiliary/GraphemeBreakTest.json': dict(data), 'PropertyValueAliases.json': {}})
        exp = ', '.join('("%s", &[%s])' % (hexs(s), ', '.join('"%s"' % hexs(x) for x in b)) for s, b in data)
        ty, name = '&[(&str, &[&str])]', 'grapheme_break_test_cases.rs'
    else:
        _, w = script('gen-normalization-test.py', {'NormalizationTest.json': {s: dict(zip(('NFC', 'NFD', 'NFKC', 'NFKD'), f)) for s, f in data}, 'PropertyValueAliases.json': {}})
        exp = ', '.join('(%s)' % ', '.join('"%s"' % hexs(x) for x in [s] + f) for s, f in data)
        ty, name = '&[(&str, &str, &str, &str, &str)]', 'normalization_test_cases.rs'
    need(list(w) == [name], 'files written: %s' % list(w))
    o = rustc_run('#![allow(dead_code)]\nmod t { %s }\nfn main() { let e: %s = &[%s]; if t::TEST_CASES != e { println!("{:X?}", t::TEST_CASES); } }\n' % (w[name], ty, exp)).strip()
    need(not o, 'the cases are %s' % o[:300])
    return len(data) > 0


def evaluate(case):
    return {'b': batch, 'val': valnames, 'test': testcases}[case[0]](case)


def chunks(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]


def run(r, thorough):
    global L
    L = load()
    r.rule = ('data worlds given to the real emitters, the emitted Rust compiled by rustc and asked: PropList files of one property with every non-empty subset of 6 code points '
              '(at 0, around U+FFFF/U+10000, at the end of the code space; maximal ranges and single code points), of two properties with every pair of %s of these subsets, of three; every order; '
              'CompositionExclusions: every subset of 8; DerivedName: every edge of every derived range (one inside, one outside), every pair of neighbours, all at once; '
              'UnicodeData: every assignment of %d decomposition fields to 4 code points, and pairs (thorough: triples) of 17 mappings whose order differs between encodings; the enum, name and test-case scripts on every subset or list of a small pool. '
              'Non-trivial: more than one entry.' % ('63' if thorough else '15', 8 if thorough else 6))
    r.assume = 'data files are ascending where the published ones are, and a listed property has at least one code point'
    shutil.rmtree(scratch(), ignore_errors=True)
    S = 48 if thorough else 16
    def fam(kind, name, ws):
        r.family(name + ' (batches)', evaluate, [['b', kind, c] for c in chunks(ws, S)])
        r.extra['worlds_' + kind] = r.extra.get('worlds_' + kind, 0) + len(ws)
    ws = [[b, ['wspace'], [m], c] for b in (0, 1, 2) for m in range(1, 64) for c in (0, 1)]
    sub = list(range(1, 64)) if thorough else [1, 2, 3, 5, 7, 10, 12, 21, 32, 33, 48, 56, 60, 62, 63]
    ws += [[b, o, [x, y], 1] for o in (['wspace', 'ahex'], ['odi', 'wspace']) for b in (0, 2) for x in sub for y in sub]
    ws += [[0, list(o), [x, y, z], 1] for o in itertools.permutations(LONG) for x in (1, 33) for y in (6, 63) for z in (32, 21)]
    fam('props', 'binary properties', ws)
    pool = [0x0, 0x41, 0x340, 0x958, 0xFB4E, 0xFFFF, 0x10000, 0x1D160]
    fam('ce', 'composition exclusions', [[c for i, c in enumerate(pool) if m >> i & 1] for m in range(256)])
    pts = sorted({p for a, b in DERIVED for p in (a - 1, a, a + 1, (a + b) // 2, b - 1, b, b + 1)} | {0, 0x20, 0x41, 0xFFFD, 0x1F600, 0xE01EF})
    nm = lambda c: 'NAME OF-%X' % c
    fam('na', 'names', [[[p, nm(p)]] for p in pts] + [[[p, nm(p)], [q, nm(q)]] for p, q in zip(pts, pts[1:])] + [[[p, nm(p)] for p in pts]] +
        [[[p, 'N']] + [[q, 'N'] for q in (0x41, 0xFFFD) if q != p] if p < 0x41 else [[0x41, 'N'], [p, 'N']] for p in pts if p not in (0x41,)])
    dms = ['', '0041', '0041 0300', '<compat> 0041', '<noBreak> 0041 0300', '1F600 10FFFF', '0300 0301 0302', '<super> 0020'][:8 if thorough else 6]
    cps = [[0xC0, 0xC1, 0x1E00, 0x1D15E], [0x340, 0xFFFF, 0x10000, 0x10FFFF]]
    fam('dm', 'decomposition mappings', [[[c, d] for c, d in zip(cs, ds)] for cs in cps for ds in itertools.product(dms, repeat=4)])
    # keys whose order differs with the encoding (16-bit units, text of the digits, length)
    ord_ = ['0041', '0041 0300', '0041 0300 0301', '0041 FFFF', '0041 10000', 'FB49 05C1', 'E000', 'FFFF', '10000', '110B9 110BA', '10FFFF', '007F', '0080', '07FF 0041', '0800', '0000', '9FFF']
    fam('dm', 'order of the reversed map', [[[c, d] for c, d in zip([0xC0, 0x340, 0x10000], ds)] for n in ((2, 3) if thorough else (2,)) for ds in itertools.permutations(ord_, n)] +
        [[[0xA000 + i, d] for i, d in enumerate(o)] for o in (ord_, ord_[::-1], ord_[1::2] + ord_[::2])])
    al = [['Adlm', 'Adlam'], ['Zzzz', 'Unknown'], ['Qaai', 'Inherited']]
    bl = [['ASCII', 'Basic_Latin'], ['Arabic_Ext_A', 'Arabic_Extended_A'], ['CJK_Compat_Ideographs_Sup', 'CJK_Compatibility_Ideographs_Supplement'], ['NB', 'No_Block'], ['Latin_1_Sup', 'Latin_1_Supplement']]
    val = []
    for which, pool in (('sc', al), ('blk', bl)):
        for n in range(1, len(pool) + 1):
            for c in itertools.permutations(pool, n) if n <= (3 if thorough else 2) else itertools.combinations(pool, n):
                val.append(['val', which, list(c)])
    r.family('enum and name scripts', evaluate, val)
    gb = [['0020', ['0020']], ['0020 0308', ['0020 0308']], ['0020 0020', ['0020', '0020']], ['1F1E6 1F1E7 0061', ['1F1E6 1F1E7', '0061']],
          ['0000 0061', ['0000', '0061']], ['FFFF 10FFFF', ['FFFF', '10FFFF']], ['0061 0000 0000 000A', ['0061', '0000', '0000', '000A']]]
    nt = [['0041', ['0041'] * 4], ['1E0A', ['1E0A', '0044 0307', '1E0A', '0044 0307']], ['FB01', ['FB01', 'FB01', '0066 0069', '0066 0069']], ['1D15E', ['1D157 1D165'] * 4],
          ['0000', ['0000'] * 4], ['0000 0061', ['0000 0061', '0061', '0000', 'FFFF']], ['10FFFF 0022 005C', ['10FFFF', '0022 005C', '005C', '0000 0000']]]
    r.family('test-case scripts', evaluate, [['test', w, list(c)] for w, p in (('gb', gb), ('nt', nt)) for n in range(0, 8) for c in
                                             (itertools.permutations(p, n) if n <= (3 if thorough else 2) else itertools.combinations(p, n))])
    shutil.rmtree(scratch(), ignore_errors=True)
