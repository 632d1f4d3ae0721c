"""T06: the whole generation on other data: what the library built from it answers is what the data says.

A world is the data of the repository with one kind of edit applied to every file. In a scratch copy the main
program is run on the world, the library is built from what it writes, and every answer for every code point
is compared with a naive labelling made from the JSON files of the world."""
import json, os, re, shutil, subprocess, sys, threading, zlib
from concurrent.futures import ThreadPoolExecutor
from common import *

WORK = os.path.join(VERIF, 'target', 'gen06')
N = 0x110000
RANGES = {  # file -> (method, alias table or how the value is named, value of everything else)
    'Blocks.json': ('blk', 'blk', 'NB'),
    'Scripts.json': ('sc', 'sc', 'Zzzz'),
    'DerivedAge.json': ('age', 'age', 'NA'),
    'HangulSyllableType.json': ('hst', None, 'NA'),
    'IndicSyllabicCategory.json': ('insc', None, 'Other'),
    'auxiliary/GraphemeBreakProperty.json': ('gcb', 'GCB', 'XX'),
    'auxiliary/WordBreakProperty.json': ('wb', 'WB', 'XX'),
    'extracted/DerivedBidiClass.json': ('bc', None, 'L'),
    'extracted/DerivedCombiningClass.json': ('ccc', 'ccc', 'NR'),
    'extracted/DerivedDecompositionType.json': ('dt', 'dt', 'None'),
    'extracted/DerivedGeneralCategory.json': ('gc', None, None),
}
GROUPS = ('PropList.json', 'emoji/emoji-data.json')


def norm(s):
    return re.sub(r'[^0-9a-z]', '', s.lower())


def pr(k):
    a, _, b = k.partition('..')
    return int(a, 16), int(b or a, 16)


def fmt(a, b=None):
    return '%04X' % a if b is None or a == b else '%04X..%04X' % (a, b)


def read(d, f):
    with open(os.path.join(d, f)) as g:
        return json.load(g)


def write(d, f, o):
    with open(os.path.join(d, f), 'w') as g:
        json.dump(o, g, ensure_ascii=False)


# --- the kinds of edit: on the ascending list of (start, end, value) that cover what the file covers ---

def rotate(l, by=1):
    vs = sorted({v for _, _, v in l})
    n = {v: vs[(i + by) % len(vs)] for i, v in enumerate(vs)}
    return [(a, b, n[v]) for a, b, v in l]


def gaps(l):
    p, r = 0, []
    for a, b, _ in l:
        if a > p:
            r.append((p, a - 1))
        p = b + 1
    if p < N:
        r.append((p, N - 1))
    return r


def put(l, new):
    """entries whose code points are free"""
    return sorted(l + new)


def shift(l, n):
    return [(max(a + n, 0), min(b + n, N - 1), v) for a, b, v in l if a + n < N and b + n >= 0]


def split(l):
    r = []
    for a, b, v in l:
        if b > a:
            m = (a + b) // 2
            r += [(a, m, v), (m + 1, b, v)]
        else:
            r.append((a, b, v))
    return r


def gap_ends(l):
    vs = sorted({v for _, _, v in l})
    new = []
    for i, (a, b) in enumerate(gaps(l)):
        new.append((a, a, vs[i % len(vs)]))
        if b > a:
            new.append((b, b, vs[(i + 1) % len(vs)]))
    return put(l, new)


def pieces(l, n):
    """every range of a thousand code points or less cut into pieces of n with the values in turn"""
    vs = sorted({v for _, _, v in l})
    r = []
    for i, (a, b, v) in enumerate(l):
        if b - a >= 1000:
            r.append((a, b, v))
            continue
        for k, x in enumerate(range(a, b + 1, n)):
            r.append((x, min(x + n - 1, b), vs[(i + k) % len(vs)]))
    return r


def at_edges(l, step):
    """a value on the last code point of one block of 512 and one on the first of the next, in every free place"""
    vs = sorted({v for _, _, v in l})
    free = gaps(l)
    new = []
    k = 0
    for a, b in free:
        for e in range((a // 512 + 1) * 512, b + 1, step):
            if e - 1 >= a:
                new.append((e - 1, e - 1, vs[k % len(vs)]))
            new.append((e, e, vs[(k + 1) % len(vs)]))
            k += 1
    return put(l, new)


def fill(l):
    vs = sorted({v for _, _, v in l})
    return put(l, [(a, b, vs[i % len(vs)]) for i, (a, b) in enumerate(gaps(l))])


def merge(l):
    r = []
    for a, b, v in l:
        if r and r[-1][1] + 1 == a and r[-1][2] == v:
            r[-1] = (r[-1][0], b, v)
        else:
            r.append((a, b, v))
    return r


KINDS = {
    'as_is': lambda l: l,
    'values_rotated': rotate,
    'gap_ends': gap_ends,
    'shift_1': lambda l: shift(l, 1),
    'shift_back_1': lambda l: shift(l, -1),
    'first_entry_only': lambda l: l[:1],
    'last_entry_only': lambda l: l[-1:],
    'no_first_no_last': lambda l: l[1:-1],
    'every_second': lambda l: l[::2],
    'every_other_second': lambda l: l[1::2],
    'split': split,
    'pieces_3': lambda l: pieces(l, 3),
    'singles': lambda l: pieces(l, 1),
    'block_edges': lambda l: at_edges(l, 4096),
    'filled': fill,
    'upside_down': lambda l: sorted((N - 1 - b, N - 1 - a, v) for a, b, v in l),
    'last_code_point': lambda l: [(N - 1, N - 1, l[0][2])],
    'first_code_point': lambda l: [(0, 0, l[0][2])],
    'everything_one_value': lambda l: [(0, N - 1, l[len(l) // 2][2])],
    'two_halves': lambda l: [(0, N // 2 - 1, l[0][2]), (N // 2, N - 1, rotate(l)[0][2])],
    'values_rotated_2': lambda l: rotate(l, 2),
    'values_rotated_7': lambda l: rotate(l, 7),
    'shift_64': lambda l: shift(l, 64),
    'shift_511': lambda l: shift(l, 511),
    'shift_far': lambda l: shift(l, 0xFFFF - 64),
    'last_removed': lambda l: l[:-1],
    'first_removed': lambda l: l[1:],
    'every_third': lambda l: l[::3],
    'filled_rotated': lambda l: fill(rotate(l, 3)),
    'pieces_64': lambda l: pieces(l, 64),
    'pieces_128': lambda l: pieces(l, 128),
    'all_edges': lambda l: at_edges(l, 1536),
}
# kinds for which every property of a grouped file, and every file, gets other code points
EACH = {
    'alike_starts': lambda l, i: [(0x100, 0x100, l[0][2]), (0x2000 + 7 * i, 0x2003 + 9 * i, l[-1][2]), (0x10FF00, 0x10FF00 + i, l[0][2])],
    'alike_ends': lambda l, i: [(i, 0x40, l[0][2]), (0x3000, 0x3FFF, l[-1][2]), (0x10FF00 + i, 0x10FFFF, l[0][2])],
    'alike_sizes': lambda l, i: [(0x1000 * i + 0x21, 0x1000 * i + 0x80, l[0][2]), (0x80000 + 0x777 * i, 0x80000 + 0x777 * i + 9, l[-1][2])],
}
# the data of the older versions the repository holds, as they are
OLD = {'version_13': '13.0.0', 'version_14': '14.0.0', 'version_15': '15.0.0'}
for _k in OLD:
    KINDS[_k] = lambda l: l
for _k in EACH:
    KINDS[_k] = lambda l, i=0, k=_k: EACH[k](l, i)
QUICK = ['block_edges', 'gap_ends', 'pieces_3', 'values_rotated', 'upside_down', 'no_first_no_last', 'last_code_point', 'filled', 'first_entry_only', 'two_halves', 'alike_starts', 'alike_sizes', 'version_13']
# the order in which the entries of a world stand in its files
ORDERS = ('ascending', 'by value', 'descending')


def order(l, kind, i):
    o = ORDERS[(sorted(KINDS).index(kind) + i) % 3]
    if o == 'by value':
        # the order of the published files: value by value
        first = {}
        for a, _, v in l:
            first.setdefault(v, len(first))
        return sorted(l, key=lambda e: (first[e[2]], e[0]))
    return l[::-1] if o == 'descending' else l


def version(old, new, d):
    """the files of an older version where it has them, with the aliases and the property names of the newer one"""
    for root, _, fs in os.walk(new):
        rel = os.path.relpath(root, new)
        os.makedirs(os.path.join(d, rel), exist_ok=True)
        for f in fs:
            n = os.path.normpath(os.path.join(rel, f))
            has = os.path.isfile(os.path.join(old, n)) and not n.startswith('Property')
            shutil.copy(os.path.join(old if has else new, n), os.path.join(d, n))
    for n in GROUPS:
        if os.path.isfile(os.path.join(old, n)):
            o = read(old, n)
            write(d, n, {k: o.get(k, v) for k, v in read(new, n).items()})


def world(src, dst, kind):
    """writes the files of the world"""
    f = KINDS[kind]
    # no published property list is empty
    each = (lambda l, i: f(l, i)) if kind in EACH else (lambda l, i: f(l) or l)
    for i, name in enumerate(sorted(RANGES)):
        l = sorted(pr(k) + (v,) for k, v in read(src, name).items())
        n = each(l, i)
        if RANGES[name][2] is None:
            # this file lists every code point: what the edit leaves out is unassigned
            n = sorted(n)
            n = merge(put(n, [(a, b, 'Cn') for a, b in gaps(n)])) if kind in ('upside_down',) else put(n, [(a, b, 'Cn') for a, b in gaps(n)])
        write(dst, name, {fmt(a, b): v for a, b, v in order(n, kind, i)})
    for i, name in enumerate(GROUPS):
        o = {}
        for j, (k, rs) in enumerate(read(src, name).items()):
            l = sorted(pr(r) + ('',) for r in rs)
            o[k] = [fmt(a, b) for a, b, _ in (order(each(l, j), kind, i) if name == 'PropList.json' else each(l, j))]
        write(dst, name, o)
    # one code point per entry, ascending as the readers of these files need them
    l = [pr(k) + (None,) for k in read(src, 'CompositionExclusions.json')]
    write(dst, 'CompositionExclusions.json', sorted({fmt(a) for a, _, _ in (l if kind in EACH else f(l))}, key=lambda x: int(x, 16)) or ['0958'])
    names = read(src, 'extracted/DerivedName.json')
    ruled = [pr(k) + (v,) for k, v in names.items() if '..' in k]
    l = sorted(pr(k) + (v,) for k, v in names.items() if '..' not in k)
    if kind in ('gap_ends', 'filled', 'block_edges', 'all_edges', 'filled_rotated'):
        g = gaps(l)
        new = {a for a, b in g} | {b for a, b in g} | {x for a, b in g for x in range((a // 512 + 1) * 512, b + 1, 4096)}
        l = put(l, [(a, a, 'ADDED NAME NUMBER %d-%04X' % (i, a)) for i, a in enumerate(sorted(new))])
    elif kind.startswith('values_rotated'):
        l = [(a, b, l[(i + 1) % len(l)][2]) for i, (a, b, _) in enumerate(l)]
    elif kind not in ('everything_one_value', 'two_halves') and kind not in EACH:
        l = f(l)
    write(dst, 'extracted/DerivedName.json', {fmt(a, b): v for a, b, v in sorted([e for e in l if not any(a <= e[0] <= b for a, b, _ in ruled)] + ruled)})
    data = read(src, 'UnicodeData.json')
    l = sorted((int(k, 16), int(k, 16), v) for k, v in data.items())
    dm = [e for e in l if e[2]['dm']]
    blank = dict(l[0][2], dm='')
    if kind.startswith('values_rotated'):
        moved = {dm[i][0]: dm[(i + 5) % len(dm)][2] for i in range(len(dm))}
        l = [(a, b, moved.get(a, v)) for a, b, v in l]
    elif kind in ('gap_ends', 'filled', 'block_edges', 'all_edges', 'filled_rotated'):
        free = sorted({x for g in gaps(l) for x in g})
        new = []
        for i, a in enumerate(free):
            m = ['%04X %04X' % (0xF0000 + i, 0x300), '<compat> %04X %04X 0022 005C' % (0x20 + i, 0x10FFFF), '%04X' % (0xF1000 + i),
                 '<noBreak> 0020', '0041 %04X' % (0xF2000 + i), '<font> 007F'][i % 6]
            new.append((a, a, dict(blank, dm=m)))
        l = put(l, new)
    elif kind not in ('everything_one_value', 'two_halves', 'as_is') and kind not in EACH and kind not in OLD:
        keep = {a for a, _, _ in f([(a, b, '') for a, b, _ in dm])}
        l = [(a, b, v if a in keep or not v['dm'] else blank) for a, b, v in l]
    write(dst, 'UnicodeData.json', {fmt(a): v for a, _, v in l})
    # later missing-value ranges win: they stay in their order
    m = list(read(src, 'extracted/DerivedBidiClass.missing.json').items())
    g = [(pr(k), v) for k, v in m]
    vs = sorted({v for _, v in g})
    if kind.startswith('values_rotated') or kind == 'pieces_3':
        g = [(k, vs[(vs.index(v) + 1) % len(vs)]) for k, v in g]
    elif kind in ('gap_ends', 'block_edges', 'last_code_point'):
        g = g + [((0xE0000, N - 1), vs[0]), ((0x10FE00, 0x10FFFF), vs[1]), ((0x378, 0x379), vs[-1])]
    elif kind in ('upside_down', 'shift_1', 'every_second'):
        g = g[:1] + [((N - 1 - b, N - 1 - a), v) for (a, b), v in g[1:]]
    write(dst, 'extracted/DerivedBidiClass.missing.json', {fmt(a, b): v for (a, b), v in g})


# --- what the data of a world says ---

def runs(a):
    r, i, n = [], 0, len(a)
    p = a[0]
    s = 0
    for i in range(1, n):
        v = a[i]
        if v is not p and v != p:
            r.append((s, p))
            s, p = i, v
    r.append((s, p))
    return r


def label(entries, default):
    a = [default] * N
    for s, e, v in entries:
        a[s:e + 1] = [v] * (e + 1 - s)
    return runs(a)


def short(al, kind, v):
    if kind is None:
        return norm(v)
    if kind == 'age':
        return norm('V' + v)
    if kind == 'ccc':
        return norm(al['ccc'][v])
    for k, l in al[kind].items():
        if norm(l) == norm(v):
            return norm(k)
    raise RuntimeError('no short value for %s %s' % (kind, v))


def expected(d, derived):
    al, names = read(d, 'PropertyValueAliases.json'), read(d, 'PropertyAliases.json')
    e = {}
    for f, (m, kind, default) in RANGES.items():
        cache = {}
        l = []
        for k, v in read(d, f).items():
            if v not in cache:
                cache[v] = short(al, kind, v)
            l.append(pr(k) + (cache[v],))
        if m == 'bc':
            rev = {norm(v): norm(k) for k, v in al['bc'].items()}
            l = [pr(k) + (rev[norm(v)],) for k, v in read(d, 'extracted/DerivedBidiClass.missing.json').items()] + l
        e[m] = label(l, norm(default or '?'))
    for f in GROUPS:
        for k, rs in read(d, f).items():
            m = next(a for a, l in names.items() if l == k)
            m = 'ext_pict' if m == 'ExtPict' else m.lower()
            e[m] = label([pr(r) + ('true',) for r in rs], 'false')
    e['ce'] = label([pr(k) + ('true',) for k in read(d, 'CompositionExclusions.json')], 'false')
    nm = {pr(k)[0]: v for k, v in read(d, 'extracted/DerivedName.json').items()}
    for a, b in derived:
        for x in [x for x in nm if a <= x <= b]:
            del nm[x]
    e['na'] = {k: '"%s"' % v for k, v in nm.items()}
    e['dm'] = {}
    for k, v in read(d, 'UnicodeData.json').items():
        k = int(k, 16)
        if v['dm'] and not 0xAC00 <= k <= 0xD7AF:
            e['dm'][k] = '"%s"' % ''.join('\\u{%x}' % int(x, 16) for x in v['dm'].split(' ') if not x.startswith('<'))
    return e


# --- what the library answers ---

def program(methods, derived):
    """asks everything of every code point: prints the runs of equal values, and the names and mappings that are not empty"""
    s = ['use seshat::unicode::{CodePoint, Ucd};', 'use std::io::Write;',
         'fn runs<T: PartialEq + std::fmt::Debug>(w: &mut dyn Write, m: &str, f: impl Fn(&CodePoint) -> T) {',
         '    let mut p: Option<T> = None;',
         '    for i in 0..0x110000u32 { let v = f(&CodePoint::new(i).unwrap()); if p.as_ref() != Some(&v) { writeln!(w, "{} {} {:?}", m, i, v).unwrap(); p = Some(v); } }',
         '}',
         'const RULE: &[(u32, u32)] = &%s;' % json.dumps(derived).replace('[', '(').replace(']', ')').replace('((', '[(').replace('))', ')]'),
         'fn main() {', '    let o = std::io::stdout(); let mut w = std::io::BufWriter::new(o.lock()); let w: &mut dyn Write = &mut w;']
    for m in methods:
        if m not in ('na', 'dm'):
            s.append('    runs(w, "%s", |c| c.%s());' % (m, m))
    s += ['    for i in 0..0x110000u32 {', '        let c = CodePoint::new(i).unwrap();',
          '        if !RULE.iter().any(|r| r.0 <= i && i <= r.1) { let n = c.na(); if !n.is_empty() { writeln!(w, "na {} \\"{}\\"", i, n).unwrap(); } }',
          '        if !(0xAC00..=0xD7AF).contains(&i) { let d: String = c.dm().chars().map(|x| format!("\\\\u{{{:x}}}", x as u32)).collect(); if !d.is_empty() { writeln!(w, "dm {} \\"{}\\"", i, d).unwrap(); } }',
          '    }', '}']
    return '\n'.join(s) + '\n'


def methods_of_trait():
    s = open('/repo/src/unicode.rs').read()
    m = re.search(r'pub trait Ucd \{(.*?)\n\}', s, re.S)
    return set(re.findall(r'fn (\w+)\(&self\)', m.group(1))) if m else None


# ranges whose names the library derives by rule (table 4-8 and 15.1's extension I)
DERIVED = [(0xAC00, 0xD7A3), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0x20000, 0x2A6DF), (0x2A700, 0x2B739), (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1),
           (0x2CEB0, 0x2EBE0), (0x2EBF0, 0x2EE5D), (0x30000, 0x3134A), (0x31350, 0x323AF), (0x17000, 0x187F7), (0x18D00, 0x18D08), (0x18B00, 0x18CD5),
           (0x1B170, 0x1B2FB), (0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x2F800, 0x2FA1D)]


def one(kind, asked=None):
    """(number of answers, number of non-default runs) or Broken"""
    W = os.path.join(WORK, kind)
    shutil.rmtree(W, ignore_errors=True)
    try:
        repo = os.path.join(W, 'repo')
        tool = os.path.join(repo, 'tools', 'ucd-tool')
        os.makedirs(repo)
        shutil.copytree('/repo/src', os.path.join(repo, 'src'))
        shutil.copytree(TOOL, tool, ignore=shutil.ignore_patterns('__pycache__', '13.0.0', '14.0.0', '15.0.0'))
        for x in ('Cargo.toml', 'Cargo.lock'):
            shutil.copy('/repo/' + x, repo)
        d = os.path.join(tool, 'data', '15.1.0')
        src = os.path.join(TOOL, 'data', '15.1.0')
        if kind in OLD and os.path.isdir(os.path.join(TOOL, 'data', OLD[kind])):
            version(os.path.join(TOOL, 'data', OLD[kind]), src, os.path.join(W, 'version'))
            src = os.path.join(W, 'version')
        world(src, d, kind)
        def run(*a, **k):
            return subprocess.run(a, capture_output=True, text=True, **k)
        try:
            p = run(sys.executable, '-B', 'ucd-tool.py', cwd=tool, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(zlib.crc32(kind.encode()) % 1000)), timeout=500)
        except subprocess.TimeoutExpired:
            raise Broken('ucd-tool.py does not end within 500 s on this data')
        if p.returncode:
            raise Broken('ucd-tool.py fails on this data: %s' % ' '.join(p.stderr.strip().splitlines()[-1:])[:300])
        exp = expected(d, DERIVED)
        have = methods_of_trait()
        ask = [m for m in sorted(exp) if have is None or m in have]
        bind = os.path.join(W, 'ask')
        os.makedirs(os.path.join(bind, 'src'))
        with open(os.path.join(bind, 'src', 'main.rs'), 'w') as f:
            f.write(program(ask, DERIVED))
        lock = open('/repo/Cargo.lock').read()
        with open(os.path.join(bind, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "ask"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nseshat-unicode = { path = "../repo" }\n'
                    '[profile.dev]\nopt-level = 1\ndebug = false\nincremental = false\n')
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(W, 'target'), CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        p = run('cargo', 'build', '--offline', '-q', cwd=bind, env=env, timeout=600)
        if p.returncode:
            if 'error' not in p.stderr:
                raise RuntimeError(p.stderr[-1500:])
            i = p.stderr.find('error')
            raise Broken('the library made from this data does not build: %s' % p.stderr[max(i, 0):][:400])
        p = run(os.path.join(W, 'target', 'debug', 'ask'), timeout=400)
        if p.returncode:
            raise Broken('the library made from this data panics: %s' % p.stderr[-300:])
        got = {m: ({} if m in ('na', 'dm') else []) for m in ask}
        for l in p.stdout.split('\n'):
            if l:
                m, i, v = l.split(' ', 2)
                if m in ('na', 'dm'):
                    got[m][int(i)] = v
                else:
                    got[m].append((int(i), norm(v)))
        n = nt = 0
        for m in ask:
            e, g = exp[m], got[m]
            n += N
            nt += len(e)
            if e == g:
                continue
            if isinstance(e, dict):
                x = min(k for k in set(e) | set(g) if e.get(k) != g.get(k))
                raise Broken('%s of U+%04X: the library made from this data answers %s, the data says %s' % (m, x, g.get(x, 'nothing'), e.get(x, 'nothing')))
            i = next(i for i in range(max(len(e), len(g))) if i >= len(e) or i >= len(g) or e[i] != g[i])
            x = min(([e[i][0]] if i < len(e) else []) + ([g[i][0]] if i < len(g) else []))
            def at(r):
                return [v for s, v in r if s <= x][-1]
            raise Broken('%s of U+%04X: the library made from this data answers %s, the data says %s' % (m, x, at(g), at(e)))
        return n, nt
    finally:
        shutil.rmtree(W, ignore_errors=True)


def evaluate(case):
    n, nt = one(case[1])
    return nt > 0


def run(r, thorough):
    kinds = list(KINDS) if thorough else QUICK
    r.rule = ('worlds: every data file of the version with one kind of edit (entries removed, added at both ends of every gap or at the edges of blocks, values exchanged, ranges shifted, split, cut in pieces, filled up, '
              'reversed in order, reduced to a single code point, made alike in starts, ends or sizes; and the older versions the repository holds; entries in the file ascending, value by value or descending); in a scratch copy the main program runs on the world, the library is built from what it writes, '
              'and %s of every code point is compared with a labelling made from the JSON files of the world. Non-trivial: runs of equal answers, names and mappings expected.' % 'every property the program writes')
    r.assume = ('lists the readers need ascending (names, UnicodeData, emoji data) are ascending, and the general category file lists every code point, as the published ones do; no property list is empty; names and mappings derived by rule are left to U04, U07 and N07')
    import common
    common.CASE_S = 800
    shutil.rmtree(WORK, ignore_errors=True)
    r.family('worlds', _case, [['world', k] for k in kinds])
    shutil.rmtree(WORK, ignore_errors=True)
    r.extra['worlds'] = kinds


def _case(case):
    return one(case[1])
