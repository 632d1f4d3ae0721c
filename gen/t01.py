"""T01: every table the generator makes says what its data says."""
import itertools, json, os
from common import *

LAST = 0x10FFFF
CFG = [None, [(0, -1, 'M')], [(0, -1, 'M'), (2, 5, 'K')], [(2, 5, 'K'), (4, -1, 'M')], [(-1, -1, 'K')]]
L = None
FULL = False      # the small universe does not take; the real code space is used with the data at its start


def size(n):
    return 0x110000 if FULL else n


def ranges(labels, cut):
    """the data list of a string of labels ('.' is no data): maximal runs, or single code points"""
    r, i = [], 0
    while i < len(labels):
        j = i
        while cut == 'm' and j + 1 < len(labels) and labels[j + 1] == labels[i]:
            j += 1
        if labels[i] != '.':
            r.append((L.col.CodePointRange(i, j), labels[i]))
        i = j + 1
    return r


def missing(c, n):
    if CFG[c] is None:
        return None, []
    m, l = L.col.Missing(), []
    for a, b, v in CFG[c]:
        a, b = a % n if a < 0 else a, b % n if b < 0 else b
        if a < n:
            m.append(L.col.CodePointRange(a, min(b, n - 1)), v)
            l.append((a, min(b, n - 1), v))
    return m, l


def want(labels, n, l, default='D'):
    w = []
    for i in range(n):
        v = labels[i] if i < len(labels) else '.'
        if v == '.':
            v = default
            for a, b, x in l:
                if a <= i <= b:
                    v = x
        w.append(v)
    return w


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}


def look(txt, prop, n, boolean=False):
    """all values the emitted text gives, after checking that it is well formed"""
    t = parse_table(txt)
    if t is None:
        raise Broken('no table is found in the emitted text')
    if t.fn != prop.lower():
        raise Broken('the function is named %s, not %s' % (t.fn, prop.lower()))
    if t.stage1_len != len(t.stage1):
        raise Broken('stage 1 is declared with %d entries and has %d' % (t.stage1_len, len(t.stage1)))
    if t.names[:2] != t.names[2:]:
        raise Broken('the function uses %s' % (t.names,))
    if t.index_t != t.fn_index_t or (t.fn_elem and t.fn_elem != t.elem) or t.ret != t.elem:
        raise Broken('types differ: %s %s %s %s %s' % (t.index_t, t.fn_index_t, t.elem, t.fn_elem, t.ret))
    if t.stage1 and max(t.stage1) >= 1 << BITS[t.index_t]:
        raise Broken('index %d does not fit %s' % (max(t.stage1), t.index_t))
    if len(t.stage1) * t.block < n:
        raise Broken('the table ends at %d of %d code points' % (len(t.stage1) * t.block, n))
    p = '' if boolean else prop + '::'
    got = []
    for i in range(n):
        k = t.stage1[i // t.block]
        if k >= len(t.stage2) or i % t.block >= len(t.stage2[k]):
            raise Broken('code point %X falls outside the blocks' % i)
        e = t.stage2[k][i % t.block]
        if not e.startswith(p):
            raise Broken('entry %r of %X is no value of %s' % (e, i, prop))
        got.append(e[len(p):])
    return got, t


def diff(got, w):
    if got != w:
        i = next(i for i in range(len(w)) if got[i] != w[i])
        raise Broken('code point %X is %s in the table, %s by the data' % (i, got[i], w[i]))


def small(case):
    _, n, labels, cut, c, bs = case
    m, l = missing(c, size(n))
    tst = L.col.TwoStageTable.make('P', ranges(labels, cut), bs, 'D', m)
    w = want(labels, size(n), l)
    got, t = look(tst.to_seshat(), 'P', size(n))
    diff(got, w)
    if t.block != bs:
        raise Broken('block size %d asked, %d made' % (bs, t.block))
    return len(set(w)) > 1


def index(case):
    """K different blocks of one entry (and a second table whose blocks repeat)"""
    _, k, rep = case
    n = k * rep
    universe(n)()
    mk = L.col.CodePointRange
    tst = L.col.TwoStageTable.make('P', [(mk(i, i), 'V%d' % (i % k)) for i in range(n)], 1, 'V0')
    n = size(n)
    got, t = look(tst.to_seshat(), 'P', n)
    diff(got, ['V%d' % (i % k) if i < k * rep else 'V0' for i in range(n)])
    b = tst.table_bytes(1)
    if b != BITS[t.index_t] // 8 * len(t.stage1) + sum(map(len, t.stage2)):
        raise Broken('table_bytes answers %d' % b)
    return True


EDGE = [0, 1, 63, 64, 65, 127, 128, 191, 255, 256, 257, 511, 512, 513, 767, 1023, 1024, 1535, 2047]


def select(case):
    """the table chosen is right, and no candidate is smaller"""
    _, shape, rep, c = case[:4]
    top = case[4] if len(case) > 4 else 2048
    n = size(top)
    labels = ['.'] * top
    if shape[0] == 'range':
        for i in range(shape[1], shape[2] + 1):
            labels[i] = 'A'
    elif shape[0] == 'period':
        for i in range(2048):
            labels[i] = '.AB'[(i // shape[1]) % 3]
    elif shape[0] == 'many':
        for i in range(shape[1], 2048):
            labels[i] = 'V%d' % (i % shape[2])
    elif shape[0] == 'sparse':
        # k single code points of different values, far apart: few blocks, a long stage 1
        for i in range(shape[2]):
            labels[i * shape[1] + 5] = 'V%d' % i
    r, i = [], 0
    while i < top:
        j = i
        while j + 1 < top and labels[j + 1] == labels[i]:
            j += 1
        if labels[i] != '.':
            r.append((L.col.CodePointRange(i, j), labels[i]))
        i = j + 1
    m, l = missing(c, n)
    tst = L.tool.select_minimal_tst('P', r, rep, default_prop='D', missing=m)
    w = want(labels, n, l)
    got, t = look(tst.to_seshat(), 'P', n)
    diff(got, w)
    def weigh(t, x):
        b = BITS[t.index_t] // 8 * len(t.stage1) + sum(map(len, t.stage2)) * rep
        if x.table_bytes(rep) != b:
            raise Broken('table_bytes answers %d for a table of %d bytes' % (x.table_bytes(rep), b))
        return b
    best = weigh(t, tst)
    for bs in (64, 128, 256, 512):
        x = L.col.TwoStageTable.make('P', r, bs, 'D', m)
        g, u = look(x.to_seshat(), 'P', n)
        diff(g, w)
        if weigh(u, x) < best:
            raise Broken('block size %d takes %d bytes, the chosen one takes %d' % (bs, weigh(u, x), best))
    return len(set(w)) > 1


# ---- emitted text through rustc -------------------------------------------------------------------
def stub(values, bools):
    s = '#![allow(dead_code, unused)]\npub mod unicode { pub mod props {\n'
    for p in values:
        s += '#[derive(Debug, PartialEq, Clone, Copy)] pub enum %s { %s }\n' % (p, ', '.join(values[p]))
    s += '''} }
pub mod collections {
    pub struct TwoStageTable<'a, T, I> { a: &'a [I], b: &'a [&'a [T]], n: usize }
    impl<'a, T: Copy, I: Copy + TryInto<u64>> TwoStageTable<'a, T, I> {
        pub fn new(a: &'a [I], b: &'a [&'a [T]], n: usize) -> Self { Self { a, b, n } }
        pub fn at(&self, cp: u32) -> T {
            let i = self.a[cp as usize / self.n].try_into().ok().unwrap() as usize;
            self.b[i][cp as usize % self.n]
        }
    }
}
'''
    return s


def rust(case):
    """a batch of emitted texts, compiled and asked for every code point of the universe"""
    kind, n, batch = case
    src = stub({'P': 'ABDMK', 'Gc': 'ABDMK'}, [])
    main, k = '', 0
    for labels, cut, c, bs, prefix, use, boolean, two in batch:
        m, l = missing(c, size(n))
        prop = 'ext_pict' if boolean else 'Gc'
        data = ranges(labels, cut)
        w = want(labels, size(n), l)
        if boolean:
            data = [(r, 'true') for r, _ in data]
            w = ['true' if i < len(labels) and labels[i] != '.' else 'false' for i in range(size(n))]
        tst = L.col.TwoStageTable.make(prop, data, bs, 'false' if boolean else 'D', None if boolean else m)
        txt = tst.to_seshat(prefix=prefix, use=use, boolean=boolean)
        pre = '' if use else 'use crate::unicode::props::Gc; use crate::collections::TwoStageTable;\n'
        src += 'pub mod m%d {\n%s%s' % (k, pre, txt)
        asks = [(prop, w, boolean)]
        if two:
            # a second table in the same file
            lab2 = labels[::-1]
            d2 = [(r, 'true') for r, _ in ranges(lab2, cut)]
            src += L.col.TwoStageTable.make('epres', d2, bs, 'false').to_seshat(prefix=True, use=False, boolean=True)
            asks.append(('epres', ['true' if i < len(lab2) and lab2[i] != '.' else 'false' for i in range(size(n))], True))
        src += '}\n'
        for p, w, b in asks:
            vals = ', '.join(('%s' if b else 'unicode::props::Gc::%s') % v for v in w[:n])
            main += '    for (i, v) in [%s].iter().enumerate() { if m%d::%s(i as u32) != *v { println!("%d {i}"); } }\n' % (vals, k, p.lower(), k)
        k += 1
    src += 'fn main() {\n' + main + '}\n'
    out = rustc_run(src)
    if out.strip():
        a, i = out.split()[:2]
        raise Broken('case %s of the batch: the compiled table answers wrongly at code point %s' % (json.dumps(batch[int(a)]), i))
    return len(batch), sum(len(set(x[0])) > 1 for x in batch)


def full(case):
    """the real code space"""
    _, which, bs = case
    L2 = L
    edges = {'empty': [], 'first': [(0, 0)], 'last': [(LAST, LAST)], 'ends': [(0, 0), (LAST, LAST)], 'all': [(0, LAST)],
             'planes': [(0x10000 * i - (i > 0), 0x10000 * i + 1) for i in range(17)], 'gap': [(0, 0xFFFF), (0x10001, LAST)]}[which]
    mk = L.col.CodePointRange
    m = L.col.Missing()
    m.append(mk(0, LAST), 'M')
    m.append(mk(LAST, LAST), 'K')
    w = ['M'] * 0x110000
    w[LAST] = 'K'
    for a, b in edges:
        for i in range(a, b + 1):
            w[i] = 'A'
    tst = L.col.TwoStageTable.make('P', [(mk(a, b), 'A') for a, b in edges], bs, 'D', m)
    got, _ = look(tst.to_seshat(), 'P', 0x110000)
    diff(got, w)
    return which != 'empty'


def evaluate(case):
    return {'u': small, 'idx': index, 'sel': select, 'rust': rust, 'full': full}[case[0]](case)


U = None


def universe(n):
    def f():
        global U, FULL
        if U:
            U.restore()
        U = None
        if n:
            U = Universe(L, n)
            FULL = False
            try:
                if len(look(L.col.TwoStageTable.make('P', [], 1, 'D').to_seshat(), 'P', 1)[1].stage1) != n:
                    FULL = True
            except Exception:
                FULL = True
            if FULL:
                U.restore()
                U = None
    return f


def prepare(case):
    universe({'u': case[1], 'rust': case[1], 'sel': case[4] if len(case) > 4 else 2048}.get(case[0], 0))()


def words(alpha, n):
    return (''.join(x) for x in itertools.product(alpha, repeat=n))


def run(r, thorough):
    global L
    L = load()
    r.rule = ('tables made by the real generator and read back from the emitted text: every labelling of n code points with {no data, A, B} '
              '(n = %s; the code space constant of the generator is replaced by n), as maximal runs and as single code points, with 5 lists of missing '
              'ranges, for every block size that divides n; every labelling of 12 code points with {no data, A}; 1 to 65537 different blocks (limits of the index types); select_minimal_tst on '
              'ranges with all pairs of edges around 64, 128, 256, 512 and on periodic data, 1- and 2-byte values, and on 0 to 9 single values at 5 distances in 8192 and 65536 code points, values of 1, 2, 4 and 8 bytes; the options of to_seshat through rustc; '
              'the ends of the real code space. Non-trivial: the table has at least two values.' % ('9 and 10' if thorough else '8'))
    r.assume = 'ranges are disjoint and ascending, as the data files are; block sizes divide the code space'
    probe_ok = True
    universe(8)()
    if FULL:
        r.extra['small_universe'] = 'the constant was not found; real code space with data at its start'
    try:
        look(L.col.TwoStageTable.make('P', [], 1, 'D').to_seshat(), 'P', 1)
    except Broken as e:
        probe_ok = False
        r.extra['reader'] = 'the emitted text is not of the known form; rustc reads it'
    isfull = FULL
    universe(0)()
    if probe_ok:
        for n in ((9, 10) if thorough else (8,)) if not isfull else (3,):
            div = [d for d in range(1, n + 1) if n % d == 0] if not isfull else [2, 64]
            r.family('labellings of %d code points' % n,
                     evaluate, [['u', n, w, cut, c, bs] for w in words('.AB', n) for cut in 'ms' for c in range(len(CFG)) for bs in div
                                if cut == 'm' or c == 0], universe(n))
        if not isfull:
            r.family('labellings of 12 code points', evaluate,
                     [['u', 12, w, 'm', 0, bs] for w in words('.A', 12) for bs in (1, 2, 3, 4, 6, 12)], universe(12))
            e = EDGE
            sel = [['sel', ['range', a, b], rep, c] for a in e for b in e if a <= b for rep in (1, 2) for c in (0, 2)] + \
                  [['sel', ['period', p], rep, 0] for p in (1, 2, 3, 5, 32, 64, 96, 128, 192, 256, 300, 512, 700) for rep in (1, 2)] + \
                  [['sel', ['many', s, k], rep, 0] for s in (0, 64, 300, 2000) for k in (255, 256, 257, 300, 2048) for rep in (1, 2)]
            r.family('choice of the block size', evaluate, sel, universe(2048))
            for top in (8192, 65536):
                sel = [['sel', ['sparse', s, k], rep, 0, top] for s in (64, 128, 192, 256, 640) for k in range(0, 10 if not thorough else 25)
                       for rep in (1, 2, 4, 8) if k * s < top]
                r.family('choice of the block size, single values in %d code points' % top, evaluate, sel, universe(top))
        r.family('limits of the index types', evaluate,
                 [['idx', k, rep] for k in (1, 2, 3, 254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537) for rep in ((1, 2) if k < 60000 or thorough else (1,))], universe(0))
        r.family('the real code space', evaluate, [['full', w, bs] for w in ('empty', 'first', 'last', 'ends', 'all', 'planes', 'gap') for bs in (64, 512)], universe(0))
    n = 4 if not isfull else 3
    items = [[w, cut, c, bs, prefix, use, boolean, two] for w in words('.AB' if not probe_ok or thorough else '.A', n) for cut in 'm' for c in ((0, 3) if not probe_ok or thorough else (3,))
             for bs in ((1, 2, 4) if not isfull else (64,)) for prefix in (False, True) for use in (False, True) for boolean in (False, True)
             for two in ((False, True) if use and prefix else (False,))]
    if isfull:
        items = items[::8]
    k = max(1, (len(items) + 15) // 16)
    r.family('emitted text through rustc (batches)', evaluate, [['rust', n, items[i:i + k]] for i in range(0, len(items), k)], universe(n))
    r.extra['tables_compiled_by_rustc'] = len(items)
