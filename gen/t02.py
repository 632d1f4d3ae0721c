"""T02: code point ranges, missing-value lists and the data readers."""
import itertools, json, os, shutil, tempfile
from common import *

L = None
PTS = list(range(0, 13)) + [0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10FFFE, 0x10FFFF]


def need(c, m):
    if not c:
        raise Broken(m)


def rng(case):
    _, a, b = case
    R = L.col.CodePointRange
    if b is not None and b < a:
        for f in (lambda: R(a, b), lambda: R.parse('%04X..%04X' % (a, b))):
            try:
                f()
            except ValueError:
                continue
            raise Broken('the range %X..%X is accepted' % (a, b))
        return True
    r = R(a) if b is None else R(a, b)
    e = a if b is None else b
    need((r.start, r.end) == (a, e), 'start and end are %s, %s' % (r.start, r.end))
    for p in range(max(0, a - 3), a + 4):
        need((p in r) == (a <= p <= e), '%X in the range %X..%X is %s' % (p, a, e, p in r))
    for p in list(range(max(0, e - 3), e + 4)) + PTS:
        need((p in r) == (a <= p <= e), '%X in the range %X..%X is %s' % (p, a, e, p in r))
    for txt in ('%04X..%04X' % (a, e), '%x..%x' % (a, e), repr(r), '%06X..%06X' % (a, e)) + (('%04X' % a, '%x' % a) if a == e else ()):
        q = R.parse(txt)
        need((q.start, q.end) == (a, e), 'parse(%r) is %X..%X' % (txt, q.start, q.end))
    need(repr(r) == '%04X..%04X' % (a, e), 'repr is %r' % repr(r))
    if e - a <= 2000:
        w = list(range(a, e + 1))
        need(list(r) == w and list(r) == w, 'iterating gives another sequence')
        i, j = iter(r), iter(r)
        if len(w) <= 13:
            need([(x, y) for x in r for y in r] == [(x, y) for x in w for y in w], 'two nested iterations over one range disturb one another')
            need(list(zip(i, j)) == list(zip(w, w)), 'two simultaneous iterations over one range disturb one another')
            for x in r:
                break
            need(list(r) == w, 'an iteration given up changes the next one')
        need(len(list(zip(r, w))) == len(w), 'iteration ends early')
    return e > a


def order(case):
    """sorting disjoint ranges"""
    _, perm, cuts = case
    R = L.col.CodePointRange
    rs = [(cuts[2 * i], cuts[2 * i + 1]) for i in range(len(cuts) // 2)]
    l = [R(*rs[i]) for i in perm]
    got = [(x.start, x.end) for x in sorted(l)]
    need(got == rs, 'sorted: %s' % got)
    for i, x in enumerate(l):
        for j, y in enumerate(l):
            need((x < y) == (perm[i] < perm[j]) and (x > y) == (perm[i] > perm[j]), 'comparison of %s and %s' % (x, y))
    return len(rs) > 1


def miss(case):
    """the last range that holds the code point decides; None when there is none"""
    _, l = case
    R = L.col.CodePointRange
    m = L.col.Missing()
    for k, (a, b, v) in enumerate(l):
        for p in range(6):
            w = None
            for x, y, z in l[:k]:
                if x <= p <= y:
                    w = z
            need(m.default_value_for(p) == w, 'default of %X is %s, expected %s' % (p, m.default_value_for(p), w))
        m.append(R(a, b), v)
    for p in range(6):
        w = None
        for x, y, z in l:
            if x <= p <= y:
                w = z
        need(m.default_value_for(p) == w, 'default of %X is %s, expected %s' % (p, m.default_value_for(p), w))
    return len(l) > 1


def scratch():
    d = os.path.join(VERIF, 'target', 'gen')
    os.makedirs(d, exist_ok=True)
    return d


def flat(data):
    return [(r.start, r.end, v) for r, v in data]


def key(a, b):
    return '%04X' % a if a == b else '%04X..%04X' % (a, b)


POOL = [(0, 0), (1, 3), (4, 5), (0x10, 0xFF), (0x100, 0x100), (0xFFFF, 0x10000), (0x10001, 0x10FFFE), (0x10FFFF, 0x10FFFF)]
# ranges whose order as text is another
WIDE = [(0x203C, 0x203C), (0x9FFF, 0xFFFE), (0x1F600, 0x1F600), (0x1F601, 0x2FFFF), (0xF0000, 0xFFFFF), (0x100000, 0x100001)]
POOL += WIDE
W = range(len(POOL) - len(WIDE), len(POOL))


def readers(case):
    """make_data, make_grouped_data, to_age_data, data_value_as_abbr*, patch_data on a small file"""
    _, what, order_, vals = case
    L, d = own_tool()
    f = os.path.join(d, 'extracted', 'x.json')
    name = 'extracted/x.json'
    rs = [POOL[i] for i in order_] if what != 'group names' else vals
    if what == 'data':
        with open(f, 'w') as g:
            json.dump({key(*x): v for x, v in zip(rs, vals)}, g)
        w = sorted((a, b, v) for (a, b), v in zip(rs, vals))
        got = flat(L.tool.make_data(name))
        need(got == w, 'make_data: %s' % got)
    elif what == 'age':
        with open(f, 'w') as g:
            json.dump({key(*x): v for x, v in zip(rs, vals)}, g)
        w = sorted((a, b, 'V' + v.replace('.', '_')) for (a, b), v in zip(rs, vals))
        got = flat(L.tool.to_age_data(L.tool.make_data(name)))
        need(got == w, 'to_age_data: %s' % got)
    elif what == 'group':
        # vals: for each property the indices it has
        d = {p: [key(*POOL[i]) for i in idx] for p, idx in zip(('Emoji', 'Emoji_Presentation', 'Emoji_Modifier'), vals)}
        with open(f, 'w') as g:
            json.dump(d, g)
        got = {k: flat(v) for k, v in L.tool.make_grouped_data(name).items()}
        w = {p: [(a, b, 'true') for a, b in sorted(POOL[i] for i in idx)] for p, idx in zip(d, vals)}
        need(list(got) == list(w) and got == w, 'make_grouped_data: %s' % got)
    elif what == 'group names':
        # order_: the names
        d = {p: [key(*POOL[i]) for i in idx] for p, idx in zip(order_, vals)}
        with open(f, 'w') as g:
            json.dump(d, g)
        got = {k: flat(v) for k, v in L.tool.make_grouped_data(name).items()}
        w = {p: [(a, b, 'true') for a, b in sorted(POOL[i] for i in idx)] for p, idx in zip(order_, vals)}
        need(list(got) == list(w) and got == w, 'make_grouped_data: %s' % got)
    elif what == 'abbr':
        prop, names = vals
        with open(f, 'w') as g:
            json.dump({key(*x): v for x, v in zip(rs, names)}, g)
        al = ALIASES[prop]
        data = L.tool.make_data(name)
        fn = {'ccc': lambda x: L.tool.data_value_as_abbr_ccc(x), 'blk': lambda x: L.tool.data_value_as_abbr_blk(x)}.get(prop, lambda x: L.tool.data_value_as_abbr(x, prop))
        got = flat(fn(data))
        def short(v):
            if prop == 'ccc':
                return al[v]
            if prop == 'blk':
                loose = lambda s: s.replace('-', ' ').replace('_', ' ').upper()
                k = [k for k, x in al.items() if loose(x) == loose(v)][0]
                return ''.join(x.title() for x in k.split('_'))
            return [k for k, x in al.items() if x == v][0]
        w = sorted((a, b, short(v)) for (a, b), v in zip(rs, names))
        need(got == w, '%s: %s' % (prop, got))
    elif what == 'missing':
        prop, names = vals
        with open(f, 'w') as g:
            json.dump({key(*x): v for x, v in zip(rs, names)}, g)
        m = L.tool.patch_data(name, prop)
        al = ALIASES[prop]
        for p in sorted(set(PTS + [0x50, 0x20000] + [q + d for x in rs for q in x for d in (-1, 0, 1) if 0 <= q + d <= 0x10FFFF])):
            w = None
            for (a, b), v in zip(rs, names):
                if a <= p <= b:
                    w = [k for k, x in al.items() if x == v][0]
            need(m.default_value_for(p) == w, 'default of %X is %s, expected %s' % (p, m.default_value_for(p), w))
    return len(rs) > 1


ALIASES = None
NAMES = {}


def evaluate(case):
    return {'range': rng, 'order': order, 'missing': miss, 'read': readers}[case[0]](case)


def prepare(case):
    global ALIASES
    with open(os.path.join(VERIF, 'gen', 'aliases.json')) as f:
        ALIASES = json.load(f)
    NAMES['blk'] = ALIASES['blk']['names']
    ALIASES['blk'] = ALIASES['blk']['table']


def run(r, thorough):
    global L
    L = load()
    prepare(None)
    r.rule = ('ranges: all pairs of 21 ends (reversed ones included): construction, membership, text round trip, iteration (repeated, nested, simultaneous, given up); '
              'sorting and comparing all orders of 2 to 4 disjoint ranges; missing lists: all sequences of up to %d of 12 overlapping ranges with 2 values, asked at every '
              'point after every append; readers: all orders of up to %d of 8 ranges in a JSON file and of 6 ranges whose order as text is another, missing lists with equal and alternating values, property lists whose names begin, end or hold one another, in every order, every value of every alias table the generator uses. '
              'Non-trivial: more than one code point or range.' % ((5 if thorough else 4,) * 2))
    r.assume = 'ranges in one data file are disjoint'
    shutil.rmtree(scratch(), ignore_errors=True)
    ends = PTS
    r.family('ranges', evaluate, [['range', a, b] for a in ends for b in ends] + [['range', a, None] for a in ends])
    cuts = [[0, 0, 1, 1], [0, 2, 3, 3], [0, 0, 2, 5], [5, 9, 0x10FFFF, 0x10FFFF], [0, 0, 1, 1, 2, 2], [0, 3, 4, 4, 9, 12], [0, 0, 1, 5, 6, 6, 7, 10], [9, 10, 11, 99, 100, 100, 1000, 0x10000]]
    r.family('orders of ranges', evaluate, [['order', list(p), c] for c in cuts for p in itertools.permutations(range(len(c) // 2))])
    pool = [(0, 0), (0, 5), (1, 1), (1, 4), (2, 3), (5, 5)]
    pool = [[a, b, v] for a, b in pool for v in 'XY']
    r.family('missing lists', evaluate, [['missing', list(l)] for n in range(0, 6 if thorough else 5) for l in itertools.product(pool, repeat=n)])
    cases = []
    for n in (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4):
        for o in itertools.permutations(range(8), n):
            cases.append(['read', 'data', list(o), ['v%d' % (i % 3) for i in range(n)]])
            if n <= 2:
                cases.append(['read', 'age', list(o), ['1.1', '15.0', '3.2', '10.0'][:n]])
                cases.append(['read', 'missing', list(o), ['bc', ['Right_To_Left', 'Arabic_Letter'][:n]]])
            if n == 3:
                cases.append(['read', 'missing', list(o), ['bc', ['Left_To_Right', 'Right_To_Left', 'European_Terminator']]])
    for n in (2, 3, 4, 6) if thorough else (2, 3, 6):
        for o in itertools.permutations(W, n):
            cases.append(['read', 'data', list(o), ['v%d' % (i % 2) for i in range(n)]])
            cases.append(['read', 'group', list(o), [list(o), [], [o[-1], o[0]]]])
    # equal and alternating values, with and without gaps
    for n in (2, 3, 4) if thorough else (2, 3):
        for o in itertools.permutations(list(range(8)) + list(W)[:2], n):
            for v in itertools.product(('Left_To_Right', 'Right_To_Left'), repeat=n):
                cases.append(['read', 'missing', list(o), ['bc', list(v)]])
    subs = [[], [0], [1], [5, 2], [7, 0, 3], [2, 1, 0]]
    cases += [['read', 'group', [0, 1], [a, b, c]] for a in subs for b in subs for c in subs]
    # names that begin, end or lie in other names, in every order
    gn = ['Emoji', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Modifier_Base', 'Base', 'emoji', 'Emoji_Presentation', 'Extended_Pictographic']
    for n in (2, 3, 4) if thorough else (2, 3):
        for o in itertools.permutations(gn, n):
            cases.append(['read', 'group names', list(o), [[k, 4 + k] for k in range(n)]])
            cases.append(['read', 'group names', list(o), [[2] if k else [2, 3] for k in range(n)]])
    for p, al in ALIASES.items():
        names = NAMES.get(p) or (list(al) if p == 'ccc' else list(al.values()))
        for v in names:
            cases.append(['read', 'abbr', [0], [p, [v]]])
            cases.append(['read', 'abbr', [3, 0], [p, [names[0], v]]])
    r.family('data readers', evaluate, cases)
    shutil.rmtree(scratch(), ignore_errors=True)
