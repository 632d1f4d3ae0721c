"""T03: running the generator on the repository's data gives a library that answers what the committed one answers."""
import json, os, re, shutil, subprocess, sys, array
from concurrent.futures import ThreadPoolExecutor
from collections import Counter
from common import *

L = None
SEEDS = 4
WORK = os.path.join(VERIF, 'target', 'gen03')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def regenerate(tool, seed):
    """the generator and the test-case scripts in the scratch copy; seed: the order of sets of strings"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed))
    def one(s):
        p = sh(sys.executable, '-B', s, cwd=tool, env=env, timeout=600)
        if p.returncode:
            raise Broken('%s fails on the data of the repository: %s' % (s, ' '.join(p.stderr.strip().splitlines()[-1:])))
        return p.stdout
    names = ['ucd-tool.py', 'gen-grapheme-break-test.py', 'gen-normalization-test.py', 'gen-sc-enum.py', 'gen-sc-name.py', 'gen-blk-enum.py', 'gen-blk-name.py']
    with ThreadPoolExecutor(8) as p:
        return dict(zip(names, p.map(one, names)))


def paste(path, pat, txt):
    """replaces the committed enum or function by the printed one, as the README says to"""
    s = open(path).read()
    m = re.search(pat, s, re.S | re.M)
    if not m:
        return False
    with open(path, 'w') as f:
        f.write(s[:m.start()] + txt.strip() + '\n' + s[m.end():])
    return True


def build(repo):
    """the explorer built against the regenerated copy"""
    h = os.path.join(WORK, 'harness')
    shutil.copytree(os.path.join(VERIF, 'harness'), h, ignore=shutil.ignore_patterns('target'))
    if os.path.isdir(os.path.join(VERIF, 'oracle')) and not os.path.lexists(os.path.join(WORK, 'oracle')):
        os.symlink(os.path.join(VERIF, 'oracle'), os.path.join(WORK, 'oracle'))
    c = os.path.join(h, 'Cargo.toml')
    s = open(c).read()
    assert '"/repo"' in s
    open(c, 'w').write(s.replace('"/repo"', json.dumps(repo)))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'target'), CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    p = sh('cargo', 'build', '--release', '--offline', '--locked', cwd=h, env=env, timeout=800)
    if p.returncode:
        i = p.stderr.find('error')
        raise Broken('the library with the regenerated files does not build: %s' % p.stderr[max(i, 0):][:400])
    return os.path.join(WORK, 'target', 'release', 'mc')


def dump(mc, name):
    f = os.path.join(WORK, name)
    p = sh(mc, 'dump', f, timeout=300)
    if p.returncode:
        raise RuntimeError('dump fails: ' + p.stderr[-500:])
    a = array.array('I')
    with open(f, 'rb') as g:
        a.frombytes(g.read())
    return a, list(map(int, p.stdout.split()))


def whole(case):
    shutil.rmtree(WORK, ignore_errors=True)
    try:
        # the same run with other orders of sets: what it writes is built again only where it differs
        def tree(seed):
            repo = os.path.join(WORK, 'repo%d' % seed)
            os.makedirs(repo)
            for x in ('src', 'tools', 'tests'):
                shutil.copytree('/repo/' + x, os.path.join(repo, x), ignore=shutil.ignore_patterns('__pycache__', '13.0.0', '14.0.0', '15.0.0'))
            for x in ('Cargo.toml', 'Cargo.lock'):
                shutil.copy('/repo/' + x, repo)
            out = regenerate(os.path.join(repo, 'tools', 'ucd-tool'), seed)
            src = os.path.join(repo, 'src', 'unicode')
            pasted = []
            for p, e in (('sc', 'Sc'), ('blk', 'Blk')):
                if paste(os.path.join(src, 'props.rs'), r'^pub enum %s \{.*?^\}\n' % e, out['gen-%s-enum.py' % p]):
                    pasted.append(e)
                if paste(os.path.join(src, 'ucd', 'property_names.rs'), r'^pub\(crate\) fn %s_name\(.*?^\}\n' % p, out['gen-%s-name.py' % p]):
                    pasted.append(p + '_name')
            return repo, pasted
        with ThreadPoolExecutor(4) as p:
            trees = list(p.map(tree, range(SEEDS)))
        R.extra['pasted'] = trees[0][1]
        R.extra['orders_of_sets'] = SEEDS
        repos = [t[0] for t in trees]
        changed = [f for f in sh('diff', '-rq', '/repo/src', os.path.join(repos[0], 'src')).stdout.splitlines() if f]
        R.extra['regenerated_files_that_differ_in_text'] = len(changed)
        other = [r for r in repos[1:] if any(sh('diff', '-rq', os.path.join(r, x), os.path.join(repos[0], x)).stdout for x in ('src', 'tests'))]
        R.extra['orders_that_write_another_text'] = len(other)
        for n, repo in enumerate(repos[:1] + other[:3]):
            one(repo)
        R.samples.append('gc, dm, na, ... of every code point: committed build against regenerated build')
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    return True


def one(repo):
    """builds the library with the regenerated files of a tree, and compares it with the committed one"""
    shutil.rmtree(os.path.join(WORK, 'harness'), ignore_errors=True)
    mc = build(repo)
    mine = os.path.join(VERIF, 'target', 'release', 'mc')
    (a, n), (b, m) = dump(mine, 'a'), dump(mc, 'b')
    if n != m or len(a) != n[0] * n[1] or len(a) != len(b):
        raise RuntimeError('dumps of different shape')
    R.evals += len(a) * n[2]
    for q in range(n[0]):
        l = a[q * n[1]:(q + 1) * n[1]]
        R.nontriv += (len(l) - Counter(l).most_common(1)[0][1]) * n[2]
    R.extra['questions'] = n[0]
    if a != b:
        k = next(i for i in range(len(a)) if a[i] != b[i])
        q, blk = k // n[1], k % n[1]
        x, y = (sh(z, 'dump', str(q), str(blk)).stdout.split('\n') for z in (mine, mc))
        i = next((i for i in range(1, len(x)) if x[i] != y[i]), 1)
        raise Broken('%s of U+%04X differs between the committed library and the regenerated one (%d of %d blocks differ)' % (
            x[0], blk * n[2] + i - 1, sum(u != v for u, v in zip(a, b)), len(a)))
    for f in ('grapheme_break_test_cases.rs', 'normalization_test_cases.rs'):
        one, two = '/repo/tests/' + f, os.path.join(repo, 'tests', f)
        s = '#![allow(dead_code)]\nmod a { include!("%s"); }\nmod b { include!("%s"); }\nfn main() { println!("{}", a::TEST_CASES.len());\n' % (one, two)
        s += 'let (mut x, mut y) = (a::TEST_CASES.to_vec(), b::TEST_CASES.to_vec()); x.sort(); y.sort(); if x != y { println!("differ: {} and {} cases", x.len(), y.len()); } }\n'
        o = rustc_run(s, 'the generated ' + f).split('\n')
        R.evals += int(o[0])
        R.nontriv += int(o[0])
        if o[1]:
            raise Broken('%s as generated from the data and as committed %s' % (f, o[1]))


class _R:
    evals = nontriv = 0
    extra, samples = {}, []


R = _R()


def evaluate(case):
    return whole(case)


def run(r, thorough):
    global R, SEEDS
    R = r
    SEEDS = 16 if thorough else 4
    r.rule = ('the generator, the test-case scripts and the enum and name scripts are run in a scratch copy on the data of the repository; the library is built from what they write '
              '(printed enums and name functions are pasted in), and its answer to every property question, value name and normal form of every one of the 1114112 code points (as CodePoint and as char) '
              'is compared with that of the committed build; the regenerated test-case files are compared with the committed ones. The scripts run with %d orders of sets (hash seeds 0..%d); where the files differ in text, the comparison is made again (for up to three). Non-trivial: answers in blocks whose answers are not the most common ones, and test cases.' % (SEEDS, SEEDS - 1))
    r.assume = 'answers are compared by 32-bit hashes per 64 code points'
    import common
    common.CASE_S = 800
    nt, bad = run_case(whole, ['whole'])
    if bad is not None:
        r.viols.append((['whole'], bad))
    r.fam['regeneration'] = 1
