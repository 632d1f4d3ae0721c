"""Shared by the generator checks: loading the real scripts of /repo/tools/ucd-tool, running cases on
eight processes, evidence and replay."""
import importlib, importlib.util, io, json, multiprocessing, os, re, signal, sys, time, traceback, types
from contextlib import redirect_stdout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = '/repo/tools/ucd-tool'
PROCS = 8
CASE_S = 60
sys.dont_write_bytecode = True


class Broken(Exception):
    """the property does not hold on a case"""


class Loaded:
    pass


def load(tool=TOOL):
    """imports the scripts of the tool directory (nothing is written there)"""
    for k in [k for k in sys.modules if k == 'ucd' or k.startswith('ucd.') or k == 'ucd_tool']:
        del sys.modules[k]
    sys.path[:] = [tool] + [p for p in sys.path if p != tool]
    importlib.invalidate_caches()
    here = os.getcwd()
    os.chdir(tool)
    try:
        L = Loaded()
        L.col = importlib.import_module('ucd.collections')
        spec = importlib.util.spec_from_file_location('ucd_tool', os.path.join(tool, 'ucd-tool.py'))
        L.tool = importlib.util.module_from_spec(spec)
        sys.modules['ucd_tool'] = L.tool
        with redirect_stdout(io.StringIO()):
            spec.loader.exec_module(L.tool)
    finally:
        os.chdir(here)
    L.mods = [m for k, m in sys.modules.items() if (k == 'ucd' or k.startswith('ucd.') or k == 'ucd_tool') and m]
    return L


DATA = 'data/15.1.0'
_own = None


def own_tool():
    """The scripts loaded from a copy of this process's own, whose data directory holds the alias files only:
    (scripts, data directory). The working directory is the copy's from then on, as the scripts expect it."""
    global _own
    if _own is None or _own[0] != os.getpid():
        import shutil, tempfile
        base = os.path.join(VERIF, 'target', 'gen')
        os.makedirs(base, exist_ok=True)
        t = os.path.join(tempfile.mkdtemp(prefix='own', dir=base), 'tools', 'ucd-tool')
        shutil.copytree(TOOL, t, ignore=shutil.ignore_patterns('data', '__pycache__', '.env'))
        for d in ('', 'extracted', 'auxiliary', 'emoji'):
            os.makedirs(os.path.join(t, DATA, d), exist_ok=True)
        for f in ('PropertyAliases.json', 'PropertyValueAliases.json'):
            shutil.copy(os.path.join(TOOL, DATA, f), os.path.join(t, DATA))
        os.chdir(t)
        _own = (os.getpid(), load(t), os.path.join(t, DATA))
    return _own[1:]


def _swap(code, table):
    consts = []
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            c = _swap(c, table)
        elif type(c) is int and c in table:
            c = table[c]
        consts.append(c)
    return code.replace(co_consts=tuple(consts))


def _functions(L):
    seen = set()
    def visit(o):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset):
                if f:
                    yield from visit(f)
        elif isinstance(o, types.FunctionType) and id(o) not in seen and (o.__module__ or '').startswith(('ucd', 'ucd_tool')):
            seen.add(id(o))
            yield o
        elif isinstance(o, type) and (o.__module__ or '').startswith(('ucd', 'ucd_tool')):
            for v in list(vars(o).values()):
                yield from visit(v)
    for m in L.mods:
        for v in list(vars(m).values()):
            yield from visit(v)


class Universe:
    """The scripts run on code points 0..n-1: the constant for the last code point is replaced in the
    compiled functions. restore() puts the real one back."""
    def __init__(self, L, n):
        self.L, self.saved = L, []
        t = {0x10FFFF: n - 1, 0x110000: n}
        for f in _functions(L):
            self.saved.append((f, f.__code__, f.__defaults__))
            f.__code__ = _swap(f.__code__, t)
            if f.__defaults__:
                f.__defaults__ = tuple(t.get(x, x) if type(x) is int else x for x in f.__defaults__)
        self.globs = []
        spaces = [m for m in L.mods]
        for m in L.mods:
            spaces += [v for v in vars(m).values() if isinstance(v, type) and (v.__module__ or '').startswith('ucd')]
        for m in spaces:
            for k, v in list(vars(m).items()):
                if type(v) is int and v in t:
                    self.globs.append((m, k, v))
                    setattr(m, k, t[v])

    def restore(self):
        for f, c, d in self.saved:
            f.__code__ = c
            f.__defaults__ = d
        for m, k, v in self.globs:
            setattr(m, k, v)


def _alarm(*_):
    raise Broken('the call does not return within %d s' % CASE_S)


def run_case(f, case):
    """None or what broke"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_S)
    try:
        with redirect_stdout(io.StringIO()):
            return f(case), None
    except Broken as e:
        return None, str(e)
    except RecursionError as e:
        return None, 'endless recursion'
    except MemoryError:
        return None, 'memory runs out'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, AttributeError) and isinstance(getattr(e, 'obj', None), types.ModuleType) and '/tools/ucd-tool' not in tb[-1].filename:
            # the scripts have no function of this name (any more): this way of asking them is gone
            return 'gone ' + str(e.name), None
        if any(x.filename.startswith(TOOL) or '/tools/ucd-tool' in x.filename for x in tb):
            x = [x for x in tb if '/tools/ucd-tool' in x.filename][-1]
            return None, '%s: %s (in %s, %s)' % (type(e).__name__, e, os.path.basename(x.filename), x.name)
        raise
    finally:
        signal.alarm(0)


class Run:
    def __init__(self, id, tier):
        self.id, self.tier, self.t0 = id, tier, time.time()
        self.evals = self.nontriv = 0
        self.fam, self.samples, self.viols, self.extra = {}, [], [], {}
        self.rule, self.assume = '', ''
        self.out = os.path.join(VERIF, 'out', id)
        os.makedirs(self.out, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    def family(self, name, f, cases, setup=None):
        """every case of the list on the eight processes; f returns whether the case was non-trivial"""
        if self.viols:
            return
        cases = list(cases)
        n = max(1, min(PROCS, len(cases)))
        import resource
        with multiprocessing.get_context('fork').Pool(n, initializer=_init, initargs=(f, setup)) as p:
            for case, nt, bad, err in p.imap(_work, cases, chunksize=max(1, min(2000, len(cases) // (n * 8) or 1))):
                if err:
                    raise RuntimeError(err)
                if isinstance(nt, str):
                    self.extra.setdefault('functions_not_found', {}).setdefault(nt[5:], 0)
                    self.extra['functions_not_found'][nt[5:]] += 1
                    continue
                # a batch reports how many cases it held and how many were non-trivial
                self.evals += nt[0] if isinstance(nt, tuple) else 1
                self.nontriv += nt[1] if isinstance(nt, tuple) else bool(nt)
                if bad is not None:
                    self.viols.append((case, bad))
                    p.terminate()
                    break
        self.fam[name] = self.fam.get(name, 0) + len(cases)
        for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
            self.samples.append(json.dumps(c))

    def finish(self):
        ev = {'property': self.id, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'exploration',
              'coverage': dict({'evaluations': self.evals, 'distinct_nontrivial': self.nontriv, 'rule': self.rule,
                                'exhaustive': not self.viols, 'cases_per_family': self.fam,
                                'samples': self.samples[:12]}, **self.extra),
              'assumptions': [self.assume], 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.viols)}
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, ensure_ascii=False)
            f.write('\n')
        known = known_findings(self.id)
        bad = []
        for c, m in self.viols:
            if json.dumps(c) in known:
                print('KNOWN-FINDING: property=%s %s' % (self.id, json.dumps(c)))
            else:
                bad.append((c, m))
        if bad:
            c, m = bad[0]
            rp = os.path.join(self.out, 'replay.txt')
            with open(rp, 'w') as f:
                f.write('property %s\ncase %s\nobserved %s\nreplay: python3 %s eval %s %r\n' % (
                    self.id, json.dumps(c), m, os.path.join(VERIF, 'gen', 'tcheck.py'), self.id, json.dumps(c)))
            print('case: %s' % json.dumps(c)[:400])
            print('observed: %s' % m[:600])
            print('VIOLATION property=%s replay=%s' % (self.id, rp))
            return 1
        print('OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
            self.id, self.tier, self.evals, self.nontriv, time.time() - self.t0))
        return 0


def rustc_run(src, what='the emitted text'):
    """compiles one file and runs it; what it prints. Broken when it does not compile."""
    import shutil, subprocess, tempfile
    d = tempfile.mkdtemp(prefix='tcheck')
    try:
        with open(os.path.join(d, 'm.rs'), 'w') as f:
            f.write(src)
        c = subprocess.run(['rustc', '--edition', '2021', '-Cdebuginfo=0', '-Ccodegen-units=4', '--cap-lints', 'warn', '-Aunused', '-Doverflowing_literals',
                            '-o', os.path.join(d, 'm'), os.path.join(d, 'm.rs')], capture_output=True, text=True, cwd=d)
        if c.returncode:
            e = [l for l in c.stderr.splitlines() if l.startswith('error')]
            i = c.stderr.find('\nerror') if not c.stderr.startswith('error') else 0
            if not e:
                raise RuntimeError(c.stderr[-2000:])
            raise Broken('%s does not compile: %s' % (what, c.stderr[max(i, 0):][:500]))
        p = subprocess.run([os.path.join(d, 'm')], capture_output=True, text=True, cwd=d, timeout=CASE_S)
        if p.returncode:
            raise Broken('%s, compiled: %s' % (what, p.stderr[-400:]))
        return p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(id):
    r = set()
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=%s case=(.*?)(;|$)' % id, l.strip())
            if m:
                r.add(m.group(1).strip())
    except FileNotFoundError:
        pass
    return r


_f = None


def _init(f, setup):
    global _f
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.stdout = io.StringIO()
    if setup:
        setup()
    _f = f


def _work(case):
    try:
        nt, bad = run_case(_f, case)
        return case, nt, bad, None
    except BaseException:
        return case, None, None, traceback.format_exc()


def parse_table(txt):
    """The two stages, index type, element type, block size and function of generated Rust text."""
    code = re.sub(r'//[^\n]*', '', txt)
    def array(tag):
        m = re.search(r'(?:const|static)\s+(\w*%s)\s*:\s*(.*?)\s*=\s*&?\s*\[' % tag, code, re.S)
        if not m:
            return None
        i, d = m.end(), 1
        while d:
            d += {'[': 1, ']': -1}.get(code[i], 0)
            i += 1
        return m.group(1), m.group(2), code[m.end():i - 1]
    s1, s2 = array('STAGE_1'), array('STAGE_2')
    fn = re.search(r'fn\s+(\w+)\s*\(\s*(\w+)\s*:\s*u32\s*\)\s*->\s*([\w:]+)\s*\{(.*?)\n\}', code, re.S)
    if not s1 or not s2 or not fn:
        return None
    new = re.search(r'TwoStageTable::new\(\s*&?\s*(\w+)\s*,\s*&?\s*(\w+)\s*,\s*(\w+)\s*,?\s*\)', fn.group(4))
    ty = re.search(r'TwoStageTable\s*<\s*([\w:]+)\s*,\s*(\w+)\s*>', fn.group(4))
    it = re.search(r'\[?\s*(u\d+|usize)', s1[1])
    ln = re.search(r';\s*(\d+)', s1[1])
    if not new or not it:
        return None
    r = Loaded()
    r.stage1 = [int(x, 0) for x in s1[2].replace('\n', ' ').split(',') if x.strip()]
    r.stage1_len = int(ln.group(1)) if ln else len(r.stage1)
    r.index_t = it.group(1)
    r.fn_index_t = ty.group(2) if ty else r.index_t
    r.elem, r.fn_elem, r.ret = re.sub(r'[^\w]', '', s2[1]), ty.group(1) if ty else None, fn.group(3)
    r.stage2 = [[x.strip() for x in b.split(',') if x.strip()] for b in re.findall(r'\[([^\[\]]*)\]', s2[2])]
    r.names = (s1[0], s2[0], new.group(1), new.group(2))
    r.block = int(new.group(3))
    r.fn = fn.group(1)
    r.use = sorted(re.findall(r'^\s*use\s+([\w:]+)\s*;', code, re.M))
    return r
