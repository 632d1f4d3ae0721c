"""T05: the data preparation writes every data file from its own source, whatever lay there before, whatever
earlier run was interrupted where, and takes its setting from .env or the environment."""
import itertools, json, os, shutil, signal, subprocess, sys, tempfile
from common import *

L = None
VERSION = '15.1.0'
# stand-in for the converter: prints the committed JSON of the source it is asked for. At call number
# FAULT_AT it prints a part only and then kills the whole run (or just fails).
TOOL_SH = '''#!/bin/sh
m=
s=
for a in "$@"; do
  case "$a" in
  --missing) m=.missing ;;
  *) s=$a ;;
  esac
done
echo "@ID@ $#$m $s" >> '@LOG@'
f='@SRC@'/${s%.txt}$m.json
case "$s" in *.txt) ;; *) f=/nonexistent ;; esac
if [ -n "$FAULT_AT" ] && [ "$(wc -l < '@LOG@')" = "$FAULT_AT" ]; then
  case "$FAULT_KIND" in
  none*) ;;
  half*) head -c "$(( $(wc -c < "$f") / 2 ))" "$f" ;;
  all*) cat "$f" ;;
  esac
  case "$FAULT_KIND" in
  *kill) kill -9 0 ;;
  esac
  exit 1
fi
if [ -f "$f" ]; then cat "$f"; else echo '{"nothing": "known of this source"}'; fi
@EXTRA@
'''
BASE = None
_w = None


def small(rel):
    """the content the stand-in gives for a data file: short, and different for every file"""
    return json.dumps({'file': rel, 'pad': 'x' * (200 + len(rel))}) + '\n'


def committed():
    d = os.path.join(TOOL, 'data', VERSION)
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs if f.endswith('.json'))


class W:
    """a scratch copy of the scripts with two stand-ins, one of which answers wrongly"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='w', dir=BASE)
        self.files = committed()
        self.pristine = os.path.join(self.d, 'pristine')
        shutil.copytree(TOOL, self.pristine, ignore=shutil.ignore_patterns('data', '__pycache__', '.env'))
        self.real = False
        self.src = os.path.join(self.d, 'src')
        self.log = os.path.join(self.d, 'log')
        for rel in self.files:
            p = os.path.join(self.src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(small(rel))
        self.tool('good', 'good', '')
        self.tool('bad', 'bad', 'echo wrong')
        # reached by a relative path, and through a name with a blank and a dollar sign
        self.tool('my tools $x', 'good', '')
        os.chmod(self.d, 0o755)

    def tool(self, name, id, extra):
        d = os.path.join(self.d, name)
        os.makedirs(d)
        p = os.path.join(d, 'ucd-json')
        t = TOOL_SH.replace('@ID@', id).replace('@LOG@', self.log).replace('@SRC@', self.src).replace('@EXTRA@', extra)
        open(p, 'w').write(t)
        os.chmod(p, 0o755)

    def fresh(self):
        self.n = getattr(self, 'n', 0) + 1
        t = os.path.join(self.d, 'run', 'tool')
        shutil.rmtree(os.path.join(self.d, 'run'), ignore_errors=True)
        shutil.copytree(self.pristine, t)
        os.makedirs(os.path.join(t, 'data', '15.0.0', 'emoji'))
        for p in ('data/README.md', 'data/15.0.0/Blocks.json', 'data/15.0.0/emoji/emoji-data.json', 'data/notes.txt'):
            open(os.path.join(t, p), 'w').write('as it was\n')
        return t

    def start(self, t, env, fault=None):
        """runs the script; (exit code, calls)"""
        open(self.log, 'w').close()
        os.chmod(self.log, 0o666)
        e = {'PATH': os.environ['PATH'], 'HOME': self.d, 'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8'}
        e.update(env)
        if fault:
            e['FAULT_AT'], e['FAULT_KIND'] = str(fault[0]), fault[1]
        # the scripts write and run shell commands: as a user who owns nothing but the scratch copy
        subprocess.run(['chown', '-R', '65534:65534', t])
        def drop():
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
        p = subprocess.Popen([sys.executable, '-B', 'gen-json-data.py'], cwd=t, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=drop)
        try:
            out = p.communicate(timeout=50)[0].decode('utf-8', 'replace')
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        return p.returncode, open(self.log).read().splitlines(), out


def tree(t):
    r = {}
    for p, ds, fs in os.walk(t):
        ds[:] = [d for d in ds if d != '__pycache__']
        for f in fs:
            q = os.path.join(p, f)
            r[os.path.relpath(q, t)] = open(q, 'rb').read()
    return r


def world():
    global _w
    if _w is None or not os.path.isdir(_w.d):
        _w = W()
    return _w


def calls_expected():
    return len(world().files)


def check_complete(w, t, before, who=None, log=()):
    after = tree(t)
    root = 'data/%s/' % VERSION
    for rel in w.files:
        got = after.get(root + rel)
        if got is None:
            raise Broken('%s is not written' % rel)
        if got != small(rel).encode():
            raise Broken('%s does not hold the conversion of its source: %r' % (rel, got[:80]))
    for k, v in before.items():
        if not k.startswith(root) and after.get(k) != v:
            raise Broken('%s is changed by the preparation' % k)
    for k in after:
        if not k.startswith(root) and k not in before:
            raise Broken('%s is written outside the data of the version' % k)
    if who and any(x.split()[0] != who for x in log):
        raise Broken('a converter other than the configured one is run')


ENV = {
    'good': 'UCD_JSON_DIR=@/good', 'bad': 'UCD_JSON_DIR=@/bad', 'offb': '#UCD_JSON_DIR=@/bad', 'note': '# note', 'other': 'OTHER_SETTING=x',
    'slash': 'UCD_JSON_DIR=@/good/', 'spaces': 'UCD_JSON_DIR= @/good \t', 'prefix': 'MY_UCD_JSON_DIR=@/bad', 'blank': '', 'equals': 'OPTIONS=a=b', 'odd': 'UCD_JSON_DIR=@/my tools $x',
}


def ev_env(case):
    """[kind, lines of .env or None, final newline, UCD_JSON_DIR of the environment or None]"""
    _, lines, nl, env = case
    w = world()
    t = w.fresh()
    if lines is not None:
        with open(os.path.join(t, '.env'), 'w') as f:
            f.write('\n'.join(ENV[l].replace('@', w.d) for l in lines) + ('\n' if nl and lines else ''))
    e = {'UCD_JSON_DIR': os.path.join(w.d, env)} if env else {}
    use = env
    for l in lines or []:
        use = {'good': 'good', 'bad': 'bad', 'slash': 'good', 'spaces': 'good', 'odd': 'good'}.get(l, use)
    before = tree(t)
    code, log, out = w.start(t, e)
    if use is None:
        if code == 0:
            raise Broken('without a setting the script reports success')
        if tree(t) != before or log:
            raise Broken('without a setting the script writes files')
    else:
        if code != 0:
            raise Broken('the script ends with %s: %s' % (code, out[-300:]))
        if any(x.split()[0] != use for x in log) or not log:
            raise Broken('the converter that runs is not the one of the last setting')
        if use == 'good':
            check_complete(w, t, before)
    return use is not None


def ev_state(case):
    """[kind, directories that exist, files that hold something else, what they hold]"""
    _, dirs, stale, what = case
    w = world()
    t = w.fresh()
    root = os.path.join(t, 'data', VERSION)
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for rel in stale:
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write({'empty': '', 'short': '{', 'long': 'y' * 100000, 'same': small(rel)}[what])
    before = tree(t)
    code, log, out = w.start(t, {'UCD_JSON_DIR': os.path.join(w.d, 'good')})
    if code != 0:
        raise Broken('the script ends with %s: %s' % (code, out[-300:]))
    check_complete(w, t, before, 'good', log)
    return True


def ev_crash(case):
    """[kind, [[call, fault], ...]]: runs that end at these calls, then one that does not"""
    w = world()
    t = w.fresh()
    before = tree(t)
    hit = 0
    e = {'UCD_JSON_DIR': os.path.join(w.d, 'good')}
    for at, kind in case[1]:
        code, log, out = w.start(t, e, (at, kind))
        hit += len(log) >= at
    code, log, out = w.start(t, e)
    if code != 0:
        raise Broken('after an interrupted run the script ends with %s: %s' % (code, out[-300:]))
    check_complete(w, t, before, 'good', log)
    return hit == len(case[1])


def prepare(case):
    """for a single replayed case"""
    import atexit
    global BASE
    BASE = tempfile.mkdtemp(prefix='t05')
    os.chmod(BASE, 0o755)
    atexit.register(shutil.rmtree, BASE, True)


def ev_real(case):
    """with the real data files behind the converter: what is written is what is committed"""
    w = world()
    t = w.fresh()
    d = os.path.join(TOOL, 'data', VERSION)
    real = os.path.join(w.d, 'real')
    os.makedirs(real, exist_ok=True)
    sh = TOOL_SH.replace('@ID@', 'good').replace('@LOG@', w.log).replace('@SRC@', d).replace('@EXTRA@', '')
    open(os.path.join(real, 'ucd-json'), 'w').write(sh)
    os.chmod(os.path.join(real, 'ucd-json'), 0o755)
    code, log, out = w.start(t, {'UCD_JSON_DIR': real})
    if code != 0:
        raise Broken('the script ends with %s: %s' % (code, out[-300:]))
    after = tree(t)
    for rel in w.files:
        if after.get('data/%s/%s' % (VERSION, rel)) != open(os.path.join(d, rel), 'rb').read():
            raise Broken('%s differs from the committed file' % rel)
    return True


def evaluate(case):
    return {'env': ev_env, 'state': ev_state, 'crash': ev_crash, 'real': ev_real}[case[0]](case)


def run(r, thorough):
    global BASE
    files = committed()
    n = len(files)
    BASE = tempfile.mkdtemp(prefix='t05')
    os.chmod(BASE, 0o755)
    try:
        envs = []
        for k in range(4 if thorough else 3):
            for ls in itertools.product(ENV, repeat=k):
                for nl in ((True, False) if k else (True,)):
                    for env in (None, 'good', 'bad'):
                        envs.append(['env', list(ls), nl, env])
        envs += [['env', None, True, e] for e in (None, 'good', 'bad')]
        sub = ['', 'emoji', 'extracted', 'auxiliary']
        states = [['state', [d for i, d in enumerate(sub) if m >> i & 1], [], 'empty'] for m in range(16)]
        for what in ('empty', 'short', 'long', 'same'):
            states += [['state', [], [f], what] for f in files] + [['state', sub, files, what]]
            if thorough:
                states += [['state', [], list(p), what] for p in itertools.combinations(files, 2)]
        kinds = [a + b for a in ('none', 'half', 'all') for b in ('kill', 'fail')]
        crash = [['crash', [[i, k]]] for i in range(1, n + 1) for k in kinds]
        two = [['crash', [[i, a], [j, b]]] for i in range(1, n + 1) for j in range(1, n + 1) for a, b in (('halfkill', 'halfkill'), ('allkill', 'nonekill'))]
        crash += two if thorough else two[::7]
        r.family('the committed data behind the converter', evaluate, [['real']])
        r.family('settings', evaluate, envs)
        r.family('states of the data directory', evaluate, states)
        r.family('interrupted runs, then a complete one', evaluate, crash)
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    r.extra = {'data_files': n}
    r.rule = ('The real gen-json-data.py in a scratch copy, as an unprivileged user, with a stand-in converter that prints a different text for every source. Settings: every '
              '.env of up to %d lines of 11 kinds (a directory with a blank and a dollar sign in its name among them), with and without a final newline, x three environments; states: every set of existing directories, every data file alone and '
              'all of them with other content of 4 kinds%s; crash points: the run killed, or the converter failing, at every one of the %d calls with nothing, half or all of '
              'the output written, then a complete run; sequences of two interrupted runs%s. After each run every committed data file of the version must hold the conversion of '
              'its own source and nothing else may have changed. Non-trivial: a setting is found, and every planned interruption happened.') % (
        3 if thorough else 2, ', every pair of files' if thorough else '', n, '' if thorough else ' (every seventh pair of points)')
    r.assume = 'The converter ucd-json itself is not available and replaced by a stand-in; the operating system creates files as the shell asks.'
