"""Shared machinery of the checks: building and running the harness, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PGCST_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DATA = os.path.join(SPEC, 'data')
WORK = os.path.join(VERIF, '.work')
TLA = '/opt/veriftools/tla'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def cargo_env(extra=None):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    e.pop('CARGO_TARGET_DIR', None)
    e.pop('RUSTFLAGS', None)
    e.update(extra or {})
    return e


def sh(cmd, timeout, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors='replace', **kw)
    return p.returncode, p.stdout


VARIANTS = {'wasm': [], 'auto': [], 'default': ['remove-empty-node'], 'regex': ['remove-empty-node', 'regex-match'], 'full': []}


def build_harness(variant='default', crate=None, repo=None, tag=None):
    """Build the harness against the repository's working tree; returns (binary, hooked)."""
    crate = crate or os.path.join(VERIF, 'harness-wasm' if variant == 'wasm' else 'harness')
    repo, tag = repo or REPO, tag or 'main'
    src = os.path.join(WORK, 'harness-' + tag)
    os.makedirs(WORK, exist_ok=True)
    if repo != '/repo':
        # same harness, other tree
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(crate, src, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(src, 'Cargo.toml')
        s = open(p).read().replace('/repo/crates', repo + '/crates')
        open(p, 'w').write(s)
        crate = src
    lock = os.path.join(crate, 'Cargo.lock')
    target = os.path.join(WORK, 'target-%s-%s' % (tag, variant))
    last = ''
    # a tree whose changes do not compile with some of the hooks is observed without them
    for hooked, flags in ((True, '--cfg pgcst_verif --cfg pgcst_verif_scan'), (True, '--cfg pgcst_verif'), (False, '')):
        cmd = ['cargo', 'build', '--release', '--offline', '--target-dir', target]
        if VARIANTS[variant]:
            cmd += ['--features', ','.join(VARIANTS[variant])]
        rc, out = sh(cmd, 800, cwd=crate, env=cargo_env({'RUSTFLAGS': flags}))
        if rc == 0:
            binary = os.path.join(WORK, 'h-%s-%s' % (tag, variant))
            tmp = binary + '.%d' % os.getpid()
            shutil.copy2(os.path.join(target, 'release', 'pgcst-harness'), tmp)
            os.replace(tmp, binary)
            return binary, hooked
        last = out
    raise ToolError('cannot build the harness (%s):\n%s' % (variant, last[-3000:]))


def hexlines(inputs):
    return '\n'.join((x if isinstance(x, bytes) else x.encode()).hex() for x in inputs) + '\n'


def _harness_raw(binary, mode, text, args, timeout):
    try:
        p = subprocess.run([binary, mode] + list(args), input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    if p.returncode != 0:
        return None, 'exit %d' % p.returncode
    return p.stdout, None


def harness(binary, mode, inputs, args=(), timeout=120, lines=False):
    """Observations for the inputs, in order.  An input that makes the process die or hang is
    reported as {"r": "abort", "m": why}; isolated by bisection."""
    inputs = list(inputs)
    if not inputs:
        return []
    text = '\n'.join(inputs) + '\n' if lines else hexlines(inputs)
    out, why = _harness_raw(binary, mode, text, args, timeout)
    if out is not None:
        res = [json.loads(l) for l in out.splitlines()]
        if len(res) != len(inputs):
            raise ToolError('harness returned %d lines for %d inputs' % (len(res), len(inputs)))
        return res
    if len(inputs) == 1:
        return [{'r': 'abort', 'm': why}]
    h = len(inputs) // 2
    t = max(20, timeout // 2)
    return harness(binary, mode, inputs[:h], args, t, lines) + harness(binary, mode, inputs[h:], args, t, lines)


def kind_names(binary):
    out, why = _harness_raw(binary, 'kinds', '', [], 60)
    if out is None:
        raise ToolError('kinds: ' + why)
    return dict(json.loads(l) for l in out.splitlines())


STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left')


class TlcResult:
    def __init__(self):
        self.states = self.transitions = 0
        self.prints = []
        self.out = ''
        self.runs = 0
        self.violated = None

    def add(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.prints += o.prints
        self.runs += o.runs
        self.out += o.out
        self.violated = self.violated or o.violated


def parse_tla(s):
    """A TLA+ value printed by TLC, as Python data (tuples and sets become lists)."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace():
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith('<<', pos):
            pos += 2
            return seq('>>')
        if s[pos] == '{':
            pos += 1
            return seq('}')
        if s[pos] == '"':
            o = ''
            pos += 1
            while s[pos] != '"':
                if s[pos] == '\\':
                    pos += 1
                    o += {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(s[pos], s[pos])
                else:
                    o += s[pos]
                pos += 1
            pos += 1
            return o
        if s[pos] == '[':
            pos += 1
            d = {}
            ws()
            while s[pos] != ']':
                m = re.compile(r'\s*(\w+)\s*\|->').match(s, pos)
                pos = m.end()
                d[m.group(1)] = val()
                ws()
                if s[pos] == ',':
                    pos += 1
                ws()
            pos += 1
            return d
        m = re.compile(r'-?\d+\.\.-?\d+|-?\d+|TRUE|FALSE|\w+').match(s, pos)
        pos = m.end()
        w = m.group(0)
        if '..' in w:
            a, b = w.split('..')
            return list(range(int(a), int(b) + 1))
        return {'TRUE': True, 'FALSE': False}.get(w, int(w) if w.lstrip('-').isdigit() else w)

    def seq(end):
        nonlocal pos
        r = []
        ws()
        while not s.startswith(end, pos):
            r.append(val())
            ws()
            if s[pos] == ',':
                pos += 1
            ws()
        pos += len(end)
        return r
    return val()


def collect_prints(out):
    """Values printed with PrintT(<<"TAG", ...>>); may span several lines."""
    res = []
    lines = out.splitlines()
    i = 0
    while i < len(lines):
        if re.match(r'\s*<<\s*"[A-Z]+"', lines[i]):
            buf = lines[i]
            while buf.count('<<') > buf.count('>>') and i + 1 < len(lines):
                i += 1
                buf += '\n' + lines[i]
            try:
                res.append(parse_tla(buf))
            except Exception:
                res.append(['UNPARSED', buf])
        i += 1
    return res


def brief(out):
    ls = [l[:600] for l in out.splitlines() if not re.match(r'Parsing file|Semantic processing', l)]
    return '\n'.join(ls[:40] + ['...'] + ls[-10:] if len(ls) > 50 else ls)


def tlc(module, cfg=None, env=None, workers=1, heap='3g', timeout=800, extra=(), wd=None, expect_violation=False):
    cfg = cfg or module + '.cfg'
    tag = 'tlc-%d-%d' % (os.getpid(), threading.get_ident())
    meta = os.path.join(WORK, tag)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e['SPECDATA'] = DATA
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % (2 if workers == 1 else 4), '-Xss64m', '-Xmx' + heap,
           '-DTLA-Library=' + SPEC, '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=wd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    r.runs = 1
    for m in STAT.finditer(p.stdout):
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    r.prints = collect_prints(p.stdout)
    if 'is violated' in p.stdout or 'Deadlock reached' in p.stdout:
        r.violated = re.findall(r'Error: (.*)', p.stdout)[:1]
    if not expect_violation and (p.returncode != 0 or 'No error has been found' not in p.stdout):
        raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, brief(p.stdout)))
    return r


def tlc_shards(module, shards, name, workers=1, heap='3g', timeout=800, env=None, par=None, expect=False):
    """One TLC run per shard (each a Python value written as JSON); returns the merged result and,
    per shard, its prints."""
    d = os.path.join(WORK, 'shards-%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)

    def one(i):
        f = os.path.join(d, '%d.json' % i)
        with open(f, 'w') as h:
            json.dump(shards[i], h, separators=(',', ':'))
        ev = dict(env or {})
        ev['TRACE'] = f
        return tlc(module, env=ev, workers=workers, heap=heap, timeout=timeout, expect_violation=expect)
    try:
        with ThreadPoolExecutor(par or NCPU) as ex:
            rs = list(ex.map(one, range(len(shards))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    tot = TlcResult()
    for r in rs:
        tot.add(r)
    return tot, [r.prints for r in rs]


def split(items, n):
    """n interleaved shards with the original indexes."""
    n = max(1, min(n, len(items)))
    return [list(range(k, len(items), n)) for k in range(n)]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.level = 'model_checking'
        self.work = os.path.join(WORK, pid)
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.findings = load_findings(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def add_tlc(self, r, traces=0):
        self.states += r.states
        self.transitions += r.transitions
        self.traces += traces

    def sample(self, x, limit=8):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, desc, data=None, key=None):
        """Report a violation unless a listed finding matches it; `key` identifies the failing case."""
        for f in self.findings:
            if key is not None and re.fullmatch(f['match'], key, re.S):
                if f['id'] not in [k[0] for k in self.known]:
                    self.known.append((f['id'], f['what']))
                return
        n = len(self.violations)
        path = os.path.join(self.work, 'violation-%d.json' % n)
        if n < 20:
            with open(path, 'w') as h:
                json.dump({'property': self.pid, 'description': desc, 'data': data}, h, indent=1, default=repr)
        self.violations.append((desc, path))
        if n < 5:
            self.log('violation:', desc[:600])

    def finish(self):
        cov = dict(self.cov)
        if self.level == 'model_checking':
            cov.setdefault('states', self.states)
            cov.setdefault('transitions', self.transitions)
            cov.setdefault('traces_validated_against_impl', self.traces)
        cov.setdefault('samples', self.samples or ['none'])
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        # the listed findings the run met again
        for i, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for desc, path in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        self.log('done: %d violations' % len(self.violations), json.dumps({k: v for k, v in cov.items() if k != 'samples'})[:700])
        return 1 if self.violations else 0


def load_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid]
