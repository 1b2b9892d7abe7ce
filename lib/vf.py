"""Shared infrastructure of all checks: building, running monitored sessions, reporting."""
import atexit, hashlib, json, os, random, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
JOBS = 8
SEED = int(os.environ.get('VERIF_SEED', '1'))
RULES = 'rules'        # variant: simplification rules found at start
NORULES = 'norules'    # variant: no rules at start
EXIT_BUDGET = 97
EXIT_HARNESS = 98
# basic blocks; undisturbed sessions of the quick tier need less than 180 million
DEFAULT_BUDGET = 3_000_000_000 if '--thorough' in sys.argv else 800_000_000

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ building
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=isatty,--wrap=time,--wrap=rand,--wrap=random']


def repo_sources(with_main=True):
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.c'):
                p = os.path.join(d, f)
                if with_main or os.path.relpath(p, REPO) != 'src/client/main.c':
                    res.append(p)
    return sorted(res)


def repo_dirs():
    return sorted({d for d, _, _ in os.walk(os.path.join(REPO, 'src'))})


def tree_hash(extra):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            h.update(open(p, 'rb').read())
    for p in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        q = os.path.join(VERIF, 'harness', p)
        if os.path.isfile(q):
            h.update(p.encode() + b'\0' + open(q, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode != 0:
        raise HarnessError('command failed: %s\n%s' % (' '.join(cmd)[:600], r.stderr.decode(errors='replace')[-4000:]))


def build(name, harness, cflags, ldflags=(), defines=(), cc='gcc', harness_flags=None, with_main=True):
    """Compiles /repo's sources and harness files of /verif into an executable, cached by content."""
    key = tree_hash((name, harness, cflags, ldflags, defines, cc, harness_flags, with_main, REPO))
    out = os.path.join(BUILD, '%s-%s' % (name, key))
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    inc = ['-I' + REPO] + ['-I' + d for d in repo_dirs()]
    jobs, objs = [], []
    for i, s in enumerate(repo_sources(with_main)):
        o = os.path.join(tmp, '%d.o' % i)
        objs.append(o)
        jobs.append([cc, '-std=gnu99', '-g', '-w', *cflags, '-Dmain=ccalc_main', *defines, *inc, '-c', s, '-o', o])
    for i, s in enumerate(harness):
        o = os.path.join(tmp, 'h%d.o' % i)
        objs.append(o)
        hf = harness_flags if harness_flags is not None else cflags
        jobs.append([cc, '-std=gnu99', '-g', '-w', *hf, *inc, '-c', os.path.join(VERIF, 'harness', s), '-o', o])
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(_run, jobs))
        _run([cc, *cflags, *objs, '-o', os.path.join(tmp, name), *ldflags, '-lm'])
        for o in objs:
            os.remove(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small: drop other builds of this name
    for f in os.listdir(BUILD):
        if f.startswith(name + '-') and f != os.path.basename(out):
            p = os.path.join(BUILD, f)
            if time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
    return exe


def session_driver(variant):
    defs = ['-DINSTALL_PATH="%s"' % REPO] if variant == RULES else []
    return build('drv-' + variant, ['driver.c'],
                 ['-O1', *SAN, '-fsanitize-coverage=trace-pc'], WRAP, defs,
                 harness_flags=['-O1', '-fsanitize=address,undefined'])


def msan_driver(variant):
    """Same program under MemorySanitizer (reads of uninitialised memory)"""
    defs = ['-DINSTALL_PATH="%s"' % REPO] if variant == RULES else []
    return build('msan-' + variant, ['driver.c'],
                 ['-O1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-fsanitize-coverage=trace-pc'],
                 WRAP, defs, cc='clang', harness_flags=['-O1', '-fsanitize=memory'])


# ------------------------------------------------------------------ sessions
def b(x):
    return x if isinstance(x, bytes) else x.encode('latin-1')


class Session:
    """One run of the program. lines: input lines (newline appended unless raw)."""
    __slots__ = ('lines', 'args', 'tty', 'files', 'fail_at', 'time', 'budget', 'timeout', 'meta', 'raw', 'variant', 'rare')

    def __init__(self, lines=(), args=(), tty=0, files=None, fail_at=0, time=1, budget=DEFAULT_BUDGET, timeout=60,
                 meta=None, raw=False, variant=RULES, rare=0):
        self.lines = list(lines)
        self.args = list(args)
        self.tty = tty
        self.files = files or {}
        self.fail_at = fail_at
        self.time = time
        self.budget = budget
        self.timeout = timeout
        self.meta = meta
        self.raw = raw
        self.variant = variant
        self.rare = rare  # one random number in so many is an extreme one

    def line_bytes(self):
        return [b(l) if self.raw else b(l) + b'\n' for l in self.lines]

    def encode(self, cwd):
        out = [struct.pack('<IIQQQ', self.tty | self.rare << 8, self.timeout, self.budget, self.fail_at, self.time)]
        c = b(cwd)
        out.append(struct.pack('<I', len(c)) + c)
        out.append(struct.pack('<I', len(self.args)))
        for a in self.args:
            a = b(a)
            out.append(struct.pack('<I', len(a)) + a)
        ls = [l for l in self.line_bytes() if l]
        out.append(struct.pack('<I', len(ls)))
        for l in ls:
            out.append(struct.pack('<I', len(l)) + l)
        return b''.join(out)

    def to_json(self):
        d = lambda x: b(x).decode('latin-1')
        return {'lines': [d(l) for l in self.line_bytes()], 'args': [d(a) for a in self.args], 'tty': self.tty,
                'files': {k: d(v) for k, v in self.files.items()}, 'fail_at': self.fail_at, 'time': self.time,
                'budget': self.budget, 'variant': self.variant, 'rare': self.rare}

    @staticmethod
    def from_json(j):
        return Session([b(l) for l in j['lines']], j['args'], j['tty'], {k: b(v) for k, v in j['files'].items()},
                       j['fail_at'], j['time'], j['budget'], raw=True, variant=j['variant'], rare=j.get('rare', 0))


class Rec:
    __slots__ = ('out', 'err', 'live_blocks', 'live_bytes', 'steps', 'allocs')

    def __init__(self, t):
        self.out, self.err, self.live_blocks, self.live_bytes, self.steps, self.allocs = t


class Result:
    __slots__ = ('session', 'wait', 'finished', 'budget_hit', 'failed_allocs', 'final', 'recs', 'out', 'err')

    @property
    def exit_code(self):
        return os.WEXITSTATUS(self.wait) if os.WIFEXITED(self.wait) else None

    @property
    def signal(self):
        return os.WTERMSIG(self.wait) if os.WIFSIGNALED(self.wait) else None

    @property
    def timed_out(self):
        return self.signal == 14

    @property
    def clean(self):
        """Ended by itself with status 0 or 1"""
        return self.exit_code in (0, 1) and self.finished == 1

    def describe(self):
        if self.budget_hit:
            return 'did not end: more than %d execution steps or 600 MB of memory' % self.session.budget
        if self.signal is not None:
            return 'died from signal %d: %s' % (self.signal, sanitizer_summary(self.err))
        if self.exit_code not in (0, 1):
            return 'exit status %s: %s' % (self.exit_code, sanitizer_summary(self.err))
        return 'exit status %d' % self.exit_code

    def step(self, i):
        """(stdout, stderr) produced between reading line i and asking for the next one (or the end)"""
        if i >= len(self.recs):
            return None
        a = self.recs[i]
        z = self.recs[i + 1] if i + 1 < len(self.recs) else None
        if z is None:
            return self.out[a.out:], self.err[a.err:]
        return self.out[a.out:z.out], self.err[a.err:z.err]

    def startup(self):
        if not self.recs:
            return self.out, self.err
        return self.out[:self.recs[0].out], self.err[:self.recs[0].err]


def sanitizer_summary(err):
    t = err.decode('latin-1')
    for l in t.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'MemorySanitizer' in l:
            frames = [x.strip() for x in t.splitlines() if x.strip().startswith('#') and '/src/' in x][:3]
            return l.strip()[:200] + ' | ' + ' | '.join(f[:120] for f in frames)
    return t[-200:].replace('\n', ' / ')


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'MSAN_OPTIONS')}
    e['ASAN_OPTIONS'] = ('abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:'
                         'detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=5:'
                         'quarantine_size_mb=16:max_malloc_fill_size=4096')
    e['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=1'
    e['MSAN_OPTIONS'] = 'abort_on_error=1'
    e['LC_ALL'] = 'C.UTF-8'
    e['TERM'] = 'dumb'
    return e


ENV = _env()
COVERED = set()
CURRENT = None   # the check that is running
GIVE_UP = 7200 if '--thorough' in sys.argv else 200
STATS = {'sessions': 0, 'not_ended': 0, 'lines': 0, 'steps': 0, 'allocs': 0}
_counter = [0]


def _run_chunk(args):
    exe, chunk, idx, impatient = args
    base = os.path.join(scratch(), 'c%d' % idx)
    os.makedirs(base)
    blob = [struct.pack('<I', len(chunk) | impatient << 31)]
    for n, s in enumerate(chunk):
        cwd = base
        if s.files:
            cwd = os.path.join(base, str(n))
            os.makedirs(cwd)
            for k, v in s.files.items():
                if os.path.dirname(k):
                    os.makedirs(os.path.join(cwd, os.path.dirname(k)), exist_ok=True)
                with open(os.path.join(cwd, k), 'wb') as f:
                    f.write(b(v))
        blob.append(s.encode(cwd))
    batch, out, cov = (os.path.join(base, x) for x in ('batch.bin', 'out.bin', 'cov.bin'))
    with open(batch, 'wb') as f:
        f.write(b''.join(blob))
    r = subprocess.run([exe, batch, out, cov], cwd=base, env=ENV, stdin=subprocess.DEVNULL, capture_output=True)
    if r.returncode != 0:
        raise HarnessError('driver failed (%d): %s' % (r.returncode, r.stderr[-500:]))
    data = open(out, 'rb').read()
    covb = open(cov, 'rb').read()
    pos = 0
    res = []
    for s in chunk:
        x = Result()
        x.session = s
        x.wait, = struct.unpack_from('<I', data, pos)
        x.finished, x.budget_hit, x.failed_allocs = struct.unpack_from('<QQQ', data, pos + 4)
        pos += 28
        x.final = Rec(struct.unpack_from('<QQqqQQ', data, pos))
        pos += 48
        n, = struct.unpack_from('<Q', data, pos)
        pos += 8
        x.recs = [Rec(struct.unpack_from('<QQqqQQ', data, pos + 48 * i)) for i in range(n)]
        pos += 48 * n
        for attr in ('out', 'err'):
            n, = struct.unpack_from('<Q', data, pos)
            pos += 8
            setattr(x, attr, data[pos:pos + n])
            pos += n
        if x.exit_code == EXIT_HARNESS:
            raise HarnessError('session harness failure: %r' % x.err[-300:])
        res.append(x)
    shutil.rmtree(base, ignore_errors=True)
    return res, covb


class NeverEnds(Exception):
    """So many sessions did not end that the check cannot be completed in time; carries one of them"""
    def __init__(self, result):
        self.result = result


def run_sessions(sessions, driver=None, retry=True, stuck_ok=False):
    """Runs all sessions (in parallel), returns results in order.
    stuck_ok: sessions that do not come to an end are expected and left to the caller."""
    sessions = list(sessions)
    results = [None] * len(sessions)
    groups = {}
    for i, s in enumerate(sessions):
        groups.setdefault(s.variant, []).append(i)
    jobs = []
    for v, idx in groups.items():
        exe = (driver or session_driver)(v)
        per = max(1, min(60, (len(idx) + JOBS * 4 - 1) // (JOBS * 4)))
        for k in range(0, len(idx), per):
            _counter[0] += 1
            jobs.append((exe, idx[k:k + per], _counter[0]))
    stuck = []
    with ThreadPoolExecutor(JOBS) as ex:
        futures = {ex.submit(_run_chunk, (j[0], [sessions[i] for i in j[1]], j[2], int(not stuck_ok))): j for j in jobs}
        for f in as_completed(futures):
            rs, cov = f.result()
            for i, r in zip(futures[f][1], rs):
                results[i] = r
                if r.budget_hit or r.timed_out or r.signal == 25:
                    stuck.append(r)
            if driver is None:
                COVERED.update(i for i, x in enumerate(cov) if x)
            if len(stuck) >= 8 and not stuck_ok and CURRENT and time.time() - CURRENT.t0 > GIVE_UP:
                ex.shutdown(wait=False, cancel_futures=True)
                raise NeverEnds(min(stuck, key=lambda r: len(r.session.lines)))
    STATS['not_ended'] += len(stuck)
    again = [i for i, r in enumerate(results) if r.timed_out and retry]
    for i in again[:3]:  # once more, alone, with more time, before the result counts
        s = sessions[i]
        s.timeout *= 4
        _counter[0] += 1
        rs, _ = _run_chunk(((driver or session_driver)(s.variant), [s], _counter[0], 0))
        results[i] = rs[0]
    for r in results:
        STATS['sessions'] += 1
        STATS['lines'] += len(r.session.lines)
        STATS['steps'] += r.final.steps
        STATS['allocs'] += r.final.allocs
    return results


# ------------------------------------------------------------------ reporting
class Check:
    """Collects what one check observed and decides its verdict."""

    def __init__(self, prop, level='exploration', rule='', min_cases=1):
        self.prop = prop
        self.level = level
        self.rule = rule
        global CURRENT
        CURRENT = self
        self.t0 = time.time()
        self.tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.seed = SEED
        self.rng = random.Random('%s/%d/%s' % (prop, SEED, self.tier))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.counters = {}
        self.assumptions = []
        self.min_cases = min_cases
        self.known = load_known(prop)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def count(self, key, k=1):
        self.counters[key] = self.counters.get(key, 0) + k

    def case(self, key=None, sample=None):
        self.evaluations += 1
        if key is not None:
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 12 and self.rng.random() < 0.05 + 0.95 * (len(self.samples) < 2):
            self.samples.append(sample)

    def violation(self, what, key, session=None, extra=None):
        """key: identifies the failing input/call site/history; matched against known findings"""
        if 'not run after too many failures' in what:
            self.count('cases_not_run_after_too_many_failures')
            return
        for k in self.known:
            if k == key:
                self.known_hit[k] = what
                return
        if len(self.violations) >= 50:
            return
        self.violations.append((what, key, session, extra))

    def finish(self):
        for k, what in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what.replace('\n', ' ')[:300]))
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': [s if isinstance(s, (str, int, float, list, dict)) else repr(s) for s in self.samples] or ['-'],
        }
        if STATS['sessions']:
            cov['observed_sessions'] = STATS['sessions']
            cov['observed_input_lines'] = STATS['lines']
            cov['observed_steps'] = STATS['steps']
            cov['observed_allocations'] = STATS['allocs']
            cov['sessions_cut_off'] = STATS['not_ended']
            cov['covered_blocks'] = len(COVERED)
        for k, v in sorted(self.counters.items()):
            cov[k] = v
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            for i, (what, key, session, extra) in enumerate(self.violations):
                p = os.path.join('replay', '%s-%d.json' % (self.prop, i))
                with open(os.path.join(VERIF, p), 'w') as f:
                    json.dump({'property': self.prop, 'what': what, 'key': key, 'seed': self.seed,
                               'session': session.to_json() if isinstance(session, Session) else session,
                               'extra': extra}, f, indent=1, default=repr)
                if i < 10:
                    print('  %s' % what.replace('\n', '\\n')[:1000])
                    print('VIOLATION property=%s replay=%s' % (self.prop, p))
            sys.exit(1)
        if self.evaluations < self.min_cases or len(self.distinct) == 0:
            print('inconclusive: only %d cases observed' % self.evaluations)
            sys.exit(2)
        print('%s: held on %d cases (%d distinct), %.1f s' % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        sys.exit(0)


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e['property'] == prop:
                res.append(e['key'])
    return res


def main(fn):
    try:
        fn()
    except NeverEnds as e:
        CURRENT.violation('sessions do not end: ' + e.result.describe(), 'never ends', e.result.session)
        CURRENT.finish()
    except HarnessError as e:
        print('harness error: %s' % e)
        sys.exit(2)
