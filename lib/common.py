"""Shared machinery of the checks: build harness drivers from /repo, run TLC, run drivers, report."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 8)

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0'
MEMORY = ('-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS')     # touching memory that holds no value ends the program
ENV.update(CC='gcc', CXX='g++', OMPI_CC='gcc', OMPI_CXX='g++', OMPI_ALLOW_RUN_AS_ROOT='1',
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_plm_rsh_agent='/bin/false',
           OMPI_MCA_btl_vader_single_copy_mechanism='none', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1', LC_ALL='C')


class CheckError(Exception):
    """The machinery could not decide (an error exit, never a violation)."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def log(*a):
    print('#', *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, 'build', 'scratch')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run.', dir=base)
    return _scratch

def cleanup():
    if _scratch and os.path.isdir(_scratch) and not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(_scratch, ignore_errors=True)


# ---------------------------------------------------------------- build
CXXFLAGS = ['-std=gnu++20', '-O1', '-DNDEBUG', '-DUSE_PETSC', '-fpermissive', '-w', '-include', 'functional',
            '-include', os.path.join(VERIF, 'harness', 'shim.hpp'),
            '-I' + SRC, '-I' + os.path.join(VERIF, 'harness'), '-I/usr/lib/petsc/include', '-I/usr/include']
LDFLAGS = ['-L/usr/lib/petsc/lib', '-Wl,-rpath,/usr/lib/petsc/lib', '-lpetsc', '-lp4est', '-lsc', '-lz', '-llapack', '-lblas']

def _hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def src_hash():
    fs = [os.path.join(d, f) for d, _, ff in os.walk(SRC) for f in ff if f.endswith(('.hpp', '.cpp', '.h', '.c'))]
    return _hash_files(fs + [os.path.join(VERIF, 'harness', 'shim.hpp')], ' '.join(CXXFLAGS))

def _compile(src, obj, extra=()):
    tmp = '%s.tmp%d' % (obj, os.getpid())
    cmd = ['mpicxx', *CXXFLAGS, *extra, '-c', src, '-o', tmp]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('compilation of %s failed:\n%s' % (src, r.stderr[-4000:]))
    os.rename(tmp, obj)

import threading
_build_lock = threading.Lock()

def build(driver, extra_sources=(), flags=()):
    with _build_lock:
        return _build(driver, extra_sources, tuple(flags))

def _build(driver, extra_sources, flags):
    """Compile /repo/src and the driver (harness/<driver>.cpp); returns the executable. Cached by content only."""
    t0 = time.time()
    d = os.path.join(BUILD, 'lib-' + src_hash() + ('-' + hashlib.sha256(' '.join(flags).encode()).hexdigest()[:8] if flags else ''))
    os.makedirs(d, exist_ok=True)
    jobs = []
    objs = []
    for s in sorted(glob.glob(SRC + '/**/*.cpp', recursive=True)):
        o = os.path.join(d, os.path.relpath(s, SRC).replace('/', '_') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))
    hs = [os.path.join(VERIF, 'harness', driver + '.cpp'), os.path.join(VERIF, 'harness', 'shim.cpp')] + \
         [os.path.join(VERIF, 'harness', e) for e in extra_sources]
    hh = _hash_files(hs + glob.glob(os.path.join(VERIF, 'harness', '*.hpp')))
    dobjs = []
    for s in hs:
        o = os.path.join(d, 'h-%s-%s.o' % (os.path.basename(s), hh))
        dobjs.append(o)
        if not os.path.exists(o):
            jobs.insert(0, (s, o, flags))
    exe = os.path.join(d, 'drv-%s-%s' % (driver, hh))
    if not os.path.exists(exe):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(_compile, *j) for j in jobs]:
                f.result()
        tmp = '%s.tmp%d' % (exe, os.getpid())
        r = subprocess.run(['mpicxx', *flags, *dobjs, *objs, *LDFLAGS, '-o', tmp], env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('link of %s failed:\n%s' % (driver, r.stderr[-4000:]))
        os.rename(tmp, exe)
    log('build %s: %.1fs' % (driver, time.time() - t0))
    return exe


# ---------------------------------------------------------------- running drivers
class Run:
    def __init__(self, rc, out, err, timed_out): self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out
    @property
    def ok(self): return self.rc == 0 and not self.timed_out

# what mpirun says when it, not the program, failed to start (never printed by the code under test)
LAUNCH = re.compile(r'ORTE_ERROR_LOG|PMIX ERROR|orte_init|orte_session_dir|opal_init|ompi_mpi_init: |unable to launch|not able to launch|No such file or directory.*(ompi|pmix)')

_hangs = []
def run(exe, args=(), np=1, timeout=120, cwd=None, stdin=None, env=None):
    """Run a driver (under mpirun when np > 1); a launch that failed before the program ran is repeated,
    and so is (once) a run that did not end in time or was killed from outside: only what repeats is an observation."""
    again = not _hangs
    if THOROUGH: timeout *= 4
    for attempt in range(3):
        r = _run(exe, args, np, timeout, cwd, stdin, env or {})
        if again and (r.timed_out or r.rc in (-9, 137)):
            again = False; log('%s after %ss: repeated' % ('no end' if r.timed_out else 'killed', timeout)); continue
        if r.timed_out: _hangs.append(1)
        if r.rc == 0 or r.timed_out or not LAUNCH.search(r.err): return r
        log('launch failed (attempt %d): %s' % (attempt + 1, r.err[-300:].replace('\n', ' | '))); time.sleep(.5 + attempt)
    return r

def _run(exe, args, np, timeout, cwd, stdin, extra_env):
    """In its own process group, which is killed on timeout, and with its own session directory (concurrent mpiruns remove a shared one from under each other)."""
    cmd = [exe, *map(str, args)]
    sess = tempfile.mkdtemp(prefix='v', dir='/tmp')
    env = dict(ENV, OMPI_MCA_orte_tmpdir_base=sess, TMPDIR=sess, **extra_env)
    if np > 1:
        cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(np), *cmd]
    try:
        p = subprocess.Popen(cmd, env=env, cwd=cwd or scratch(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, text=True,
                             errors='replace', start_new_session=True)
        to = False
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try: os.killpg(p.pid, signal.SIGTERM)
            except ProcessLookupError: pass
            try:
                out, err = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                out, err = p.communicate()
        return Run(p.returncode, out, err, to)
    finally:
        shutil.rmtree(sess, ignore_errors=True)

_mpi_ok = {}
def mpi_works(np):
    """Can this sandbox run np processes at all? (decides between an error of the machinery and of the code)"""
    if np not in _mpi_ok:
        r = subprocess.run(['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(np), '/bin/true'], env=ENV,
                           capture_output=True, text=True, timeout=60)
        _mpi_ok[np] = r.returncode == 0
        if r.returncode: log('mpirun broken:', r.stderr[-500:])
    return _mpi_ok[np]


# ---------------------------------------------------------------- TLC
class Tlc:
    states = transitions = 0
    def __init__(self): self.states = self.transitions = 0; self.out = ''; self.ok = False; self.prints = []

TOT = dict(states=0, transitions=0)

def tlc(module, cfg, workers=None, simulate=None, depth=None, timeout=600, consts=None, heap='4g', seed=None,
        files=None, deadlock=False, extra=(), props=None, count=True, dfid=None, expect_fail=False, java=()):
    """Run TLC on spec/<module>.tla with configuration text cfg, in a scratch copy of the spec directory.
    Returns a Tlc with .ok, .states (distinct), .transitions (generated), .prints (PrintT lines)."""
    d = tempfile.mkdtemp(prefix='tlc.', dir=scratch())
    for f in glob.glob(SPEC + '/*.tla'):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    for name, content in (files or {}).items():
        with open(os.path.join(d, name), 'w') as fh: fh.write(content)
    with open(os.path.join(d, module + '.cfg'), 'w') as fh: fh.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', *['-D' + x for x in java], '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
           '-config', module + '.cfg', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers or NCPU), '-noGenerateSpecTE']
    if not deadlock: cmd += ['-deadlock']
    if simulate: cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100)]
    if simulate: cmd += ['-seed', str(SEED if seed is None else seed)]
    cmd += list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=ENV)
        out = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        raise CheckError('TLC timed out on %s after %ss' % (module, timeout))
    res = Tlc(); res.out = out; res.rc = rc; res.dir = d; res.wall = time.time() - t0
    m = re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct states found', out)
    if m:
        res.transitions, res.states = int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))
    m = re.search(r'The number of states generated: ([\d,]+)', out)
    if m and not res.states:
        res.transitions = res.states = int(m.group(1).replace(',', ''))
    res.ok = rc == 0
    res.violation = bool(re.search(r'Invariant .* is violated|is violated|Deadlock reached|Temporal properties were violated|evaluated to FALSE|was violated', out))
    for line in out.splitlines():
        if line.startswith('"@'):
            try: res.prints.append(json.loads(line)[1:])
            except ValueError: raise CheckError('unparsable TLC output line: ' + line[:300])
    if count:
        TOT['states'] += res.states; TOT['transitions'] += res.transitions
    if not res.ok and not res.violation:
        raise CheckError('TLC failed on %s (rc %s):\n%s' % (module, rc, out[-3500:]))
    if not res.ok and not expect_fail and count is True:
        pass
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    return res


# ---------------------------------------------------------------- values
def fmt(x):
    """canonical rendering of an observation"""
    return json.dumps(x, separators=(',', ':'), sort_keys=True)


# ---------------------------------------------------------------- main
def known_findings():
    res = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res

def replay_path(pid, name, content):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, name))
    with open(p, 'w') as fh:
        if isinstance(content, str): fh.write(content)
        else: json.dump(content, fh, indent=1)
    return p

def main(pid, fn, level='model_checking', assumptions=()):
    """fn(ctx) -> coverage dict; raises Violation."""
    t0 = time.time()
    cov = {}
    ctx = Ctx(pid)
    rc = 0
    viol = 0
    try:
        try:
            cov = fn(ctx) or {}
            if ctx.violations:
                raise ctx.violations[0]
        except Violation as v:
            viol = max(1, len(ctx.violations))
            path = replay_path(pid, 'violation', dict(property=pid, what=v.msg, replay=v.replay,
                                                      rerun='cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s' % (VERIF, SEED, TIER, pid)))
            print('violation: %s' % v.msg[:2000])
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            rc = 1
        except CheckError as e:
            print('ERROR of the check %s: %s' % (pid, e), file=sys.stderr, flush=True)
            rc = 2
        except subprocess.TimeoutExpired as e:
            print('ERROR of the check %s: %s' % (pid, e), file=sys.stderr, flush=True)
            rc = 2
        except Exception:
            print('ERROR of the check %s: %s' % (pid, traceback.format_exc()), file=sys.stderr, flush=True)
            rc = 2
        for k, what in ctx.known_hit.items():
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        if rc != 2:
            c = dict(states=TOT['states'], transitions=TOT['transitions'], traces_validated_against_impl=ctx.traces, samples=ctx.samples[:3])
            c.update(ctx.extra); c.update(cov)
            ev = dict(property=pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=level, coverage=c,
                      assumptions=list(assumptions) + ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
                json.dump(ev, fh, indent=1)
    finally:
        cleanup()
    log('%s %s: rc=%d %.1fs' % (pid, TIER, rc, time.time() - t0))
    sys.exit(rc)


class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.traces = 0; self.samples = []; self.extra = {}; self.assumptions = []
        self.known = known_findings().get(pid, {}); self.known_hit = {}; self.violations = []
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s)
    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n
    def fail(self, msg, replay, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]; return
        raise Violation(msg, replay)
