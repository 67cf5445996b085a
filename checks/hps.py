"""C01-C05, C28: the hierarchical Poincare-Steklov stages.
Specification: HPS.tla (what a solution is, in integers), HpsStages.tla (stage histories, provenance of everything stored),
HpsTrace.tla (validation of executions of the real stages), HpsCompare.tla (executions on different numbers of processes)."""
import heapq, itertools, json, random
from lib.common import *
from checks.la import line
from checks.tree import leaves, deep_tree, random_tree, cuts, parents, validate_mpi

ONE, ZERO = [0, 1, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1]
def const(c): return [0, c, 0, 0, 0, 1]
def scatter(rng, lo, m): return [2, lo, rng.randint(0, 6), rng.randint(1, 6), rng.choice([0, 0, 1, 2]), m]
def uniform(lev):
    B, row = set(), [()]
    for _ in range(lev):
        B |= set(row); row = [p + (k,) for p in row for k in range(4)]
    return B


# ------------------------------------------------------------------ pieces of scripts
class Prob:
    """one problem: mesh, coefficients; lines() creates it"""
    def __init__(self, rng, i, nx, B, np, coefs='var', lev=None, counts=None, box=None):
        self.i, self.nx, self.B, self.rng = i, nx, B, rng
        self.lev = lev if lev is not None else max((len(p) + 1 for p in B), default=0)
        n = len(leaves(B))
        self.counts = counts if counts is not None else (cuts(n, np, rng, 1)[0] if np > 1 else [n])
        self.x0, self.y0 = rng.randint(-3, 3), rng.randint(-3, 3)
        self.hx, self.hy = box or rng.choice([(1, 1), (1, 2), (2, 1)] if self.lev < 3 else [(1, 1)])
        self.coefs(coefs)
    def coefs(self, kind):
        r = self.rng
        if kind == 'one': self.al, self.be, self.la = ONE, ONE, ZERO
        elif kind == 'const': self.al, self.be, self.la = const(r.randint(1, 3)), const(r.randint(1, 3)), const(r.choice([0, 0, -1, -2]))
        elif kind == 'helm': self.al, self.be, self.la = const(r.randint(2, 3)), const(r.randint(1, 3)), const(1)
        else:
            self.al, self.be = scatter(r, 1, r.choice([2, 3])), scatter(r, 1, r.choice([2, 3]))
            self.la = r.choice([ZERO, const(-1), scatter(r, -2, 3)])
    def mesh(self): return line('mesh', [self.i, self.nx, self.x0, self.y0, self.hx, self.hy, self.lev], [self.counts] + [list(p) for p in parents(self.B)])
    def setcoefs(self): return [line('coef', [self.i, k], [f]) for k, f in enumerate((self.al, self.be, self.la))]
    def type(self, fish): return line('type', [self.i, 1 if fish else 0])
    def build(self): return line('build', [self.i])
    def up(self, f, mode=0): return line('up', [self.i, mode], [f])
    def rload(self): return self.rng.choice([scatter(self.rng, -3, 7), scatter(self.rng, -3, 7), const(self.rng.randint(-5, 5)), ZERO, [2, -4, 0, 1, 1, 9]])
    def rdata(self): return scatter(self.rng, -9, self.rng.choice([5, 11, 19])) if self.rng.random() > .1 else ZERO
    def direct(self): return line('solve', [self.i, 0], [self.rdata() for _ in range(4)])
    def nothing(self): return self.rng.choice([line('solve', [self.i, 0], [ZERO] * 4), self.dirichlet(ZERO)])
    def dirichlet(self, fn=None): return line('solve', [self.i, 1], [ONE] * 4 + [ZERO] * 4 + [fn or self.rdata() for _ in range(4)])
    def linear(self):
        """data of one linear function; returns the two ways of giving it"""
        r = self.rng
        f = [1, r.randint(-9, 9), r.randint(-2, 2), r.randint(-2, 2), 0, 1]
        return [line('solve', [self.i, 0], [f] * 4), self.dirichlet(f)]
    def robin(self, kinds=None):
        r = self.rng
        neg = self.la[0] == 0 and self.la[1] < 0
        ks = kinds or [r.choice('DNRM' if neg else 'DRRM') for _ in range(4)]
        if not neg and 'D' not in ks and 'R' not in ks: ks[r.randrange(4)] = 'R'
        if not neg: ks = [k for k in ks]
        A, Bb = [], []
        for s, k in enumerate(ks):
            sg = -1 if s in (0, 2) else 1           # the derivative is in the positive coordinate direction; outward is well posed
            bpos = lambda lo, hi: scatter(r, lo, hi - lo + 1) if sg > 0 else scatter(r, -hi, hi - lo + 1)
            if k == 'E': A.append(r.choice([const(2), const(-3), scatter(r, 2, 3)])); Bb.append(ZERO)   # Dirichlet data, given as a multiple
            elif k == 'D': A.append(r.choice([ONE, const(2), scatter(r, 1, 3)])); Bb.append(ZERO)
            elif k == 'N': A.append(ZERO); Bb.append(r.choice([const(sg), bpos(1, 3)]))
            elif k == 'R': A.append(scatter(r, 1, 3)); Bb.append(bpos(1, 3))
            else: A.append(scatter(r, 1, 2)); Bb.append(bpos(0, 2))            # changes between Dirichlet and Robin from face to face
        if r.random() < .3:                          # both coefficients may change sign together
            s = r.randrange(4); neg1 = lambda f: [f[0], -f[1], 0, 0, 0, 1] if f[0] == 0 else f
            if A[s][0] == 0 and Bb[s][0] == 0: A[s], Bb[s] = neg1(A[s]), neg1(Bb[s])
        return line('solve', [self.i, 1], A + Bb + [scatter(r, -5, 11) for _ in range(4)])

def opt(which, v): return line('opt', [which, 1 if v else 0])


# ------------------------------------------------------------------ running and validating
def units(rng, calls):
    """exponents of two for values and lengths (the stand-in for FISHPACK solves without a second-order coefficient: lengths stay)"""
    if rng.random() < .5: return 0, 0
    return rng.choice([-60, -40, -27, 30]), 0 if any(c.startswith('type') for c in calls) else rng.choice([0, -27, -10, 12])

def execute(ctx, drv, np, calls, tag, timeout=100, unit=None):
    unit = unit or units(random.Random(repr((SEED, calls))), calls)
    d = tempfile.mkdtemp(prefix='hps.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(drv, [d + '/script', d + '/log', *map(str, unit)], np=np, timeout=timeout)
    if unit != (0, 0): ctx.bump('runs_in_other_units')
    logs = [open('%s/log.%d' % (d, k)).read() if os.path.exists('%s/log.%d' % (d, k)) else '' for k in range(np)]
    if not r.ok or any('"ev":"done"' not in l for l in logs):
        if not mpi_works(np): raise CheckError('mpirun does not work here')
        n = max(sum('"ev":"call"' in x[:14] for x in l.splitlines()) for l in logs)
        threw = [x[:300] for l in logs for x in l.splitlines() if '"ev":"threw"' in x[:14]]
        ctx.fail('%s, %d processes: %s in call "%s" %s' % (tag, np, 'no progress (deadlock)' if r.timed_out else 'the program died (status %s)' % r.rc,
                 calls[n - 1][:300] if n else '?', threw[:1]), dict(processes=np, units=unit, script=calls[:n], stderr=r.err[-1500:], threw=threw))
    mpi = [open('%s/log.mpi.%d' % (d, k)).read() for k in range(np)]
    return logs, mpi

MEANING = dict(stopped='the call did not finish normally', mesh='the leaves are not those of the mesh, or not where they should be', points='a function was evaluated off the grid points',
               load='the load on the leaves is not the one given', size='solution or trace has the wrong size', range='solution too large or not a number',
               resolution='solution too large or not a number', leaf='a leaf violates its five-point equations', trace='traces at an interface do not describe one function',
               flux='normal derivatives at an interface do not match', boundary='a boundary condition does not hold', undivided='not the solution of the undivided grid',
               linear='a linear function is not reproduced')

def validate(ctx, np, logs, calls, tag):
    t = tlc('HpsTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nCONSTANTS P = %d\n' % np, workers=1, timeout=800, heap='3g',
            files={'log.%d' % k: l for k, l in enumerate(logs)})
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1])
        done = sum('"ev":"call"' in x[:14] for x in logs[0].splitlines()[:why['at']])
        ev = (logs[0].splitlines() + [''])[why['at']]
        if 'stopped' in why['wrong'] and '"ev":"call"' in ev[:14]: done += 1
        if 'script' in why['wrong']: raise CheckError('the generated script is not meaningful at call %d: %s' % (done, calls[done - 1]))
        pid = calls[done - 1].split()[2]
        rel = [c for c in calls[:done] if c.split()[0] == 'opt' or c.split()[2] == pid]
        last = max(i for i, c in enumerate(rel) if c.split()[0] in ('mesh', 'refine') or i == 0)
        ctx.fail('%s, %d processes, call "%s": %s' % (tag, np, calls[done - 1][:300], '; '.join(MEANING.get(w, w) for w in why['wrong'])),
                 dict(processes=np, units=units(random.Random(repr((SEED, calls))), calls), wrong=why['wrong'], script=calls[:done], problem=rel[last:]))
    ncalls = len(calls)
    if t.states != ncalls + 2: raise CheckError('the trace was not followed to its end (%d calls, %d states)' % (ncalls, t.states))

def campaign(ctx, jobs, mpi=False, workers=6, validate_logs=True):
    """jobs: (np, calls, tag)"""
    drv = build('drv_hps', flags=MEMORY)
    def one(job):
        np, calls, tag = job
        logs, m = execute(ctx, drv, np, calls, tag)
        if validate_logs: validate(ctx, np, logs, calls, tag)
        me = validate_mpi(ctx, np, m, calls, tag) if mpi and np > 1 else 0
        return me, job
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, j) for j in sorted(jobs, key=lambda j: -len(j[1]))]
        for f in futs:
            try: me, job = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            ops = [c.split()[0] for c in job[1]]
            ctx.traces += ops.count('solve')
            ctx.bump('solves_validated', ops.count('solve')); ctx.bump('builds', ops.count('build')); ctx.bump('upwards_passes', ops.count('up'))
            ctx.bump('meshes', ops.count('mesh') + ops.count('refine')); ctx.bump('runs_on_%d_processes' % job[0])
            if mpi: ctx.bump('mpi_operations', me)
    if jobs: ctx.sample(dict(processes=jobs[0][0], script=jobs[0][1][:8]))

ASSUME = ['values are compared as fixed-point numbers with at least 5 significant digits; floating-point rounding below that is not decided',
          'p4est 2.3.6 with a stand-in for p4est_search_reorder, and FISHPACK90 hstcrt with a dense direct solve of its documented equations (harness/shim.cpp)']

def adaptive_tree(rng, maxb, maxlev):
    for _ in range(100):
        B = random_tree(rng, maxb, maxlev)
        if B and len({len(l) for l in leaves(B)}) > 1: return B
    return {(), (1,)}


# ------------------------------------------------------------------ the checks
def c01(ctx):
    rng = random.Random(SEED * 1000 + 1); ctx.assumptions += ASSUME
    q = not THOROUGH
    jobs = []
    shapes = [(2, 1), (3, 1), (4, 1), (5, 1), (7, 1), (8, 1), (2, 2), (3, 2), (4, 2), (5, 2), (8, 2), (4, 3), (2, 3), (6, 0), (16, 1)]
    if not q: shapes = shapes * 6 + [(8, 3), (2, 4), (16, 2), (3, 3), (6, 2)] * 2
    for k, (nx, lev) in enumerate(shapes):
        np = 1 if lev == 0 else rng.choice([1, 1, 2, 3])
        calls = []
        for kind in ('var', 'var', 'const') if nx * 2 ** lev < 32 else ('var',):
            p = Prob(rng, rng.randrange(3), nx, uniform(lev), np, kind, box=(1, 1) if nx * 2 ** lev > 40 else None)
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload(), rng.randint(0, 1)), p.direct(), p.up(p.rload(), rng.randint(0, 1)), p.dirichlet()]
        if k % 4 == 0 and nx * 2 ** lev <= 16:
            p = Prob(rng, 3, nx, uniform(lev), np, 'const'); p.al = p.be = ONE
            calls += [p.mesh(), p.type(True), *p.setcoefs(), p.build(), p.up(p.rload()), p.direct(), p.dirichlet()]
            p = Prob(rng, 4, nx, uniform(lev), np, 'helm')
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload()), p.direct()]
        jobs.append((np, calls, 'uniform mesh, %d cells a side, level %d' % (nx, lev)))
    campaign(ctx, jobs)

def c02(ctx):
    rng = random.Random(SEED * 1000 + 2); ctx.assumptions += ASSUME
    q = not THOROUGH
    jobs = []
    small = [{(), (k,)} for k in range(4)] + [{(), (j,), (k,)} for j in range(4) for k in range(j)] + [{(), (0,), (1,), (2,), (3,), (k, j)} for k, j in ((0, 3), (3, 0), (1, 2))]
    # one child four times as coarse as its siblings (meshes need not be balanced)
    lone = [{()} | {b for b in uniform(3) if b and b[0] != k} for k in range(4)]
    trees = small + lone + [adaptive_tree(rng, 6, 3) for _ in range(42 if q else 240)]
    per = 3
    for k in range(0, len(trees), per):
        np = rng.choice([1, 1, 2, 3])
        calls = []
        for B in trees[k:k + per]:
            depth = max(len(l) for l in leaves(B))
            p = Prob(rng, rng.randrange(3), rng.choice([3, 4, 4, 5, 6, 8] if depth < 3 else [3, 4, 4]), B, np, 'var')
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload(), rng.randint(0, 1)), p.direct(), p.dirichlet()]
            p.coefs('const'); p.la = ZERO
            calls += [*p.setcoefs(), p.build(), p.up(ZERO), *p.linear()]
        jobs.append((np, calls, 'adaptive mesh'))
    # deep chains of branches, and one child eight times as coarse as its siblings
    deep = [(lev, rng.choice([3, 3, 4]), None) for lev in ((4, 4, 5, 5, 6, 7) if q else (4, 5, 6, 7, 8) * 8)]
    lone = rng.sample(range(4), 1 if q else 4); deep += [(4, 3, {()} | {b for b in uniform(4) if b and b[0] != k}) for k in lone]
    deep += [(5, 3, {()} | {b for b in deep_tree(rng, 5, 0)} | {(k,) for k in range(4)})]
    for lev, nx, B in deep:
        np = rng.choice([1, 1, 2, 3]); many = B is not None and len(B) > 20
        if B is None:
            B = deep_tree(rng, lev, 0)
            for _ in range(2): B.add(rng.choice([l for l in leaves(B) if len(l) < lev]))
        calls = []; tiny = lev > 5
        p = Prob(rng, rng.randrange(3), nx, B, np, 'const' if tiny else 'var', box=(1, 1))
        if tiny: p.la = ZERO                        # the specification's integers end at 2^31
        calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(ZERO if tiny else p.rload(), rng.randint(0, 1)), p.direct()] + ([] if many else [p.robin(), p.dirichlet()])
        if not many:
            p.coefs('const'); p.la = ZERO
            calls += [*p.setcoefs(), p.build(), p.up(ZERO), *p.linear()]
        jobs.append((np, calls, 'adaptive mesh of %d levels' % lev))
    campaign(ctx, jobs)

def c03(ctx):
    rng = random.Random(SEED * 1000 + 3); ctx.assumptions += ASSUME
    q = not THOROUGH
    jobs = []
    for k in range(24 if q else 160):
        np = rng.choice([1, 1, 2, 3]); calls = []
        for _ in range(3):
            B = rng.choice([set(), uniform(1), uniform(1), uniform(2), adaptive_tree(rng, 4, 3)])
            if len(leaves(B)) < np: B = uniform(1)
            p = Prob(rng, rng.randrange(3), rng.choice([3, 4, 4, 5, 6]), B, np, rng.choice(['var', 'const']))
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload())]
            calls += [p.robin() for _ in range(3)] + [p.direct(), p.robin(), p.robin(list('EEEE')), p.robin(rng.choice(['EDDD', 'DEED', 'ERER', 'RRRR', 'DDDR', 'EDEM']))]
            # pure Neumann data, and each side alone of another kind
            p.la = const(rng.choice([-1, -2]))
            calls += [*p.setcoefs(), p.build(), p.up(p.rload()), p.robin(list('NNNN')), p.robin([rng.choice('NR')] + list('NDN')), p.robin(['D', 'N', 'N', 'N'])]
        jobs.append((np, calls, 'mixed boundary conditions'))
    campaign(ctx, jobs)

def stage_histories(ctx, n):
    """all stage histories of the model up to length n; the model with the planted defects has to fail"""
    cfg = 'SPECIFICATION Spec\nINVARIANTS Latest Emit\nCONSTANTS MaxLen = %d Fixed = %s\n'
    t = tlc('HpsStages', cfg % (n, 'TRUE'), timeout=800, workers=1)
    if not t.ok: raise CheckError('the stage specification violates its own laws:\n' + t.out[-2000:])
    if tlc('HpsStages', cfg % (n, 'FALSE'), timeout=300, expect_fail=True, count=False, workers=1).ok: raise CheckError('the stage model does not notice planted errors')
    return sorted({tuple(json.loads(p)) for p in t.prints})

def cover(rng, hs, n):
    """histories that together contain, in order, every n events followed by a last solve that any of them contains"""
    hs = rng.sample(hs, len(hs))
    S = [{tuple(h[i] for i in I) + h[-1:] for I in itertools.combinations(range(len(h) - 1), n)} for h in hs]
    todo = set().union(*S); q = [(-len(x), i) for i, x in enumerate(S)]; heapq.heapify(q); out = []
    while todo:
        g, i = heapq.heappop(q); now = -len(S[i] & todo)
        if q and now > q[0][0]: heapq.heappush(q, (now, i)); continue
        todo -= S[i]; out.append(hs[i])
    return out

def play(rng, p, h):
    """the history h of the model as calls on problem p; the two sets of coefficients of p are p.sets"""
    out, which = [], 0
    for e in h:
        if e == 'build': out.append(p.build())
        elif e == 'coef':
            which = 1 - which; p.al, p.be, p.la = p.sets[which]; out += p.setcoefs()
        elif e.startswith('up'): out.append(p.up(ZERO if e == 'up0' else p.loads[int(e[2]) - 1], rng.randint(0, 1)))
        elif e == 'dirichlet': out.append(rng.choice([p.direct, p.dirichlet, p.direct, p.dirichlet, p.nothing])())
        elif e == 'robin': out.append(p.robin())
        else: out.append(opt(1, e == 'zero'))
    return out

def fresh(rng, i, nx, B, np, coefs='var'):
    p = Prob(rng, i, nx, B, np, coefs)
    p.sets = []
    for _ in range(2):
        p.coefs(coefs); p.sets.append((p.al, p.be, p.la))
    p.al, p.be, p.la = p.sets[0]
    p.loads = [scatter(rng, -3, 7), scatter(rng, 1, 5)]
    return p

def history_jobs(rng, hs, trees, procs, per, tag):
    jobs = []
    for k in range(0, len(hs), per):
        np = rng.choice(procs); calls = []
        for h in hs[k:k + per]:
            B = rng.choice(trees)
            if np == 1 and rng.random() < .15: B = set()
            p = fresh(rng, rng.randrange(3), 4, B, np, rng.choice(['var', 'const']))
            calls += [p.mesh(), *p.setcoefs(), *play(rng, p, h), opt(1, False)]
        jobs.append((np, calls, tag))
    return jobs

ADAPT = [{(), (1,)}, {(), (0,)}, {(), (3,)}, {(), (2,), (0,)}, {(), (1,), (2,), (1, 2)}]
def c04(ctx):
    rng = random.Random(SEED * 1000 + 4); ctx.assumptions += ASSUME
    q = not THOROUGH
    hs = [h for h in stage_histories(ctx, 6 if q else 7) if len(h) == (6 if q else 7) and not ('coef', 'coef') in list(zip(h, h[1:]))]
    ctx.bump('histories_of_the_model', len(hs))
    sel = cover(rng, hs, 3 if q else 4); ctx.bump('histories_replayed', len(sel))
    rng.shuffle(sel)
    jobs = history_jobs(rng, sel, ADAPT + [uniform(1)], (1, 1, 1, 2, 3), 20, 'stage history')
    # long histories over several problems that live at the same time, and meshes refined again in place
    for _ in range(6 if q else 40):
        np = rng.choice([1, 1, 2, 3]); calls = []; ps = {}
        for i in range(3):
            p = fresh(rng, i, 4, rng.choice(ADAPT + [uniform(1), uniform(2)]), np); ps[i] = p
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload(), rng.randint(0, 1))]
        for _ in range(25 if q else 60):
            p = ps[rng.randrange(3)]; k = rng.random()
            if k < .12: calls += [p.build(), p.up(p.rload(), rng.randint(0, 1))]
            elif k < .2: p.coefs('var'); calls += [*p.setcoefs(), p.build(), p.up(p.rload())]
            elif k < .25:
                p.B = rng.choice(ADAPT + [uniform(1)])
                p = ps[p.i] = fresh(rng, p.i, 4, rng.choice(ADAPT + [uniform(1), uniform(2)]), np)
                calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload())]
            elif k < .5: calls.append(p.up(p.rload(), rng.randint(0, 1)))
            else: calls.append(rng.choice([p.direct, p.dirichlet, p.robin, p.direct, p.dirichlet, p.robin, p.nothing])())
        jobs.append((np, calls, 'several problems at once'))
    for _ in range(3 if q else 20):
        jobs.append((rng.choice([1, 2, 3]), refine_again(rng), 'mesh refined again'))
    campaign(ctx, jobs)

def refine_again(rng):
    calls = []
    for r in range(3):
        lev = rng.choice([1, 2]); nx = 4; N = nx * 2 ** lev
        hot = [[rng.randrange(N), rng.randrange(N)] for _ in range(rng.randint(0, 3))]
        p = Prob(rng, 0, nx, set(), 1, 'var', lev=lev)
        calls += [line('refine', [0, nx, p.x0, p.y0, p.hx, p.hy, lev, 1, lev], hot), *p.setcoefs(), p.build(), p.up(p.rload()), p.direct(), p.robin(), p.up(p.rload()), p.dirichlet()]
    return calls

def c28(ctx):
    rng = random.Random(SEED * 1000 + 28); ctx.assumptions += ASSUME
    q = not THOROUGH
    jobs = []
    # stage histories with the load declared zero at some point, constant coefficients and cached operators
    hs = [h for h in stage_histories(ctx, 5 if q else 6) if 'zero' in h and 'coef' not in h or h.count('build') > 1 and 'coef' in h]
    hs = cover(rng, hs, 3 if q else 4); ctx.bump('histories_replayed', len(hs))
    for k in range(0, len(hs), 15):
        np = rng.choice([1, 1, 2, 3]); calls = []
        for h in hs[k:k + 15]:
            p = fresh(rng, rng.randrange(3), 4, rng.choice(ADAPT + [uniform(1), uniform(2), {()}]), np, 'const')
            calls += [opt(0, rng.random() < .7), p.mesh(), *p.setcoefs(), *play(rng, p, h), opt(1, False)]
        jobs.append((np, calls, 'work-saving options'))
    # cached operators on meshes with leaves of several sizes, several problems, coefficients changed between builds
    for _ in range(12 if q else 80):
        np = rng.choice([1, 2, 3]); calls = [opt(0, True)]
        for _ in range(4):
            p = Prob(rng, rng.randrange(2), rng.choice([3, 4, 5, 6, 8]), rng.choice([adaptive_tree(rng, 5, 3), uniform(2), uniform(1)]), np, 'const')
            calls += [p.mesh(), *p.setcoefs(), p.build(), p.up(p.rload()), p.direct(), p.robin()]
            p.coefs('const'); calls += [*p.setcoefs(), p.build(), p.up(p.rload()), p.dirichlet()]
            calls += [opt(1, True), p.robin(), p.direct(), opt(1, False), p.up(p.rload()), p.robin()]
        jobs.append((np, calls, 'cached operators'))
    for lev in (4, 5, 6, 7) if q else (4, 5, 6, 7, 8) * 4:         # many sizes of leaves and of branches at once
        np = rng.choice([1, 1, 2]); calls = [opt(0, True)]
        B = deep_tree(rng, lev, 0)
        for _ in range(2): B.add(rng.choice([l for l in leaves(B) if len(l) < lev]))
        p = Prob(rng, 0, 3, B, np, 'const'); calls.append(p.mesh())
        for call in ([p.direct, p.robin], [p.dirichlet]):
            p.coefs('const')
            if lev > 5: p.la = ZERO             # the specification's integers end at 2^31
            calls += [*p.setcoefs(), p.build(), p.up(p.rload() if lev < 6 else ZERO)] + [x() for x in call]
        jobs.append((np, calls, 'cached operators on %d levels' % lev))
    campaign(ctx, jobs)


def compare(ctx, np, one, logs, calls, tag):
    t = tlc('HpsCompare', 'SPECIFICATION Spec\nINVARIANT Agree\nCONSTANTS P = %d\n' % np, workers=1, timeout=800, heap='4g',
            files={'one.0': one, **{'log.%d' % k: l for k, l in enumerate(logs)}})
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('comparison failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1])
        done = sum('"ev":"call"' in x[:14] for x in logs[0].splitlines()[:why['at']])
        ctx.fail('%s, %d processes differ from one process after call "%s" in %s' % (tag, np, calls[done - 1][:300], why['wrong']),
                 dict(processes=np, script=calls[:done], wrong=why['wrong']))
    if t.states != len(one.splitlines()) + 1: raise CheckError('the comparison did not reach the end of the trace')

def c05_script(rng, np, B, nx, ncalls):
    """the same calls for one and np processes (only the distribution of the mesh differs)"""
    one, many = [], []
    n = len(leaves(B))
    p = fresh(rng, 0, nx, B, np, rng.choice(['var', 'var', 'const']))
    m = p.mesh(); p.counts = [n]; many.append(m); one.append(p.mesh())
    rest = [*p.setcoefs()]
    if rng.random() < .2: rest += [opt(0, p.al[0] == 0 and p.be[0] == 0 and p.la[0] == 0)]
    rest += [p.build(), line('ops', [0, 0]), p.up(p.rload(), rng.randint(0, 1)), line('ops', [0, 1]), p.direct()]
    for _ in range(ncalls):
        k = rng.random()
        if k < .15: rest += [p.build(), p.up(p.rload()), line('ops', [0, 1])]
        elif k < .4: rest += [p.up(p.rload(), rng.randint(0, 1)), line('ops', [0, 1])]
        else: rest.append(rng.choice([p.direct, p.dirichlet, p.robin, p.robin])())
    if rng.random() < .3: rest += [opt(1, True), p.robin(), p.direct(), opt(1, False)]
    rest.append(opt(0, False))
    return one + rest, many + rest

def c05(ctx):
    rng = random.Random(SEED * 1000 + 5); ctx.assumptions += ASSUME
    q = not THOROUGH
    drv = build('drv_hps', flags=MEMORY)
    plan = []
    for np in ((2, 2, 3, 3, 4, 4, 5, 7, 11) if q else (2, 3, 4, 5, 6, 7, 8, 11, 14) * 8):
        one, many = [], []
        for _ in range(3):
            B = rng.choice(ADAPT + [uniform(1), uniform(2), adaptive_tree(rng, 5, 3), adaptive_tree(rng, 5, 3), {()}])
            while len(leaves(B)) < np: B = adaptive_tree(rng, 5, 3)
            a, b = c05_script(rng, np, B, 4, 4)
            one += a; many += b
        plan.append((np, one, many))
    def go(j):
        np, one, many = j
        l1, _ = execute(ctx, drv, 1, one, 'process counts')
        lp, mpi = execute(ctx, drv, np, many, 'process counts')
        compare(ctx, np, l1[0], lp, many, 'process counts')
        validate(ctx, np, lp, many, 'process counts')
        return np, many
    with cf.ThreadPoolExecutor(5) as ex:
        futs = [ex.submit(go, j) for j in plan]
        for f in futs:
            try: np, many = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            ops = [c.split()[0] for c in many]
            ctx.traces += ops.count('solve'); ctx.bump('solves_compared', ops.count('solve')); ctx.bump('operator_dumps_compared', ops.count('ops')); ctx.bump('runs_on_%d_processes' % np)
    ctx.sample(dict(processes=plan[0][0], script=plan[0][2][:8]))
