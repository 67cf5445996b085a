"""C30: repeated work does not use up memory, communicators or files.
Model: Keep.tla (work done round after round, things made once, temporary, replaced; when observations say that something is kept).
Binding: scripts of the model (with the works refined to calls of the code) and random ones are done again and again by the real code on
1 to 4 processes; what every process holds after each round is judged by KeepTrace."""
import json, random
from lib.common import *

WARM, WIDTH, COUNT = 8, 6, 5
ENVV = dict(GLIBC_TUNABLES='glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0')    # no freed memory that counts as held

def line(op, a=(), L=()): return ' '.join(map(str, [op, len(a), *a, len(L)] + [x for l in L for x in [len(l), *l]]))

# the works that need no mesh
ALONE = [[line('option', [0, 1]), line('option', [0, 0])], [line('opts', [1])], [line('timer')], [line('cache', [1])], [line('xml')], [line('interp')], [line('vec')], [line('mat')],
         *[[line('leaf', [k, n])] for k in (0, 1) for n in (4, 12)], *[[line('pass', [k, n])] for k in range(8) for n in ((20, 700) if k < 5 else (20,))], *[[line('group', [k])] for k in (0, 1)],
         *[[line('object', [k, n])] for k in range(4) for n in (12, 2)]]
# the ways the works of the model are done
WAYS = dict(build=[[line('build', [0])]], up=[[line('up', [0, k])] for k in (0, 1)], solve=[[line('solve', [0, k])] for k in (0, 1, 2)],
            refine=[[line('refine', [0, k])] for k in (0, 1)],
            walk=[[line('walk', [0, k])] for k in range(6)] + [[line('iterate', [0])], [line('vtk', [0, 3])], [line('fn', [0]), line('clear', [0])], [line('own', [0]), line('clear', [0])],
                  [line('fn', [0]), line('fn', [0]), line('vtk', [0, 4]), line('clear', [0])], [line('family', [0])]],
            first=[[line('setup', [0])], [line('timer')], [line('opts', [2])]])
WAYS['pass'] = ALONE

def model(ctx):
    cfg = 'SPECIFICATION Spec\nINVARIANTS Decided %s\nCONSTANTS MaxLen = %d Warm = 1 Width = 2 Count = %d Defect = "%s"\n'
    n = 3 if THOROUGH else 2
    for d in ('none', 'temporary', 'replaced', 'lazy'):
        t = tlc('Keep', cfg % ('Bounded' if d == 'none' else '', n, 3, d), timeout=900)
        if not t.ok: raise CheckError('the specification of repeated work fails (%s):\n%s' % (d, t.out[-2500:]))
        ctx.bump('model_states', t.states)
    for d in ('temporary', 'replaced', 'lazy'):
        if tlc('Keep', cfg % ('Bounded', 2, 3, d), timeout=300, expect_fail=True, count=False).ok: raise CheckError('the model does not notice the planted defect "%s"' % d)
        ctx.bump('planted_defects_found')
    t = tlc('Keep', 'INIT Init\nNEXT Look\nINVARIANT Emit\nCONSTANTS MaxLen = %d Warm = 1 Width = 1 Count = 1 Defect = "none"\n' % n, workers=1, timeout=300)
    if not t.ok: raise CheckError('no scripts from the model:\n' + t.out[-2500:])
    return sorted({tuple(json.loads(p)) for p in t.prints})

def the_mesh(rng, np):
    """a mesh with at least as many patches as processes, evenly spread or not"""
    kind = rng.choice([1, 1, 2, 3] + ([0] if np == 1 else [])); n = [1, 4, 16, 10][kind]
    counts = []
    if kind < 3 and np > 1 and rng.random() < .5:
        cut = sorted(rng.sample(range(1, n), np - 1)); counts = [b - a for a, b in zip([0] + cut, cut + [n])]
    return line('mesh', [0, rng.choice([4, 4, 4, 6, 10]), kind], [counts])

def a_script(rng, np, works):
    before = [line('option', [0, int(rng.random() < .3)]), line('option', [1, int(rng.random() < .2)]), the_mesh(rng, np)]
    start = ['build', 'up']
    before += [c for w in start for c in rng.choice(WAYS[w])]
    calls = [c for w in works for c in rng.choice(WAYS[w])]
    return before, calls

def play(job, rounds):
    np, before, calls = job
    d = tempfile.mkdtemp(prefix='keep.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join([*before, line('loop', [rounds]), *calls]) + '\n')
    os.mkdir(d + '/dir')
    r = run(build('drv_keep'), [d + '/script', d + '/log', d + '/dir'], np=np, timeout=90, env=ENVV)
    logs = [open('%s/log.%d' % (d, k)).read().splitlines() if os.path.exists('%s/log.%d' % (d, k)) else [] for k in range(np)]
    shutil.rmtree(d, ignore_errors=True)
    return r, logs

def observe(ctx, job, rounds):
    r, logs = play(job, rounds); np, before, calls = job
    rep = dict(processes=np, before=before, calls=calls, rounds=rounds, stderr=r.err[-1500:])
    if not r.ok or any(not l or l[-1] != '[]' for l in logs):
        if not mpi_works(np): raise CheckError('mpirun does not work here')
        said = [l[-1] for l in logs if l and l[-1].startswith('"')]
        ctx.fail('%d processes, %s again and again: %s' % (np, ', '.join(calls), 'no progress' if r.timed_out else 'the work fails (status %s) %s' % (r.rc, said)), rep)
    o = []
    for l in logs:
        v = [json.loads(x) for x in l[:-1]]; o.append(dict(bytes=[x[0] for x in v], comms=[x[1] for x in v], files=[x[2] for x in v]))
    names = lambda q: [c.split()[0] for c in q]
    return dict(before=names(before), calls=names(calls), rounds=rounds, o=o), rep

def judge(entries):
    t = tlc('KeepTrace', 'SPECIFICATION Spec\nINVARIANT Report\nCONSTANTS Warm = %d Width = %d\n' % (WARM, WIDTH), workers=1, timeout=600,
            files=dict(log=''.join(json.dumps(e) + '\n' for e in entries)))
    if not t.ok or len(t.prints) != 1: raise CheckError('KeepTrace:\n' + t.out[-2500:])
    res = json.loads(t.prints[0])
    if res['at'] != len(entries): raise CheckError('KeepTrace did not read everything')
    return res['found']

def c30(ctx):
    rng = random.Random(SEED * 1000 + 30); q = not THOROUGH
    ctx.assumptions += ['What a process holds is what malloc has handed out (with its caches of freed memory off), the communicators made and not freed (counted at the MPI interface) and the open '
                        'descriptors. Something is kept in every round if the least that is held in a window of %d rounds rises in each of %d windows; what is kept only now and then is not reported.' % (WIDTH, COUNT)]
    scripts = model(ctx); ctx.bump('scripts_of_the_model', len(scripts))
    jobs = []
    for i, w in enumerate(ALONE):
        for np in ((1, 2 + i % 3) if q else (1, 2, 3, 4)): jobs.append((np, [], w))
    for w, ways in WAYS.items():                 # every way of every work, on one and on several processes
        if w == 'pass': continue
        for way in ways:
            for np in ((1, rng.choice([2, 3, 4])) if q else (1, 2, 3, 4)):
                b, _ = a_script(rng, np, [])
                extra = dict(up=[line('build', [0])], solve=[]).get(w, []) if rng.random() < .5 else []
                jobs.append((np, b, extra + way))
    for s in scripts:
        if len(s) < 2 and q: continue
        for np in (rng.choice([1, 2, 3, 4]),) if q else (1, 2, 3, 4):
            jobs.append((np, *a_script(rng, np, s)))
    for _ in range(15 if q else 200):            # long ones
        s = [rng.choice(list(WAYS))]; st = 0
        s = []
        while len(s) < rng.randint(4, 10): s += rng.choice([('walk',), ('pass',), ('first',), ('refine', 'build', 'up'), ('build', 'up', 'solve'), ('up', 'solve')])
        s = [*s, 'build', 'up', 'solve']
        jobs.append((n := rng.choice([1, 2, 3, 4]), *a_script(rng, n, s if s[0] != 'solve' else ['up'] + s)))
    rounds = WARM + WIDTH * COUNT
    build('drv_keep')
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(observe, ctx, j, rounds) for j in jobs]
        got = []
        for f in futs:
            try: got.append(f.result())
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
    found = judge([g[0] for g in got])
    if any(f[1] in ('script', 'rounds') for f in found): raise CheckError('scripts that mean nothing or were not observed: %s' % [(got[f[0] - 1][1]['before'], got[f[0] - 1][1]['calls']) for f in found if f[1] in ('script', 'rounds')][:3])
    for k in sorted({f[0] for f in found}):      # only what repeats, over more rounds, is reported
        again, rep = observe(ctx, jobs[k - 1], WARM + 2 * COUNT * WIDTH)
        f2 = judge([again]); both = sorted({(f[1], f[2]) for f in found if f[0] == k} & {(f[1], f[2]) for f in f2})
        ctx.bump('repeated')
        if both:
            what = ', '.join('%s on process %d' % (w, p - 1) for w, p in both)
            ctx.fail('%d processes, %s again and again: every round keeps more %s' % (jobs[k - 1][0], ', '.join(jobs[k - 1][2]), what), dict(rep, observed=again['o']))
    ctx.traces += len(jobs); ctx.bump('rounds_observed', sum(len(g[0]['o']) * g[0]['rounds'] for g in got))
    ctx.sample(dict(processes=jobs[-1][0], before=jobs[-1][1], calls=jobs[-1][2]))
    return dict(runs=len(jobs), rounds_per_run=rounds)
