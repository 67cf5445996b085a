"""C29: trees, meshes and solves on communicators of their own.
Model: TeamProto.tla (all ways of forming teams, all interleavings).  Binding: every team's run is a behaviour of TreeTrace, HpsTrace or
MeshTrace with the team's processes, and the operations posted by all processes of the program together are accepted by CollTrace."""
import json, random
from lib.common import *
from checks import tree, hps, mesh
from checks.la import line

def model(ctx):
    cfg = 'SPECIFICATION Spec\nINVARIANTS Apart Alone\nCONSTANTS World = %d MaxBranches = %d MaxTeams = %d Defect = "%s"\n'
    for w, b, m in ((3, 1, 3), (4, 1, 2)) + (((3, 2, 2), (4, 1, 4)) if THOROUGH else ()):
        t = tlc('TeamProto', cfg % (w, b, m, 'none'), deadlock=True, timeout=1500, heap='8g')
        if not t.ok: raise CheckError('the team specification fails:\n' + t.out[-2500:])
        ctx.bump('protocol_states', t.states)
    for d in ('range', 'rank', 'all'):           # the planted mistakes show, and those of communication also as processes that wait for ever
        for inv in (' Apart',) + ((' Alone',) if d != 'rank' else ()):
            if tlc('TeamProto', (cfg % (3, 1, 2, d)).replace(inv, ''), deadlock=True, timeout=300, expect_fail=True, count=False).ok:
                raise CheckError('the team model does not notice the planted error "%s"' % d)
        ctx.bump('planted_protocol_errors_found')
    t = tlc('TeamProto', 'INIT Init\nNEXT Finished\nINVARIANT Emit\nCONSTANTS World = 3 MaxBranches = 1 MaxTeams = 3 Defect = "none"\n', workers=1, timeout=300)
    if not t.ok: raise CheckError('no teams from the model:\n' + t.out[-2500:])
    return sorted({tuple(map(tuple, json.loads(p))) for p in t.prints})

def some_teams(rng, world):
    """disjoint ordered lists of processes; usually not in ascending order, often leaving processes out"""
    ws = list(range(world)); rng.shuffle(ws)
    if rng.random() < .5: ws = ws[:rng.randint(2, world)]
    out = []
    while ws:
        k = rng.randint(1, len(ws)) if len(out) < 2 else len(ws)
        out.append(tuple(ws[:k])); ws = ws[k:]
    return tuple(out)

def script(rng, kind, n):
    if kind == 'tree':
        calls = []
        for _ in range(3):
            B = tree.random_tree(rng, 6, 4)
            while len(tree.leaves(B)) < n: B.add(rng.choice(tree.leaves(B)))
            c = tree.cuts(len(tree.leaves(B)), n, rng, 1)[0]
            calls += tree.script_structure(rng, B, c) + tree.script_families(rng, B, c, 3)[1:] + tree.script_traversals(rng, B, c, 4)[2:]
        return calls
    if kind == 'mesh': return mesh.script_refine(rng, n, 3) + mesh.script_vtk(rng, n, 4) + mesh.script_iter(rng, n, 8)
    calls = []
    if rng.random() < .5 and n <= 4: calls += hps.refine_again(rng)
    for _ in range(2):
        B = rng.choice(hps.ADAPT + [hps.uniform(1), hps.uniform(2)])
        while len(tree.leaves(B)) < n: B = hps.adaptive_tree(rng, 5, 3)
        calls += hps.c05_script(rng, n, B, rng.choice([3, 4]), 3)[1]
    return [c for c in calls if not c.startswith('ops')]

def internal(l):
    """messages p4est sends in ways that are not recorded (nonblocking), by their tags"""
    return l.startswith(('{"k":"send"', '{"k":"recv"')) and 200 <= json.loads(l)['n'] < 400

def play(ctx, job):
    kind, world, teams, scripts, k2 = job
    tag = '%s on teams %s of %d processes' % (kind, '/'.join(','.join(map(str, t)) for t in teams), world)
    d = tempfile.mkdtemp(prefix='team.', dir=scratch())
    for k, calls in enumerate(scripts):
        with open('%s/script.t%d' % (d, k), 'w') as fh: fh.write('\n'.join(calls) + '\n')
    drv = build('drv_' + kind, flags=MEMORY)
    args = [d + '/script', d + '/log'] + dict(tree=[], hps=[k2, 0], mesh=[d + '/dir', k2])[kind]
    r = run(drv, args, np=world, timeout=60, env=dict(EF_TEAMS='/'.join(','.join(map(str, t)) for t in teams)))
    replay = dict(processes=world, teams=teams, scripts=scripts, unit=k2)
    read = lambda p: open(p).read() if os.path.exists(p) else ''
    logs = [[read('%s/log.t%d.%d' % (d, k, i)) for i in range(len(t))] for k, t in enumerate(teams)]
    if not r.ok:
        if not mpi_works(world): raise CheckError('mpirun does not work here')
        last = [[(l.splitlines() or [''])[-1][:200] for l in ls] for ls in logs]
        ctx.fail('%s: %s; last events per process: %s' % (tag, 'no progress (deadlock)' if r.timed_out else 'the program died (status %s)' % r.rc, last), dict(replay, stderr=r.err[-1500:]))
    mpi = [read('%s/log.mpi.%d' % (d, w)) for w in range(world)]
    for w in range(world):
        if not any(w in t for t in teams) and mpi[w]: ctx.fail('%s: process %d, of no team, takes part' % (tag, w), dict(replay, operations=mpi[w][:2000]))
    n = 0
    for k, t in enumerate(teams):
        one = 'team %d, %s' % (k, tag)
        if kind == 'mesh': mesh.validate(ctx, len(t), 'all', mesh.collect(ctx, r, len(t), '%s/log.t%d' % (d, k), '%s/dir.t%d' % (d, k), scripts[k], one, k2), scripts[k], one, k2)
        else:
            if any('"ev":"done"' not in l for l in logs[k]): ctx.fail('%s: the run did not reach its end' % one, dict(replay))
            if kind == 'tree': n += tree.validate(ctx, len(t), logs[k], scripts[k], one)
            else: hps.validate(ctx, len(t), logs[k], scripts[k], one)
    mpi = [''.join(l + '\n' for l in m.splitlines() if not internal(l)) for m in mpi]
    n += tree.validate_mpi(ctx, world, mpi, scripts, tag)
    shutil.rmtree(d, ignore_errors=True)
    return n, job

def c29(ctx):
    rng = random.Random(SEED * 1000 + 29); ctx.assumptions += tree.ASSUME + hps.ASSUME[:1]
    q = not THOROUGH
    jobs = []
    def add(kind, world, teams): jobs.append((kind, world, teams, [script(rng, kind, len(t)) for t in teams], 0 if kind == 'tree' else rng.choice([0, 0, -27, 30])))
    formed = [t for t in model(ctx) if t != ((0, 1, 2),)]
    ctx.bump('teams_of_the_model', len(formed))
    for t in formed:
        for kind in ('tree', 'mesh', 'hps') if not q else (rng.choice(['tree', 'mesh', 'hps']),): add(kind, 3, t)
    for world in (4, 4, 5, 6) if q else (4, 5, 6, 7, 8) * 6:
        for kind in ('tree', 'mesh', 'hps'): add(kind, world, some_teams(rng, world))
    with cf.ThreadPoolExecutor(5) as ex:
        futs = [ex.submit(play, ctx, j) for j in jobs]
        for f in futs:
            try: n, j = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            ctx.bump('events_validated', n); ctx.bump('runs_%s' % j[0]); ctx.traces += len(j[2])
    ctx.sample(dict(kind=jobs[0][0], processes=jobs[0][1], teams=jobs[0][2], scripts=[s[:4] for s in jobs[0][3]]))
