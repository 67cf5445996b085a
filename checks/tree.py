"""C06-C10: the path-indexed tree, its distribution over processes, traversals, merge and split.
Model: Tree.tla, TreeMC.tla (structure), MergeProto.tla (protocol, all interleavings).
Binding: TreeTrace.tla (what visitors and the tree show, per process) and CollTrace.tla (MPI operations posted)."""
import itertools, json, random
from lib.common import *
from checks.la import line


# ------------------------------------------------------------------ trees
def parents(B): return sorted(B, key=lambda p: (len(p), p))
def leaves(B):
    B = set(map(tuple, B))
    nodes = {()} | {p + (k,) for p in B for k in range(4)}
    return sorted(nodes - B)

def random_tree(rng, maxb, maxlev):
    B = set()
    for _ in range(rng.randint(0, maxb)):
        ls = [l for l in leaves(B) if len(l) < maxlev]
        if not ls: break
        # deep and lopsided trees as well as broad ones
        B.add(max(ls, key=len) if rng.random() < .3 else rng.choice(ls))
    return B

def deep_tree(rng, lev, extra):
    """one path down to the given level, and some more branches beside it"""
    p = [rng.randrange(4) for _ in range(lev)]
    if rng.random() < .3: p = [rng.choice([0, 3])] * lev
    B = {tuple(p[:k]) for k in range(lev)}
    for _ in range(extra): B.add(rng.choice(leaves(B)))
    return B

def cuts(n, P, rng, k):
    """k ways of giving n leaves to P processes, at least one each; skewed ones included"""
    if P == 1: return [[n]]
    allc = None
    if n <= 13:
        allc = [[b - a for a, b in zip((0,) + c, c + (n,))] for c in itertools.combinations(range(1, n), P - 1)]
        if len(allc) <= k: return allc
        return rng.sample(allc, k)
    res = []
    for _ in range(k):
        c = sorted(rng.sample(range(1, n), P - 1)) if rng.random() < .6 else sorted(rng.sample(range(1, min(n, P + 4)), P - 1))
        res.append([b - a for a, b in zip([0] + c, c + [n])])
    return res

def forest_line(i, B, counts):
    return line('forest', [i], [counts] + [list(p) for p in parents(B)])


# ------------------------------------------------------------------ scripts
def some_nodes(rng, B, among_branches=False):
    ns = list(B) if among_branches else list(B) + leaves(B)
    if not ns: return []
    return [list(p) for p in rng.sample(ns, min(len(ns), rng.choice([0, 1, 1, 2, 3])))]

def script_structure(rng, B, counts, fv=True):
    out = [forest_line(0, B, counts), line('tree', [0, 0]), line('dump', [0])]
    if fv:
        a = [1, 0, rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 2, 3, 4, 7, 8]), rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(1, 5), rng.randint(1, 5)]
        out += [line('fvtree', a), line('fvdump', a)]
    return out

def script_traversals(rng, B, counts, n=8):
    """several trees, on one or two forests, moved and assigned between traversals"""
    out = [forest_line(0, B, counts), line('tree', [0, 0])]
    live = {0: B}
    if rng.random() < .6:
        B2 = random_tree(rng, 4, 3)
        for _ in range(20):
            if len(leaves(B2)) >= len(counts): break
            B2.add(leaves(B2)[0])
        out += [forest_line(1, B2, rng.choice(cuts(len(leaves(B2)), len(counts), rng, 3)))]
        out += [line(rng.choice(['tree', 'newtree']), [1, rng.choice([0, 1])])]
        live[1] = None
    if rng.random() < .4:
        out.append(line('newtree', [2, 0])); live[2] = B
    for _ in range(n):
        t = rng.choice(sorted(live))
        k = rng.random()
        if k < .12 and len(live) < 4:
            u = min(x for x in range(6) if x not in live)
            out.append(line('movetree', [u, t])); live[u] = live.pop(t); t = u
        elif k < .2:
            out.append(line('tree', [t, 0])); live[t] = B
        if rng.random() < .75:
            op = rng.choice(['pre', 'pre', 'post', 'predata', 'postdata'])
            if rng.random() < .3:     # its visitors run a traversal themselves, of the same tree or of another
                at = some_nodes(rng, live[t] if live[t] is not None else B) or [[]]
                out.append(line(op, [t, t if rng.random() < .5 else rng.choice(sorted(live)), rng.randrange(4)], at))
            else: out.append(line(op, [t], some_nodes(rng, live[t] if live[t] is not None else B) if op in ('pre', 'post') else []))
        else:
            out.append(family(rng, t, live[t], rng.choice(['merge', 'split'])))
    return out

def family(rng, t, B, op, stage=None):
    if rng.random() < .2 and B is not None:      # its visitors run a traversal of the tree
        return line(op, [t, rng.randint(1, 99) if stage is None else stage, t, rng.randrange(4)], some_nodes(rng, B) or [[]])
    pr = some_nodes(rng, B, True) if B and rng.random() < .3 else []
    return line(op, [t, rng.randint(1, 99) if stage is None else stage], pr)

def wide_tree(rng, np):
    while True:
        B = random_tree(rng, 8, 3)
        if len(leaves(B)) >= np: return B

def many_processes(rng, q, script):
    """trees whose top nodes are shared by many processes"""
    jobs = []
    for np in (7, 8, 11) if q else (6, 7, 8, 10, 12, 16) * 4:
        for _ in range(2):
            B = wide_tree(rng, np); jobs.append((np, script(rng, B, cuts(len(leaves(B)), np, rng, 1)[0]), 'many processes'))
    return jobs

def script_families(rng, B, counts, n=4):
    out = [forest_line(0, B, counts), line('tree', [0, 0])]
    if rng.random() < .3: out.append(line('newtree', [1, 0]))
    for k in range(n):
        t = 1 if 'newtree' in out[-1 - k if len(out) > k else 0] and rng.random() < .5 else 0
        op = ['merge', 'split'][k % 2] if rng.random() < .6 else rng.choice(['merge', 'split'])
        out.append(family(rng, t, B, op))
        if rng.random() < .2: out.append(line('post', [0]))
    return out


# ------------------------------------------------------------------ running and validating
def execute(ctx, drv, np, calls, tag, timeout=100):
    """Run a script on np processes; returns the two lots of logs, or fails the check."""
    d = tempfile.mkdtemp(prefix='tree.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(drv, [d + '/script', d + '/log'], np=np, timeout=timeout)
    logs = []
    for k in range(np):
        p = '%s/log.%d' % (d, k)
        logs.append(open(p).read() if os.path.exists(p) else '')
    if not r.ok or any('"ev":"done"' not in l for l in logs):
        if not mpi_works(np): raise CheckError('mpirun does not work here')
        last = [(l.splitlines() or [''])[-1][:200] for l in logs]
        n = [sum('"ev":"call"' in x for x in l.splitlines()) for l in logs]
        upto = max(n or [0])
        ctx.fail('%s, %d processes: %s in call "%s"; last events per process: %s' %
                 (tag, np, 'no progress (deadlock)' if r.timed_out else 'the program died (status %s)' % r.rc, calls[upto - 1] if upto else '?', last),
                 dict(processes=np, script=calls[:upto], stderr=r.err[-1500:], last_events=last))
    mpi = [open('%s/log.mpi.%d' % (d, k)).read() for k in range(np)]
    return logs, mpi

def whole_lines(s): return s if s.endswith('\n') or not s else s + '\n'

def validate(ctx, np, logs, calls, tag, focus='all'):
    t = tlc('TreeTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nCONSTANTS P = %d Focus = "%s"\n' % (np, focus), workers=1, timeout=700,
            files={'log.%d' % k: l for k, l in enumerate(logs)}, heap='2g')
    events = sum(len(l.splitlines()) for l in logs)
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1])
        nxt = [(l.splitlines() + ['(end)'])[why['pc'][k]] for k, l in enumerate(logs)]
        done = sum('"ev":"call"' in x for x in logs[0].splitlines()[:why['pc'][0]])
        ctx.fail('%s, %d processes, call "%s": not a behaviour of the specification: running %s, still to visit %s, next events %s' %
                 (tag, np, calls[max(0, done - 1)], fmt([x.get('op') for x in why['run']]), fmt(why['todo'])[:400], ' | '.join(x[:500] for x in nxt)),
                 dict(processes=np, script=calls[:done + 1], next_events=[x[:3000] for x in nxt], specified=why))
    if t.states < 2: raise CheckError('empty trace')
    return events

def validate_mpi(ctx, np, mpi, calls, tag):
    t = tlc('CollTrace', 'SPECIFICATION Spec\nINVARIANT Completes\nCONSTANT P = %d\n' % np, workers=1, timeout=700, heap='2g',
            files={'mpi.%d' % k: l for k, l in enumerate(mpi)})
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1])
        ctx.fail('%s, %d processes: the posted operations cannot all happen; next operation of each process: %s' % (tag, np, fmt(why['at'])[:1200]),
                 dict(processes=np, script=calls, at=why))
    return sum(len(l.splitlines()) for l in mpi)

def campaign(ctx, jobs, focus='all', mpi=False, tree=True):
    """jobs: (np, calls, tag); executed two at a time, validated in parallel with execution"""
    drv = build('drv_tree', flags=MEMORY)
    def one(job):
        np, calls, tag = job
        logs, m = execute(ctx, drv, np, calls, tag)
        ev = validate(ctx, np, logs, calls, tag, focus) if tree else 0
        me = validate_mpi(ctx, np, m, calls, tag) if mpi and np > 1 else 0
        return ev, me, job
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try: ev, me, job = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            ctx.traces += sum(c.startswith('forest 1 0 ') for c in job[1])
            ctx.bump('trace_events', ev)
            if mpi: ctx.bump('mpi_operations', me)
            ctx.bump('processes_%d' % job[0])
            ctx.bump('calls_replayed', len(job[1]))
    ctx.sample(dict(processes=jobs[0][0], script=jobs[0][1][:6]))


# ------------------------------------------------------------------ model checking
def structure_model(ctx, procs=3, lev=3, br=5):
    t = tlc('TreeMC', 'SPECIFICATION Spec\nINVARIANTS Shape Tiling Orders Holding Emit\nCONSTANTS MaxLevel = %d MaxBranches = %d Procs = %d\n' % (lev, br, procs), timeout=800)
    if not t.ok: raise CheckError('the tree specification violates its own laws:\n' + t.out[-2000:])
    return [[tuple(p) for p in B] for B in map(json.loads, dict.fromkeys(t.prints))]

def protocol_model(ctx):
    cfg = 'SPECIFICATION Spec\nINVARIANTS RootHolds Matched Coherent Reach\nCONSTANTS MaxLevel = 2 MaxBranches = %d Procs = %d Defect = "%s"\n'
    if THOROUGH:
        for br, procs in ((2, 2), (5, 2), (2, 4), (3, 3)):
            t = tlc('MergeProto', cfg % (br, procs, 'none'), deadlock=True, timeout=1500, heap='16g')
            if not t.ok: raise CheckError('the protocol specification fails:\n' + t.out[-2500:])
            ctx.bump('protocol_states', t.states)
    else:
        for br, procs in ((2, 2), (2, 3)):
            t = tlc('MergeProto', cfg % (br, procs, 'none'), deadlock=True, timeout=600)
            if not t.ok: raise CheckError('the protocol specification fails:\n' + t.out[-2500:])
            ctx.bump('protocol_states', t.states)
    # the same model with a planted protocol error has to fail
    for d in ('order', 'root'):
        t = tlc('MergeProto', (cfg % (2, 2, d)).replace(' Matched', ''), deadlock=True, timeout=300, expect_fail=True, count=False)
        if t.ok: raise CheckError('the protocol model does not notice the planted error "%s"' % d)
        ctx.bump('planted_protocol_errors_found')

PROCS = (1, 2, 3, 4)
def batches(rng, trees, script, per, jobs_per_np, procs=PROCS, ncuts=1, tag=''):
    jobs = []
    for np in procs:
        for j in range(jobs_per_np):
            calls, k = [], 0
            while k < per:
                B = trees(rng)
                n = len(leaves(B))
                if n < np: continue
                for c in cuts(n, np, rng, ncuts):
                    calls += script(rng, B, c); k += 1
            jobs.append((np, calls, tag))
    return jobs

def replay_models(ctx, rng, Bs, script, procs, frac=1.0, per=60):
    """every tree of the structural model (with one or more of its distributions), on the real code"""
    jobs = []
    for np in procs:
        calls, k = [], 0
        for B in Bs:
            n = len(leaves(B))
            if n < np or rng.random() > frac: continue
            calls += script(rng, B, cuts(n, np, rng, 1)[0]); k += 1
            if k == per: jobs.append((np, calls, 'model tree')); calls, k = [], 0
        if calls: jobs.append((np, calls, 'model tree'))
    return jobs

ASSUME = ['p4est 2.3.6 with a stand-in for p4est_search_reorder (harness/shim.cpp)', 'every process owns at least one leaf']

def c06(ctx):
    rng = random.Random(SEED * 1000 + 6); ctx.assumptions += ASSUME
    ctx.assumptions.append('operations posted do not depend on timing (no wildcard receives, no polling), so matching logs of one schedule decide all schedules')
    protocol_model(ctx)
    q = not THOROUGH
    tr = lambda r: random_tree(r, 6, 4)
    jobs = batches(rng, tr, lambda r, B, c: script_structure(r, B, c) + script_families(r, B, c, 4)[1:] + script_traversals(r, B, c, 4)[2:], 5 if q else 20, 1 if q else 8,
                   (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 8), tag='communication')
    campaign(ctx, jobs, mpi=True, tree=False)
    # the stages of the algorithm on trees whose leaves are unevenly distributed
    from checks import hps
    jobs = []
    for np in (2, 3, 4) if q else (2, 3, 4, 5, 6, 8) * 3:
        calls = []
        for _ in range(2 if q else 4):
            B = random_tree(rng, 5, 3)
            while len(leaves(B)) < np: B = random_tree(rng, 5, 3)
            calls += hps.c05_script(rng, np, B, 4, 3)[1]
        jobs.append((np, calls, 'communication of the stages'))
    hps.campaign(ctx, jobs, mpi=True, validate_logs=False)

def c07(ctx):
    structure(ctx, 'C07', 7)
def c08(ctx):
    structure(ctx, 'C08', 8)
def structure(ctx, focus, s):
    rng = random.Random(SEED * 1000 + s); ctx.assumptions += ASSUME
    q = not THOROUGH
    Bs = structure_model(ctx, 3, 3, 4 if q else 5)
    if not q: structure_model(ctx, 4, 3, 4)
    jobs = replay_models(ctx, rng, Bs, lambda r, B, c: script_structure(r, B, c, True), (1, 2, 3) if q else PROCS + (5,), .5 if q else 1, per=40)
    jobs += batches(rng, lambda r: random_tree(r, 10, 6), script_structure, 8 if q else 40, 1 if q else 4, PROCS if q else PROCS + (6, 8), 2, tag='random tree')
    jobs += batches(rng, lambda r: deep_tree(r, r.randint(8, 18), r.randint(0, 3)), script_structure, 2 if q else 10, 1, (1, 3) if q else PROCS, 1, tag='deep tree')
    jobs += many_processes(rng, q, script_structure)
    # more nodes than MPI has communicators, and trees replaced more often than that
    jobs += [(np, [line('big', [l])], 'large uniform tree') for np, l in (((1, 8), (3, 8)) if q else ((1, 9), (2, 9), (4, 10)))]
    for np in (1, 3) if q else PROCS:
        B = random_tree(rng, 2, 2)
        while len(leaves(B)) < np: B = random_tree(rng, 2, 2)
        c = rng.choice(cuts(len(leaves(B)), np, rng, 4))
        jobs.append((np, [forest_line(0, B, c), line('repeat', [0, 0, 70000 if len(B) else 1000]), line('dump', [0]), line('merge', [0, 5]), line('pre', [0])], 'tree replaced many times'))
    campaign(ctx, jobs, focus)

def c09(ctx):
    rng = random.Random(SEED * 1000 + 9); ctx.assumptions += ASSUME
    q = not THOROUGH
    Bs = structure_model(ctx, 2, 3, 4 if q else 5)
    jobs = replay_models(ctx, rng, Bs, lambda r, B, c: script_traversals(r, B, c, 4), (1, 2, 3) if q else PROCS, .4 if q else 1, per=30)
    jobs += batches(rng, lambda r: random_tree(r, 10, 5), script_traversals, 10 if q else 40, 1 if q else 4, PROCS if q else PROCS + (6,), 2, tag='random tree')
    jobs += many_processes(rng, q, script_traversals)
    campaign(ctx, jobs)

def c10(ctx):
    rng = random.Random(SEED * 1000 + 10); ctx.assumptions += ASSUME
    q = not THOROUGH
    Bs = structure_model(ctx, 2, 3, 4 if q else 5)
    jobs = replay_models(ctx, rng, Bs, lambda r, B, c: script_families(r, B, c, 3), (1, 2, 3) if q else PROCS, .4 if q else 1, per=30)
    jobs += batches(rng, lambda r: random_tree(r, 8, 5), script_families, 8 if q else 30, 1 if q else 4, PROCS if q else PROCS + (6, 8), 2, tag='random tree')
    jobs += many_processes(rng, q, script_families)
    campaign(ctx, jobs)
