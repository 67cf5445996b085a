"""C14 patch grids and node factory, C15/C16 leaf solver and boundary map, C17 families of four, C18 structured matrices."""
import json, random
from lib.common import *
from checks.la import line
from checks.hps import const, scatter, ONE, ZERO

ASSUME15 = ['values are compared as fixed-point numbers with about 5 significant digits', 'FISHPACK90 hstcrt is replaced by a dense direct solve of its documented equations (harness/shim.cpp)']

def units(calls):
    """exponents of two for values and lengths"""
    rng = random.Random(repr((SEED, calls)))
    return (0, 0) if rng.random() < .4 else (rng.choice([-60, -40, -27, 30]), rng.choice([0, -27, -10, 12]))

def execute(ctx, calls, tag, exe='drv_leaf'):
    drv = build(exe, flags=MEMORY)
    d = tempfile.mkdtemp(prefix='leaf.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(drv, [d + '/script', d + '/log', *map(str, units(calls))], timeout=120)
    if units(calls) != (0, 0): ctx.bump('runs_in_other_units')
    log_ = open(d + '/log').read() if os.path.exists(d + '/log') else ''
    n = sum(x.endswith('}') for x in log_.splitlines())
    if not r.ok or n != len(calls):
        ctx.fail('%s: the program died (status %s) in call "%s"' % (tag, r.rc, calls[min(n, len(calls) - 1)][:300]), dict(call=calls[min(n, len(calls) - 1)], stderr=r.err[-1500:]))
    return log_

def validate(ctx, module, cfg, log_, calls, tag, **kw):
    t = tlc(module, 'SPECIFICATION Spec\nINVARIANT Conforms\n' + cfg, workers=1, timeout=800, files={'log': log_}, heap='3g', **kw)
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1]); k = why['at']
        ctx.fail('%s: call %d "%s": wrong: %s; got %s' % (tag, k, calls[k - 1][:300], why['wrong'], log_.splitlines()[k - 1][-400:]),
                 dict(wrong=why['wrong'], units=units(calls), script=calls[:k], log=log_.splitlines()[k - 1][:6000]))
    if t.states != len(calls) + 1: raise CheckError('the trace was not followed to its end')
    ctx.traces += len(calls)

def pool(ctx, jobs, workers=6):
    """jobs: (module, cfg, calls, tag)"""
    def one(j):
        l = execute(ctx, j[2], j[3]); validate(ctx, j[0], j[1], l, j[2], j[3]); return j
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try: j = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            for c in j[2]: ctx.bump('calls_' + c.split()[0])
    ctx.sample(dict(script=[c[:300] for c in jobs[0][2][:4]]))


# ------------------------------------------------------------------ C15, C16
def rcoefs(rng, lam0=False):
    k = rng.random()
    la = ZERO if lam0 or rng.random() < .3 else rng.choice([const(-1), const(-2), scatter(rng, -2, 3)])
    if k < .25: return const(rng.randint(1, 3)), const(rng.randint(1, 3)), la
    if k < .5: return scatter(rng, 1, 3), const(rng.randint(1, 2)), la
    if k < .75: return const(1), scatter(rng, 1, 3), la
    return scatter(rng, 1, 3), scatter(rng, 1, 3), la

def leaf_calls(rng, count, sizes):
    calls = []; have = {}
    for k in range(count):
        i = rng.randrange(4)
        if i not in have or rng.random() < .4:
            fish = rng.random() < .3
            al, be, la = rcoefs(rng)
            if fish: la = rng.choice([ZERO, const(-1), const(-2)])
            calls.append(line('solver', [i, 1 if fish else 0], [al, be, la])); have[i] = fish
        n = rng.choice(sizes); e = rng.choice([0, 0, 0, 1, 2])
        hx, hy = rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 2)])
        m = rng.random()
        g = [rng.randint(-9, 9) for _ in range(4 * n)] if m < .8 else [rng.randint(-5, 5)] * (4 * n)
        if m > .95: g = [0] * (4 * n); g[rng.randrange(4 * n)] = 1
        f = [rng.randint(-6, 6) if m < .7 else 0 for _ in range(n * n)]
        calls.append(line('leaf', [i, n, rng.randint(-3, 3), rng.randint(-3, 3), hx, hy, e, int(''.join(map(str, rng.sample(range(4), 4))))], [g, f]))
    return calls

def leaf_check(ctx, s, focus):
    rng = random.Random(SEED * 1000 + s); ctx.assumptions += ASSUME15
    q = not THOROUGH
    jobs = [('LeafTrace', 'CONSTANT Focus = "%s"\n' % focus, leaf_calls(rng, 40, szs), 'leaf solver') for szs in
            ([[2, 3, 4], [2, 3, 4, 5], [4, 5, 6], [3, 6, 7], [2, 8], [2, 3, 5, 9]] * (1 if q else 12) + [[10], [12], [16], [13, 17, 20], [24]])]
    for j, m in zip(jobs[-5:], (16, 16, 16, 10, 4)): j[2][:] = j[2][:m]
    pool(ctx, jobs)
def c15(ctx): leaf_check(ctx, 15, 'solve')
def c16(ctx): leaf_check(ctx, 16, 'map')


# ------------------------------------------------------------------ C17
def operator(rng, n):
    """a boundary operator with interface systems that are safely nonsingular: the signs of the four sides as they come out of a patch"""
    w = 4 * n; T = []
    for i in range(w):
        row = [0] * w
        for _ in range(rng.randint(1, 4)): row[rng.randrange(w)] = rng.randint(-2, 2)
        row[i] = (-1 if i // n in (0, 2) else 1) * rng.randint(12, 20)
        T += row
    return T

def family_calls(rng, count, base, mults):
    calls = []; have = {}; k = 0
    while k < count:
        i = rng.randrange(3)
        if i not in have or rng.random() < .3:
            m = rng.choice(base); ns = [m * x for x in rng.choice(mults)]
            if max(ns) > 24: continue
            calls.append(line('family', [i, *ns, rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(1, 4), rng.randint(1, 4)], [operator(rng, n) for n in ns]))
            calls.append(line('merge', [i])); have[i] = [min(ns), ns, False]
        f = have[i]
        if not f[2] or rng.random() < .4:
            calls.append(line('upwards', [i], [[rng.choice([0, rng.randint(-20, 20)]) for _ in range(4 * n)] for n in f[1]])); f[2] = True
        # interleave: another family may be merged or pass its data up before this one is split
        if rng.random() < .6 or len(have) < 2: calls.append(line('split', [i], [[rng.randint(-9, 9) for _ in range(8 * f[0])]]))
        else:
            j = rng.choice([x for x in have]); fj = have[j]
            if fj[2]: calls.append(line('split', [j], [[rng.randint(-9, 9) for _ in range(8 * fj[0])]]))
        k += 1
    return calls

EQUAL = [(1, 1, 1, 1)]
TWICE = [tuple(2 if b >> k & 1 else 1 for k in range(4)) for b in range(1, 15)]
EIGHT = [(8, 1, 1, 1), (1, 8, 2, 4), (4, 2, 8, 1), (2, 1, 1, 8), (1, 8, 8, 1)]
MORE = [(4, 1, 2, 1), (1, 4, 1, 2), (1, 2, 4, 1), (2, 1, 1, 4), (1, 1, 4, 4), (4, 4, 1, 2)]
def c17(ctx):
    rng = random.Random(SEED * 1000 + 17); q = not THOROUGH
    ctx.assumptions.append('children operators are diagonally dominant with the signs of a patch, so that interface systems are nonsingular')
    jobs = []
    for _ in range(1 if q else 10):
        jobs += [('MergeTrace', '', family_calls(rng, 40, [1, 2, 3, 4, 5], EQUAL), 'families of equal patches'),
                 ('MergeTrace', '', family_calls(rng, 30, [2, 3, 6], EQUAL), 'families of equal patches'),
                 ('MergeTrace', '', family_calls(rng, 24, [3, 4], TWICE), 'families with patches of twice the size'),
                 ('MergeTrace', '', family_calls(rng, 24, [3, 4], TWICE + EQUAL), 'families with patches of twice the size'),
                 ('MergeTrace', '', family_calls(rng, 14, [3, 4], MORE), 'families with patches of four times the size'),
                 ('MergeTrace', '', [c for m in (EIGHT if not q else EIGHT[:4]) for c in family_calls(rng, 2, [3], [m])], 'families with patches of eight times the size'),
                 ('MergeTrace', '', [c for k in range(0, 14) for c in family_calls(rng, 1, [3], [TWICE[k]])], 'every pattern of sizes')]
    pool(ctx, jobs)


# ------------------------------------------------------------------ C18
def c18(ctx):
    rng = random.Random(SEED * 1000 + 18); q = not THOROUGH
    t = tlc('Special', 'SPECIFICATION Spec\nINVARIANTS Laws Emit\nCONSTANTS MaxN = %d Further = {%s}\n' % ((12, '16, 33, 65, 130') if q else (32, '64, 65, 127, 130, 256')), workers=1, timeout=600)
    if not t.ok: raise CheckError('the specified matrices violate their laws:\n' + t.out[-2000:])
    calls, want = [], []
    for n, I, f2c, c2f in (json.loads(p) for p in t.prints):
        calls += [line('special', [0, n]), line('special', [2, n])]; want += [I, f2c]
        if n >= 3: calls.append(line('special', [3, n])); want.append(c2f)
        d = [rng.randint(-9, 9) for _ in range(n)]
        calls.append(line('special', [1, n], [d])); want.append([[32 * d[i] if i == j else 0 for j in range(n)] for i in range(n)])
    # block-diagonal: the specification is instantiated by TLC on random block lists
    blocks = []
    for _ in range(30 if q else 300):
        m = rng.choice([4, 4, 4, 30]); b = [(rng.randint(1, m), rng.randint(1, m)) for _ in range(rng.randint(1, 5))]
        ent = [[rng.randint(-9, 9) for _ in range(r * c)] for r, c in b]
        blocks.append((b, ent)); calls.append(line('blocks', [x for rc in b for x in rc], ent)); want.append(None)
    log_ = execute(ctx, calls, 'structured matrices')
    rows = [json.loads(x) for x in log_.splitlines()]
    t = tlc('Blocks', 'SPECIFICATION Spec\nINVARIANT Conforms\n', workers=1, files={'log': '\n'.join(x for x, w in zip(log_.splitlines(), want) if w is None) + '\n'})
    for c, w, r in zip(calls, want, rows):
        if w is None: continue
        if not r['ok'] or r['m'] != w or r['r'] != len(w) or r['c'] != len(w[0]):
            ctx.fail('matrix of "%s": specified (in 1/32) %s, got %s' % (c, fmt(w)[:500], fmt(r.get('m'))[:500]), dict(call=c, expected=w, actual=r))
        ctx.traces += 1
    if not t.ok:
        if not t.violation: raise CheckError(t.out[-2000:])
        k = json.loads(t.prints[-1]); ctx.fail('block-diagonal matrix: %s' % fmt(k)[:600], k)
    ctx.traces += len(blocks); ctx.bump('matrices_compared', len(calls))
    ctx.sample(dict(call=calls[6], expected=want[6]))


# ------------------------------------------------------------------ C14
def c14(ctx):
    rng = random.Random(SEED * 1000 + 14); q = not THOROUGH
    for part in range(4):
        calls = []
        for _ in range(15 if q else 150):
            size = lambda: rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.choice([16, 17, 31, 64, 65, 100, 128, 129, 200])])
            far = lambda n: rng.randint(-n, n) if rng.random() < .8 else rng.randint(-50000, 50000)
            calls.append(line('grid', [size(), far(20), rng.randint(1, 20), rng.randint(0, 3), size(), far(20), rng.randint(1, 20)]))
        nid = 0
        for _ in range(10 if q else 100):
            depth = rng.choice([0, 1, 2, 3, 4, rng.randint(5, 20)]); path = [0] + [rng.randrange(4) for _ in range(depth)]
            x0, y0 = far(8), far(8); nx, ny = (rng.choice([rng.randint(1, 12), rng.randint(13, 130)]) for _ in 'xy')
            calls.append(line('node', [0, nx, ny, x0, y0, x0 + rng.randint(1, 8), y0 + rng.randint(1, 8), rng.randint(0, 3), rng.randint(3, 6), depth], [path]))
            cur = 0; top = 0
            for lv in range(rng.choice([1, 2, 3, 4, rng.randint(5, 12)])):            # down several levels along random children, then up again
                for k in rng.sample(range(4), 4): calls.append(line('child', [1 + 4 * lv + k, cur, k, rng.randint(0, 2), rng.randint(2, 5)]))
                cur = 1 + 4 * lv + rng.randrange(4); top = lv
            for lv in range(top, -1, -1): calls.append(line('parent', [60 + lv, 1 + 4 * lv, 2 + 4 * lv, 3 + 4 * lv, 4 + 4 * lv, rng.randint(0, 2), rng.randint(2, 5)]))
        log_ = execute(ctx, calls, 'grids and nodes')
        validate(ctx, 'GridTrace', '', log_, calls, 'grids and nodes')
        for c in calls: ctx.bump('calls_' + c.split()[0])
    ctx.sample(calls[15:19])
