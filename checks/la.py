"""C19 Vector, C20/C21 Matrix, C18 special matrices: exhaustive small models replayed call by call, and
lockstep validation of long random executions of the real classes against the same specification."""
import json, random
from lib.common import *

SOURCES = 'src/Vector.hpp, src/Matrix.hpp, src/SpecialMatrices.hpp'


def line(op, a=(), L=()):
    return ' '.join([op, str(len(a)), *map(str, a), str(len(L))] + [' '.join(map(str, [len(l), *l])) for l in L])


# ------------------------------------------------------------------ exhaustive transitions
def exhaustive(ctx, driver, mode, module, cfg, enc, tag):
    """TLC explores `module`; every explored transition is executed on the real class and compared."""
    t = tlc(module, cfg, timeout=800)
    if not t.ok:
        raise CheckError('the specification %s violates its own laws:\n%s' % (module, t.out[-2000:]))
    tests = {}
    for p in t.prints:
        tests[p] = None
    tests = [json.loads(p) for p in tests]
    inp = []
    for pre, c, e in tests:
        inp.append(line('state', [], [enc(m) for m in pre] + [enc(None)] * (4 - len(pre))))
        inp.append(line(c['op'], c['a'], c['L']))
    ops = {}
    for k2 in (0, -40):
        r = run(driver, [mode, 'q', str(k2)], stdin='\n'.join(inp) + '\n', timeout=150)
        if not r.ok:
            crashed(ctx, r, tests, tag)
        outs = [json.loads(x) for x in r.out.splitlines()]
        if len(outs) != len(tests):
            raise CheckError('%d calls, %d outcomes' % (len(tests), len(outs)))
        for (pre, c, e), o in zip(tests, outs):
            ops.setdefault(c['op'], [0, 0])[0 if e['ok'] else 1] += 1
            if o['ok'] != e['ok'] or o['reg'][:len(e['reg'])] != e['reg'] or (e['ok'] and o['out'] != e['out']):
                ctx.fail('%s: %s(%s, %s) on %s: specified %s, got %s' % (tag, c['op'], c['a'], c['L'], fmt(pre), fmt(e),
                         fmt({k: o[k] for k in ('ok', 'reg', 'out')})), dict(state=pre, unit='2^%d' % k2, call=c, expected=e, actual=o))
    if not tests:
        raise CheckError('no transition was explored')
    ctx.traces += 2 * len(tests)
    ctx.bump('transitions_replayed', 2 * len(tests))
    ctx.extra.setdefault('calls_accepted_rejected', {}).update({tag + ':' + k: v for k, v in sorted(ops.items())})
    pre, c, e = tests[len(tests) // 2]
    ctx.sample(dict(pre=pre, call=c, expected=e))


def crashed(ctx, r, tests, tag):
    n = len(r.out.splitlines())
    last = tests[n] if n < len(tests) else None
    ctx.fail('%s: the process died (status %s%s) at call %d: %s' % (tag, r.rc, ', timeout' if r.timed_out else '', n, fmt(last)),
             dict(call=last, stderr=r.err[-1500:]))


# ------------------------------------------------------------------ lockstep traces
def lockstep(ctx, driver, mode, module, calls, tag, k2=0, longest=60):
    """Run the calls, then have TLC execute the specification along the log, comparing after every call."""
    r = run(driver, [mode, '-', str(k2), str(longest)], stdin='\n'.join(calls) + '\n', timeout=150)
    if not r.ok:
        ctx.fail('%s: the process died (status %s) after %d calls' % (tag, r.rc, len(r.out.splitlines())),
                 dict(calls=calls[:20], stderr=r.err[-1500:]))
    lines = r.out.splitlines()
    t = tlc(module, 'SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n', workers=1, timeout=800,
            files={'trace.ndjson': r.out})
    if not t.ok or t.states != len(lines) + 1:
        k = t.states - 1
        if not t.violation:
            raise CheckError('trace of %d calls only followed to %d:\n%s' % (len(lines), k, t.out[-3000:]))
        bad = json.loads(lines[k - 1])
        before = json.loads(lines[k - 2])['reg'] if k > 1 else []
        m = re.findall(r'(?s)State %d:.*?(?=\nState|\n\d+ states)' % (k + 1), t.out)
        ctx.fail('%s: call %d %s(%s, %s) is not a step of the specification: registers before %s, logged outcome %s; specified: %s' %
                 (tag, k, bad['op'], bad['a'], bad['L'], fmt(before), fmt({x: bad[x] for x in ('ok', 'out', 'reg')}),
                  ' '.join((m[-1] if m else '?').split())[:700]), dict(log=[json.loads(x) for x in lines[max(0, k - 8):k]]))
    ops = ctx.extra.setdefault('trace_calls_accepted_rejected', {})
    for x in lines:
        e = json.loads(x)
        ops.setdefault(tag + ':' + e['op'], [0, 0])[0 if e['ok'] else 1] += 1
    ctx.traces += calls.count('reset 0 0')
    ctx.bump('trace_events', len(lines))
    ctx.sample(json.loads(lines[len(lines) // 2]))


# ------------------------------------------------------------------ vectors
def vector_calls(rng, n_traces, length, maxlen):
    out = []
    for _ in range(n_traces):
        out.append(line('reset'))
        def newlist():
            n = rng.choice([0, 1, 2, 3, rng.randint(0, maxlen)])
            m = 9 if rng.random() < .8 else 1500
            out.append(line('list', [rng.randrange(4)], [[rng.randint(-m, m) for _ in range(n)]]))
        for _ in range(3): newlist()
        for _ in range(length):
            k = rng.random()
            r, s, t = (rng.randrange(4) for _ in range(3))
            i, j = rng.randint(0, maxlen), rng.randint(0, maxlen)
            small = rng.randint(0, 4)
            c = rng.choice([-3, -2, -1, 0, 1, 2, 3])
            op = rng.choice(VOPS)
            if op == 'new': newlist()
            elif op == 'zeros': out.append(line(op, [r, small]))
            elif op == 'fill': out.append(line(op, [r, small, c]))
            elif op in ('dot', 'l2sq') and rng.random() < .5:          # results of more digits than a float has
                m = rng.randint(1, 9); big = rng.choice([300, 9000])
                for q in (r, s): out.append(line('list', [q], [[rng.randint(-big, big) for _ in range(m)]]))
                out.append(line(op, [r, s]))
            elif op in ('copy', 'assign', 'append', 'neg', 'addeq', 'subeq', 'dot', 'infnorm', 'l2sq'): out.append(line(op, [r, s]))
            elif op == 'size': out.append(line(op, [r]))
            elif op == 'get': out.append(line(op, [r, rng.choice([small, i])]))
            elif op == 'put': out.append(line(op, [r, rng.choice([small, i]), c]))
            elif op == 'range':
                a = min(i, small); out.append(line(op, [r, s, a, a + rng.choice([0, 1, 2, j])]))
            elif op == 'segment': out.append(line(op, [r, s, small, rng.randint(0, maxlen)]))
            elif op == 'setseg': out.append(line(op, [r, small, s]))
            elif op == 'indexset': out.append(line(op, [r, s], [[rng.choice([0, 0, 1, 2, small, rng.randint(-1, maxlen)]) for _ in range(rng.randint(0, 4))]]))
            elif op == 'permute':
                b = rng.randint(1, 4); S = [rng.randint(0, 3) for _ in range(b)]; P = list(range(b)); rng.shuffle(P)
                if rng.random() < .15: P[0] = b
                if rng.random() < .8:
                    out.append(line('list', [s], [[rng.randint(-9, 9) for _ in range(sum(S))]]))
                out.append(line(op, [r, s], [P, S]))
            elif op in ('add', 'sub', 'hmul', 'hdiv'):
                if rng.random() < .6:
                    m = rng.randint(0, maxlen)
                    for q in (s, t): out.append(line('list', [q], [[rng.choice([-6, -2, -1, 1, 2, 4, 12]) for _ in range(m)]]))
                out.append(line(op, [r, s, t]))
            elif op in ('addc', 'subc', 'smul'): out.append(line(op, [r, s, c]))
            elif op in ('addeqc', 'subeqc', 'muleqc'): out.append(line(op, [r, c]))
            elif op == 'diveqc':
                d = rng.choice([1, 2, 3, 5]); out.append(line('muleqc', [r, d])); out.append(line(op, [r, d]))
            elif op == 'concat': out.append(line(op, [r], [[rng.randrange(4) for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randint(5, 20)]))]]))
            elif op == 'vrange': out.append(line(op, [c, c + small]))
            if rng.random() < .25: newlist()
    return out

VOPS = ['new', 'zeros', 'fill', 'copy', 'assign', 'size', 'get', 'put', 'range', 'segment', 'setseg', 'append', 'indexset', 'permute', 'neg',
        'add', 'sub', 'addeq', 'subeq', 'addc', 'subc', 'addeqc', 'subeqc', 'muleqc', 'smul', 'diveqc', 'hmul', 'hdiv', 'dot', 'infnorm',
        'l2sq', 'concat', 'vrange']
SIZES = [15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 600, 1000, 1023, 1024, 1025]

def vector_calls_large(rng, n):
    """single operations on long vectors"""
    out = []
    for k in range(n):
        op = VOPS[k % len(VOPS)]; m = rng.choice(SIZES); r, s, t = rng.sample(range(4), 3) if rng.random() < .8 else [rng.randrange(4) for _ in range(3)]
        at = lambda: rng.choice([0, m - 1, m, m + 1, rng.randrange(m), rng.randrange(m)])
        c = rng.choice([-3, -2, -1, 0, 1, 2, 3]); vals = [-6, -2, -1, 1, 2, 4, 12] if op == 'hdiv' else list(range(-9, 10))
        lst = lambda q, n: out.append(line('list', [q], [[rng.choice(vals) for _ in range(n)]]))
        out.append(line('reset'))
        for q in range(4): lst(q, rng.randint(0, 3))
        lst(s, m)
        if op in ('new', 'size'): out.append(line('size', [s]))
        elif op == 'zeros': out.append(line(op, [r, m]))
        elif op == 'fill': out.append(line(op, [r, m, c]))
        elif op in ('copy', 'assign', 'neg'): out.append(line(op, [r, s]))
        elif op == 'append': lst(r, rng.choice([rng.choice(SIZES), 0, 1])); out.append(line(op, [r, s]))
        elif op in ('addeq', 'subeq', 'dot', 'infnorm', 'l2sq'):
            if r != s: lst(r, m if rng.random() < .9 else m + rng.choice([-1, 1]))
            if op == 'infnorm' and r != s and rng.random() < .5: out.append(line('put', [rng.choice([r, s]), at() % m, rng.choice([-99, 99])]))
            out.append(line(op, [r, s]))
        elif op == 'get': out.append(line(op, [s, at()]))
        elif op == 'put': out.append(line(op, [s, at(), c]))
        elif op == 'range': a = at() % m; out.append(line(op, [r, s, a, a + rng.choice([0, 1, m - a - 1, m - a, rng.randrange(m)])]))
        elif op == 'segment': a = at() % m; out.append(line(op, [r, s, a, rng.choice([0, 1, m - a, m - a + 1, rng.randrange(m)])]))
        elif op == 'setseg': lst(r, m + rng.choice([0, 1, 40])); out.append(line(op, [r, rng.choice([0, 1, 30, 41]), s]))
        elif op == 'indexset': out.append(line(op, [r, s], [[at() % m for _ in range(rng.choice([20, 65, 130]))] + ([m] if rng.random() < .1 else [])]))
        elif op == 'permute':
            b = rng.randint(1, 6); cut = sorted(rng.randint(0, m) for _ in range(b - 1)); S = [y - x for x, y in zip([0] + cut, cut + [m])]; P = list(range(b)); rng.shuffle(P)
            out.append(line(op, [r, s], [P, S]))
        elif op in ('add', 'sub', 'hmul', 'hdiv'):
            if t != s: lst(t, m if rng.random() < .9 else m - 1)
            if op == 'hdiv':      # whole quotients
                y = [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(m)]; out.append(line('list', [t], [y]))
                if t != s: out.append(line('list', [s], [[rng.randint(-9, 9) * v for v in y]]))
            out.append(line(op, [r, s, t]))
        elif op in ('addc', 'subc', 'smul'): out.append(line(op, [r, s, c]))
        elif op in ('addeqc', 'subeqc', 'muleqc'): out.append(line(op, [s, c]))
        elif op == 'diveqc': d = rng.choice([1, 2, 3, 5]); out.append(line('muleqc', [s, d])); out.append(line(op, [s, d]))
        elif op == 'concat': lst(t, rng.choice(SIZES)); out.append(line(op, [r], [[rng.choice([s, t]) for _ in range(rng.choice([2, 3, 5]))]]))
        elif op == 'vrange': out.append(line(op, [c, c + m]))
    return out


def c19(ctx):
    drv = build('drv_la', flags=MEMORY)
    ctx.assumptions += ['entries are integers (exactly representable); sizes up to 60 in histories, up to 1025 for single operations',
                        'range(a,b) with a > b is left to the caller (not specified)']
    vals = '{1,2}' if not THOROUGH else '{0,1,3}'
    cfg = 'SPECIFICATION Spec\nCONSTANTS MaxLen=%d Vals=%s Emit=TRUE\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n'
    enc = lambda m: m or []
    for mode in ('vd', 'vi'):
        exhaustive(ctx, drv, mode, 'VectorMC', cfg % (2, vals), enc, mode)
    if THOROUGH:
        exhaustive(ctx, drv, 'vd', 'VectorMC', cfg % (3, '{1,2}'), enc, 'vd3')
    law = tlc('VectorMC', 'SPECIFICATION Spec\nCONSTANTS MaxLen=3 Vals={0,1} Emit=FALSE\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n', timeout=600)
    if not law.ok: raise CheckError('laws: ' + law.out[-1500:])
    n = 6 if not THOROUGH else 60
    for mode in ('vd', 'vi'):
        rng = random.Random('%s-%d' % (mode, SEED))
        for k2 in ((0, -60, 30) if mode == 'vd' else (0,)):
            lockstep(ctx, drv, mode, 'VectorTrace', vector_calls(rng, n, 250, 9) + vector_calls(rng, n, 120, 40), mode, k2)
        lockstep(ctx, drv, mode, 'VectorTrace', vector_calls_large(rng, 12 * len(VOPS) if not THOROUGH else 60 * len(VOPS)), mode + ', large', 0, 100000)
    ctx.extra['exhaustive'] = True


# ------------------------------------------------------------------ matrices
def rand_nonsingular(rng, n):
    """an integer matrix with small entries and non-zero determinant, often needing row exchanges"""
    from fractions import Fraction
    while True:
        A = [[rng.choice([0, 0, 1, -1, 2, -2, 3]) for _ in range(n)] for _ in range(n)]
        if rng.random() < .6 and n > 1: A[0][0] = 0
        B = [[Fraction(x) for x in r] for r in A]; det = 1
        for k in range(n):
            p = next((i for i in range(k, n) if B[i][k]), None)
            if p is None: det = 0; break
            B[k], B[p] = B[p], B[k]
            for i in range(k + 1, n):
                f = B[i][k] / B[k][k]
                for j in range(k, n): B[i][j] -= f * B[k][j]
        if det: return A


def matrix_calls(rng, n_traces, length, kind, maxdim, dims=None):        # dims: larger dimensions to choose from
    out = []
    shape = {}
    def data(r, nr, nc):
        hi = 9 if rng.random() < .85 else 3000; lo = -hi
        out.append(line('data', [r, nr, nc], [[rng.randint(lo, hi) for _ in range(nr * nc)]])); shape[r] = (nr, nc)
    def dim(): return rng.choice(dims) if dims else rng.choice([1, 2, 3, rng.randint(1, maxdim)])
    def little(): return rng.randint(0, 3) if not dims or rng.random() < .5 else rng.choice(dims)
    for _ in range(n_traces):
        out.append(line('reset'))
        for r in range(4): data(r, dim(), dim())
        for _ in range(length):
            r, s, t = (rng.randrange(4) for _ in range(3))
            c = rng.choice([-3, -2, -1, 0, 1, 2, 3])
            op = rng.choice(MOPS[kind])
            if dims:
                out.append(line('reset'))
                for q in range(4): data(q, rng.randint(1, 3), rng.randint(1, 3))
            data(s, dim(), dim())
            nr, nc = shape[s]
            ix = lambda n: rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), n if rng.random() < .3 else 0])
            big = 9 if rng.random() < .85 else 3000
            lst = lambda n: [rng.randint(-big, big) for _ in range(n)]
            if op == 'zeros': out.append(line(op, [r, little(), little()]))
            elif op == 'fill': out.append(line(op, [r, little(), little(), c]))
            elif op in ('copy', 'assign', 'transpose', 'neg'): out.append(line(op, [r, s]))
            elif op == 'copymutate':
                out.append(line('copy', [r, s])); out.append(line('put', [s, 0, 0, 55])); out.append(line('get', [r, 0, 0]))
            elif op == 'shape': out.append(line(op, [s]))
            elif op == 'get': out.append(line(op, [s, ix(nr), ix(nc)]))
            elif op == 'put': out.append(line(op, [s, ix(nr), ix(nc), c]))
            elif op == 'range':
                i, j = rng.randrange(nr), rng.randrange(nc)
                out.append(line(op, [r, s, i, rng.randint(i, nr - (rng.random() > .1)), j, rng.randint(j, nc - (rng.random() > .1))]))
            elif op == 'getrow': out.append(line(op, [s, ix(nr)]))
            elif op == 'getcol': out.append(line(op, [s, ix(nc)]))
            elif op == 'setrow': out.append(line(op, [s, ix(nr)], [lst(nc + (rng.random() < .1))]))
            elif op == 'setcol': out.append(line(op, [s, ix(nc)], [lst(nr + (rng.random() < .1))]))
            elif op == 'indexset':
                I = [ix(nr) for _ in range(rng.randint(0, nr + (rng.random() < .1)))]
                J = [ix(nc) for _ in range(rng.randint(0, nc + (rng.random() < .1)))]
                if rng.random() < .05 and I: I[0] = -1
                if not I or not J: I, J = [min(max(x, 0), nr - 1) for x in I], [min(max(x, 0), nc - 1) for x in J]   # nothing is read then
                out.append(line(op, [r, s], [I, J]))
            elif op == 'permute':
                def blocks():
                    b = rng.randint(1, 4); S = [rng.randint(0, 3) if not dims else rng.randint(0, 20) for _ in range(b)]
                    if not sum(S): S[0] = 1
                    P = list(range(b)); rng.shuffle(P); return P, S
                (I, R), (J, C) = blocks(), blocks()
                data(s, sum(R) + (rng.random() < .05), sum(C) + (rng.random() < .05))
                out.append(line(op, [r, s], [I, J, R, C]))
            elif op == 'getblock':
                i, j = rng.randrange(nr), rng.randrange(nc)
                out.append(line(op, [r, s, i, j, rng.randint(0, nr - i + (rng.random() < .1)), rng.randint(0, nc - j + (rng.random() < .1))]))
            elif op == 'setblock':
                nr, nc = dim(), dim()
                if r != s: data(r, nr, nc)
                data(s, rng.randint(1, nr), rng.randint(1, nc))
                a, b = (nr, nc)
                out.append(line(op, [r, rng.randint(0, max(0, a - shape[s][0])) + (rng.random() < .1), rng.randint(0, max(0, b - shape[s][1])) + (rng.random() < .1), s]))
            elif op in ('addeq', 'subeq', 'infnorm'):
                if rng.random() < .8: data(r, *shape[s])
                out.append(line(op, [r, s]))
            elif op in ('add', 'sub'):
                if rng.random() < .8: data(t, *shape[s])
                out.append(line(op, [r, s, t]))
            elif op in ('addeqc', 'subeqc', 'muleqc'): out.append(line(op, [s, c]))
            elif op == 'smul': out.append(line(op, [r, s, c]))
            elif op == 'matvec': out.append(line(op, [s], [lst(nc + (rng.random() < .1))]))
            elif op == 'matmul':
                if rng.random() < .85:
                    data(t, nc, dim()) if t != s else data(s, nr, nr)
                out.append(line(op, [r, s, t]))
            elif op == 'blockdiag': out.append(line(op, [r], [[rng.randrange(4) for _ in range(rng.choice([1, 2, 3, 4, 4, rng.randint(5, 9)]))]]))
            elif op in ('solvev', 'solvem'):
                n = rng.randint(1, min(maxdim, 7)) if not dims else min(40, dim())
                A = rand_nonsingular(rng, n)
                out.append(line('data', [s, n, n], [[x for row in A for x in row]])); shape[s] = (n, n)
                m = 1 if op == 'solvev' else rng.randint(1, 5)
                X = [[rng.randint(-6, 6) for _ in range(m)] for _ in range(n)]
                B = [[sum(A[i][k] * X[k][j] for k in range(n)) for j in range(m)] for i in range(n)]
                bad = rng.random() < .1
                if op == 'solvev': out.append(line(op, [s], [[b[0] for b in B] + ([1] if bad else [])]))
                else:
                    t = (s + 1) % 4
                    rows = B + ([[1] * m] if bad else [])
                    out.append(line('data', [t, len(rows), m], [[x for row in rows for x in row]])); shape[t] = (len(rows), m)
                    out.append(line(op, [r, s, t]))
                if rng.random() < .05:
                    h, w = rng.choice([(2, 3), (3, 2)]); data(s, h, w)
                    if op == 'solvev': out.append(line('solvev', [s], [[1, 2, 3][:rng.choice([h, w])]]))
                    else: data((s + 1) % 4, rng.choice([h, w]), 2); out.append(line('solvem', [r, s, (s + 1) % 4]))
            # the shape of a result register is not tracked: refresh it before it is used as an operand
            if r != s: data(r, dim(), dim())
    return out

MOPS = dict(
    element=['zeros', 'fill', 'copymutate', 'assign', 'shape', 'get', 'put', 'put', 'range', 'getrow', 'getcol', 'setrow', 'setcol', 'indexset',
             'indexset', 'permute', 'permute', 'getblock', 'setblock', 'setblock', 'transpose', 'blockdiag'],
    arith=['neg', 'addeq', 'subeq', 'infnorm', 'add', 'sub', 'addeqc', 'subeqc', 'muleqc', 'smul', 'matvec', 'matmul', 'matmul',
           'solvev', 'solvem', 'solvem'])


def cmat(ctx, kind):
    drv = build('drv_la', flags=MEMORY)
    ctx.assumptions += ['entries are integers; matrices up to 8x8 in traces (block operations up to 12x12), up to 70x70 for single operations',
                        'submatrix ranges with a > b, products with a zero dimension and singular systems are left to the caller (not specified)']
    enc = lambda m: [m['r'], m['c'], *m['d']] if m else [0, 0]
    cfg = 'SPECIFICATION Spec\nCONSTANTS MaxDim=%d Vals=%s Emit=%s Group="%s"\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n'
    if kind == 'element':
        exhaustive(ctx, drv, 'm', 'MatrixMC', cfg % (3 if THOROUGH else 2, '{0}', 'TRUE', kind), enc, 'm')
    else:
        exhaustive(ctx, drv, 'm', 'MatrixMC', cfg % (2, '{1,2}' if not THOROUGH else '{0,1,3}', 'TRUE', kind), enc, 'm')
    law = tlc('MatrixMC', cfg % (2, '{0,1,2}' if THOROUGH else '{0,1}', 'FALSE', kind), timeout=800)
    if not law.ok: raise CheckError('laws: ' + law.out[-1500:])
    rng = random.Random('%s-%d' % (kind, SEED))
    n = 8 if not THOROUGH else 80
    for k2 in (0, -60, 30): lockstep(ctx, drv, 'm', 'MatrixTrace', matrix_calls(rng, n, 150, kind, 8), kind, k2)
    LARGE = [1, 2, 3, 15, 16, 17, 31, 32, 33, 40, 48, 64, 65, 70]
    for k2 in (0, 30): lockstep(ctx, drv, 'm', 'MatrixTrace', matrix_calls(rng, n, 12 if not THOROUGH else 60, kind, 8, LARGE), kind + ', large', k2, 100000)
    ctx.extra['exhaustive'] = True

def c20(ctx): cmat(ctx, 'element')
def c21(ctx): cmat(ctx, 'arith')
