"""C22 transfers between processes.  Model: Transfer.tla, TransferMC.tla; binding: TransferTrace.tla."""
import json, random, shutil
from lib.common import *
from checks.la import line

NT = 28                      # types in harness/drv_mpi.cpp; the last three are only broadcast
FIXED = 15                   # the first of them are single numbers

def execute(ctx, drv, np, calls, tag, timeout=120):
    """Runs a script on np processes and merges the logs; what stops is a violation."""
    d = tempfile.mkdtemp(prefix='run.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(drv, [d + '/script', d + '/log'], np=np, timeout=timeout, cwd=d)
    logs = [open('%s/log.%d' % (d, k)).read().splitlines() if os.path.exists('%s/log.%d' % (d, k)) else [] for k in range(np)]
    res = []
    for k, c in enumerate(calls):
        try: lines = [json.loads(l[k]) for l in logs]
        except (IndexError, ValueError):
            if not mpi_works(np): raise CheckError('mpirun does not work here')
            ctx.fail('%s, %d processes: %s in call "%s"' % (tag, np, 'no progress' if r.timed_out else 'the program died (status %s)' % r.rc, c[:300]),
                     dict(processes=np, script=calls[:k + 1], stderr=r.err[-1500:]))
        e = {x: lines[0][x] for x in ('op', 'a', 'L')}
        e['r'] = [{x: y for x, y in l.items() if x not in ('op', 'a', 'L')} for l in lines]
        res.append(json.dumps(e, separators=(',', ':')))
    if not r.ok: ctx.fail('%s, %d processes: the program died at its end (status %s)' % (tag, np, r.rc), dict(processes=np, script=calls, stderr=r.err[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    return res

def validate(ctx, module, np, log_, calls, tag, consts=''):
    t = tlc(module, 'SPECIFICATION Spec\nINVARIANT Conforms\nCONSTANTS P = %d %s\n' % (np, consts), workers=1, timeout=800, files={'log': '\n'.join(log_) + '\n'}, heap='3g')
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1]); k = why['at']
        ctx.fail('%s, %d processes: call %d "%s": wrong: %s; observed %s' % (tag, np, k, calls[k - 1][:200], why['wrong'], log_[k - 1][:800]),
                 dict(processes=np, wrong=why['wrong'], script=calls[:k], log=log_[k - 1][:8000]))
    if t.states != len(calls) + 1: raise CheckError('the trace was not followed to its end')
    ctx.traces += 1

def campaign(ctx, driver, module, jobs, consts='', workers=4, flags=()):
    drv = build(driver, flags=flags)
    def one(j):
        l = execute(ctx, drv, *j); validate(ctx, module, j[0], l, j[1], j[2], consts); return j
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try: j = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            for c in j[1]: ctx.bump('calls_' + c.split()[0])
            ctx.bump('runs_on_%d_processes' % j[0])
    ctx.sample(dict(processes=jobs[0][0], script=[c[:300] for c in jobs[0][1][:6]]))

def sizes(rng, big): return rng.choice([0, 0, 1, 1, 2, 3, 7, 20, 60] + ([300, 3000, 20000] if big else []))

def script_transfers(rng, np, n):
    out = []; comms = {0: list(range(np))}; queues = {}; seed = rng.randrange(10 ** 6)
    have = set()
    def fresh(slot, big):
        nonlocal seed; seed += 1
        t = slot % NT
        if t >= NT - 3: big = False
        return line('set', [slot, seed] + [sizes(rng, big) for _ in range(np)])
    def ensure(slot, big=False):
        if slot not in have or rng.random() < .3: out.append(fresh(slot, big)); have.add(slot)
    seq = 0; newc = 1
    while seq < n:
        seq += 1
        k = rng.random(); c = rng.choice(sorted(comms)); m = len(comms[c])
        if k < .06 and newc < 20 and m > 1:
            f = rng.randrange(m); l = rng.randint(f, m - 1)
            out.append(line('comm', [newc, c, f, l])); comms[newc] = comms[c][f:l + 1]; newc += 1
        elif k < .09: out.append(line('name', [c], [[rng.randint(33, 126) for _ in range(rng.randint(0, 60))]]))
        elif k < .35:
            slot = rng.randrange(2 * NT); ensure(slot, True)
            out.append(line('bcast', [slot, c, rng.randrange(m)]))
        elif k < .48:
            kind = rng.randrange(10); even = kind % 2
            if kind >= 8: counts = [1] * m
            elif even: counts = [rng.choice([0, 1, 2, 5, 40])] * m
            else: counts = [rng.choice([0, 1, 2, 5, 17]) for _ in range(m)]
            # displacements: in order or permuted, with gaps
            order = list(range(m))
            if not even: rng.shuffle(order)
            disp = [0] * m; at = 0
            for r in order:
                if not even: at += rng.choice([0, 0, 1, 3])
                disp[r] = at; at += counts[r]
            total = at + (0 if even and rng.random() < .5 else rng.choice([0, 2]))
            if kind >= 8: total = max(total, 1)
            pieces = [[rng.randint(-10 ** 6, 10 ** 6) for _ in range(x)] for x in counts]
            out.append(line('gather', [c, kind] + disp, pieces + [[rng.randint(-99, 99) for _ in range(total)]]))
        elif k < .55:
            kind = rng.randrange(4); w = rng.choice([0, 1, 4, 30]) if kind == 3 else 1
            out.append(line('reduce', [c, kind, rng.randrange(3)], [[rng.randint(-10 ** 6, 10 ** 6) for _ in range(w)] for _ in range(m)]))
        elif m > 1:
            slot = rng.randrange(NT - 3) + NT * rng.randrange(2)
            s, d = rng.sample(range(m), 2); tag = rng.choice([0, 1, 2, 3, 7])
            if rng.random() < .5 and not any(q for q in queues.values()):          # at once; may be long
                ensure(slot, True)
                out.append(line('send', [slot, c, s, d, tag])); out.append(line('recv', [(slot + rng.choice([0, NT])) % (2 * NT), c, s, d, tag, rng.randrange(2)]))
                if out[-1].split()[2] != str(slot) and (slot + NT) % (2 * NT) not in have:
                    o = int(out[-1].split()[2]); i = len(out) - 2; out.insert(i, fresh(o, True)); have.add(o)
            else:                            # short values: several on their way at a time, received in any order of tags
                out.append(fresh(slot, False)); have.add(slot)
                out.append(line('send', [slot, c, s, d, tag])); queues.setdefault((c, s, d, tag), []).append(slot)
        pend = [q for q in queues if queues[q]]
        while pend and (rng.random() < .35 or seq == n or sum(map(len, queues.values())) > 6):
            q = rng.choice(pend); slot = queues[q].pop(0); o = (slot + rng.choice([0, NT])) % (2 * NT)
            if o not in have: out.append(fresh(o, False)); have.add(o)
            out.append(line('recv', [o, *q, rng.randrange(2)]))
            pend = [q for q in queues if queues[q]]
    if np > 1:                               # a receiver must not read what it was never given: a very long text, short ones elsewhere
        r = rng.randrange(np); seed += 1
        out.append(line('set', [15, seed] + [2000 if k == r else k % 5 for k in range(np)])); out.append(line('bcast', [15, 0, r]))
        have.add(15)
    for slot in rng.sample(list(range(15, 23)) + list(range(NT + 15, NT + 23)), 2):     # very long ones
        r = rng.randrange(np); seed += 1
        out.append(line('set', [slot, seed] + [rng.randint(66000, 140000) if k == r else k % 5 for k in range(np)])); have.add(slot)
        if np > 1 and rng.random() < .5:
            d = rng.choice([k for k in range(np) if k != r])
            out.append(line('send', [slot, 0, r, d, 1])); out.append(line('recv', [slot, 0, r, d, 1, 1]))
        out.append(line('bcast', [slot, 0, r]))
    if np > 2:                               # a receiver asks for the later of two senders first
        for t in rng.sample(range(NT - 3), 9):
            d, *src = rng.sample(range(np), 3); tag = rng.choice([0, 3])
            for x in (t, t + NT): out.append(fresh(x, False)); have.add(x)
            for s in src: out.append(line('send', [t, 0, s, d, tag]))
            for s in reversed(src): out.append(line('recv', [t + NT, 0, s, d, tag, rng.randrange(2)]))
    for s in sorted(have): out.append(line('show', [s]))
    return out

def c22(ctx):
    rng = random.Random(SEED * 1000 + 22); q = not THOROUGH
    ctx.assumptions.append('MPI itself keeps its promises (order per source and tag); short messages are buffered by it')
    for n, tags in [(2, '0..3'), (3, '0..2')] if q else [(3, '0..3'), (4, '0..2')]:
        t = tlc('TransferMC', 'SPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Complete\nCONSTANTS N = %d Tags = {%s} Scheme = "one"\n' %
                (n, ','.join(map(str, range(int(tags[-1]) + 1)))), timeout=800, heap='12g')
        if not t.ok: raise CheckError('the transfer model does not satisfy its properties:\n' + t.out[-2000:])
    t = tlc('TransferMC', 'SPECIFICATION Spec\nINVARIANT Exact\nCONSTANTS N = 2 Tags = {0,1} Scheme = "shifted"\n', timeout=300, count=False)
    if t.ok: raise CheckError('the transfer model accepts matrices sent under several tags')
    campaign(ctx, 'drv_mpi', 'TransferTrace', [(np, script_transfers(rng, np, 60), 'transfers') for np in [1, 2, 3, 4, 2, 3, 5, 2] * (3 if q else 40) + ([11] if q else [8, 9, 11, 16] * 4)], flags=MEMORY)

# ------------------------------------------------------------------ C27
def parts(rng, n, k):        # n as k sizes, some of them zero
    c = sorted(rng.randint(0, n) for _ in range(k - 1)); return [b - a for a, b in zip([0] + c, c + [n])]
def split(n, k): return [n // k + (r < n % k) for r in range(k)]

def script_distributed(rng, np, n):
    out = []; comms = {0: (0, np - 1)}; V = {}; M = {}; newc = 1; ids = iter(range(10 ** 6)); num = lambda: rng.randint(-9, 9)
    size = lambda c: comms[c][1] - comms[c][0] + 1
    dims = lambda: rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12])
    def full(c): return c
    def show(k, i): out.append(line('vget', [i]) if k == 'v' else line('mget', [i, rng.randrange(3)]))
    def fill(k, i):
        o = (V if k == 'v' else M)[i]; w = size(o['c']); mode = rng.randrange(2)
        for _ in range(rng.choice([1, 1, 2])):
            L = []
            if k == 'v':
                own = list(range(o['n'])); rng.shuffle(own)
                for r in range(w):
                    I = ([own.pop() for _ in range(rng.randint(0, len(own)))] if mode == 0 else [rng.randrange(o['n']) for _ in range(rng.choice([0, 1, 2, 4, 6, 20]))] if o['n'] else [])
                    L += [I, [num() for _ in I]]
                out.append(line('vset', [i, mode, rng.randrange(2)], L))
                if mode == 0: break               # one insertion an entry and assembly
            else:
                rows = list(range(o['m'])); rng.shuffle(rows)
                for r in range(w):
                    I = ([rows.pop() for _ in range(rng.randint(0, len(rows)))] if mode == 0 else rng.sample(range(o['m']), rng.randint(0, min(o['m'], 3))))
                    J = rng.sample(range(o['n']), rng.randint(0, o['n'])); L += [I, J, [num() for _ in range(len(I) * len(J))]]
                out.append(line('mset', [i, mode, rng.randrange(3)], L))
                if mode == 0: break
        out.append(line('vasm', [i]) if k == 'v' else line('masm', [i, 1]))
        if rng.random() < .8: show(k, i)
    def newv(c, n_, loc=None):
        i = next(ids)
        if loc is None and rng.random() < .5:
            out.extend([line('vser', [i, c, rng.randrange(2)], [[num() for _ in range(n_)]]), line('vasm', [i])]); loc = split(n_, size(c))
        else:
            if loc is None and rng.random() < .5: loc = parts(rng, n_, size(c))
            out.extend([line('vnew', [i, c, rng.randrange(2), n_], [loc or []]), line('vasm', [i])]); loc = loc or split(n_, size(c))
        V[i] = dict(c=c, n=n_, s=loc, o=object()); show('v', i); return i
    def newm(c, m, n_, typ=None):
        i = next(ids); t = rng.choice([-1, 0, 1]) if typ is None else typ; rs, cs = split(m, size(c)), split(n_, size(c)); k = rng.random()
        if k < .45: out.append(line('mser', [i, c, t, m, n_], [[num() for _ in range(m * n_)]]))
        elif k < .55 and typ is None: out.append(line('mown', [i, c, m, n_])); t = 1
        else:
            if rng.random() < .5: rs, cs = parts(rng, m, size(c)), parts(rng, n_, size(c)); out.append(line('mnew', [i, c, t, m, n_], [rs, cs]))
            else: out.append(line('mnew', [i, c, t, m, n_], [[], []]))
            if t != 1:                   # sparse: every entry is given a place at first
                rows = list(range(m)); rng.shuffle(rows); L = []
                for q in parts(rng, m, size(c)): R = [rows.pop() for _ in range(q)]; L += [R, rng.sample(range(n_), n_), [num() for _ in range(q * n_)]]
                out.append(line('mset', [i, 0, rng.randrange(3)], L))
        out.append(line('masm', [i, 1])); M[i] = dict(c=c, m=m, n=n_, rs=rs, cs=cs, t=1 if t == 1 else 0, o=object()); show('m', i); return i
    while len(out) < n:
        k = rng.random(); c = rng.choice(sorted(comms))
        if k < .05 and newc < 12 and size(c) > 1:
            f = rng.randrange(size(c)); l = rng.randint(f, size(c) - 1); out.append(line('comm', [newc, c, f, l])); comms[newc] = (comms[c][0] + f, comms[c][0] + l); newc += 1
        elif k < .15: newv(c, dims())
        elif k < .28: newm(c, dims(), dims())
        elif k < .38 and V: fill('v', rng.choice(sorted(V)))
        elif k < .52 and M:
            i = rng.choice(sorted(M))
            if not M[i].get('fixed'): fill('m', i)
        elif k < .58 and V:              # copies, assignments, ends
            i = rng.choice(sorted(V)); j = next(ids); w = rng.random()
            if w < .5: out.append(line('vcopy', [j, i])); V[j] = V[i]; show('v', j)
            elif w < .7:
                T = [t for t in V if V[t]['c'] == V[i]['c']]; t = rng.choice(T); out.append(line('vassign', [t, i])); V[t] = V[i]; show('v', t)
            elif w < .8: 
                T = [t for t in V if V[t]['c'] == V[i]['c'] and t != i]
                if T: t = rng.choice(T); out.append(line('vmove', [t, i])); V[t] = V[i]; out.append(line('vdel', [i])); del V[i]; show('v', t)
            elif w < .85 and V[i]['c'] == 0: out += [line('vnone', [j, rng.randrange(2)]), line('vassign', [j, i])]; V[j] = V[i]; show('v', j)
            else: out.append(line('vdel', [i])); del V[i]
        elif k < .65 and M:
            i = rng.choice(sorted(M)); j = next(ids); w = rng.random()
            if w < .5: out.append(line('mcopy', [j, i])); M[j] = M[i]; t = j
            elif w < .7:
                T = [t for t in M if M[t]['c'] == M[i]['c'] and t != i]; t = None
                if T: t = rng.choice(T); out += [line('mmove', [t, i]), line('mdel', [i])]; M[t] = M.pop(i)
            elif w < .8 and M[i]['c'] == 0: out += [line('mnone', [j, rng.randrange(2)]), line('mmove', [j, i]), line('mdel', [i])]; M[j] = M.pop(i); t = j
            else: out.append(line('mdel', [i])); del M[i]; t = None
            if t is not None and not M[t].get('fixed'): show('m', t)
        elif k < .71 and V:
            i = rng.choice(sorted(V)); T = [t for t in V if V[t]['c'] == V[i]['c'] and V[t]['s'] == V[i]['s'] and V[t]['o'] is not V[i]['o']]
            if not T: T = [newv(V[i]['c'], V[i]['n'], V[i]['s'])]
            out.append(line('vaxpy', [i, num(), rng.choice(T)])); show('v', i)
            # keep the numbers small
            out.append(line('vdel', [i])); o = V.pop(i)
            for x in [x for x in V if V[x] is o]: out.append(line('vdel', [x])); del V[x]
        elif k < .76 and M:
            i = rng.choice(sorted(M)); o = M[i]; T = [t for t in M if M[t]['c'] == o['c'] and M[t]['rs'] == o['rs'] and M[t]['cs'] == o['cs'] and M[t]['t'] == o['t'] and M[t]['o'] is not o['o'] and not M[t].get('fixed')]
            if T and not o.get('fixed'): out.append(line('maxpy', [i, num(), rng.choice(T)])); show('m', i); out.append(line('mset', [i, 0, 1], [y for r in range(size(o['c'])) for y in ((list(range(o['m'])), list(range(o['n'])), [1] * (o['m'] * o['n'])) if r == 0 else ([], [], []))])); out.append(line('masm', [i, 1]))
        elif k < .84 and M:
            i = rng.choice(sorted(M)); o = M[i]; x = newv(o['c'], o['n'], o['cs']); y = newv(o['c'], o['m'], o['rs'])
            fill('v', x); out.append(line('mmul', [y, i, x])); show('v', y)
            if rng.random() < .7:
                for z in (x, y): out.append(line('vdel', [z])); del V[z]
        elif k < .89:
            i = next(ids); kind = rng.choice([-1, 0, 1, 2]); c = 0 if kind < 0 else c; m = dims()
            out.append(line('mid', [i, c, kind, m])); M[i] = dict(c=c, m=m, n=m, rs=split(m, size(c)), cs=split(m, size(c)), t=kind, o=object(), fixed=True)
            if kind > 0: show('m', i)
        elif k < .95 and M:
            i = rng.choice(sorted(M)); o = M[i]; w = size(o['c'])
            if o.get('fixed') or not o['m'] or not o['n']: continue
            L = []; at = [0, 0]              # increasing, each from what the process itself holds: the library asks for that
            for r in range(w):
                for x, sh in enumerate((o['rs'], o['cs'])):
                    L.append(sorted(rng.sample(range(at[x], at[x] + sh[r]), rng.randint(0, sh[r])))); at[x] += sh[r]
            j = next(ids); out.append(line('msub', [j, i], L)); M[j] = dict(c=o['c'], m=sum(len(l) for l in L[::2]), n=sum(len(l) for l in L[1::2]), rs=[len(l) for l in L[::2]], cs=[len(l) for l in L[1::2]], t=o['t'], o=object()); show('m', j)
        elif np > 1:                     # one matrix a group of neighbours, brought together
            cuts = sorted(rng.sample(range(1, np), rng.randint(0, np - 1))); n_ = rng.choice([1, 2, 3, 5]); t = rng.choice([0, 1]); held = []
            for f, l in zip([0] + cuts, cuts + [np]):
                if newc >= 60: break
                out.append(line('comm', [newc, 0, f, l - 1])); comms[newc] = (f, l - 1); i = newm(newc, rng.choice([1, 2, 3, 4]), n_, t); held += [i] * (l - f); newc += 1
            if len(held) == np:
                j = next(ids); out.append(line('mcat', [j, 0], [held])); M[j] = dict(c=0, m=0, n=n_, rs=[], cs=[], t=t, o=object(), fixed=True); show('m', j); out.append(line('mdel', [j])); del M[j]
    for i in sorted(V): show('v', i)
    for i in sorted(M):
        if not M[i].get('fixed'): show('m', i)
    return out

def c27(ctx):
    rng = random.Random(SEED * 1000 + 27); q = not THOROUGH
    ctx.assumptions.append('PETSc itself does what its interface says (the wrappers of it in the repository are what is decided)')
    campaign(ctx, 'drv_par', 'ParTrace', [(np, script_distributed(rng, np, 120), 'distributed objects') for np in [1, 2, 3, 4, 2, 3, 5, 2] * (3 if q else 40) + ([11] if q else [8, 9, 11, 16] * 4)], flags=MEMORY)
