"""C31: what the library prints shows what it was given.
PrintTrace.tla states the text of every message and listing for the options and timers set so far; every call of random histories of the
real code on 1 to 4 processes is compared with it."""
import json, random, re
from lib.common import *
from checks.keep import line

PLAIN = [c for c in range(32, 127) if c not in (34, 37, 92)] + [9]
def words(rng, n, chars=PLAIN): return [rng.choice(chars) for _ in range(n)]
def length(rng): return rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 30] + [300, 1100, 5000] * (rng.random() < .1))
def quarters(rng): return rng.choice([rng.randint(-39, 39), rng.randint(-9, 9) * 4, 0, rng.randint(-399, 399), rng.randint(-9999, 9999) * 4])

def history(rng, n):
    keys = [words(rng, rng.randint(1, 6), [65, 66, 97, 98, 45, 95, 48, 49]) for _ in range(6)]; tkeys = [words(rng, rng.randint(1, 20)) for _ in range(4)]
    calls = []
    for _ in range(n):
        k = rng.choice(['log', 'head', 'log', 'head', 'set', 'set', 'options', 'copied', 'timer', 'vec', 'mat', 'node', 'patch'])
        if k in ('log', 'head'):
            how = rng.randint(0, 4)
            calls.append(line(k, [how, rng.choice([rng.randint(-399, 399), 0, 399999, -2000000000]) if how in (1, 4) else rng.randint(-399, 399), rng.choice([0, 7, -5, 2000000000])], [words(rng, length(rng)), words(rng, length(rng))]))
        elif k == 'set':
            t = rng.randint(0, 3)
            calls.append(line('set', [t, rng.randint(0, 1) if t == 0 else rng.choice([0, -1, 5, 123456, 2000000000, -2000000000]) if t == 1 else rng.randint(-399, 399)], [rng.choice(keys), words(rng, length(rng))]))
        elif k in ('options', 'copied'): calls.append(line(k))
        elif k == 'timer': calls.append(line('timer', [rng.randint(0, 1)], [rng.choice(tkeys)]))
        elif k in ('vec', 'mat'):
            d = rng.randint(0, 1)
            m, n2 = (rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 30]), 1) if k == 'vec' else (rng.randint(0, 5), rng.randint(0, 9))
            x = [quarters(rng) if d else rng.choice([0, 1, -1, rng.randint(-99, 99), 2000000000, -1234567]) for _ in range(m * n2)]
            calls.append(line(k, [d] if k == 'vec' else [d, m, n2], [x]))
        elif k == 'node': calls.append(line('node', [rng.randint(0, 12), rng.randint(0, 40), rng.randint(0, 40)], [[48] + words(rng, rng.randint(0, 12), [48, 49, 50, 51])]))
        else:
            x0, y0 = rng.randint(-99, 99), rng.randint(-99, 99)
            calls.append(line('patch', [rng.randint(1, 9), rng.randint(1, 9), x0, x0 + rng.randint(1, 99), y0, y0 + rng.randint(1, 99), rng.randint(0, 5), rng.randint(0, 1)],
                              [[rng.randint(0, 9) for _ in range(8)], [rng.randint(0, 40) for _ in range(6)]]))
    return calls

def play(ctx, job):
    np, calls = job
    d = tempfile.mkdtemp(prefix='print.', dir=scratch())
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(build('drv_print', flags=MEMORY), [d + '/script', d + '/log'], np=np, timeout=60)
    logs = [open('%s/log.%d' % (d, k)).read().splitlines() if os.path.exists('%s/log.%d' % (d, k)) else [] for k in range(np)]
    shutil.rmtree(d, ignore_errors=True)
    if not r.ok or any(len(l) != len(calls) + 2 for l in logs):
        if not mpi_works(np): raise CheckError('mpirun does not work here')
        ctx.fail('%d processes: %s' % (np, 'no progress' if r.timed_out else 'the program died (status %s) in call %s' % (r.rc, [calls[len(l) - 1] if 0 < len(l) <= len(calls) else 'at its begin or end' for l in logs])),
                 dict(processes=np, calls=calls, stderr=r.err[-2000:]))
    out = []
    for l in logs:
        for x in l[:-1]: out.append(x)
        e = json.loads(l[-1])
        e['out'] = re.sub(r' : [0-9]+(\.[0-9]+)?(e[-+][0-9]+)? \[sec\]\n', ' : T [sec]\n', e['out']); out.append(json.dumps(e))
    return out

def c31(ctx):
    rng = random.Random(SEED * 1000 + 31)
    jobs = [(np, history(rng, 60)) for np in (1, 1, 2, 3, 4) * (2 if not THOROUGH else 40)]
    build('drv_print', flags=MEMORY)
    with cf.ThreadPoolExecutor(3) as ex: got = list(ex.map(lambda j: play(ctx, j), jobs))
    lines = [x for g in got for x in g]; owner = [k for k, g in enumerate(got) for _ in g]
    t = tlc('PrintTrace', 'SPECIFICATION Spec\nINVARIANT Report\n', workers=1, timeout=900, files=dict(log=''.join(x + '\n' for x in lines)))
    if not t.ok or len(t.prints) != 1: raise CheckError('PrintTrace:\n' + t.out[-2500:])
    res = json.loads(t.prints[0])
    if res['wrong']:
        w = res['wrong'][0]; np, calls = jobs[owner[w['at'] - 1]]; e = json.loads(lines[w['at'] - 1])
        ctx.fail('process %d of %d, call "%s": the text is %r, not %r' % (e['p'], np, e['op'], w['said'][:400], w['expected'][:400]), dict(processes=np, calls=calls, event=e, expected=w['expected']))
    if res['at'] != len(lines): raise CheckError('PrintTrace did not read everything')
    ctx.traces += sum(j[0] for j in jobs); ctx.bump('texts_compared', len(lines)); ctx.sample(dict(processes=jobs[0][0], calls=jobs[0][1][:8]))
