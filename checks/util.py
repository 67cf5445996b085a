"""C23 options, C24 caches/timers/application object, C25 XML trees, C26 interpolants.
Models: Options.tla, Singleton.tla, XmlTrace.tla, Interp.tla, InterpMC.tla; binding: *Trace.tla with harness/drv_util.cpp."""
import itertools, json, random
from lib.common import *
from checks.la import line
import checks.wrap as wrap

def C(s): return [ord(c) for c in s]

def execute(ctx, drv, calls, args, tag):
    d = tempfile.mkdtemp(prefix='run.', dir=scratch())
    r = run(drv, args, stdin='\n'.join(calls) + '\n', timeout=100, cwd=d)
    log_ = r.out.splitlines()
    if not r.ok or len(log_) != len(calls):
        if not mpi_works(1): raise CheckError('mpirun does not work here')
        k = min(len(log_), len(calls) - 1)
        ctx.fail('%s: %s in call "%s"' % (tag, 'no progress' if r.timed_out else 'the program died (status %s)' % r.rc, calls[k][:300]),
                 dict(arguments=args, script=calls[:k + 1], stderr=r.err[-1500:]))
    return log_

def validate(ctx, module, log_, calls, args, tag):
    t = tlc(module, 'SPECIFICATION Spec\nINVARIANT Conforms\n', workers=1, timeout=800, files={'log': '\n'.join(log_) + '\n'}, heap='3g')
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1]); k = why['at']
        ctx.fail('%s: call %d "%s": wrong: %s; observed %s' % (tag, k, calls[k - 1][:200], fmt(why['wrong'])[:300], log_[k - 1][:800]),
                 dict(arguments=args, wrong=why['wrong'], script=calls[:k], log=log_[k - 1][:8000]))
    if t.states != len(calls) + 1: raise CheckError('the trace was not followed to its end')
    ctx.traces += 1

def campaign(ctx, module, jobs, workers=NCPU):
    drv = build('drv_util', flags=MEMORY)
    def one(j):
        calls, args, tag = j
        validate(ctx, module, execute(ctx, drv, calls, args, tag), calls, args, tag); return j
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try: j = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            for c in j[0]: ctx.bump('calls_' + c.split()[0])
    ctx.sample(dict(arguments=jobs[-1][1], script=[c[:300] for c in jobs[-1][0][:8]]))

# ------------------------------------------------------------------ C23
def number(rng):
    n = rng.randint(1, 9); s = ''.join(rng.choice('0123456789') for _ in range(n))
    if rng.random() < .5:
        k = rng.randint(0, n); s = s[:k] + '.' + s[k:]
    if rng.random() < .3: s += rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 5, 10, 37, 120, 280]))
    return rng.choice(['', '', '-', '+']) + s
WORDS = ['true', 'false', 'True', 'truefalse', 'yes', '', 'fivepoint', 'a b', 'a  b c', '1 2', '1-2', '1.2.3', '2026-01-02', '192.168.0.1', '-', '+', '.', 'e', '1e', 'e1', '.e1', '-.', '--1', '0x10', 'inf', 'nan', '-inf',
         '1f', '10%', '../dir/f.vtk', 'output-1', '1,5', '2147483647', '2147483648', '-2147483648', '-2147483649', '00012', '-0', '+0', '0', '-0.0', '99999999', '1e5', '-3.25e-2', 'x=y', 'a=b=c', '\t', "it's", '[x]', '100 000']
def value(rng):
    k = rng.random()
    if k < .35: return number(rng)
    if k < .45: return str(rng.choice([1, -1]) * rng.randrange(2 ** rng.randrange(1, 31)))
    if k < .8: return rng.choice(WORDS)
    return ''.join(rng.choice('abz019-+._ eE/') for _ in range(rng.randint(0, 12)))
def too_long(v):          # a tie to round, or an exponent outside the range of a double
    m, _, e = v.upper().partition('E')
    d = ''.join(c for c in m if c.isdigit()).lstrip('0')
    return d[9:10] == '5' or len(d) > 14 or len(e.lstrip('+-').lstrip('0')) > 2 and not e.lstrip('+-') in ('120', '280')
NAMES = ['nx', 'ny', 'min-level', 'max-level', 'cache-operators', 'a', 'b', 'A', 'a-b', 'a b', 'solution.name', 'x' * 70, '#a', '//', 'a;b', 'a[0]', '"q"']
def name(rng): return rng.choice(NAMES)
def texts(rng, n):
    r = []
    while len(r) < n:
        v = value(rng)
        if too_long(v): continue
        r.append(v)
    return r
def blanks(rng): return ''.join(rng.choice(' \t' if rng.random() < .9 else '\r\v\f') for _ in range(rng.choice([0, 0, 1, 2, 5])))
def ini_lines(rng):
    end = rng.choice(['', '', '', '\r', '\f'])
    return [ini_line(rng) + (end if rng.random() < .9 else '') for _ in range(rng.randint(0, 20))]
def ini_line(rng):
    k = rng.random()
    if k < .1: return blanks(rng)
    if k < .2: return blanks(rng) + ';' + rng.choice([' nx = 3', '', ' [Other]', '[EllipticForest]'])
    if k < .32: return blanks(rng) + rng.choice(['[EllipticForest]', '[EllipticForest]', '[Other]', '[ellipticforest]', '[EllipticForest2]', '[]', '[Elliptic Forest]']) + blanks(rng)
    if k < .37: return rng.choice(['words without a sign', '[unfinished', 'nx', '# words', '#', '= 3', '[x] = 2', 'b = ; 3', 'a;b = 5', '#a = 1', '// = 2'])
    v = texts(rng, 1)[0]
    return blanks(rng) + name(rng) + blanks(rng) + '=' + blanks(rng) + v + blanks(rng)
def argument(rng, own=False):
    k = rng.random()
    n = ('ef-' if own else '') + name(rng)
    if k < .08: return rng.choice(['word', '3', 'x=y', '12.5'] + ([] if own else ['']))
    d = rng.choice(['--', '--', '-'])
    return d + n + ('' if rng.random() < .2 else '=' + texts(rng, 1)[0])
def script_options(rng, n):
    out = [line('argv', [], [])]
    for _ in range(n):
        k = rng.random()
        if k < .07: out.append(line('new'))
        elif k < .45:
            kind = rng.randrange(4); v = [C(rng.choice(WORDS)), [rng.randrange(2)], C(str(rng.randrange(-2 ** 31, 2 ** 31))), C('%.8e' % (rng.choice([0, 1, -1]) * rng.random() * 10 ** rng.randint(-30, 30)))][kind]
            out.append(line('set', [kind, rng.randrange(3)], [C(name(rng)), v]))
        elif k < .6: out.append(line('file', [rng.randrange(2)], [C(l) for l in ini_lines(rng)]))
        elif k < .66: out.append(line('nofile', *rng.choice([([1], [C('options.txt')]), ([1], [C('abc')]), ([0], [C('no-such.ini')]), ([1], [C('file.in')])])))
        elif k < .8: out.append(line('args', [], [C(argument(rng)) for _ in range(rng.randint(0, 6))]))
        elif k < .9: out.append(line('exists', [], [C(rng.choice([name(rng), '', 'nx ', 'NX', 'n']))]))
        else: out.append(line('values', [], [C(v) for v in texts(rng, 20)]))
    return out
def all_texts(alphabet, n): return [''.join(p) for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]
def c23(ctx):
    rng = random.Random(SEED * 1000 + 23); q = not THOROUGH
    ctx.assumptions.append('numbers of up to nine significant digits with exponents up to 300')
    jobs = []
    for alpha, n in [('1-.ea', 5), ('0+ 2', 5), ('tru e', 4)] if q else [('1-.ea', 6), ('0+ 2', 7), ('01-.', 6), ('19eE+.', 5), ('tru e', 5)]:
        T = all_texts(alpha, n)
        for i in range(0, len(T), 4000): jobs.append(([line('values', [], [C(v) for v in T[j:j + 400]]) for j in range(i, min(i + 4000, len(T)), 400)], [], 'values'))
        ctx.bump('texts_enumerated', len(T))
    K = ['', ';a=3', '[EllipticForest]', ' [EllipticForest]\t', '[Other]', 'a=1', ' a = 2.5 ', 'b=true', 'b = x y', 'a', 'a=', '[EllipticForest'] + ([] if q else ['c=a=b', '\t; [Other]'])
    F = [f for n in range(4 if q else 5) for f in itertools.product(K, repeat=n)]
    if not q: F = [f for f in F if len(f) < 4 or '[EllipticForest]' in f[:2]]
    for i in range(0, len(F), 1000):
        cs = []
        for j in range(i, min(i + 1000, len(F)), 100):
            G = F[j:j + 100]; cs.append(line('files', [len(f) for f in G], [C(l) for f in G for l in f]))
        jobs.append((cs, [], 'files'))
    ctx.bump('files_enumerated', len(F))
    for i in range(12 if q else 300):
        own = [a for a in (argument(rng, True) for _ in range(rng.randint(0, 8)))]
        s = script_options(rng, 60); s[0] = line('argv', [], [C(a) for a in own])
        jobs.append((s, own, 'options'))
    campaign(ctx, 'OptionsTrace', jobs)

# ------------------------------------------------------------------ C24
def script_keeper(rng, n):
    out = []; caches = {}; timers = {0: True}; singles = list(range(4)); names = ['', 'T_leaf', 't_leaf', 'T_leaf ', 'a', 'b' * 300, 'T\tleaf']
    val = lambda: [rng.randint(-99, 99) for _ in range(rng.choice([0, 1, 2, 5, 40]))]
    while len(out) < n:
        k = rng.random()
        if k < .06 or not caches:
            i = rng.randrange(5); m = [rng.choice(names) for _ in range(rng.choice([0, 0, 1, 3, 6]))]
            out.append(line('cnew', [i], [y for x in m for y in (C(x), val())])); caches[i] = set(m)
        elif k < .09: i = rng.randrange(5); j = rng.choice(sorted(caches)); out.append(line('ccopy', [i, j])); caches[i] = set(caches[j])
        elif k < .25: i = rng.choice(sorted(caches)); x = rng.choice(names); out.append(line('cput', [i], [C(x), val()])); caches[i].add(x)
        elif k < .37: i = rng.choice(sorted(caches)); out.append(line('chas', [i], [C(rng.choice(names))]))
        elif k < .49:
            i = rng.choice(sorted(caches))
            if caches[i]: out.append(line('cget', [i], [C(rng.choice(sorted(caches[i])))]))
        elif k < .52: i = rng.choice(sorted(caches)); x = rng.choice(names); out += [line('cref', [i, 0], [C(x)]), line('cwrite', [0], [val()])]; caches[i].add(x)
        elif k < .62: out.append(line('tick', [rng.choice([0, 1, 2, 7, 100, 5000, 86400 * 512, 123456])]))
        elif k < .66: i = rng.randrange(1, 6); out.append(line('tadd', [i])); timers[i] = False
        elif k < .68: i, j = rng.choice(sorted(timers)), rng.choice(sorted(timers)); out.append(line('tcopy', [i, j])) if i else None; timers[i] = timers[j]
        elif k < .78: i = rng.choice(sorted(timers)); out.append(line('start', [i])); timers[i] = True
        elif k < .87:
            i = rng.choice([i for i in timers if timers[i]] or [-1])
            if i >= 0: out.append(line('stop', [i])); timers[i] = False
        elif k < .93: out.append(line('time'))
        elif k < .95: out.append(line('restart', [rng.choice(sorted(timers))]))
        elif k < .98: out.append(line('app', [rng.choice([1, 2, 8])]))
        elif singles: out.append(line('single', [rng.choice([1, 2, 8, 16]), singles.pop(0)]))
    out += [line('single', [8, s]) for s in singles]
    return out
def c24(ctx):
    rng = random.Random(SEED * 1000 + 24); q = not THOROUGH
    ctx.assumptions.append('time is the standard steady clock, replaced by a virtual one')
    n = 5 if q else 7
    t = tlc('Singleton', 'SPECIFICATION Spec\nINVARIANT OneObject\nPROPERTY AllServed\nCONSTANTS N = %d Lock = TRUE\n' % n, timeout=600, heap='12g')
    if not t.ok: raise CheckError('the model of the single object fails:\n' + t.out[-2000:])
    t = tlc('Singleton', 'SPECIFICATION Spec\nINVARIANT OneObject\nCONSTANTS N = 2 Lock = FALSE\n', timeout=300, count=False)
    if t.ok: raise CheckError('the model of the single object accepts two objects')
    campaign(ctx, 'KeeperTrace', [(script_keeper(rng, 300), rng.choice([[], ['--ef-tick=1'], ['--ef-tick=1000'], ['--ef-tick=1000000000']]), 'bookkeeping') for _ in range(16 if q else 400)])

# ------------------------------------------------------------------ C25
def script_xml(rng, n):
    out = []; kids = {}; nid = 0; alpha = 'abcXYZ019 _-.:/;,=%\t'
    word = lambda k: ''.join(rng.choice(alpha[:10]) for _ in range(k))
    def text():
        return rng.choice(['', '', '1 2 3', word(5), '\n'.join(''.join(rng.choice(alpha) for _ in range(rng.randint(0, 30))) for _ in range(rng.randint(1, 5))), ' '.join('%.3f' % rng.random() for _ in range(rng.choice([3, 200])))])
    def below(i): return {i} | {x for k in kids[i] for x in below(k)}
    def size(i): return 1 + sum(size(k) for k in kids[i])
    while len(out) < n:
        k = rng.random()
        if k < .25 or not kids: out.append(line('xnode', [nid], [C(word(rng.choice([1, 4, 20]))), C(text())])); kids[nid] = []; nid += 1
        elif k < .45: out.append(line('xattr', [rng.choice(sorted(kids))], [C(word(rng.randint(1, 5))), C(rng.choice(['', 'v', '0 0 0 1', 'a/b.vtu', word(30), 'p & q', 'a<b>c', '"u"', '&lt;', "it's"]))]))
        elif k < .52: out.append(line('xtext', [rng.choice(sorted(kids))], [C(text())]))
        elif k < .75:
            p, c = rng.choice(sorted(kids)), rng.choice(sorted(kids))
            if p not in below(c) and size(p) + size(c) < 60: out.append(line('xchild', [p, c, rng.randrange(2)])); kids[p].append(c)
        elif k < .93:
            i = rng.choice(sorted(kids))
            if size(i) < 200: out.append(line('xwrite', [i, rng.randrange(3), rng.randrange(2)]))
        else: out.append(line('xshow', [rng.choice(sorted(kids))]))
    for i in sorted(kids): out.append(line('xshow', [i]))
    return out
def trees(n):
    """every ordered tree of n nodes, as the list of the parents in preorder"""
    def go(par, path):
        if len(par) == n: yield par; return
        for k in range(len(path)): yield from go(par + [path[k]], path[:k + 1] + [len(par)])
    yield from go([None], [0])
def c25(ctx):
    rng = random.Random(SEED * 1000 + 25); q = not THOROUGH
    jobs = []; cs = []; nid = 0
    for n in range(1, 7 if q else 9):
        for par in trees(n):
            ctx.bump('tree_shapes')
            for k in range(n): cs.append(line('xnode', [nid + k], [C(chr(97 + k)), C('t%d' % k if (k + n) % 3 == 0 else '')]))
            for k in range(n): cs += [line('xattr', [nid + k], [C('k%d' % j), C('v' * j)]) for j in range((k * 2 + n) % 3)]
            for k in range(1, n): cs.append(line('xchild', [nid + par[k], nid + k, k % 2]))
            cs.append(line('xwrite', [nid, 0, 0])); nid += n
            if len(cs) > 600: jobs.append((cs, [], 'shapes')); cs = []
    if cs: jobs.append((cs, [], 'shapes'))
    for n in (9, 17, 33) if q else (9, 16, 17, 33, 65, 100):                    # long chains, wide nodes, combs; many attributes, long texts
        for shape in range(4):
            par = [None] + [[k - 1, 0, max(0, k - 1 - k % 2), rng.randrange(k)][shape] for k in range(1, n)]; nid = 0; cs = []
            for k in range(n): cs.append(line('xnode', [k], [C('n%d' % k), C('' if rng.random() < .6 else 'x' * rng.choice([1, 80, 255, 256, 1000]))]))
            for k in range(n):
                for j in range(rng.choice([0, 0, 1, 2, 12, 40])): cs.append(line('xattr', [k], [C('a%d' % j), C(rng.choice(['', 'v%d' % j, '<&>', 'w' * 300]))]))
            for k in range(1, n): cs.append(line('xchild', [par[k], k, rng.randrange(2)]))
            cs += [line('xwrite', [0, 0, 0]), line('xwrite', [n - 1, 0, 0]), line('xwrite', [n // 2, 1, 0]), line('xwrite', [0, 2, 1])]
            jobs.append((cs, [], 'deep and wide'))
    jobs += [(script_xml(rng, 150), [], 'documents') for _ in range(12 if q else 400)]
    campaign(ctx, 'XmlTrace', jobs)

# ------------------------------------------------------------------ C26
def script_interp(rng, n):
    out = []; tabs = {}
    while len(out) < n:
        k = rng.random()
        if k < .12 or not tabs:
            m = rng.choice([2, 2, 3, 4, 5, 8, 16, 17, rng.randint(6, 70), 100, rng.choice([127, 128, 129, 256, 257, 600])]); x = [rng.randint(-50, 50)]
            for _ in range(m - 1): x.append(x[-1] + rng.choice([1, 1, 2, 4, 8]))
            if rng.random() < .5: x.reverse()
            shape = rng.choice(['random', 'random', 'line', 'flat', 'step'])
            y = {'random': [rng.randint(-1000, 1000) for _ in x], 'line': [3 * v - 7 for v in x], 'flat': [5] * m, 'step': [0 if i < m // 2 else 900 for i in range(m)]}[shape]
            i = rng.randrange(4); out.append(line('inew', [i, rng.choice([0, 0, -60, -27, 30]), rng.choice([0, 0, -60, -27, 30])], [x, y])); tabs[i] = x
        else:
            i = rng.choice(sorted(tabs)); x = tabs[i]; lo, hi = 4 * min(x), 4 * max(x); Q = []
            for _ in range(rng.choice([0, 1, 1, 5, 40])):
                r = rng.random()
                if r < .4: Q.append(4 * rng.choice(x))
                elif r < .75: Q.append(rng.randint(lo, hi))
                elif r < .85: Q.append(4 * rng.choice(x) + rng.choice([-1, 1]))
                else: Q.append(rng.choice([lo, hi]) + rng.randint(-40, 40))
            w = rng.random()
            if w < .25: Q.sort()
            elif w < .4: Q.sort(reverse=True)
            out.append(line(rng.choice(['iat', 'iall']), [i], [Q]))
    return out
def c26(ctx):
    rng = random.Random(SEED * 1000 + 26); q = not THOROUGH
    ctx.assumptions.append('integer samples and steps that divide eight, for which the arithmetic is exact')
    n = 6 if q else 12
    cfg = 'SPECIFICATION Spec\nINVARIANT Right\nCONSTANTS NMax = %d Defect = %s\n'
    t = tlc('InterpMC', cfg % (n, 'FALSE'), timeout=800, heap='12g')
    if not t.ok: raise CheckError('the search model fails:\n' + t.out[-2000:])
    t = tlc('InterpMC', cfg % (6, 'TRUE'), timeout=300, count=False)
    if t.ok: raise CheckError('the search model accepts a wrong segment')
    # every table of up to four/five samples (ascending and descending), every pair of successive queries
    jobs = []; cs = []
    for m in range(2, 6 if q else 8):
        for up in (1, 0):
            x = list(range(m)) if up else list(range(m))[::-1]; y = [(7 * i * i + 3 * i) % 23 for i in range(m)]
            Q = list(range(-4, 4 * m + 1, 2)); walk = []
            for a in Q:
                for b in Q: walk += [a, b]
            ux, uy = rng.choice([0, -60, -27, 30]), rng.choice([0, -60, -27, 30])
            cs += [line('inew', [0, ux, uy], [x, y]), line('iat', [0], [walk]), line('inew', [1, uy, ux], [x, y]), line('iall', [1], [walk])]
    jobs.append((cs, [], 'pairs of queries'))
    jobs += [(script_interp(rng, 150), [], 'interpolation') for _ in range(12 if q else 400)]
    campaign(ctx, 'InterpTrace', jobs)
