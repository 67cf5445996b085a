"""C11 refinement, C12 mesh iteration and functions, C13 output files.
Model: Refine.tla, RefineMC.tla (every order of splits); binding: MeshTrace.tla."""
import json, random, re, shutil
import xml.etree.ElementTree as ET
from lib.common import *
from checks.la import line
from checks.tree import parents, leaves, random_tree, cuts

# ------------------------------------------------------------------ reading output files (only syntax; meaning is MeshTrace.tla's)
def num(x, scale, unit=1):
    v = float(x) / unit * scale
    r = round(v)
    return r if abs(v - r) < 2e-3 * max(1, scale / 1000) and abs(r) < 7e8 else 777777777

def numbers(el, scale=1, unit=1): return [num(x, scale, unit) for x in (el.text or '').split()]

def only(el, tag):
    f = el.findall(tag)
    if len(f) != 1: raise ValueError('%d elements %s in %s' % (len(f), tag, el.tag))
    return f[0]

def tree_of(path, kind):
    root = ET.parse(path).getroot()
    if root.tag != 'VTKFile' or root.get('type') != kind: raise ValueError('%s is not a %s' % (path, kind))
    return only(root, kind)

def data_arrays(p, kind, unit):
    r = []
    for y in p.findall(kind):
        if y.get('Scalars').split() != ' '.join(d.get('Name') for d in y.findall('DataArray')).split(): raise ValueError('Scalars')
        for d in y.findall('DataArray'):
            v = numbers(d, 1000, unit)
            r.append(dict(name=d.get('Name'), comps=int(d.get('NumberOfComponents', '1')), v=v,
                          lo=num(d.get('RangeMin', 'nan') if v else 0, 1000, unit), hi=num(d.get('RangeMax', 'nan') if v else 0, 1000, unit)))
    return r

def rect(path, root, unit):
    name = os.path.relpath(path, root)
    try:
        g = tree_of(path, 'RectilinearGrid'); p = only(g, 'Piece'); co = only(p, 'Coordinates').findall('DataArray')
        return dict(ok=1, name=name, whole=[int(x) for x in g.get('WholeExtent').split()], extent=[int(x) for x in p.get('Extent').split()],
                    coords=[numbers(d, 1000, unit) for d in co], arrays=data_arrays(p, 'CellData', unit), parrays=data_arrays(p, 'PointData', unit))
    except Exception as e: return dict(ok=0, name=name, why=str(e)[:200])

def piece(path, unit):
    try:
        p = only(tree_of(path, 'UnstructuredGrid'), 'Piece')
        pts = only(only(p, 'Points'), 'DataArray')
        cells = {d.get('Name'): d for d in only(p, 'Cells').findall('DataArray')}
        if set(cells) != {'connectivity', 'offsets', 'types'} or len(only(p, 'Cells')) != 3: raise ValueError('cells')
        arrays, parrays = data_arrays(p, 'CellData', unit), data_arrays(p, 'PointData', unit)
        if any(x.get('format') != 'ascii' for x in p.iter('DataArray')): raise ValueError('format')
        return dict(ok=1, np=int(p.get('NumberOfPoints')), nc=int(p.get('NumberOfCells')), comps=int(pts.get('NumberOfComponents')), pts=numbers(pts, 1, unit),
                    conn=numbers(cells['connectivity']), off=numbers(cells['offsets']), typ=numbers(cells['types']), arrays=arrays, parrays=parrays)
    except Exception as e:
        return dict(ok=0, why='%s: %s' % (os.path.basename(path), str(e)[:200]))

def index(path, root, unit):
    name = os.path.relpath(path, root)
    try:
        g = tree_of(path, 'PUnstructuredGrid')
        pp = only(only(g, 'PPoints'), 'PDataArray')
        cells = [dict(name=d.get('Name'), comps=int(d.get('NumberOfComponents', '1'))) for x in g.findall('PCellData') for d in x.findall('PDataArray')]
        pcells = [dict(name=d.get('Name'), comps=int(d.get('NumberOfComponents', '1'))) for x in g.findall('PPointData') for d in x.findall('PDataArray')]
        files = [os.path.normpath(os.path.join(os.path.dirname(path), p.get('Source'))) for p in g.findall('Piece')]
        return dict(ok=1, name=name, pcomps=int(pp.get('NumberOfComponents')), cells=cells, points=pcells, files=[os.path.relpath(f, root) for f in files], pieces=[piece(f, unit) for f in files])
    except Exception as e:
        return dict(ok=0, name=name, why=str(e)[:200])

def outputs(root, unit):
    """Everything written: parallel indices with their pieces, serial pieces, rectilinear grids; kind 0, 1, 2."""
    r = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if '-quadtree' in f: continue
            if f.endswith('.pvtu'): r.append(dict(index(p, root, unit), kind=0))
            elif f.endswith('.vtr'): r.append(dict(rect(p, root, unit), kind=2))
            elif re.search(r'-\d+\.vtu$', f): r.append(dict(piece(p, unit), name=os.path.relpath(p, root), kind=1))
    return r


# ------------------------------------------------------------------ running
def execute(ctx, drv, np, calls, tag, k2=0):
    d = tempfile.mkdtemp(prefix='mesh.', dir=scratch())
    os.makedirs(d + '/out')
    with open(d + '/script', 'w') as fh: fh.write('\n'.join(calls) + '\n')
    r = run(drv, [d + '/script', d + '/log', d, str(k2)], np=np, timeout=120)
    res = collect(ctx, r, np, d + '/log', d, calls, tag, k2)
    shutil.rmtree(d, ignore_errors=True)
    return res

def collect(ctx, r, np, prefix, d, calls, tag, k2):
    """the calls of a run with what every process observed and the files written"""
    logs = [open('%s.%d' % (prefix, k)).read().splitlines() if os.path.exists('%s.%d' % (prefix, k)) else [] for k in range(np)]
    res = []
    for k, c in enumerate(calls):
        try: lines = [json.loads(l[k]) for l in logs]
        except (IndexError, ValueError):
            if not mpi_works(np): raise CheckError('mpirun does not work here')
            ctx.fail('%s, %d processes: %s in call "%s"' % (tag, np, 'no progress' if r.timed_out else 'the program died (status %s)' % r.rc, c[:300]),
                     dict(processes=np, unit='2^%d' % k2, script=calls[:k + 1], stderr=r.err[-1500:]))
        e = dict(op=lines[0]['op'], a=lines[0]['a'], L=lines[0]['L'], ok=1, r=[{x: y for x, y in l.items() if x not in ('op', 'a', 'L')} for l in lines])
        if e['op'] in ('vtk', 'write', 'rwrite'):
            snap = '%s/snap.%d' % (d, k + 1)
            e['files'] = outputs(snap, 2.0 ** k2)
            if e['op'] == 'vtk':      # the forest itself is written next to the mesh
                q = '%s/%s-quadtree%s.pvtu' % (snap, e['r'][0].get('base', '?'), '' if e['a'][2] == -1 else '-%04d' % e['a'][2])
                if not os.path.exists(q): e['ok'] = 0
        res.append(json.dumps(e, separators=(',', ':')))
    if not r.ok: ctx.fail('%s, %d processes: the program died at its end (status %s)' % (tag, np, r.rc), dict(processes=np, unit='2^%d' % k2, script=calls, stderr=r.err[-1500:]))
    return res

def validate(ctx, np, focus, log_, calls, tag, k2=0):
    t = tlc('MeshTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\nCONSTANTS P = %d Focus = "%s"\n' % (np, focus), workers=1, timeout=800, files={'log': '\n'.join(log_) + '\n'}, heap='3g')
    if not t.ok:
        if not t.violation or not t.prints: raise CheckError('trace validation failed:\n' + t.out[-3000:])
        why = json.loads(t.prints[-1]); k = why['at']
        bad = [f.get('why') for f in json.loads(log_[k - 1]).get('files', []) if not f['ok']] + \
              [p.get('why') for f in json.loads(log_[k - 1]).get('files', []) for p in f.get('pieces', []) if not p['ok']]
        ctx.fail('%s, %d processes: call %d "%s": wrong: %s %s; observed %s' % (tag, np, k, calls[k - 1][:200], why['wrong'], bad or '', log_[k - 1][:500]),
                 dict(processes=np, unit='2^%d' % k2, wrong=why['wrong'], script=calls[:k], log=log_[k - 1][:8000]))
    if t.states != len(calls) + 1: raise CheckError('the trace was not followed to its end')
    ctx.traces += 1

def campaign(ctx, focus, jobs):
    drv = build('drv_mesh', flags=MEMORY)
    def one(j):
        l = execute(ctx, drv, *j); validate(ctx, j[0], focus, l, *j[1:]); return j
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try: j = f.result()
            except (Violation, CheckError):
                for g in futs: g.cancel()
                raise
            if len(j) > 3 and j[3]: ctx.bump('runs_in_other_units')
            for c in j[1]: ctx.bump('calls_' + c.split()[0])
            ctx.bump('runs_on_%d_processes' % j[0])
    ctx.sample(dict(processes=jobs[0][0], script=[c[:300] for c in jobs[0][1][:6]]))


# ------------------------------------------------------------------ scripts
def far(rng): return rng.randint(-5, 5) if rng.random() < .8 else rng.randint(-100000, 100000)      # numbers of many digits
def geo(rng, i, nx, ny, lev): return [i, nx, far(rng), far(rng), *rng.choice([(1, 1), (1, 2), (3, 1), (2, 5)]), lev, ny]
def counts(rng, nxs): return rng.choice(nxs), rng.choice(nxs)

def mesh_call(rng, i, np, maxb=6, maxlev=3, nxs=(1, 2, 3, 4)):
    while True:
        B = random_tree(rng, maxb, maxlev)
        if len(leaves(B)) >= np: break
    lev = max((len(p) + 1 for p in B), default=0)
    return line('mesh', geo(rng, i, *counts(rng, nxs), lev), [rng.choice(cuts(len(leaves(B)), np, rng, 4))] + [list(p) for p in parents(B)])

def hot_cells(rng, n, m, kind, lev):
    cell = lambda: [rng.randrange(n), rng.randrange(m)]
    if kind == 'none': return []
    if kind == 'point': return [cell()]
    if kind == 'few': return [cell() for _ in range(rng.randint(2, 5))]
    if kind == 'corner': return [[rng.choice([0, n - 1]), rng.choice([0, m - 1])]]
    if kind == 'line': y = rng.randrange(m); return [[x, y] for x in range(n)]
    if kind == 'diag': return [[x, x * m // n] for x in range(n)]
    if kind == 'middle': return [[n // 2 - a, m // 2 - b] for a in (0, 1) for b in (0, 1) if n > 1 and m > 1]
    if kind == 'down':             # every quadrant on the way to one place
        x, y = rng.choice([0, n - 1, rng.randrange(n)]), rng.choice([0, m - 1, rng.randrange(m)]); nx, ny = n >> lev, m >> lev; res = [[x, y]]
        for l in range(lev):
            s = 1 << lev - l; q = (x // (nx * s), y // (ny * s))
            res.append([(q[0] * nx + rng.randrange(nx)) * s + s // 2, (q[1] * ny + rng.randrange(ny)) * s + s // 2])
        return res
    if kind in ('path', 'paths'):   # one cell centre of every quadrant on the way down to some places
        nx, ny = n >> lev, m >> lev; res = []
        for _ in range(1 if kind == 'path' else rng.randint(2, 4)):
            x, y = rng.randrange(1 << lev), rng.randrange(1 << lev)
            if rng.random() < .5: x = (1 << lev - 1) - rng.randrange(2) if lev else 0        # beside the middle, where coarse leaves meet fine ones
            if rng.random() < .5: y = (1 << lev - 1) - rng.randrange(2) if lev else 0
            for l in range(rng.randint(lev // 2, lev) + 1):
                s = 1 << lev - l; q = (x // s, y // s)
                res.append([(q[0] * nx + rng.randrange(nx)) * s + s // 2, (q[1] * ny + rng.randrange(ny)) * s + s // 2])
        return res
    return [[x, y] for x in range(n) for y in range(m) if (x * m - n * m // 2) ** 2 + (y * n - n * m // 3) ** 2 < (n * m) ** 2 // 9]

KINDS = ['none', 'point', 'few', 'corner', 'line', 'diag', 'middle', 'disc', 'path', 'path', 'path', 'paths', 'paths']
def refine_call(rng, i, np, deep=4, nxs=(1, 2, 3, 4), small=False):
    far = not small and rng.random() < .2         # from no refinement to deep levels at a few places
    nx, ny = counts(rng, (1, 2) if far else nxs)
    mx = rng.randint(0, 3) if small else rng.randint(4, 6) if far else rng.randint(0, deep)
    mn = 0 if far else rng.randint(0, min(mx + 1, 2))
    while 4 ** mn < np: mn += 1
    lev = max(mx, mn, rng.choice([mx, mx, min(mx + 1, max(deep, mx))]))
    n = nx * 2 ** lev; m = ny * 2 ** lev
    kind = rng.choice(['corner', 'corner', 'point', 'few', 'down'] if far else KINDS)
    if small and kind in ('line', 'diag', 'disc') and mx > 2: kind = 'point'
    return line('refine', geo(rng, i, nx, ny, lev) + [mn, mx], hot_cells(rng, n, m, kind, lev))

def script_refine(rng, np, n):
    out = []
    for _ in range(n):
        i = rng.randrange(2)
        out.append(refine_call(rng, i, np) if rng.random() < .9 else mesh_call(rng, i, np))
    return out

def formula(rng): return [rng.randint(-50, 50) if rng.random() < .8 else rng.randint(-5000000, 5000000), rng.randint(0, 9), rng.randint(0, 9), rng.choice([1, 7, 13, 101])]
def script_iter(rng, np, n):
    out = []; live = []
    for _ in range(n):
        k = rng.random()
        if not live or k < .3:
            i = rng.randrange(3)
            out.append(refine_call(rng, i, np, small=True) if rng.random() < .5 else mesh_call(rng, i, np))
            out.append(line('clear', [i]))
            if i not in live: live.append(i)
        else:
            i = rng.choice(live)
            op = rng.choice(['patches', 'cells', 'addfn', 'addfn', 'addpw', 'clear'])
            out.append(line(op, [i, rng.randrange(6)], [formula(rng)]) if op[:3] == 'add' else line(op, [i]))
    return out

def script_vtk(rng, np, n):
    out = []; live = []; writers = {}; rgrids = []
    for k in range(n):
        if not live or rng.random() < .3:
            i = rng.randrange(2)
            out.append(refine_call(rng, i, np, deep=3, nxs=(1, 2), small=True) if rng.random() < .6 else mesh_call(rng, i, np, 4, 3, (1, 2, 3)))
            out.append(line('clear', [i])); writers = {w: m for w, m in writers.items() if m != i}
            if i not in live: live.append(i)
            for _ in range(rng.randint(0, 3)): out.append(line(rng.choice(['addfn', 'addpw']), [i, rng.randrange(6)], [formula(rng)]))
        i = rng.choice(live)
        r = rng.random()
        if r < .5: out.append(line('vtk', [i, rng.randrange(8), rng.choice([-1, k, k, 12 * k, 9999, 10000 + k, 1234567])]))
        elif r < .85:
            w = rng.randrange(2)
            if w not in writers: out.append(line('writer', [w, i, rng.randrange(2), rng.randrange(2)])); writers[w] = i
            for _ in range(rng.randint(1, 2)): out.append(line('write', [w, rng.randrange(8)]))
        else:
            w = rng.randrange(2)
            if w not in rgrids or rng.random() < .5:
                nx, ny = rng.randint(1, 5), rng.randint(1, 5); nc, npt = rng.randint(0, 2), rng.randint(0, 2)
                arr = lambda m: [rng.randint(-10 ** 6, 10 ** 6) for _ in range(m)]
                out.append(line('rgrid', [w, nc], [sorted(arr(nx + 1)), sorted(arr(ny + 1))] + [arr(nx * ny) for _ in range(nc)] + [arr((nx + 1) * (ny + 1)) for _ in range(npt)]))
                if w not in rgrids: rgrids.append(w)
            for _ in range(rng.randint(1, 2)): out.append(line('rwrite', [w, rng.randrange(8)]))
    return out


# ------------------------------------------------------------------ checks
def unit(rng): return rng.choice([0, 0, 0, -27, -60, 40])
ASSUME = ['p4est_search_reorder is a stand-in with the documented semantics (harness/shim.cpp)', 'numbers in output files are compared to thousandths of the unit (a power of two) lengths and values are given in']
def model(ctx):
    cfgs = [(2, '"all"'), (3, '"two"'), (4, '"one"')] + ([(4, '"two"'), (5, '"one"')] if THOROUGH else [])
    for L, s in cfgs:
        t = tlc('RefineMC', 'SPECIFICATION Spec\nINVARIANTS Never2Far Result Graded Floor\nPROPERTY Ends\nCONSTANTS L = %d Starts = %s Defect = FALSE\n' % (L, s), timeout=800, heap='8g')
        if not t.ok: raise CheckError('the refinement model does not satisfy its properties:\n' + t.out[-2000:])
    t = tlc('RefineMC', 'SPECIFICATION Spec\nINVARIANTS Never2Far Result Graded Floor\nCONSTANTS L = 3 Starts = "two" Defect = TRUE\n', timeout=300, count=False)
    if t.ok: raise CheckError('the refinement model accepts meshes that are not graded')

def c11(ctx):
    rng = random.Random(SEED * 1000 + 11); ctx.assumptions += ASSUME; model(ctx)
    q = not THOROUGH
    campaign(ctx, 'C11', [(np, script_refine(rng, np, 12), 'refinement', unit(rng)) for np in ([1, 1, 1, 2, 3, 4, 5, 1] * (3 if q else 40))] +
                         [(np, script_refine(rng, np, 3), 'refinement, many processes', unit(rng)) for np in ([12] if q else [7, 9, 12, 16])])
def c12(ctx):
    rng = random.Random(SEED * 1000 + 12); ctx.assumptions += ASSUME
    q = not THOROUGH
    campaign(ctx, 'C12', [(np, script_iter(rng, np, 16), 'mesh iteration', unit(rng)) for np in ([1, 1, 2, 3, 4, 1] * (6 if q else 60))] +
                         [(np, script_iter(rng, np, 6), 'mesh iteration, many processes', unit(rng)) for np in ([11] if q else [9, 11, 12, 16])])
def c13(ctx):
    rng = random.Random(SEED * 1000 + 13); ctx.assumptions += ASSUME
    q = not THOROUGH
    campaign(ctx, 'C13', [(np, script_vtk(rng, np, 6), 'output', unit(rng)) for np in ([1, 1, 2, 3, 6, 1] * (8 if q else 80))] +
                         [(np, script_vtk(rng, np, 2), 'output, many processes', unit(rng)) for np in ([11, 12] if q else [10, 11, 12, 13, 16] * 4)])
