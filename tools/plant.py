#!/usr/bin/env python3
"""Development aid: write seeded/<id>/ from a description (a Python file defining BUGS), and confirm each demo in scratch copies.
usage: plant.py <file.py> [id...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.join(ROOT, 'tools', 'demo')
PRE = open(os.path.join(HERE, 'common.hpp')).read()
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    d = os.path.join(ROOT, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    shutil.copytree(REPO + '/src', w + '/src')
    sh('git', 'init', '-q', cwd=w); sh('git', 'add', '-A', cwd=w); sh('git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qm', 'x', cwd=w)
    for f, old, new in b['edits']:
        s = open(w + '/' + f).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(w + '/' + f, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git', 'diff', cwd=w).stdout)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    np = b.get('np', 1)
    open(d + '/demo.sh', 'w').write(open(HERE + '/demo.sh').read().replace('NP', str(np))); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include "common.hpp"\n' + b['demo'].strip('\n') + '\n')
    open(d + '/common.hpp', 'w').write(PRE)
    for f in ('shim.cpp', 'shim.hpp'): shutil.copy(ROOT + '/harness/' + f, d + '/' + f)
    bad = sh('bash', d + '/demo.sh', cwd=w)
    good = sh('bash', d + '/demo.sh', cwd=REPO)
    print(b['id'], 'unchanged:', good.returncode, 'patched:', bad.returncode, '' if good.returncode == 0 and bad.returncode else '   <<<<<< BAD DEMO')
    print('   ', (good.stdout + good.stderr)[-300:] if good.returncode else '', '|', bad.stdout.strip()[-300:].replace('\n', ' / '), bad.stderr[-1500:] if bad.returncode == 8 else '')
    shutil.rmtree(w)
