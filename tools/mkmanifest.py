#!/usr/bin/env python3
"""Write MANIFEST.json from checks/registry.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.registry import REGISTRY
from checks.notes import NOTES
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = []
for p in props:
    if p in REGISTRY:
        tech, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                           technique=tech, level='model_checking', level_note=note))
na = [dict(property=p, reason='check not built yet') for p in props if p not in REGISTRY]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked with TLC and bound to the code by the drivers in harness/ (compiled from /repo/src on every run). No hooks in /repo.'),
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
