#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from checks.py (claimed) and properties.jsonl (the rest)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': p.get('technique', 'property-based testing: generated operation histories against a reference model'),
                       'level': 'exploration', 'level_note': p['note']})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Harness-owned schedules and generated histories; see DESIGN.md. No hooks in /repo; repairs are its fix: commits.'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
