#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/check.py --setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p, 'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                 'technique': CHECKS[p]['technique'], 'level': CHECKS[p]['level'], 'level_note': CHECKS[p]['note']} for p in props if p in CHECKS],
     'not_applicable': [{'property': p, 'reason': 'check still being built'} for p in props if p not in CHECKS],
     'notes': 'No hooks in /repo: checks compile its unmodified sources into their own harnesses. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
