#!/usr/bin/env python3
"""writes MANIFEST.json from checks/conf.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import conf
NA = {}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    c = conf.CHECKS.get(i)
    if not c: continue
    checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
        'technique': c.get('technique', conf.TECHNIQUE), 'level': 'exploration', 'level_note': c.get('note', conf.NOTE)})
na = [{'property': i, 'reason': conf.NA.get(i, 'no check built yet')} for i in ids if i not in conf.CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: checks compile the headers and cppad_lib sources of the working tree with their own error handler, monitors and sanitizers. Known and fixed findings: known_findings.jsonl.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not claimed')
