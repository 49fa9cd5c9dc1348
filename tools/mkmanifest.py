#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, 'tools'))
from oracles import ORACLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    t, note, _ = ORACLE[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py {} --tier quick'.format(i), 'thorough_cmd': 'python3 check.py {} --tier thorough'.format(i),
                   'evidence_file': 'evidence/{}.json'.format(i), 'technique': 'property-based testing: ' + t, 'level': 'exploration',
                   'level_note': 'Random search with shrinking; no violation on the cases generated, counts in the evidence. ' + note[0].upper() + note[1:] + '.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo. The checks import bathygrid from /repo directly. VERIF_SEED selects the seed. The package bathycube is not installed here: C33 and C34 use a stand-in for it, the estimates of CUBE itself are outside the listed properties.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
