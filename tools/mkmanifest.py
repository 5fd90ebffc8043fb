#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per rules/cNN.py, everything else of properties.jsonl under not_applicable."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from na import NA, NOTE, TECH
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(V, 'rules', 'c[0-9][0-9].py'))}
checks = []
for p in props:
    if p in have:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, TECH['*']), 'level': 'other', 'level_note': NOTE.get(p, NOTE['*'])})
na = [{'property': p, 'reason': NA.get(p, 'no check has been built for it yet')} for p in props if p not in have]
json.dump({'version': 1, 'setup_cmd': 'python3 -m kstatic.build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: the compiler driver in driver/ reads the MIR of the working tree, with the scenario functions of scen/ injected at compile time.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
