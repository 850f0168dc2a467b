#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': checks.TECHNIQUE[i], 'level': 'model_checking', 'level_note': checks.NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
