#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({'property': i, 'quick_cmd': f'bin/check {i} --quick', 'thorough_cmd': f'bin/check {i} --thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'property-based testing (Hypothesis): ' + t.get('technique', 'generated inputs against a reference model'),
                       'level': 'exploration', 'level_note': t.get('note', 'seeded random search over generated inputs with shrinking; never establishes absence')})
    else:
        na.append({'property': i, 'reason': TECH.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks import aalpy from /repo (pure Python, nothing to build).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
