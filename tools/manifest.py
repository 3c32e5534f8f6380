#!/usr/bin/env python3
"""Writes MANIFEST.json from the per-property notes below; a property is claimed when it has a template or a harness."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f'{H}/tools/notes.json'))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    spec = os.path.exists(f'{H}/specs/{i}.vrs')
    har = glob.glob(f'{H}/harness/{i.lower()}*.rs')
    if n.get('na') or not (spec or har):
        na.append({'property': i, 'reason': n.get('na', 'no check built yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i} --tier quick',
        'thorough_cmd': f'python3 check.py {i} --tier thorough',
        'technique': n.get('technique', 'Verus contracts on the functions cut from /repo on every run (Z3), with a concrete oracle on the compiled code that looks for failing inputs'),
        'level': 'proof' if spec else 'exploration',
        'level_note': n.get('note', ''),
    })
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hook is needed: functions are cut from the sources, and private items are reached from a scratch copy of the crate', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Checks build in a scratch directory under /tmp that they remove; /repo is only read.'}
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
