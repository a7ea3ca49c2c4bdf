#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
NOTE = json.load(open(f'{here}/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTE.get(i)
    if not n or 'not_applicable' in n:
        na.append({'property': i, 'reason': (n or {}).get('not_applicable', 'check not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
m = {'version': 1, 'setup_cmd': './setup',
     'hooks': {'guard': 'cfg vp_hooks (constructors of circuit structs), cfg vp_tiny (small sizes)',
               'enable': 'the subject crates under /verif/harness/subjects compile /repo sources by path; their build.rs emits rustc-cfg=vp_hooks (and vp_tiny where small sizes are wanted)',
               'source_commits': ['98c24be', '16f88c7']},
     'checks': checks, 'not_applicable': na,
     'notes': 'Level model_checking throughout: exhaustive enumeration of executions of the real code (or of assignments of the constraint systems it emits) within the bounds given in each evidence file, against independent reference definitions. See DESIGN.md.'}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not claimed')
