#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/checks.json."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(H, 'properties.jsonl'))]
spec = json.load(open(os.path.join(H, 'checks', 'checks.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec and not spec[i].get('off'):
        s = spec[i]
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}',
                       'thorough_cmd': f'python3 run.py {i} --tier thorough',
                       'technique': s['technique'], 'level': 'exploration', 'level_note': s['level_note'],
                       'evidence_file': f'evidence/{i}.json'})
    else:
        na.append({'property': i, 'reason': spec.get(i, {}).get('reason', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are compiled into /repo: the monitors observe the public interfaces of an instrumented '
              'out-of-tree build of the current working tree (see DESIGN.md). Unguarded commits in /repo are fix: commits.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
