#!/usr/bin/env python3
"""Writes MANIFEST.json from k2v/meta.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from k2v.meta import META
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ('Held on the executions of this run (counts in the evidence file): real code built from the working tree, '
        'randomised and hostile workloads, every result judged by an independent oracle. ')
checks = []
for p in props:
    if p not in META:
        continue
    mt = META[p]
    checks.append({'property': p, 'quick_cmd': f'./check {p} --tier quick',
                   'thorough_cmd': f'./check {p} --tier thorough',
                   'technique': mt.get('technique', 'runtime monitoring: reference-model oracle over randomised executions'),
                   'level': 'exploration', 'level_note': NOTE + mt.get('trust', 'Trusts the Python reference model and the generators\' reach.')})
na = [{'property': p, 'reason': 'check not built yet'} for p in props if p not in META]
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'See DESIGN.md. No hooks in /repo: monitors observe the public API, sanitizer builds and native drivers.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
