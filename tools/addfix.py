#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT: records a repaired defect."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d, open(p, 'w'), indent=1)
