#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN, NOTES
checks, na = [], []
for line in open(os.path.join(here, '..', 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    if p not in PLAN:
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': 'TLA+ specification, TLC: exhaustive checking of the design, validation of traces of the real code, replay of generated behaviours' if PLAN[p]['quick'].get('mc')
                   else 'TLA+ specification, TLC: validation of traces recorded from the real code',
                   'level': 'model_checking', 'level_note': NOTES.get(p, 'Every recorded execution of the real code is decided by TLC against the trace specification; assurance covers the executions explored.')})
m = {'version': 1, 'hooks': {'guard': 'verif', 'enable': 'go build -tags verif (tools/build.sh)', 'source_commits': ['0f015e1']}, 'setup_cmd': 'tools/build.sh /tmp/verif-setup-bin && rm -f /tmp/verif-setup-bin', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
