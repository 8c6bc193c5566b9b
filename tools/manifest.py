#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and config.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from config import CONFIG, NOTES
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CONFIG:
        note, tech = NOTES.get(i, ('', ''))
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': tech or 'property-based greybox search: generated inputs against a reference model',
                       'level': 'exploration',
                       'level_note': note or 'Generated-input search with shrinking; nothing is shown beyond the explored cases.'})
    else:
        na.append({'property': i, 'reason': 'The check for this property is not built yet.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'No hooks: the checks compile /repo/library unchanged with their own flags.'},
     'checks': checks, 'not_applicable': na, 'notes': 'Known findings and repairs: known_findings.txt. Design: DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'pending')
