#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import rules.run
from rules.base import RULES
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
sys.path.insert(0, V + '/tools')
from manifest_data import NA, TECHNIQUE
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES and i not in NA:
        t, n = TECHNIQUE(i)
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i, technique=t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 engine/extract.py', checks=checks, not_applicable=na,
               notes='Static analysis of type-checked MIR; no hooks in /repo. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
