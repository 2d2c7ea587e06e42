#!/usr/bin/env python3
"""MANIFEST.json from the rules that exist (rules/cNN.py) and the reasons for those that do not"""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules')]
sys.path.insert(0, os.path.join(V, 'docs'))
from na import NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if os.path.exists(os.path.join(V, 'rules', i.lower() + '.py')) and i not in NA:
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i, technique=m.TECHNIQUE, level='other', level_note=m.NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
