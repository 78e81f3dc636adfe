#!/usr/bin/env python3
"""Writes MANIFEST.json from SPECS (run by hand after adding a check)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import SPECS
checks = []
for p in sorted(SPECS):
    s = SPECS[p]
    checks.append(dict(property=p, quick_cmd='./check ' + p, thorough_cmd='./check --thorough ' + p,
                       technique=s['technique'], level=s.get('level', 'exploration'), level_note=s['note']))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
NA = {}
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in SPECS]
d = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
json.dump(d, open(path, 'w'), indent=1)
open(path, 'a').write('\n')
