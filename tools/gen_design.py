#!/usr/bin/env python3
"""DESIGN.md from design_head.md, design_props.json, design_tail.md, the evidence files' bounds and seeded/*."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + '/tools/design_head.md').read()
pr = json.load(open(V + '/tools/design_props.json'))
te = json.load(open(V + '/tools/techniques.json'))
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    e = json.load(open(f'{V}/evidence/{i}.json'))
    o += f"### {i} {p['title']}\n\n"
    o += f"*Method*: {te[i]['technique']} (`{te[i]['level']}`).\n\n*Oracle*: {pr[i][0]}\n\n"
    o += f"*Bounds (quick/thorough)*: {e['coverage']['bounds']}.\n\n"
    if e.get('assumptions'):
        o += '*Assumes*: ' + '; '.join(e['assumptions']) + '.\n\n'
    o += f"*Cost*: quick about {max(1, round(e['coverage'].get('wall_s', e.get('wall_s', 0))))} s. *Beyond tests*: {pr[i][1]}\n\n"
o += open(V + '/tools/design_tail.md').read()
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs']))
o += '| property | planted change | needs |\n|---|---|---|\n'
for a, b, c in sorted(rows):
    o += f"| {a} | {b} | {' '.join(str(c).split()).replace('|', chr(92) + '|')} |\n"
o += f'\n{len(rows)} changes.\n'
open(V + '/DESIGN.md', 'w').write(o)
