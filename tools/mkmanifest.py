#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check module is claimed."""
import importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        src = open(os.path.join(V, 'checks', i.lower() + '.py')).read()
        m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t['technique'], 'level': m.group(1) if m else 'exploration', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': TECH.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the monitors attach from outside (audit events, sys.monitoring, a replaced HTTP transport, public classes)', 'source_commits': []},
     'notes': 'See DESIGN.md. Known findings and repairs: known_findings.json. Replays of violations: replays/.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
