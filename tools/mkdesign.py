#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_tail.md, known_findings.json, seeded/*/meta.json and tools/planted_notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
out = rd('tools/design_head.md') + '\n' + rd('tools/design_tail.md').rstrip() + '\n'
notes = json.loads(rd('tools/planted_notes.json'))
out += '\n## 5. Planted bugs\n\n' + notes['intro'] + '\n\n| id | property | needs | caught by | note |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    n = notes['bugs'].get(d, {})
    out += f"| {d} | {m['property']} | {m['needs']} | {n.get('by', m['property'])} | {n.get('note', '')} |\n"
out += '\n' + notes['sweep'] + '\n'
k = json.load(open(os.path.join(V, 'known_findings.json')))
out += f"\n## 6. Genuine defects repaired\n\nOpen findings: {len(k['findings'])}. Each repair is one `fix:` commit in /repo; the check that found it fails again without it. (property, commit, what failed)\n\n"
out += ''.join('- ' + f.replace('fixed: property=', '') + '\n' for f in k['fixed'])
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
print(len(out))
