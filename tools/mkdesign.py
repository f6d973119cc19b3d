#!/usr/bin/env python3
"""Writes DESIGN.md from the texts, the bounds of the checks, the findings and
the recorded detection of the planted bugs (tools/detection.json)."""
import ast, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import PROPS
from design_texts import HOW


def bounds(pid):
    t = ast.parse(open(f'{root}/checks/{pid}.py').read())
    b = {}
    for n in t.body:
        if isinstance(n, ast.Assign):
            tg = n.targets[0]
            if isinstance(tg, ast.Name) and tg.id in ('BOUNDS', 'ASSUMPTIONS'):
                try:
                    v = ast.literal_eval(n.value)
                except ValueError:
                    continue
                b[tg.id] = v
    return b.get('BOUNDS', {}), b.get('ASSUMPTIONS', [])


out = [open(f'{here}/design_head.md').read(), '## Properties\n']
cost = json.load(open(f'{here}/cost.json')) \
    if os.path.exists(f'{here}/cost.json') else {}
for p in sorted(PROPS, key=lambda p: p['id']):
    b, a = bounds(p['id'])
    how, oracle = HOW[p['id']]
    out.append(f'### {p["id"]} {p["title"]}\n')
    out.append(f'* Explored: {how}')
    out.append(f'* Oracle: {oracle}')
    if b.get('quick'):
        out.append(f'* Bounds (quick): {b["quick"]}.')
    if b.get('thorough'):
        out.append(f'* Bounds (thorough): {b["thorough"]}.')
    if a:
        out.append('* Assumptions: ' + '; '.join(a) + '.')
    if p['note']:
        out.append(f'* Limits: {p["note"]}')
    out.append(f'* Beyond the tests: {p["why_tests_cant"]}')
    if p['id'] in cost:
        out.append(f'* Cost: {cost[p["id"]]}')
    out.append('')
out.append('## Findings\n')
out.append('Genuine defects of the pinned tree, each shown by the check '
           'against the real code before being repaired (`fix:` commits) or '
           'recorded (`known_findings.txt`).\n')
for l in open(f'{root}/known_findings.txt'):
    l = l.strip()
    if l and not l.startswith('#'):
        out.append('* ' + l)
out.append('')
out.append(open(f'{here}/design_tail.md').read())
det = json.load(open(f'{here}/detection.json')) \
    if os.path.exists(f'{here}/detection.json') else {}
out.append('## Planted bugs\n')
out.append('| change | property | needs | caught by |\n|---|---|---|---|')
for sid in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{sid}/meta.json'))
    out.append(f'| {sid}: {m["what_it_breaks"]} | {m["property"]} | '
               f'{m["needs"]} | {det.get(sid, "?")} |')
text = '\n'.join(out) + '\n'
open(f'{root}/DESIGN.md', 'w').write(text)
print(len(text.splitlines()), 'lines')
