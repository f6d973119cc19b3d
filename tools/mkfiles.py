#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS

root = os.path.dirname(here)
keys = ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: p[k] for k in keys}) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(root, 'checks', p['id'] + '.py')):
        checks.append({
            'property': p['id'],
            'quick_cmd': f'bash check.sh {p["id"]} --tier quick',
            'thorough_cmd': f'bash check.sh {p["id"]} --tier thorough',
            'technique': 'model checking: ' + p['technique'],
            'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': p['id'],
                   'reason': p['na'] or 'check not built yet'})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks: the checks drive the public API, the command line '
                'and the recipe scripts of /repo directly.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
