#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/props.py."""

import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.props import PROPS  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in sorted(PROPS, key=lambda p: p['prop']['id']):
        assert len(p['prop']['title']) <= 80, p['prop']['title']
        f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')

checks, na = [], []
for p in sorted(PROPS, key=lambda p: p['prop']['id']):
    pid = p['prop']['id']
    if p['na']:
        na.append({'property': pid, 'reason': p['na']})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 check.py {pid} quick',
        'thorough_cmd': f'python3 check.py {pid} thorough',
        'technique': 'static analysis: ' + p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --selftest',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks parse /repo on every run (standard library only); see DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
if os.path.isdir(os.path.join(HERE, 'seeded')):
    sys.path.insert(0, os.path.join(HERE, 'design'))
    import importlib

    import gen_design

    ex = {p['prop']['id']: getattr(importlib.import_module('sa.rules.' + p['prop']['id'].lower()), 'EXPLANATION', '') for p in PROPS if not p['na']}
    gen_design.write(sorted(PROPS, key=lambda p: p['prop']['id']), ex)
