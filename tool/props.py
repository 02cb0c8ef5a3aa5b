#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single list in tool/propdata.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tool'))
from propdata import PROPS, NA
seen = set()
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert p['id'] not in seen and len(p['title']) <= 80, p['id']
        seen.add(p['id'])
        e = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(e) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists('%s/lib/rules/%s.py' % (V, p['id'].lower())):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 bin/check.py ' + p['id'], 'thorough_cmd': 'VP_NOCACHE=1 python3 bin/check.py ' + p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('reason', 'check not built')})
for p in NA:
    na.append({'property': p['id'], 'reason': p['reason']})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
