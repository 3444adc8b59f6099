#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS, NA
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
    for p in NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'bash check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
