#!/usr/bin/env python3
"""meta/props.py -> properties.jsonl, MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/meta')
import props
import props2
from props import P
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/check.py --setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        c = 'python3 sa/check.py ' + p['id']
        m['checks'].append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c, 'technique': p['technique'],
                            'level': 'other', 'level_note': p['note']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
