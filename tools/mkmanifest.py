#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props as T  # noqa: E402
with open(V + '/properties.jsonl', 'w') as f:
    for p in T.PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
M = {'version': 1, 'setup_cmd': T.SETUP, 'checks': [], 'not_applicable': [], 'notes': T.NOTES}
for p in T.PROPS:
    assert len(p['title']) <= 80, p['title']
    if 'na' in p:
        M['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        M['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']})
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
