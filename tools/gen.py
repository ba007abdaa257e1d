#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NA, NOTES

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 engine/build.py --selftest',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
