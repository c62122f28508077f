#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
NOT = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --list',
    'checks': [{
        'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': PROPS[p]['technique'], 'level': 'model_checking', 'level_note': PROPS[p]['note'],
    } for p in ids if p in PROPS],
    'not_applicable': [{'property': p, 'reason': NOT.get(p, 'check under construction')} for p in ids if p not in PROPS],
    'notes': 'No hooks: the engines link the unmodified sources of /repo. Every check builds the engines it needs from the working tree in a scratch directory it removes.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
