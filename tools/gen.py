#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after
editing props.py; the outputs are committed)."""
import json, os
from props import PROPS, NA
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
lines, checks, na = [], [], []
for q in PROPS + NA:
    assert len(q['title']) <= 80, q['title']
    lines.append(json.dumps({
        'id': q['id'], 'title': q['title'], 'statement': q['statement'],
        'quantifier': {'over': q['over'], 'text': q['qtext']},
        'why_tests_cant': q['why'],
        'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']],
                    'observe_at': q.get('observe', []), 'hook_needed': None},
    }))
for q in PROPS:
    checks.append({'property': q['id'], 'quick_cmd': './check.sh ' + q['id'], 'thorough_cmd': './check.sh ' + q['id'],
                   'technique': q['technique'], 'level': 'other', 'level_note': q['note']})
for q in NA:
    na.append({'property': q['id'], 'reason': q['reason']})
open(os.path.join(root, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'One analyzer (sa/) decides every property from the type-checked SSA of /repo; nothing of /repo is executed. quick and thorough are the same complete analysis.'}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
