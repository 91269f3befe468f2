#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/data.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import data

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in sorted(data.PROPERTIES, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        'state': p['state'], 'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
na = {i for i, _ in data.NOT_APPLICABLE}
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'python3 check.py {p["id"]}',
        'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'], 'level': 'other', 'level_note': p['note'],
    } for p in sorted(data.PROPERTIES, key=lambda p: p['id']) if p['id'] not in na],
    'not_applicable': [{'property': i, 'reason': r} for i, r in data.NOT_APPLICABLE],
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
