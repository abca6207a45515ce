#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props  # noqa

verif = os.path.dirname(here)
with open(os.path.join(verif, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])],
                        'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'bash run.sh {} --tier quick'.format(p['id']),
        'thorough_cmd': 'bash run.sh {} --tier thorough'.format(p['id']),
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in props.PROPS],
    'not_applicable': props.NOT_APPLICABLE,
    'notes': props.NOTES,
}
with open(os.path.join(verif, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
