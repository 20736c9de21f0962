#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

NA = []

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                   'level_note': p['note']} for p in P],
       'not_applicable': NA,
       'notes': 'No hooks in /repo: the monitors observe the public API, sanitizer reports of out-of-tree builds of the '
                'native extensions, and interposed runtime functions.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(P), 'properties')
