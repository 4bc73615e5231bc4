#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below (tools/spec.py; run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # property records
CHECKS = []     # manifest entries
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=None,
         observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
    if na is not None:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py %s' % id,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % id, 'technique': technique,
                       'level': 'other', 'level_note': note})


exec(open(os.path.join(HERE, 'tools', 'spec_props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': CHECKS,
               'not_applicable': NA}, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(CHECKS), 'claimed')
