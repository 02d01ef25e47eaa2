#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 3, (id, statement)
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


def check(id, technique, note):
    CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id,
                   'thorough_cmd': 'python3 check.py %s thorough' % id,
                   'technique': technique, 'level': 'other', 'level_note': note})


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(HERE, 'tools', 'catalogue.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
ids = {p['id'] for p in PROPS}
claimed = {c['property'] for c in CHECKS}
nas = {n['property'] for n in NA}
assert claimed <= ids and nas <= ids and not (claimed & nas), (claimed - ids, nas - ids)
missing = ids - claimed - nas
for m in sorted(missing):
    NA.append({'property': m, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, json"',
               'checks': CHECKS, 'not_applicable': NA,
               'notes': 'All checks read /repo sources with the Python ast module (system python3, standard library only); '
                        'nothing of mdp is imported or run. Known findings: known-findings.txt.'}, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(CHECKS), 'claimed,', len(NA), 'not applicable')
