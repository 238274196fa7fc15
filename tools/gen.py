#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level='other', note=None, na=None, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id,
                       'quick_cmd': 'python3 sa/check.py %s quick' % id,
                       'thorough_cmd': 'python3 sa/check.py %s thorough' % id,
                       'technique': technique, 'level': level, 'level_note': note})


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 sa/setup_check.py', 'checks': CHECKS, 'not_applicable': NA,
               'notes': 'All checks are static: they compile /repo to LLVM IR and analyse it; nothing of /repo is executed. '
                        'No hooks are needed in /repo.'}, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(CHECKS), 'checks')
