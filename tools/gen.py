#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the property table below
(run by hand after editing; the checks do not use it)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, tech=tech, note=note, na=na))


exec(open(os.path.join(HERE, 'tools', 'props.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}},
                           ensure_ascii=False) + '\n')
BASE = ('Abstract interpretation of the current source over finite partitions of the inputs (nothing is imported, executed or handed '
        'to a solver). Trusted: the interpreter and its models of Python built-ins, the standard library, rfc3986 and requests. ')
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': BASE + p['note']} for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'run.py decides one property: it interprets the driver drivers/<id>_*.py (a most general client) abstractly over /repo\'s '
              'current source, writes evidence/<id>.json and, for a violation, out/<id>.json. known_findings.txt lists the defects found: '
              'those repaired (fixed:) and those recorded (finding:). See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(P), 'properties,', len(m['checks']), 'checks')
