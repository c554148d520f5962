#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: run it after editing.  A property is claimed when checks/<id>_*.cc exists."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), note='', state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), _note=note))
exec(open(V + '/tools/props_data.py').read())
ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
checks, na = [], []
for p in P:
    note = p.pop('_note')
    if glob.glob(V + '/checks/%s_*.cc' % p['id']):
        checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'] + ' --tier thorough',
            evidence_file='evidence/%s.json' % p['id'], technique='explicit exhaustive exploration of the real code (bounded model checking of the implementation against a reference model)' if not note.startswith('@') else note.split('@')[1],
            level='model_checking', level_note=note.split('@')[-1]))
    else: na.append(dict(property=p['id'], reason=NA.get(p['id'], 'The check for this property is not built yet.')))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='bin/check --build', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks use the public and test-visible interface of the real classes. Every check binary runs with --replay FILE. known_findings.txt lists findings and fixed defects.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
