#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook),
        technique=technique, note=note))
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())
index = {}
for l in open(os.path.join(V, 'mc', 'index.txt')):
    f = l.split()
    if len(f) == 2: index[f[0]] = f[1]
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for x in P:
        o.write(json.dumps({k: x[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')}) + '\n')
m = dict(version=1, setup_cmd='./setup.sh',
    checks=[dict(property=x['id'], quick_cmd=f"./check.sh {x['id']} quick", thorough_cmd=f"./check.sh {x['id']} thorough",
                 technique=x['technique'], level='model_checking', level_note=x['note']) for x in P if x['id'] in index],
    not_applicable=[dict(property=x['id'], reason=x['note'] or 'check not built yet') for x in P if x['id'] not in index],
    notes='Harness crates live in mc/; every check rebuilds the crates it needs from /repo\'s working tree through path dependencies. See DESIGN.md.')
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
ids = [x['id'] for x in P]; assert len(set(ids)) == len(ids)
print(len(P), 'properties,', len(m['checks']), 'claimed')
