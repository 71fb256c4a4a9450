#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (authoring aid)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if kw.get('state'):
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in kw['state']]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_table.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
