#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'lib/SPVM/Builder/src/'
L = 'lib/SPVM/'
P = []


def prop(id, title, statement, over, quant, why, files, state, mech, observe, tech=None, level='model_checking', note='', na=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, state=state, mech=mech,
                  observe=observe, tech=tech, level=level, note=note, na=na, hook=hook))


exec(open(os.path.join(V, 'tools/table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        q = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=p['state'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in P:
    if p['tech'] and os.path.exists(os.path.join(V, 'mc', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='python3 mc/run.py %s quick' % p['id'], thorough_cmd='python3 mc/run.py %s thorough' % p['id'],
                           technique=p['tech'], level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'check under construction'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
