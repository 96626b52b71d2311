#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SC = 'src/physics/single_chain'


def prop(id, title, statement, over, quant, why, files, mech, technique=None, level='other', note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique, level, note))


def na(id, reason):
    NA.append((id, reason))


exec(open(os.path.join(V, 'tools', 'properties.py')).read())

ids = [p[0]['id'] for p in P]
assert len(set(ids)) == len(ids)
nad = dict(NA)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _, _ in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks = []
for p, tech, level, note in P:
    if p['id'] in nad:
        assert tech is None
        continue
    assert tech and note, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
                       thorough_cmd='python3-vt check.py %s thorough' % p['id'], technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='python3-vt -m pv.prep', checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NA])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'claimed,', len(NA), 'not applicable')
