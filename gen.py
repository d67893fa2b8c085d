#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, na=na))
exec(open('/verif/props.py').read())
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['qtext']),
            why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=x['mech'], where=x['files'][0])])), ensure_ascii=False) + "\n")
T = "contract-based deductive verification of the real code (govc: obligations from Go SSA, z3/cvc5)"
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
for x in P:
    if x['claim']:
        m['checks'].append(dict(property=x['id'], quick_cmd="python3 /verif/check.py %s quick" % x['id'], thorough_cmd="python3 /verif/check.py %s thorough" % x['id'],
            technique=T, level="proof", level_note=x['claim']))
    else:
        m['not_applicable'].append(dict(property=x['id'], reason=x['na']))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
