#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note, state=None, hook=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, state=state, hook=hook, level=level))


exec(open(os.path.join(V, 'tools', 'entries.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                 observe_at=p['observe'], hook_needed=p['hook'])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                 quantifier=dict(over=p['over'], text=p['qtext']),
                                 why_tests_cant=p['why'], anchors=a)) + '\n')
M = dict(version=1,
         setup_cmd="/opt/venv/bin/python -B -c 'import numpy, sys; print(sys.version, numpy.__version__)'",
         checks=[], not_applicable=NOT_APPLICABLE)
for p in P:
    if any(n['property'] == p['id'] for n in NOT_APPLICABLE):
        continue
    M['checks'].append(dict(property=p['id'], quick_cmd='./run %s --tier quick' % p['id'],
                            thorough_cmd='./run %s --tier thorough' % p['id'],
                            technique=p['tech'], level=p['level'], level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(M, fh, indent=1)
    fh.write('\n')
try:
    import jsonschema
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sc)
    print('valid: %d properties, %d checks' % (len(P), len(M['checks'])))
except ImportError:
    print('jsonschema not available')
