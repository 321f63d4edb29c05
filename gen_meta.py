#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/*.json (one file per property)"""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + '/meta/*.json')):
    m = json.load(open(f))
    p = dict(id=m['id'], title=m['title'], statement=m['statement'],
             quantifier=dict(over=m.get('over', ['inputs']), text=m['quant']), why_tests_cant=m['why'],
             anchors=dict(files=m['files'], mechanism=[dict(name=a, where=b) for a, b in m['mech']], observe_at=m.get('observe', []), hook_needed=None))
    assert len(p['title']) <= 80, p['id']
    props.append(p)
    if 'na' in m:
        na.append(dict(property=m['id'], reason=m['na']))
    else:
        checks.append(dict(property=m['id'], quick_cmd='python3-vt check.py %s --tier quick' % m['id'],
                           thorough_cmd='python3-vt check.py %s --tier thorough' % m['id'],
                           technique='bounded symbolic execution of the LLVM IR of /repo, SMT (z3) deciding every path and assertion, counterexamples replayed natively',
                           level='model_checking', level_note=m['note']))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na,
               notes='No hooks: the checks compile /repo as it is. Fixes are recorded in KNOWN_FINDINGS.json.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, s)
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
