#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/meta.py; a property is claimed when mc/checks/<id>.py exists"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import meta
with open(root + '/properties.jsonl', 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p['state']: d['anchors']['state'] = p['state']
        if p['observe']: d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in meta.PROPS:
    if os.path.exists(root + '/mc/checks/%s.py' % p['id'].lower()):
        checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'],
                           thorough_cmd='./check %s --tier thorough' % p['id'],
                           technique=meta.TECH.get(p['id'], 'stateless model checking of the implementation (bounded exhaustive, reference model)') if hasattr(meta, 'TECH') else 'stateless model checking of the implementation (bounded exhaustive, reference model)',
                           level='model_checking', level_note=p['note'] + ' Trusts the reference model and the bounds given in the evidence.'))
    else:
        na.append(dict(property=p['id'], reason='not claimed yet: its check is still being built'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Pure Python: checks import /repo directly (no build products), interpreter /opt/venv/bin/python.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'open')
