"""Writes properties.jsonl and MANIFEST.json from tools/props.py (claimed ones: those in pbt/modmap.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
from pbt.modmap import MODULES
ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in ids and len(p['title']) <= 80, p['id']
        ids.add(p['id'])
        files = sorted({m.split('::')[0] for m in p['mech']})
        for x in files:
            assert os.path.exists('/repo/' + x), x
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=files, mechanism=[dict(name=(m.split('::') + [''])[1] or os.path.basename(m), where=m.split('::')[0])
                                                      for m in p['mech']]))
        f.write(json.dumps(d) + '\n')
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p['id'] in MODULES:
        checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                           technique=p.get('technique', 'property-based testing: ' + p['oracle']), level='exploration',
                           level_note='Searched, not proved: random/structured generated cases with shrinking; oracle: '
                           + p['oracle'] + '. Trusts the reference formulas in /verif/pbt and numpy/scipy.'))
    else:
        na.setdefault(p['id'], 'no check built yet')
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
         notes='Each check rebuilds the C/C++ extensions from /repo, imports hexrd from /repo and runs its generators; '
               'see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
