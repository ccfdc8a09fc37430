#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the descriptions below (run after editing them)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'cpp/subprojects/boosting'
S = 'cpp/subprojects/seco'
C = 'cpp/subprojects/common'
PC = 'python/subprojects/common/mlrl/common'
PT = 'python/subprojects/testbed/mlrl/testbed'
PB, PS, PC, PT = ('python/subprojects/' + n for n in ('boosting/mlrl/boosting', 'seco/mlrl/seco', 'common/mlrl/common',
                                                    'testbed/mlrl/testbed'))
PROPS = []
SHRINK = {'ROWS': [['x', 'y'], ['q']], 'COLS': [['x', 'q'], ['y']], 'KEEP': ['loss']}


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, rule, quick_s=25, thorough_s=600,
         **check):
    PROPS.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])),
                  technique, note,
                  dict(dict(quick_s=quick_s, thorough_s=thorough_s, quick_cases=10**7, thorough_cases=10**8, rule=rule,
                            shrink=SHRINK), **check)))


exec(open(os.path.join(HERE, 'tools', 'properties_source.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _, _ in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'checks.json'), 'w') as f:
    json.dump({p['id']: c for p, _, _, c in PROPS}, f, indent=1)
    f.write('\n')
cmd = '/opt/vp/venv/bin/python check.py %s %s'
manifest = dict(
    version=1, setup_cmd='/opt/vp/venv/bin/python lib/build.py opt && /opt/vp/venv/bin/python lib/build.py asan',
    checks=[dict(property=p['id'], quick_cmd=cmd % (p['id'], 'quick'), thorough_cmd=cmd % (p['id'], 'thorough'),
                 evidence_file=f"evidence/{p['id']}.json", technique=t, level='exploration', level_note=n)
            for p, t, n, _ in PROPS],
    not_applicable=NOT_APPLICABLE,
    notes='All checks are instances of one engine (check.py, lib/): generated cases, explicit oracles, shrinking, replay. '
          'No hooks are added to the repository. Genuine defects are listed in known_findings.json and DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    schema = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _, _, _ in PROPS:
        jsonschema.validate(p, schema)
        missing = [n for n in p["anchors"]["files"] + [m["where"].split(":")[0] for m in p["anchors"]["mechanism"]] if not os.path.exists(os.path.join("/repo", n))]
        assert not missing, missing
        for n in []:
            assert os.path.exists(os.path.join('/repo', n)), n
    print('valid', len(PROPS))
except ImportError:
    print('not validated')
