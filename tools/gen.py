#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_meta.py + config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
from config import PROPS
from props_meta import META, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for m in META:
        anchors = dict(files=m['files'], mechanism=[dict(name=n, where=w) for n, w in m['mech']])
        if 'observe' in m:
            anchors['observe_at'] = m['observe']
        anchors['hook_needed'] = False
        f.write(json.dumps(dict(id=m['id'], title=m['title'], statement=m['statement'],
                                quantifier=dict(over=m['over'], text=m['quant']), why_tests_cant=m['why'], anchors=anchors)) + '\n')
checks = []
for m in META:
    i = m['id']
    if i in NOT_APPLICABLE:
        continue
    assert i in PROPS, i
    checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                       evidence_file='/verif/evidence/%s.json' % i, technique='runtime monitoring: ' + m['tech'], level='exploration', level_note=m['note']))
json.dump(dict(version=1, setup_cmd='python3 /verif/check.py --build-all', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes='No hooks were needed in /repo: the library exposes its own modification callbacks and accessors, and the monitors use those. '
                     'Repairs of genuine defects are the "fix:" commits in /repo, listed in known_findings.txt.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
