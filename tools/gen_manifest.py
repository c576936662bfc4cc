#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import registry as R

na = getattr(R, 'NOT_APPLICABLE', [])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in list(R.PROPS) + list(na):
        anchors = dict(files=p.files, mechanism=[dict(name=a, where=b) if len(t) == 2 else dict(name=t[0], where=t[1])
                                                 for t in p.mech for a, b in [(t + ('',))[:2]]])
        if p.state:
            anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p.state]
        f.write(json.dumps(dict(id=p.id, title=p.title, statement=p.statement, quantifier=dict(over=p.over, text=p.quant),
                                why_tests_cant=p.why, anchors=anchors)) + '\n')
checks = []
for p in R.PROPS:
    checks.append(dict(property=p.id, quick_cmd='python3 bin/check.py ' + p.id, thorough_cmd='python3 bin/check.py %s --thorough' % p.id,
                       technique=p.technique or 'relational abstract interpretation of LLVM IR against a reference model',
                       level=R.level(p), level_note=p.note or R.NOTE))
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks,
         not_applicable=[dict(property=p.id, reason=p.note) for p in na],
         notes='All checks are static: they compile the current sources to LLVM IR (or run compiler front ends) and never execute them.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
