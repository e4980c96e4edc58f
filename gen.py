#!/usr/bin/env python3-vt
"""Regenerates properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
import props, specs
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []; na = []
for p in props.PROPS:
    i = p['id']
    s = specs.SPECS.get(i)
    if s is None: na.append(dict(property=i, reason=specs.NA.get(i, 'check not built yet'))); continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique=s.get('technique', specs.TECH), level=s['level'], level_note=s['bounds'] + ' ' + specs.NOTE))
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na,
               notes='Symbolic execution of the LLVM IR of /repo, obligations decided by z3 (see DESIGN.md). No hooks in /repo.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
