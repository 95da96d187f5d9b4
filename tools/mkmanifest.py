#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py (a property with harnesses is claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import config
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = config.NOT_APPLICABLE
TECH = ('symbolic execution of the LLVM IR of the current scribbu sources (all paths within the bounds, '
        'SMT-decided with z3), counterexamples replayed on an ASan build of the same sources')
checks = []
for p in props:
    if p not in config.V: continue
    c = dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
             technique=TECH, level='model_checking', level_note=config.NOTE.get(p, 'Bounded: every input within the bounds listed per harness entry in tools/config.py; environment modelled as listed under assumptions in the evidence.'))
    checks.append(c)
na = [dict(property=p, reason=NA[p]) for p in props if p not in config.V and p in NA]
missing = [p for p in props if p not in config.V and p not in NA]
if missing: print('no check and not declared not applicable:', missing)
na += [dict(property=p, reason='no check built yet') for p in missing]
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=checks, not_applicable=na, notes='Harness entries, bounds and unit lists: tools/config.py. Known findings and fixes: KNOWN_FINDINGS.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
