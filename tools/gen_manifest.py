#!/usr/bin/env python3
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, root)
import registry
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': registry.TECHNIQUE[i], 'level': 'exploration', 'level_note': registry.NOTE[i]})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
