#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
sys.dont_write_bytecode = True
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in CHECKS:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
        continue
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                   'technique': c.get('technique', 'bounded exhaustive exploration of the real code against an executable reference model'),
                   'level': 'model_checking', 'level_note': c.get('note', '') or f'Exhaustive within: {c["bounds"]}.'})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, '..', 'MANIFEST.json'), 'a').write('\n')
