#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, properties.jsonl, lib/registry.py and seeded/."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from registry import CHECKS  # noqa: E402

text = open(os.path.join(HERE, 'tools/DESIGN.in.md')).read()
properties = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
notes = {}
body, _, rest = text.partition('@NOTES@\n')
for m in re.finditer(r'^## (C\d\d)\n(.*?)(?=^## C\d\d\n|\Z)', rest, re.S | re.M):
    notes[m[1]] = m[2].strip()
missing = [p['id'] for p in properties if p['id'] not in notes]
assert not missing, missing

out = []
for p in properties:
    out.append(f"### {p['id']} {p['title']}\n\n{notes[p['id']]}\n\nBounds: {CHECKS[p['id']]['bounds']}.\n")
fixes = [json.loads(x)['summary'] for x in open(os.path.join(HERE, 'known-findings.jsonl'))]
results = json.load(open(os.path.join(HERE, 'tools/planted.json')))
table = ['| planted bug | what it breaks | caught by |', '|---|---|---|']
folders = {n: f for f in ('seeded', 'seeded_grammar') for n in os.listdir(os.path.join(HERE, f))}
for name, folder in sorted(folders.items()):
    meta = json.load(open(os.path.join(HERE, folder, name, 'meta.json')))
    table.append(f"| {name} | {meta['what_it_breaks'].strip().rstrip('.')} | {results.get(name, 'not run')} |".replace('\n', ' '))
body = body.replace('@PROPERTIES@', '\n'.join(out)).replace('@FIXES@', '\n'.join('* ' + f for f in fixes)).replace('@PLANTED@', '\n'.join(table))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(body)
