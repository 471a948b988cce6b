#!/usr/bin/env python3
"""Runs the checks on every planted bug again, in scratch copies, and records in tools/planted.json which check catches it.
usage: replant.py [id ...]      (never run by a check)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RESULTS = os.path.join(HERE, 'tools/planted.json')


def one(name):
    folder = next(d for d in (os.path.join(HERE, f, name) for f in ('seeded', 'seeded_grammar')) if os.path.exists(d))
    prop = json.load(open(folder + '/meta.json'))['property']
    copy = tempfile.mkdtemp(prefix='replant-')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {copy} && cd {copy} && git init -q . && git apply {folder}/patch.diff', shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_BUILD='/tmp/seed-build', VERIF_EVIDENCE='/tmp/seed-evidence')
        p = subprocess.run([sys.executable, HERE + '/check.py', prop, 'quick'], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return prop if p.returncode == 1 and f'VIOLATION property={prop} ' in p.stdout else f'**missed by {prop}**'
    finally:
        shutil.rmtree(copy)


names = sys.argv[1:] or sorted(n for f in ('seeded', 'seeded_grammar') for n in os.listdir(os.path.join(HERE, f)))
for name in names:
    r = one(name)
    print(name, r, flush=True)
    results = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    results[name] = r
    json.dump(dict(sorted(results.items())), open(RESULTS, 'w'), indent=1)
