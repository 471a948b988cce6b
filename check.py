#!/usr/bin/env python3
"""usage: check.py PROPERTY quick|thorough
Decides one property on /repo's current tree: builds what it needs, explores, writes evidence/PROPERTY.json,
prints VIOLATION lines (exit 1) or nothing (exit 0). Exit 2: the check itself could not be run."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_EVIDENCE', HERE)  # set when bugs are planted in scratch copies
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import build  # noqa: E402
from registry import CHECKS  # noqa: E402


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                k = json.loads(line)
                if k.get('property') == prop and k.get('status') == 'known':
                    out.append(k)
    return out


def replay_path(prop, n):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{prop}-{n}.case')


def run_cpp(prop, c, tier):
    exe = build.program(prop.lower(), c['sources'], lib=c['lib'], opt=c.get('opt', ('-O1',)), flags=c.get('flags', ()),
                        lib_flags=c.get('lib_flags', ()), ldflags=c.get('ldflags', ()))
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        res = os.path.join(d, 'result.json')
        p = subprocess.run([exe, tier, res], cwd=d, env=dict(os.environ, **c.get('env', {})))
        if p.returncode != 0 or not os.path.exists(res):
            print(f'check.py: {exe} ended with status {p.returncode}', file=sys.stderr)
            sys.exit(2)
        r = json.load(open(res))
        r['replay'] = exe + ' --replay'
        return r
    finally:
        subprocess.run(['rm', '-rf', d])


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    c = CHECKS[prop]
    start = time.time()
    try:
        r = c['run'](tier) if 'run' in c else run_cpp(prop, c, tier)
    except build.BuildError as e:
        print('check.py: the tree does not build\n' + str(e), file=sys.stderr)
        sys.exit(2)
    if r.get('broken'):
        print('check.py: the exploration did not finish', file=sys.stderr)
        sys.exit(2)
    known = known_findings(prop)
    lines, unknown = [], 0
    seen = set()
    for i, v in enumerate(r['violations']):
        case = v['case'].encode('latin-1', 'replace')
        k = next((k for k in known if k['case'] == v['case'] and k.get('what', '') in v['what']), None)
        if k:
            if k['case'] not in seen:
                lines.append(f'KNOWN-FINDING: property={prop} {k["summary"]}')
            seen.add(k['case'])
            continue
        path = replay_path(prop, unknown)
        with open(path, 'wb') as f:
            f.write(case)
        with open(path + '.txt', 'w') as f:
            f.write(f'property: {prop}\ncase: {v["case"]!r}\nwhat: {v["what"]}\nreplay: {r.get("replay", "")} {path}\n')
        lines.append(f'VIOLATION property={prop} replay={path}')
        print(f'  {prop}: {v["what"][:1500]}\n    case: {v["case"][:600]!r}', file=sys.stderr)
        unknown += 1
    cov = {'states': r['states'], 'transitions': r['transitions'], 'traces_validated_against_impl': r['validated'],
           'samples': r.get('samples', []), 'exhaustive': True, 'bounds': c['bounds'][tier] if isinstance(c.get('bounds'), dict) else c.get('bounds', '')}
    cov.update(r.get('coverage', {}))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - start, 2), 'violations': unknown}
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for line in lines:
        print(line)
    sys.exit(1 if unknown else 0)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
