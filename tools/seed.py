"""Helper for planting bugs: seed(id, property, needs, breaks, edits, demo, kind) writes /verif/seeded/<id> after
confirming in scratch copies that the patch builds, passes the stable tests, and that the demonstration tells them
apart; then runs the property's check against the changed copy and says whether it is caught.

kind: 'plain' | 'tree' | 'v3x' (C++ demo, with the library parts it needs) or 'sh' (demo is the shell script)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = '/verif'
PLAIN = '"$PWD/src/annotations.cpp" "$PWD/src/utils.cpp"'
TREE = PLAIN + ' "$PWD/src/error.cpp" "$PWD/src/string_builder.cpp" "$PWD/src/version.cpp"'

HEAD = '''#!/bin/bash
# run in the repository's root; exit 0: the property holds on the demonstrated input
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
'''
CPP = HEAD + '''g++ -std=c++20 -O1 -w -I"$PWD/include" {inc} "$D/demo.cpp" {src} -o "$T/demo" -lfmt -lpthread || exit 2
cd "$T"
timeout 120 ./demo
'''
V3X = HEAD + '''# the stand-ins for tree-gen and ANTLR beside this script generate what the library needs
mkdir -p "$T/gen/libqasm/v3x" "$T/obj"
for t in $(find "$PWD/src" -name '*.tree'); do python3 -B "$D/shim/gen_tree.py" "$t" "$T/gen" || exit 2; done
python3 -B "$D/shim/gen_antlr.py" "$PWD/src/v3x/CqasmLexer.g4" "$PWD/src/v3x/CqasmParser.g4" "$T/gen/libqasm/v3x" || exit 2
n=0
for f in "$D/demo.cpp" "$PWD"/src/*.cpp "$PWD"/src/v3x/*.cpp $(find "$T/gen" -name '*.cpp') "$D/shim/src/antlr4-runtime.cpp"; do
    n=$((n + 1))
    printf '%s\\n%s\\n' "$f" "$T/obj/$n.o"
done | xargs -P 8 -L 2 sh -c 'g++ -std=c++20 -O0 -w {flags} -I"$1/include" -I"$2/shim/include" -I"$3/gen" -I"$3/gen/libqasm/v3x" {inc} -c "$4" -o "$5"' sh "$PWD" "$D" "$T" || exit 2
g++ "$T"/obj/*.o {flags} -o "$T/demo" -lfmt -lpthread || exit 2
cd "$T"
timeout 120 ./demo
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def stable_tests(copy):
    # what /opt/vp/build.sh compiles, for a copy
    b = tempfile.mkdtemp(prefix='seedb-')
    try:
        c, o = sh(f'printf \'#include "libqasm/versioning.hpp"\\nint main(){{}}\' > {b}/v.cpp && g++ -std=c++20 -I{copy}/include {b}/v.cpp -o {b}/v && '
                  f'g++ -std=c++20 -Wall -Wextra -Wfatal-errors -I{copy}/include -I{copy}/test {copy}/src/annotations.cpp {copy}/src/utils.cpp '
                  f'{copy}/test/test_annotations.cpp {copy}/test/test_utils.cpp -o {b}/t -lfmt -lgmock_main -lgmock -lgtest -lpthread && {b}/t --gtest_brief=1')
        return c == 0, o
    finally:
        shutil.rmtree(b)


def seed(id, prop, needs, breaks, edits, demo, kind='plain', files=None, inc='', flags='', check=None, copies=()):
    t0 = time.time()
    out = f'{VERIF}/seeded/{id}'
    done = False
    copy = tempfile.mkdtemp(prefix='seed-')
    os.rmdir(copy)
    sh(f'git -C /repo worktree prune; mkdir {copy} && git -C /repo archive HEAD | tar x -C {copy} && cd {copy} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm base')
    try:
        os.makedirs(out, exist_ok=True)
        for f in files or {}:
            open(f'{out}/{f}', 'w').write(files[f])
        for src in copies:
            shutil.copy(src, out)
        if kind == 'sh':
            open(f'{out}/demo.sh', 'w').write(HEAD + demo)
        else:
            open(f'{out}/demo.cpp', 'w').write(demo)
            if kind == 'plain':
                text = CPP.format(inc=inc, src=PLAIN)
            elif kind == 'tree':
                shutil.rmtree(out + '/shim', ignore_errors=True)
                os.makedirs(out + '/shim')
                shutil.copytree(VERIF + '/shim/include', out + '/shim/include')
                text = CPP.format(inc='-I"$D/shim/include" ' + inc, src=TREE)
            else:
                shutil.rmtree(out + '/shim', ignore_errors=True)
                shutil.copytree(VERIF + '/shim', out + '/shim', ignore=shutil.ignore_patterns('__pycache__'))
                text = V3X.format(inc=inc, flags=flags)
            open(f'{out}/demo.sh', 'w').write(text)
        os.chmod(f'{out}/demo.sh', 0o755)
        c0, o0 = sh(f'bash {out}/demo.sh', cwd=copy)
        if c0 != 0:
            print(f'{id}: demo fails on the unchanged tree ({c0}):\n{o0[-1500:]}')
            return False
        for f, old, new in edits:
            p = f'{copy}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(f'{id}: text occurs {s.count(old)} times in {f}: {old!r}')
                return False
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh('git diff', cwd=copy)
        open(f'{out}/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{out}/meta.json', 'w'), indent=1)
        ok, o = stable_tests(copy)
        if not ok:
            print(f'{id}: the stable tests fail or the build breaks:\n{o[-1500:]}')
            return False
        c1, o1 = sh(f'bash {out}/demo.sh', cwd=copy)
        if c1 == 0 or c1 == 2:
            print(f'{id}: demo ends with {c1} on the changed tree\n{o1[-1500:]}')
            return False
        res = []
        for pr in check or [prop]:
            env = dict(os.environ, VERIF_REPO=copy, VERIF_BUILD='/tmp/seed-build', VERIF_EVIDENCE='/tmp/seed-evidence')
            c, o = sh(f'python3 {VERIF}/check.py {pr} quick', cwd=VERIF, env=env)
            v = [l for l in o.splitlines() if 'VIOLATION' in l]
            res.append(f'{pr}:{"CAUGHT" if c == 1 and v else "missed(%d)" % c}')
            if c not in (0, 1):
                print(o[-1500:])
            elif v:
                res.append(v[0][:100])
        done = True
        print(f'{id}: ok, {" ".join(res)} [{time.time() - t0:.0f} s]')
        return True
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        if not done:
            shutil.rmtree(out, ignore_errors=True)
