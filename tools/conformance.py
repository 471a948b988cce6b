#!/usr/bin/env python3
"""Runs libqasm's own C++ test suite (all of it: goldens, gtest and gmock cases) against the stand-ins
in /verif/shim, in a scratch copy of res/. Shows how far the stand-ins behave like tree-gen and ANTLR."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build
R = build.REPO
tests = [f'{R}/test/{f}' for f in ('main.cpp', 'test_annotations.cpp', 'test_error.cpp', 'test_result.cpp', 'test_utils.cpp', 'utils.cpp')]
tests += [f'{R}/test/v3x/cpp/{f}' for f in sorted(os.listdir(f'{R}/test/v3x/cpp')) if f.endswith('.cpp')]
exe = build.program('repo-tests', tests, opt=('-O1',), flags=[f'-I{R}/test', f'-I{R}/test/v3x/cpp'], ldflags=['-lgmock', '-lgtest'])
d = tempfile.mkdtemp(prefix='verif-conf-')
try:
    shutil.copytree(f'{R}/res', d + '/res')
    sys.exit(subprocess.run([exe, '--gtest_brief=1'] + sys.argv[1:], cwd=d).returncode)
finally:
    if '--keep' not in sys.argv:
        shutil.rmtree(d)
    else:
        print(d)
