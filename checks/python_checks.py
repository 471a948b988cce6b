"""The checks that are driven from Python."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import build  # noqa: E402

FLAGS = ['-D_GLIBCXX_ASSERTIONS']


def c26(tier):
    exe = build.program('c26', ['checks/c26_writer.cpp'], lib='v3x', opt=('-O1',), flags=FLAGS, lib_flags=FLAGS)
    w = subprocess.Popen([exe, tier], stdout=subprocess.PIPE)
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'c26_reader.py'), build.REPO, tier], stdin=w.stdout, stdout=subprocess.PIPE,
                       text=True, timeout=800)
    w.stdout.close()
    if w.wait() != 0:
        return {'states': 0, 'transitions': 0, 'validated': 0, 'violations': [{'case': 'writer', 'what': f'serializing primitives in C++ ends with status {w.returncode}'}]}
    if p.returncode != 0:
        # the module could not even be loaded
        return {'states': 0, 'transitions': 0, 'validated': 0, 'violations': [{'case': 'reader', 'what': 'the Python module cannot be loaded or run'}]}
    return json.loads(p.stdout)


def c27(tier):
    import c27_download
    return c27_download.run(tier)


def c30(tier):
    import c30_version
    return c30_version.run(tier)


def c25(tier):
    import registry
    sources, flags = registry.web('c25_entries.cpp')
    exe = build.program('c25', sources, lib='v3x', opt=('-O1',), flags=FLAGS + flags, lib_flags=FLAGS)
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        p = subprocess.run([exe, tier, d + '/result.json'], cwd=d)
        if p.returncode != 0:
            return {'broken': True, 'violations': []}
        r = json.load(open(d + '/result.json'))
    finally:
        subprocess.run(['rm', '-rf', d])
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'c25_python.py'), build.REPO, tier], stdout=subprocess.PIPE, text=True, timeout=800)
    if p.returncode != 0:
        r['violations'].append({'case': 'module', 'what': 'the Python module cannot be loaded or run'})
        return r
    s = json.loads(p.stdout)
    for k in ('states', 'transitions', 'validated', 'violations'):
        r[k] += s[k]
    r['replay'] = exe + ' --replay'
    return r
