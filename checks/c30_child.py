"""Runs the repository's packaging scripts on headers of a bounded space. usage: c30_child.py REPO SCRATCH TIER
The packaging tools they import are replaced by stand-ins that only record what they are given."""
import contextlib
import importlib.abc
import importlib.machinery
import io
import itertools
import json
import os
import re
import shutil
import sys
import types

sys.dont_write_bytecode = True
REPO, SCRATCH, TIER = sys.argv[1:4]
captured = {}


class Dummy:
    def __init__(self, *a, **k):
        pass

    def __init_subclass__(cls, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: 'stand-in'


class Command:
    """stands for plumbum's local: local['a']['b'] & FG"""

    def __init__(self, words=()):
        self.words = words

    def __getitem__(self, w):
        return Command(self.words + (w if isinstance(w, tuple) else (w,)))

    def __and__(self, other):
        captured.setdefault('commands', []).append(self.words)

    def __call__(self, *a):
        captured.setdefault('commands', []).append(self.words + a)

    def cwd(self, d):
        return contextlib.nullcontext()


def setup(**kw):
    captured['setup'] = kw.get('version')
    captured['cmdclass'] = kw.get('cmdclass', {})


class Stub(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'setup':
            return setup
        if name == 'local':
            return Command()
        if name in ('copy_tree', 'find_packages'):
            return lambda *a, **k: []
        return type(name, (Dummy,), {})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in ('setuptools', 'distutils', 'conan', 'conans', 'plumbum'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Stub(spec.name)

    def exec_module(self, module):
        pass


sys.meta_path.insert(0, Finder())
for n in ('version.py', 'setup.py', 'conanfile.py', 'README.md', 'package.json', 'pyproject.toml'):
    if os.path.exists(os.path.join(REPO, n)):
        shutil.copy(os.path.join(REPO, n), os.path.join(SCRATCH, n))
os.makedirs(SCRATCH + '/include/libqasm')
os.makedirs(SCRATCH + '/python/module')
os.chdir(SCRATCH)
sys.path.insert(0, SCRATCH)
sources = {n: compile(open(n).read(), os.path.join(SCRATCH, n), 'exec') for n in ('version.py', 'setup.py', 'conanfile.py')}
real_header = open(REPO + '/include/libqasm/versioning.hpp', newline='').read()
violations, samples = [], []
steps = cases = 0
seen = set()


def extract():
    """every version the packaging scripts come up with"""
    out = []
    ns = {'__name__': 'version', '__file__': SCRATCH + '/version.py'}
    exec(sources['version.py'], ns)
    out.append(('version.py', ns['get_version']()))
    out.append(('version.py, verbose', ns['get_version'](verbose=True)))
    sys.modules.pop('version', None)
    captured.clear()
    ns = {'__name__': '__main__', '__file__': SCRATCH + '/setup.py'}
    exec(sources['setup.py'], ns)
    out.append(('setup.py', captured.get('setup')))
    try:
        captured['cmdclass']['build_ext']().run()
    except Exception:
        pass  # more than the stand-ins can do
    for words in captured.get('commands', []):
        if '--version' in words[:-1]:
            out.append(('setup.py, build_ext', words[words.index('--version') + 1]))
    sys.modules.pop('version', None)
    ns = {'__name__': 'conanfile', '__file__': SCRATCH + '/conanfile.py'}
    exec(sources['conanfile.py'], ns)
    for c in list(ns.values()):
        if isinstance(c, type) and c.__module__ == 'conanfile' and hasattr(c, 'version'):
            out.append(('conanfile.py', c.version))
    return out


def one(header, expected):
    global steps, cases
    cases += 1
    if header in seen:
        return
    seen.add(header)
    with open('include/libqasm/versioning.hpp', 'wb') as f:
        f.write(header.encode('utf-8'))
    if cases & (cases - 1) == 0:
        samples.append(header[:1500])
    try:
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            found = extract()
    except Exception as e:
        found = [('a packaging script', f'fails with {type(e).__name__}: {e}')]
    for who, v in found:
        steps += 1
        if v != expected and len(violations) < 10:
            violations.append({'case': header, 'what': f'{who} extracts {v!r} as the version, the version in the header is {expected!r}'})


lines = real_header.split('\n')
# the line that defines the version, whatever its form: code before the name, then the number in quotes
DEFINES = re.compile(r'^((?:\w[^"/]*)?\bversion\b[^"\w]*")([^"]*)("[^;]*);')
at = [i for i, l in enumerate(lines) if DEFINES.match(l)]
assert len(at) == 1, 'the header has no line that defines the version, or several'
AT = at[0]
BEFORE, OLD, AFTER = DEFINES.match(lines[AT]).groups()


def header(number, edits=(), tail=';'):
    """edits: (position, line) pairs, inserted in the header without its version line's number changed"""
    ls = list(lines)
    ls[AT] = BEFORE + number + AFTER + tail
    for pos, text in sorted(edits, key=lambda e: -e[0]):
        ls.insert(pos, text)
    return '\n'.join(ls)


decoys = ['', ' ', '\t', '// static const char* version{ "0.0.1" };', ' * static const char* version{ "0.0.2" };', '/* static const char* version{ "0.0.3" }; */',
          '    // static const char* version{ "0.0.4" }; (until 2024)', '# define VERSION "0.0.5"', '#define LIBQASM_VERSION_MAJOR 7', '// version{ "0.0.6" }',
          'static const char* version_suffix{ "-beta" };', 'static const char* min_version{ "0.0.7" };', 'static const char* release_year{ "2031" };', 'static const char* build_date{ "2026-01-01" };',
          'static const char* author{ "someone" }; // version{ "0.0.8" }', 'static const int version_major{ 8 };', 'static const char* const language_version{ "3.0" };',
          'static const std::string version_string{ "0.0.9" };', 'constexpr const char* version_name{ "0.1.0" };', '// "', '/**', ' */', '}', '{', '// © QuTech, Ελληνικά, 日本語', '#include <string>',
          'static const char* versions[]{ "0.1.1", "0.1.2" };', 'static const char* Version{ "0.1.3" };', '// 9.9.9', 'static const char* licence{ "Apache-2.0" };']
numbers = [OLD, '0.0.0', '1.2', '2', '10.20.30', '0.10.0', '1.10.0', '1.3.10', '12.0.0', '1.3.0.1', '1.2.3.4.5', '999.999.999', '00.01.002', '2026.1', '1.0.0000000001', '4294967296.0', '3.1.4', '1.3.1', '0.6.9']
one(real_header, OLD)
for n in numbers:
    for tail in (';', '; ', ';\r', ';  // the version', ' ;', '; // "', ';  /* keep in step with the changelog */'):
        one(header(n, (), tail), n)
        one(header(n, (), tail).replace('\n', '\r\n').replace('\r\r\n', '\r\n'), n)
    one(header(n).rstrip('\n'), n)
    # nothing else in it
    one(f'{BEFORE}{n}{AFTER};', n)
    one(f'{BEFORE}{n}{AFTER};\n', n)
    one(f'\n\n\n{BEFORE}{n}{AFTER};\n\n', n)
for a, b, c in itertools.product(('0', '1', '9', '10', '100'), repeat=3):
    one(header(f'{a}.{b}.{c}'), f'{a}.{b}.{c}')
for n in ('1.3.0', '2.10.7'):
    for pos in range(len(lines) + 1):
        for d in decoys:
            one(header(n, [(pos, d)]), n)
            one(header(n, [(pos, d)]).replace('\n', '\r\n'), n)
for d in decoys:
    for e in decoys:
        for p, q in ((AT, AT), (AT, AT + 1), (AT + 1, AT + 1), (0, AT + 1)) + (((0, len(lines)), (AT - 1, AT), (AT, len(lines))) if TIER == 'thorough' else ()):
            one(header('4.5.6', [(p, d), (q, e)]), '4.5.6')
if TIER == 'thorough':
    for ds in itertools.product(decoys, repeat=3):
        one(header('7.8.9', [(AT, ds[0]), (AT, ds[1]), (AT + 1, ds[2])]), '7.8.9')
# long headers
for n in (10, 100, 1000):
    one('\n'.join(['// line'] * n) + '\n' + header('5.5.5') + '\n'.join(decoys * (n // 10)), '5.5.5')
json.dump({'states': len(seen), 'transitions': steps, 'validated': cases, 'samples': samples[-6:], 'violations': violations, 'real': OLD, 'line': lines[AT], 'parts': [BEFORE, AFTER]}, sys.stdout)
