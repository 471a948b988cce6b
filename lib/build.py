#!/usr/bin/env python3
"""Builds what the checks need from /repo's current working tree, in /verif/.build (git-ignored).

Everything is compiled on demand and cached by content: the key of an object is a hash over the compiler
flags, the source and every header it may see, so that a change of the tree is never missed.
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SHIM = os.path.join(VERIF, 'shim')
CXX = 'g++'
BASE = ['-std=c++20', '-w', '-fno-omit-frame-pointer']
LINK = ['-lfmt', '-lpthread']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('$ ' + ' '.join(cmd) + '\n' + p.stdout[:3000])
    return p.stdout


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:24]


def files_under(d, exts):
    out = []
    for root, dirs, names in os.walk(d):
        dirs.sort()
        out += [os.path.join(root, n) for n in sorted(names) if n.endswith(exts)]
    return out


def headers_key(own):
    """a digest of every header that a source may include; `own`: a source of /verif"""
    fs = []
    for d in ('include', 'src', 'emscripten', 'python'):
        fs += files_under(os.path.join(REPO, d), ('.hpp', '.h'))
    fs += files_under(os.path.join(SHIM, 'include'), ('.hpp', '.h'))
    if own:
        fs += files_under(os.path.join(VERIF, 'lib'), ('.hpp', '.h'))
    return digest([f + '\0' + read(f).decode('utf-8', 'replace') for f in fs])


def generate():
    """runs the stand-in generators; returns the directory with the generated headers and sources"""
    trees = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.tree'), recursive=True))
    gram = [os.path.join(REPO, 'src/v3x/CqasmLexer.g4'), os.path.join(REPO, 'src/v3x/CqasmParser.g4')]
    gens = [os.path.join(SHIM, 'gen_tree.py'), os.path.join(SHIM, 'gen_antlr.py')]
    key = digest([f + '\0' + read(f).decode() for f in trees + gram + gens])
    out = os.path.join(BUILD, 'gen-' + key)
    if not os.path.exists(out + '/done'):
        tmp = out + '.tmp%d-%d' % (os.getpid(), threading.get_ident())
        os.makedirs(tmp + '/libqasm/v3x')
        for t in trees:
            sh([sys.executable, gens[0], t, tmp])
        sh([sys.executable, gens[1]] + gram + [tmp + '/libqasm/v3x'])
        open(tmp + '/done', 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


def compile_all(units, flags, jobs=8):
    """units: list of (source, extra flags); returns the objects"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    hk = {own: headers_key(own) for own in (False, True)}
    theirs = (REPO + '/', SHIM + '/', os.path.join(BUILD, 'gen-'))

    def one(u):
        src, extra = u
        fl = BASE + list(flags) + list(extra)
        key = digest([hk[not src.startswith(theirs)], src, read(src)] + fl)
        obj = os.path.join(BUILD, 'obj', os.path.basename(src).rsplit('.', 1)[0] + '-' + key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.tmp%d-%d' % (os.getpid(), threading.get_ident())
            sh([CXX] + fl + ['-c', src, '-o', tmp])
            os.rename(tmp, obj)
        return obj
    # the big ones first
    order = sorted(range(len(units)), key=lambda i: -os.path.getsize(units[i][0]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fut = {i: ex.submit(one, units[i]) for i in order}
        return [fut[i].result() for i in range(len(units))]


def link(objs, out, extra=()):
    key = digest(objs + list(extra))
    exe = os.path.join(BUILD, 'bin', f'{out}-{key}')
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.tmp%d-%d' % (os.getpid(), threading.get_ident())
        sh([CXX, '-o', tmp] + objs + list(extra) + LINK)
        os.rename(tmp, exe)
    return exe


def plain_sources():
    return [os.path.join(REPO, 'src', n) for n in ('annotations.cpp', 'utils.cpp')]


def tree_sources():
    """library parts that need the tree support headers, but neither grammar nor generated trees"""
    return [os.path.join(REPO, 'src', n) for n in ('annotations.cpp', 'utils.cpp', 'error.cpp', 'string_builder.cpp', 'version.cpp')]


def v3x_sources(gen):
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')) + glob.glob(os.path.join(REPO, 'src/v3x', '*.cpp')))


def program(name, sources, lib='v3x', opt=('-O1',), flags=(), lib_flags=(), ldflags=()):
    """builds a program from own sources and one of the three library configurations; returns its path"""
    inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(SHIM, 'include'), '-I' + os.path.join(REPO, 'include')]
    if lib == 'plain':
        # nothing of the stand-ins is visible to these
        inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'include')]
        libs, shims = plain_sources(), []
    elif lib == 'tree':
        libs, shims = tree_sources(), []
    elif lib == 'v3x':
        gen = generate()
        inc += ['-I' + gen, '-I' + os.path.join(gen, 'libqasm/v3x')]
        libs = v3x_sources(gen)
        shims = files_under(gen, ('.cpp',)) + [os.path.join(SHIM, 'src/antlr4-runtime.cpp')]
    else:
        libs, shims = [], []
    units = [(s, list(lib_flags)) for s in libs] + [(s, []) for s in shims]
    units += [(s if os.path.isabs(s) else os.path.join(VERIF, s), list(flags)) for s in sources]
    objs = compile_all(units, list(opt) + inc)
    return link(objs, name, list(opt) + list(ldflags))


if __name__ == '__main__':
    # setup: everything the checks share, so that a broken tool chain shows here
    src = os.path.join(BUILD, 'setup.cpp')
    os.makedirs(BUILD, exist_ok=True)
    open(src, 'w').write('int main() {}\n')
    print(program('setup', [src], flags=['-D_GLIBCXX_ASSERTIONS'], lib_flags=['-D_GLIBCXX_ASSERTIONS']))
