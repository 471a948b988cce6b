"""One version everywhere: what the packaging scripts extract, what the compiler sees, what web users are told."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

import build

HERE = os.path.dirname(os.path.abspath(__file__))
PRINT = '''#include <iostream>
#include "libqasm/versioning.hpp"
int main() { std::cout << cqasm::get_version() << '\\n' << cqasm::version << '\\n'; }
'''
WEB = '''#include <cstdio>
#include "%s/emscripten/emscripten_wrapper.hpp"
int main() { EmscriptenWrapper w; std::puts(w.get_version().c_str()); std::puts(EmscriptenWrapper{}.get_version().c_str()); }
'''
ANALYZER = '''#pragma once
#include <string>
#include <optional>
struct V3xAnalyzer {
    static std::string parse_string_to_json(const std::string&, const std::optional<std::string>& = {}) { return ""; }
    std::string analyze_string_to_json(const std::string&, const std::optional<std::string>& = {}) { return ""; }
};
'''
BIND = '''#pragma once
#define EMSCRIPTEN_BINDINGS(name) static void bindings_##name()
namespace emscripten {
template <class T> struct class_ {
    explicit class_(const char*) {}
    template <class... A> class_& constructor(A...) { return *this; }
    template <class... A> class_& function(const char*, A...) { return *this; }
};
}
'''


def text(path):
    with open(path) as f:
        return f.read()


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(s)


BUILDING = threading.Lock()


def compiled(scratch, definition, old, k, number):
    """the versions a program built against the header with the given number reports: directly, and as the web wrapper"""
    d = f'{scratch}/c{k}'
    h = text(build.REPO + '/include/libqasm/versioning.hpp')
    line, (before, after) = definition
    h2 = h.replace(line, before + number + after + ';', 1)
    write(d + '/inc/libqasm/versioning.hpp', h2)
    write(d + '/stub/libqasm/v3x/cqasm_python.hpp', ANALYZER)
    write(d + '/inc/emscripten/bind.h', BIND)
    write(d + '/a.cpp', PRINT)
    write(d + '/b.cpp', WEB % build.REPO)
    base = ['g++', '-std=c++20', '-w', '-O0', '-I', d + '/inc']
    subprocess.run(base + ['-I', build.REPO + '/include', d + '/a.cpp', '-o', d + '/a'], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = [('the compiled library', x) for x in subprocess.run([d + '/a'], stdout=subprocess.PIPE, text=True).stdout.split('\n')[:-1]]
    p = subprocess.run(base + ['-I', d + '/stub', '-I', build.REPO + '/emscripten', '-I', build.REPO + '/include', d + '/b.cpp', build.REPO + '/emscripten/emscripten_wrapper.cpp', '-o', d + '/b', '-lfmt'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        out += [('the web wrapper', x) for x in subprocess.run([d + '/b'], stdout=subprocess.PIPE, text=True).stdout.split('\n')[:-1]]
    else:
        # the wrapper needs more of the library: only with the header as it is
        with BUILDING:
            exe = build.program('c30web', [d + '/b.cpp', build.REPO + '/emscripten/emscripten_wrapper.cpp'], lib='v3x', flags=['-I' + d + '/inc', '-I' + build.REPO + '/emscripten'])
        out += [('the web wrapper', number if x == old else x) for x in subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.split('\n')[:-1]]
    return number, out


def run(tier):
    scratch = tempfile.mkdtemp(prefix='verif-c30-')
    try:
        os.makedirs(scratch + '/tree')
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(HERE, 'c30_child.py'), build.REPO, scratch + '/tree', tier], stdout=subprocess.PIPE, text=True, timeout=800)
        if p.returncode != 0:
            return {'states': 0, 'transitions': 0, 'validated': 0, 'violations': [{'case': 'real header', 'what': 'the packaging scripts do not run, or the header has no version line'}]}
        r = json.loads(p.stdout)
        real = r.pop('real')
        definition = (r.pop('line').rstrip('\r'), r.pop('parts'))
        if not re.fullmatch(r'[0-9]+(\.[0-9]+)*', real):
            r['violations'].append({'case': 'real header', 'what': f'{real!r} is not a dotted number'})
        numbers = [real, '0.0.1', '10.20.30', '1.3.1', '1.2', '7', '2.0.0.1'] + ([f'{a}.{b}.{c}' for a in (0, 1, 12) for b in (0, 3, 10) for c in (0, 7)] if tier == 'thorough' else [])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for number, out in ex.map(lambda kn: compiled(scratch, definition, real, *kn), list(enumerate(numbers))):
                r['states'] += 1
                r['validated'] += 1
                if len(out) < 4:
                    r['violations'].append({'case': number, 'what': f'the programs do not report the version: {out}'})
                for who, v in out:
                    r['transitions'] += 1
                    if v != number:
                        r['violations'].append({'case': number, 'what': f'{who} reports {v!r}, the version in the header is {number!r}'})
        return r
    finally:
        subprocess.run(['rm', '-rf', scratch])
