"""The Python class of the repository on top of a stand-in for the generated binding: every kind of answer of the
binding, through every method. usage: c25_python.py REPO TIER   (JSON result on stdout)"""
import importlib.util
import itertools
import json
import sys
import types

sys.dont_write_bytecode = True
REPO, TIER = sys.argv[1], sys.argv[2]
LOG = []       # calls of the binding and of the readers
ANSWER = None  # what the binding answers


def record(kind, *args):
    LOG.append((kind,) + args)


class V3xAnalyzer:
    def __init__(self, *args):
        record('new', args)

    def register_instruction(self, *args):
        record('register_instruction', args)


def static(name):
    def f(*args):
        record(name, args)
        return ANSWER
    return staticmethod(f)


def method(name):
    def f(self, *args):
        record(name, args)
        return ANSWER
    return f


METHODS = [a + b + c for a in ('parse', 'analyze') for b in ('_file', '_string') for c in ('', '_to_json')]
for name in METHODS:
    setattr(V3xAnalyzer, name, static(name) if name.startswith('parse') else method(name))


def reader(kind):
    class Reader:
        @staticmethod
        def deserialize(data):
            record(kind, data)
            return ('tree', kind, bytes(data))
    return Reader


cqasm, v3x, ast, semantic, lib = (types.ModuleType(n) for n in ('cqasm', 'cqasm.v3x', 'cqasm.v3x.ast', 'cqasm.v3x.semantic', 'libqasm'))
cqasm.__path__, v3x.__path__ = [], []
cqasm.v3x, v3x.ast, v3x.semantic = v3x, ast, semantic
ast.Root, ast.Program, semantic.Program = reader('ast.Root'), reader('ast.Program'), reader('semantic.Program')
lib.V3xAnalyzer = V3xAnalyzer
sys.modules.update({'cqasm': cqasm, 'cqasm.v3x': v3x, 'cqasm.v3x.ast': ast, 'cqasm.v3x.semantic': semantic, 'libqasm': lib})
spec = importlib.util.spec_from_file_location('cqasm.v3x', REPO + '/python/module/cqasm/v3x/__init__.py')
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)
Analyzer = module.Analyzer

states, transitions, violations = set(), 0, []


def violation(case, what):
    if len(violations) < 10:
        violations.append({'case': case, 'what': what})


def expected(name, answer):
    """the answer of the class, and what its reader is given"""
    if name.endswith('_to_json'):
        return answer, None
    if len(answer) == 1:
        kind = 'ast.Root' if name.startswith('parse') else 'semantic.Program'
        data = answer[0].encode('utf-8', 'surrogateescape')
        return ('tree', kind, data), (kind, data)
    return list(answer[1:]), None


def ask(name, how, args, answer, case):
    global ANSWER, transitions
    transitions += 1
    ANSWER = answer
    states.add((name, how, args, repr(answer)))
    try:
        target = Analyzer if how == 'class' else how
        del LOG[:]
        got = getattr(target, name)(*args)
    except Exception as e:
        violation(case, f'{name} raises {e!r}')
        return
    want, read = expected(name, answer)
    if got != want or type(got) is not type(want):
        violation(case, f'{name}: expected {str(want)[:300]!r}, got {str(got)[:300]!r}')
    calls = [c for c in LOG if c[0] in METHODS]
    if calls != [(name, args)]:
        violation(case, f'{name}{args!r}: expected one call of the library with these arguments, got {calls!r}')
    readers = [c for c in LOG if c[0] not in METHODS and c[0] != 'new']
    if readers != ([read] if read else []):
        violation(case, f'{name}: expected {read!r} to be read, got {readers!r}')


def answers():
    """every kind of answer: a tree of any bytes, lists of errors, texts"""
    some = [0, 10, 34, 92, 127, 128, 195, 169, 191, 226, 237, 160, 240, 255]
    for n in range(3):
        for b in itertools.product(range(256) if n < 2 or TIER == 'thorough' else some, repeat=n):
            yield [bytes(b).decode('utf-8', 'surrogateescape')]
    for b in itertools.product(some, repeat=3):
        yield [bytes(b).decode('utf-8', 'surrogateescape')]
    for n in (100, 1000, 65536):
        yield [bytes(k * 7 % 256 for k in range(n)).decode('utf-8', 'surrogateescape')]
    errors = ['Error: x', 'Error at 1:2: two\nlines', '', 'caf\xe9 \u20ac', '\udcff', '[]', 'None']
    for n in range(1, 5 if TIER == 'thorough' else 4):
        for e in itertools.product(errors, repeat=n):
            yield [''] + list(e)
    for n in (10, 1000):
        yield [''] + ['Error: %d' % k for k in range(n)]


texts = ['{}', '{"errors":[]}', '', '{"errors":[{"message":"caf\xe9"}]}', '[1', 'null', 'x' * 70000]
names = [('version 3; qubit q',), ('a b.cq',), ('',)]
pairs = [('version 3', 'input.cq'), ('version 3', ''), ('', 'caf\xe9.cq')]
makers = [(), ('3.0',), ('3.0', True), ('3.0', False)]
count = 0
for name in METHODS:
    arguments = names + (pairs if '_string' in name else [])
    for answer in (texts if name.endswith('_to_json') else answers()):
        count += 1
        for args in arguments if count % 11 == 0 or len(answer) > 1 else arguments[:1]:
            case = f'{name}{args!r} when the library answers {str(answer)[:100]!r}'
            for how in ['class', Analyzer()] if name.startswith('parse') else [Analyzer()]:
                ask(name, how, args, answer, case)
# objects: made with the same arguments as those of the library, and registering with them
for make in makers:
    del LOG[:]
    a = Analyzer(*make)
    if LOG != [('new', make)]:
        violation(f'Analyzer{make!r}', f'makes {LOG!r}')
    for args in (('X', 'Q'), ('X', None), ('reset', '')):
        del LOG[:]
        a.register_instruction(*args)
        if LOG != [('register_instruction', args)]:
            violation(f'register_instruction{args!r}', f'calls {LOG!r}')
    transitions += 4
# sequences of calls of one object, with different answers
few = [(n, w) for n in METHODS for w in (texts[:2] if n.endswith('_to_json') else (['\x01\udcff'], ['', 'Error: x'], ['', 'a', 'b']))]
for sequence in itertools.product(few, repeat=2):
    a = Analyzer()
    for name, answer in sequence:
        ask(name, a, ('t',), answer, f'{[s[0] for s in sequence]}')
json.dump({'states': len(states), 'transitions': transitions, 'validated': transitions, 'violations': violations}, sys.stdout)
