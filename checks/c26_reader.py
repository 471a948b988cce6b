"""Reads what c26_writer prints and compares it with what the Python module of the repository makes of it.
usage: c26_reader.py REPO TIER   (lines on stdin, JSON result on stdout)"""
import collections
import importlib.util
import itertools
import json
import struct
import sys
import types

sys.dont_write_bytecode = True
REPO, TIER = sys.argv[1], sys.argv[2]
sys.setrecursionlimit(10000)


# --- CBOR as the generated Python support code reads and writes it
BREAK = object()


def decode(d, p=0):
    ib = d[p]
    p += 1
    major, info = ib >> 5, ib & 31
    if ib == 0xFF:
        return BREAK, p

    def arg(p):
        if info < 24:
            return info, p
        n = {24: 1, 25: 2, 26: 4, 27: 8}[info]
        return int.from_bytes(d[p:p + n], 'big'), p + n
    if major in (0, 1):
        v, p = arg(p)
        return (v if major == 0 else -1 - v), p
    if major in (2, 3):
        n, p = arg(p)
        b = d[p:p + n]
        assert len(b) == n
        return (b if major == 2 else b.decode('utf-8')), p + n
    if major == 4:
        out = []
        n = None
        if info != 31:
            n, p = arg(p)
        while n is None or len(out) < n:
            v, p = decode(d, p)
            if v is BREAK:
                break
            out.append(v)
        return out, p
    if major == 5:
        out = {}
        n = None
        if info != 31:
            n, p = arg(p)
        while n is None or len(out) < n:
            k, p = decode(d, p)
            if k is BREAK:
                break
            out[k], p = decode(d, p)
        return out, p
    if ib in (0xF4, 0xF5):
        return ib == 0xF5, p
    if ib == 0xF6:
        return None, p
    if ib == 0xFB:
        return struct.unpack('>d', d[p:p + 8])[0], p + 8
    raise ValueError('unexpected CBOR')


def head(major, v):
    if v < 24:
        return bytes([major << 5 | v])
    for info, n in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if v < 1 << (8 * n):
            return bytes([major << 5 | info]) + v.to_bytes(n, 'big')
    raise ValueError('integer too large')


def encode(v):
    if v is None:
        return b'\xf6'
    if isinstance(v, bool):
        return b'\xf5' if v else b'\xf4'
    if isinstance(v, int):
        return head(0, v) if v >= 0 else head(1, -1 - v)
    if isinstance(v, float):
        return b'\xfb' + struct.pack('>d', v)
    if isinstance(v, str):
        b = v.encode('utf-8')
        return head(3, len(b)) + b
    if isinstance(v, bytes):
        return head(2, len(v)) + v
    if isinstance(v, (list, tuple)):
        return b'\x9f' + b''.join(map(encode, v)) + b'\xff'
    if isinstance(v, dict):
        return b'\xbf' + b''.join(encode(k) + encode(x) for k, x in v.items()) + b'\xff'
    raise TypeError(f'cannot encode {type(v)}')


# --- the parts of the module the generator would add
class Node:
    def __init__(self, name, size):
        self.name, self.size = name, size

    @staticmethod
    def deserialize(b):
        if not isinstance(b, bytes):
            raise TypeError('Node.deserialize needs bytes')
        m, p = decode(b)
        assert p == len(b)
        return Node(m['@t'], m['size']['x'])

    def serialize(self):
        return encode({'@i': 0, '@t': self.name, 'size': {'x': self.size}})

    def __eq__(self, o):
        return isinstance(o, Node) and (self.name, self.size) == (o.name, o.size)

    def __str__(self):
        return f'{self.name}:{self.size}'


for name in ('cqasm', 'cqasm.v3x'):
    m = types.ModuleType(name)
    m.__path__ = [REPO + '/python/module/' + name.replace('.', '/')]
    sys.modules[name] = m
sys.modules['cqasm'].v3x = sys.modules['cqasm.v3x']
t = types.ModuleType('cqasm.v3x.types')
t.Node = Node
sys.modules['cqasm.v3x.types'] = t
sys.modules['cqasm.v3x'].types = t
import cqasm.v3x.primitives as prim  # noqa: E402
import cqasm.v3x.instruction as inst  # noqa: E402

TYPES = {'str': prim.Str, 'bool': prim.Bool, 'int': prim.Int, 'float': prim.Float, 'version': prim.Version, 'ref': inst.InstructionRef}
PY = {'str': str, 'bool': bool, 'int': int, 'float': float, 'version': prim.Version, 'ref': inst.InstructionRef}


def canonical(kind, v):
    if type(v) is not PY[kind]:
        return f'a {type(v).__name__}: {v!r}'
    if kind == 'str':
        return v.encode('utf-8', 'surrogatepass').hex()
    if kind == 'bool':
        return '1' if v else '0'
    if kind == 'int':
        return str(v)
    if kind == 'float':
        return struct.pack('>d', v).hex()
    if kind == 'version':
        if any(type(x) is not int for x in v):
            return 'components that are not int: ' + repr(tuple(v))
        return '.'.join(map(str, v))
    if v.data is None:
        return '-'
    if type(v.data) is not inst.Instruction:
        return f'a reference to {v.data!r}'
    return ' '.join([canonical('str', v.data.name)] + [str(x) for x in v.data.types])


violations, samples = [], []
states, transitions, validated = 0, 0, 0
distinct = set()


def bad(case, what):
    if len(violations) < 10:
        violations.append({'case': case[:4000], 'what': what})


def guarded(case, f):
    try:
        f()
    except Exception as e:  # the module may not fail on any value of the space
        bad(case, f'unexpected {type(e).__name__}: {e}')


def line_case(line):
    global transitions
    kind, cbor, expected = line.split('\t')
    raw, end = decode(bytes.fromhex(cbor))
    assert end * 2 == len(cbor)
    typ = TYPES[kind]
    v = prim.deserialize(typ, raw)
    got = canonical(kind, v)
    if got != expected:
        return bad(line, f'C++ serialized the {kind} {expected}, Python reads {got}')
    s = prim.serialize(typ, v)
    direct = canonical(kind, prim.deserialize(typ, s))
    if direct != expected:
        return bad(line, f'Python serialized the {kind} {expected} to {s!r}, and reads it back as {direct}')
    bytes_ = encode(s)
    back, _ = decode(bytes_)
    got = canonical(kind, prim.deserialize(typ, back))
    if got != expected:
        return bad(line, f'Python serialized the {kind} {expected}, and reads it back from CBOR as {got}')
    # reading it a second time gives the same, and did not change the first
    if canonical(kind, prim.deserialize(typ, raw)) != expected or canonical(kind, v) != expected:
        return bad(line, f'reading the {kind} {expected} twice gives different values')
    transitions += 5


for line in sys.stdin:
    line = line.rstrip('\n')
    validated += 1
    distinct.add(hash(line))
    if validated & (validated - 1) == 0:
        samples.append(line[:500])
    guarded(line, lambda: line_case(line))


def version_case(parts):
    global transitions
    want = tuple(parts)
    text = '.'.join(map(str, parts))
    for how, v in (('text', prim.Version(text)), ('list', prim.Version(list(parts))), ('tuple', prim.Version(want)),
                   ('generator', prim.Version(x for x in parts)), ('list of texts', prim.Version([str(x) for x in parts])),
                   ('version', prim.Version(prim.Version(text)))):
        transitions += 1
        if not isinstance(v, prim.Version) or not (v == want) or v != want or tuple(v) != want or hash(v) != hash(want) or not isinstance(v, tuple) or len(v) != len(want):
            return bad('version ' + text, f'Version built from a {how} is {v!r}, expected to equal {want}')


comps = (0, 1, 3, 9, 10, 100, 12345678901234567890)
for n in range(1, 5 if TIER == 'thorough' else 4):
    for parts in itertools.product(comps, repeat=n):
        validated += 1
        distinct.add(('v', parts))
        guarded('version ' + repr(parts), lambda: version_case(parts))
for n in range(4, 11):
    for parts in itertools.product((0, 7), repeat=n):
        validated += 1
        distinct.add(('v', parts))
        guarded('version ' + repr(parts), lambda: version_case(parts))


# references made in Python
def ref_case(args, want):
    global transitions
    r = inst.InstructionRef(*args)
    transitions += 1
    for v in (r, prim.deserialize(inst.InstructionRef, decode(encode(prim.serialize(inst.InstructionRef, r)))[0])):
        if canonical('ref', v) != want:
            return bad(f'reference {args!r}', f'expected {want}, got {canonical("ref", v)}')


nodes = [Node('Qubit', 1), Node('QubitArray', 7), Node('Float', 1)]
for name in ('H', '', 'é', 'x' * 30):
    for n in range(0, 4):
        for ts in itertools.product(nodes, repeat=n):
            want = ' '.join([name.encode().hex()] + [str(x) for x in ts])
            for args in ((name, list(ts)), (name, ts), (inst.Instruction(name, ts),)):
                validated += 1
                guarded(f'reference {name} {n}', lambda: ref_case(args, want))
    validated += 1
    guarded(f'reference {name}', lambda: ref_case((inst.Instruction(name),), name.encode().hex()))
for args in ((), (None,)):
    validated += 1
    guarded('empty reference', lambda: ref_case(args, '-'))

json.dump({'states': len(distinct), 'transitions': transitions, 'validated': validated, 'samples': samples[-6:], 'violations': violations}, sys.stdout)
