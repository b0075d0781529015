"""Bit flags: what is stored, what is read back, equality, hash and union."""
from pyvc.evalx import binary_digits
from ._lib import *

BF = UT + 'BitFlags'


def stream(m, name='flag'):
    """n values of any kind, of which only the truth matters."""
    n, t = z3.Int(f'{name}s'), fn(name, 'i', 'b')
    m.assume(n >= 0)
    value = fn(f'{name}_value', 'i', 'i')
    return n, t, lambda i: Term('any value', value(i), truthy=t(i))


def flags(m, name, canonical=True):
    """A BitFlags instance with any stored bytes: (instance, set positions, number of bytes)."""
    n, b = z3.Int(f'{name}_bytes'), fn(f'{name}_bit', 'i', 'i', 'b')
    m.assume(n >= 0)
    byte = lambda i: z3.Sum([z3.If(b(i, r), z3.IntVal(1 << (7 - r)), z3.IntVal(0)) for r in range(8)])
    data = m.listof(n, byte, 'bytes')
    if canonical:
        m.assume(Implies(n > 0, Or(*[b(n - 1, r) for r in range(8)])))
    return data, (lambda w, r: And(w >= 0, w < n, b(w, r))), n, byte


def held(m, data, w, r):
    """Whether the flag at position 8 w + r is set, in stored bytes."""
    n = m.size(data)
    if not m.segs(data):
        return False
    return And(w >= 0, w < n, bit(m.elem(m.segs(data), w), r) == 1)


def bit(byte, r):
    d = binary_digits(zi(byte))
    if d is not None:
        return If(d.get(7 - r, False), z3.IntVal(1), z3.IntVal(0))
    return (zi(byte) / (1 << (7 - r))) % 2


def bytes_of(m, obj):
    return m.getattr(obj, '_bytes')


def same_flags(m, data, expected, what):
    w = m.index('word')
    m.assume(w >= 0)
    for r in range(8):
        m.ensure(f'{what}: flag {r} of any byte', zbool(held(m, data, w, r)) == zbool(expected(w, r)))
    n = m.size(data)
    if not m.segs(data):
        return
    m.ensure(f'{what}: no trailing byte of zeros', Implies(n > 0, zi(m.elem(m.segs(data), n - 1)) != 0))


@contract('P07', [BF + '.__init__', BF + '._bitstream_to_bytes', BF + '.__bytes__'], 'flags built from any values have exactly the positions of the truthy ones, with no trailing bytes of zeros', budget=90)
def from_values(m):
    n, t, v = stream(m)
    given = lambda w, r: And(8 * w + r < n, t(8 * w + r))
    for kind in ('list', 'iterator', 'tuple'):
        make = (lambda: m.iterator(n, v)) if kind == 'iterator' else (lambda: m.listof(n, v, kind))
        for k, o in m.thunk_paths(lambda: m.call(m.getattr(m.new(BF, make()), '__bytes__'), [])):
            if k == 'raise':
                m.unreachable(f'{kind}: never raises')
                continue
            same_flags(m, o, given, kind)


@contract('P07', [BF + '.__init__', BF + '._bitstream_to_bytes'], 'flags given one by one are kept by position', bounded='0, 1, 2, 8, 9 and 10 arguments')
def from_arguments(m):
    ts = [z3.Bool(f'truth{i}') for i in range(10)]
    for n in (0, 1, 2, 8, 9, 10):
        args = [Term('any value', z3.IntVal(i), truthy=t, pytypes=('int',)) for i, t in enumerate(ts[:n])]
        for k, o in m.thunk_paths(lambda: bytes_of(m, m.new(BF, *args))):
            if k == 'raise':
                m.unreachable(f'{n} arguments: never raises')
                continue
            size = m.size(o)
            segs = m.segs(o)
            for i in range(n):
                w, r = divmod(i, 8)
                m.ensure(f'{n} arguments: flag {i}', And(size > w, bit(m.elem(segs, w), r) == 1) == ts[i] if as_int_const(size) is None or as_int_const(size) > w else Not(ts[i]))


@contract('P07', [BF + '.__init__'], 'flags built from bytes have exactly the set bits of the bytes')
def from_bytes(m):
    data, expected, n, byte = flags(m, 'given', canonical=False)
    for k, o in m.thunk_paths(lambda: bytes_of(m, m.new(BF, data))):
        if k == 'raise':
            m.unreachable('never raises')
            continue
        same_flags(m, o, expected, 'bytes')


@contract('P07', [BF + '.__iter__', BF + '._bytes_to_bitstream', BF + '.__len__'], 'reading the flags in order gives every stored position, high bit first')
def read_all(m):
    data, expected, n, byte = flags(m, 'own')
    obj = Rec(m, m.cls(BF), {'_bytes': data})
    for k, o in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [obj], {})):
        if k == 'raise':
            m.unreachable('never raises')
            continue
        m.ensure('eight flags for each byte', m.size(o) == 8 * n)
        w = m.any_index(n)
        for r in range(8):
            x = m.elem(m.segs(o), 8 * w + r)
            m.ensure(f'flag {r} of any byte', zi(x) == If(expected(w, r), 1, 0))
    for k, o in m.method_paths(obj, '__len__'):
        m.ensure('length is eight for each byte', zi(o) == 8 * n)


@contract('P07', BF + '.__getitem__', 'a position gives the flag stored there, a negative one counts from the end, and any other is refused')
def read_position(m):
    data, expected, n, byte = flags(m, 'own')
    obj = Rec(m, m.cls(BF), {'_bytes': data})
    i = z3.Int('position')
    for k, o in m.method_paths(obj, '__getitem__', [i]):
        if k == 'raise':
            m.ensure('refused only when out of range', Or(i >= 8 * n, i < -8 * n))
            m.ensure('refused as an index error', o.name == 'IndexError')
            continue
        m.ensure('answered only when in range', And(i < 8 * n, i >= -8 * n))
        w = m.index('word')
        for r in range(8):
            m.ensure(f'flag {r} of any byte', Implies(And(w >= 0, w < n, Or(i == 8 * w + r, i == 8 * w + r - 8 * n)), zi(o) == If(expected(w, r), 1, 0)))


def slices(m, steps, bounds):
    """Bits come from _bytes_to_bitstream by its contract (read_all)."""
    n, at = z3.Int('own_bytes'), fn('own_flag', 'i', 'b')
    m.assume(n >= 0)
    data = m.listof(n, lambda i: z3.Sum([If(at(8 * i + r), z3.IntVal(1 << (7 - r)), z3.IntVal(0)) for r in range(8)]), 'bytes')
    size = 8 * n
    flag = lambda i: And(i >= 0, i < size, at(i))

    def stream(mm, source):
        if source is not data:
            raise Unsupported('bits of other bytes')
        return mm.iterator(size, lambda i: If(at(i), z3.IntVal(1), z3.IntVal(0)))
    m.contracts[BF + '._bytes_to_bitstream'] = stream
    obj = Rec(m, m.cls(BF), {'_bytes': data})
    for step in steps:
        for lo, hi in bounds:
            k = step or 1
            low, high = (z3.IntVal(0), size) if k > 0 else (z3.IntVal(-1), size - 1)
            clamp = lambda x: If(x < 0, If(x + size < low, low, x + size), If(x > high, high, x))
            first = clamp(lo) if lo is not None else (low if k > 0 else high)
            last = clamp(hi) if hi is not None else (high if k > 0 else low)
            name = f'[{"" if lo is None else "a"}:{"" if hi is None else "b"}{"" if step is None else f":{step}"}]'
            inside = (lambda i: first + k * i < last) if k > 0 else (lambda i: first + k * i > last)
            for kind, o in m.thunk_paths(lambda: bytes_of(m, m.call(m.getattr(obj, '__getitem__'), [Builtin('slice', (lo, hi, step))]))):
                if kind == 'raise':
                    m.unreachable(f'{name} never raises')
                    continue
                same_flags(m, o, lambda w, r: And(inside(8 * w + r), flag(first + k * (8 * w + r))), name)


A, Z = z3.Int('start'), z3.Int('stop')


@contract('P07', BF + '.__getitem__', 'a slice is the flags of the positions it selects, for any bounds', budget=90)
def read_slice(m):
    slices(m, [None], [(A, Z), (A, None), (None, Z), (None, None)])


@contract('P07', BF + '.__getitem__', 'a slice with a step is the flags of the positions it selects, for any bounds', bounded='steps 2, 3, 8, -1 and -2', budget=90)
def read_steps(m):
    slices(m, [2, 3, 8, -1, -2], [(A, Z), (None, None)])


@contract('P07', [BF + '.__eq__', BF + '.__hash__'], 'flags are equal exactly when they have the same set positions, and then hash equal')
def equality(m):
    a, ea, na, ba = flags(m, 'left')
    b, eb, nb, bb = flags(m, 'right')
    x = Rec(m, m.cls(BF), {'_bytes': a})
    y = Rec(m, m.cls(BF), {'_bytes': b})
    w = m.index('word')
    for k, o in m.method_paths(x, '__eq__', [y]):
        if k == 'raise':
            m.unreachable('never raises')
            continue
        eq = zbool(m.truth_term(o))
        for r in range(8):
            m.ensure(f'equal flags have the same flag {r} in any byte', Implies(And(eq, w >= 0), ea(w, r) == eb(w, r)))
        q = m.index('q')
        base = m.snapshot()
        m.assume_forall([q], And(*[ea(q, r) == eb(q, r) for r in range(8)]))
        for z in (na - 1, nb - 1):
            m.assume(And(*[ea(z, r) == eb(z, r) for r in range(8)]))
        m.ensure('flags with the same positions are equal', eq)
        m.restore(base)
    base = m.snapshot()
    m.assume(na == nb)
    q = m.index('q')
    m.assume_forall([q], And(*[ea(q, r) == eb(q, r) for r in range(8)]))
    for k, o in m.thunk_paths(lambda: (m.call_builtin(Builtin('hash'), [x], {}), m.call_builtin(Builtin('hash'), [y], {}))):
        if k == 'raise':
            m.unreachable('hashing never raises')
            continue
        m.ensure('flags with the same positions hash equal', m.eq(*o))
    m.restore(base)


@contract('P07', BF + '.__or__', 'the union has exactly the positions set in either')
def union(m):
    a, ea, na, ba = flags(m, 'left')
    b, eb, nb, bb = flags(m, 'right')
    x = Rec(m, m.cls(BF), {'_bytes': a})
    y = Rec(m, m.cls(BF), {'_bytes': b})
    for k, o in m.thunk_paths(lambda: bytes_of(m, m.call(m.getattr(x, '__or__'), [y]))):
        if k == 'raise':
            m.unreachable('never raises')
            continue
        same_flags(m, o, lambda w, r: Or(ea(w, r), eb(w, r)), 'union')
