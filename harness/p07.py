from harness.core import *
from harness.common import *
import sqlite3


def strip0(bits):
    bits = [1 if b else 0 for b in bits]
    while bits and not bits[-1]:
        bits.pop()
    return bits


def pack(bits):
    """reference: position j is bit 7-j%8 of byte j//8"""
    bits = strip0(bits)
    out = bytearray((len(bits) + 7) // 8)
    for j, b in enumerate(bits):
        if b:
            out[j // 8] += 128 >> (j % 8)
    return bytes(out)


def cls():
    return internal('toron._utils', 'BitFlags')


def small():
    import itertools
    out = []
    for n in range(0, 11):
        for bits in itertools.product([0, 1], repeat=n):
            out.append({'b': list(bits), 'o': list(bits[::-1]), 'sl': [None, None, None]})
    return out


def rand_bits(rng):
    n = rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 33, rng.randint(0, 70)])
    p = rng.choice([0.02, 0.1, 0.5, 0.9])
    return [int(rng.random() < p) for _ in range(n)]


@scenario('P07', 'flags, bytes, positions and slices', n=5500, cases=small)
class Flags:
    def gen(rng, i):
        b = rand_bits(rng)
        o = rng.choice([rand_bits(rng), b + [0] * rng.randint(0, 17), b[:-1], b[:1] + [1 - x for x in b[1:2]] + b[2:]])
        sl = [rng.choice([None, rng.randint(-80, 80)]), rng.choice([None, rng.randint(-80, 80)]), rng.choice([None, 1, 2, 3, -1, -3, 9])]
        return {'b': b, 'o': o, 'sl': sl}

    def check(c):
        B = cls()
        b, o = c['b'], c['o']
        truthy = [['', 'x'][x] for x in b]
        want = pack(b)
        variants = {'list': B(list(b)), 'iterator': B(iter(b)), 'text': B(truthy), 'bytes': B(want), 'padded': B(want + b'\0' * 3), 'long': B(list(b) + [0] * 9), 'self': B(B(list(b)))}
        if len(b) > 1:
            variants['args'] = B(*b)
            variants['args2'] = B(*truthy)
        full = strip0(b)
        full = full + [0] * (-len(full) % 8)
        for k, v in variants.items():
            ensure(bytes(v) == want, f'{k}: {b} -> {bytes(v)!r}, expected {want!r}')
            ensure(list(v) == full and len(v) == len(full), f'{k}: sequence {list(v)}')
            ensure(all(v[j] == full[j] and v[j - len(full)] == full[j] for j in range(len(full))), f'{k}: items of {b}')
            for j in (len(full), len(full) + 7, -len(full) - 1):
                try:
                    v[j]
                except IndexError:
                    continue
                raise Violation(f'{k}: position {j} of {len(full)} accepted')
            ensure(v == variants['list'] and hash(v) == hash(variants['list']) and v == b and v == truthy, f'{k}: not equal to itself')
        s = slice(*c['sl'])
        v = variants['list']
        ensure(bytes(v[s]) == pack(full[s]), f'slice {c["sl"]} of {b}: {list(v[s])}')
        w = B(list(o))
        same = strip0(b) == strip0(o)
        ensure((v == w) == same and (v != w) == (not same) and (v == o) == same, f'{b} == {o}: {v == w}')
        ensure(not same or hash(v) == hash(w), 'equal flags hash differently')
        n = max(len(b), len(o))
        u = [x | y for x, y in zip(b + [0] * (n - len(b)), o + [0] * (n - len(o)))]
        ensure(bytes(v | w) == pack(u) and (v | w) == (w | v), f'{b} | {o} = {list(v | w)}')
        ensure(v.count(1) == sum(b), 'count')
        ensure(eval(repr(v), {'BitFlags': B}) == v, 'repr')


@scenario('P07', 'any bytes', n=1500)
class AnyBytes:
    def gen(rng, i):
        return {'b': bytes(rng.choice([0, 255, rng.randrange(256), 1, 128]) for _ in range(rng.randint(0, 9)))}

    def check(c):
        B = cls()
        v = B(c['b'])
        want = c['b'].rstrip(b'\0')
        ensure(bytes(v) == want, f'{c["b"]!r} -> {bytes(v)!r}')
        bits = [int(x) for y in want for x in f'{y:08b}']
        ensure(list(v) == bits and bytes(B(list(v))) == want and B(bits) == v, f'{c["b"]!r}: {list(v)}')


@scenario('P07', 'SQL function follows the flags', n=600)
class Sql:
    def gen(rng, i):
        return {'b': rng.choice([None, rand_bits(rng), rand_bits(rng), [0] * rng.randint(0, 9)]), 'v': rng.choice(['x', '', 1, 2.5, None]), 'raw': rng.random() < 0.3}

    def check(c):
        create = internal('toron.dal1.schema', 'create_toron_apply_bit_flag')
        con = sqlite3.connect(':memory:')
        create(con)
        b = c['b']
        blob = None if b is None else pack(b) + (b'\0\0' if c['raw'] else b'')
        try:
            for j in range(0, len(b or []) + 12):
                got = con.execute('SELECT toron_apply_bit_flag(?, ?, ?)', (c['v'], blob, j)).fetchone()[0]
                want = c['v'] if b is None or (j < len(b) and b[j]) else None
                ensure(got == want, f'flags {b} position {j}: {got!r}, expected {want!r}')
        finally:
            con.close()


@scenario('P07', 'partition levels are stored as the flags of their columns', n=150)
class Stored:
    def gen(rng, i):
        n = rng.randint(1, 11)
        return {'n': n, 'sub': [[int(rng.random() < 0.4) for _ in range(n)] for _ in range(rng.randint(1, 3))]}

    def check(c):
        n = c['n']
        cols = [f'c{i}' for i in range(n)]
        a, b = make_space(cols, [[f'x{j}' for _ in cols] for j in range(3)]), make_space(['Z'], [['p'], ['q'], ['r']])
        with quiet():
            a.add_link(b, 'L')
            for f in c['sub']:
                if any(f) and not all(f) and frozenset(x for x, y in zip(cols, f) if y) not in structure(a):
                    a.add_partition_definition({x for x, y in zip(cols, f) if y})
            for k, f in enumerate(c['sub'] + [[1] * n]):
                if any(f) and f not in (c['sub'] + [[1] * n])[:k]:
                    a.insert_mappings2(b, 'L', [[k % 3 + 1, 1, pack(f), 1.0]], columns=['other_index_id', 'index_id', 'mapping_level', 'L'])
        st = {x for x in structure(a)}
        for r in rows(a, 'mapping'):
            ensure(r['mapping_level'] in {pack([int(x in y) for x in cols]) for y in st}, f'level {r["mapping_level"]!r} is no partition')
        R = internal('toron.dal1.repositories', 'StructureRepository')
        with a._managed_cursor() as cur:
            for x in R(cur).get_all():
                ensure(tuple(bool(y) for y in x.bits) in {tuple(z in y for z in cols) for y in st}, f'bits {x.bits}')
