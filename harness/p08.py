from harness.core import *
from harness.common import *
import struct, zlib, uuid


def code(i, uid):
    data = (i % 2**64).to_bytes(8, 'big') + uid
    return '%dX%08X' % (i, zlib.crc32(data))


def m(name):
    return internal('toron.cli.common', name)


UIDS = [uuid.UUID(int=7).bytes, uuid.UUID(int=2**127 + 5).bytes, b'', b'x' * 16, b'0123456789abcdef']
IDS = [0, 1, 2, 9, 10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**53, 2**63 - 1]


def raises(f, *a):
    try:
        f(*a)
    except (ValueError, AttributeError):
        return True
    return False


@scenario('P08', 'encode and decode', n=3000, cases=lambda: [{'i': i, 'u': u} for i in IDS for u in UIDS])
class RoundTrip:
    def gen(rng, i):
        return {'i': rng.choice([rng.randrange(0, 50), rng.randrange(0, 10**6), rng.randrange(0, 2**63)]), 'u': bytes(rng.randrange(256) for _ in range(16))}

    def check(c):
        i, u = c['i'], c['u']
        t = m('index_id_to_code')(i, u)
        ensure(t == code(i, u), f'{i} -> {t}, expected {code(i, u)}')
        got = m('index_code_to_id')(t, u)
        ensure(got == i and type(got) is int, f'{t} -> {got!r}')
        ensure(m('is_index_code')(t, u) is True, f'{t} not recognised')


def meaning(text, u):
    """id a text is the code of (leniently spelled), or None"""
    if not isinstance(text, str):
        return None
    a, x, b = text.partition('X')
    try:
        i, k = int(a), int(b, 16)
    except ValueError:
        return None
    if not -2**63 <= i < 2**63:
        return None
    return i if zlib.crc32((i % 2**64).to_bytes(8, 'big') + u) == k else None


@scenario('P08', 'altered, foreign and malformed codes', n=6000)
class Corrupt:
    def gen(rng, i):
        u = bytes(rng.randrange(256) for _ in range(16))
        k = rng.choice([rng.randrange(0, 50), rng.randrange(0, 10**6), rng.randrange(0, 2**63)])
        t = code(k, u)
        how = rng.randrange(9)
        if how == 0:      # another id, same checksum
            t = f'{k + rng.choice([1, -1, 10, 2**20, -k, 2**32])}X{t.split("X")[1]}'
        elif how == 1:    # one hex digit
            p = t.index('X') + 1 + rng.randrange(8)
            t = t[:p] + rng.choice('0123456789ABCDEFG') + t[p + 1:]
        elif how == 2:    # another space
            v = bytearray(u)
            v[rng.randrange(16)] ^= 1 << rng.randrange(8)
            t = code(k, bytes(v))
        elif how == 3:
            t = rng.choice(['', 'X', 'abc', '12', '12X', 'X00000000', '1.5X00', ' ', '-', '1XX', '0x10X12', '1e3X0', '٣X0', '9' * 30 + 'X0', '-1X' + code(-1, u).split('X')[1],
                            '9' * 30 + 'X' + '0' * 8, str(2**63) + 'X00000000', '-' + '9' * 25 + 'X0', '1X-1', '1X100000000', 'x', 'City', '1 X 2'])
        elif how == 4:
            t = rng.choice([None, 1, 1.5, [], {}, True])
        elif how == 5:
            t = t[:rng.randrange(len(t))]
        elif how == 6:
            p = rng.randrange(len(t) + 1)
            t = t[:p] + rng.choice('0X1aF ') + t[p:]
        elif how == 7:
            t = f'{k}X{zlib.crc32(u):08X}'
        else:
            t = f'{k}X{zlib.crc32(u + (k % 2**64).to_bytes(8, "big")):08X}'
        return {'t': t, 'u': u}

    def check(c):
        t, u = c['t'], c['u']
        want = meaning(t, u)
        if want is None:
            ensure(raises(m('index_code_to_id'), t, u), f'{t!r} decoded')
            ensure(m('is_index_code')(t, u) is False, f'{t!r} taken for an index code')
        else:
            ensure(m('index_code_to_id')(t, u) == want and m('is_index_code')(t, u) is True, f'{t!r} is not read as {want}')


@scenario('P08', 'column of codes', n=1500)
class Column:
    def gen(rng, i):
        n = rng.randint(1, 5)
        us = [bytes(rng.randrange(256) for _ in range(16)) for _ in range(2)]
        kinds = [rng.choice(['own', 'other', 'text', 'blank', 'number']) if rng.random() < 0.5 else 'text' for _ in range(n)]
        if rng.random() < 0.6:
            kinds[rng.randrange(n)] = 'own'
        rws = []
        for r in range(rng.randint(0, 6)):
            row = []
            for k in kinds:
                j = rng.randrange(0, 100)
                row.append({'own': code(j, us[0]) if rng.random() < 0.8 else '', 'other': code(j, us[1]), 'text': 'abc', 'blank': '', 'number': '5'}[k])
            rws.append(row)
        return {'n': n, 'rows': rws, 'u': us[0]}

    def check(c):
        hits = {p for row in c['rows'] for p, x in enumerate(row) if meaning(x, c['u']) is not None}
        try:
            pos = m('get_index_code_position')(iter(c['rows']), c['u'])
        except RuntimeError:
            ensure(len(hits) != 1, f'column {hits} not found')
            return
        ensure(hits == {pos}, f'position {pos}, columns with codes: {sorted(hits)}')
        header = [f'h{i}' for i in range(c['n'])]
        out = list(m('remap_index_codes_to_index_ids')([header] + c['rows'], c['u'], pos))
        ensure(out[0] == header[:pos] + ['index_id'] + header[pos + 1:], f'header {out[0]}')
        ensure(len(out) == len(c['rows']) + 1, 'rows lost')
        for a, b in zip(c['rows'], out[1:]):
            want = meaning(a[pos], c['u']) if a[pos] else a[pos]
            ensure(list(b) == a[:pos] + [want] + a[pos + 1:], f'{a} -> {b}')


@scenario('P08', 'a wrong code in the data is refused', n=500)
class WrongInData:
    def gen(rng, i):
        u = bytes(rng.randrange(256) for _ in range(16))
        bad = Corrupt.gen(rng, i)['t']
        return {'u': u, 'rows': [[code(rng.randrange(99), u), 'a'] for _ in range(rng.randint(0, 4))], 'bad': bad if isinstance(bad, str) else '5', 'at': rng.randrange(5)}

    def check(c):
        if not c['bad'] or meaning(c['bad'], c['u']) is not None:
            raise Trivial()
        data = [['code', 'x']] + c['rows']
        data.insert(1 + min(c['at'], len(c['rows'])), [c['bad'], 'a'])
        try:
            out = list(m('remap_index_codes_to_index_ids')(data, c['u'], 0))
        except (ValueError, AttributeError):
            return
        raise Violation(f'{c["bad"]!r} accepted: {out}')


@scenario('P08', 'codes exported for a dataspace lead back to its records', n=80)
class Export:
    def gen(rng, i):
        return {'index': rand_index(rng, 2), 'domain': rng.choice(['', 'abc', 'x y']), 'drop': rng.randrange(3)}

    def check(c):
        import io, csv, contextlib, argparse
        mod = internal('toron.cli.command_index', 'write_to_stdout')
        s = make_space(['A', 'B'], c['index'])
        with quiet():
            if c['domain']:
                s.set_domain(c['domain'])
            if c['drop']:
                s.delete_index(A=c['index'][0][0], B=c['index'][0][1])
        raw = io.BytesIO()
        buf = io.TextIOWrapper(raw, newline='')
        with quiet():
            mod(argparse.Namespace(stdout=buf, stdin=None), s)
        out = list(csv.reader(io.StringIO(raw.getvalue().decode())))
        uid = uuid.UUID(s.unique_id).bytes
        pos = m('get_index_code_position')(out[1:], uid)
        back = {tuple(r[1:3]): r[0] for r in s.select_index()}
        ensure(len(out) - 1 == len(back), 'records missing')
        for r in out[1:]:
            k = r[out[0].index('A')], r[out[0].index('B')]
            ensure(m('index_code_to_id')(r[pos], uid) == back.get(k), f'{r}: code of another record')
