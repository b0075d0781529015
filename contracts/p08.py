"""Index codes: what is produced, what is accepted, and that a code with only one part changed is refused."""
import zlib
from struct import Struct
from ._lib import *

COMMON = 'toron.cli.common:'
DEC = z3.Function('str_of_int', z3.IntSort(), z3.StringSort())
CRC = z3.Function('crc', z3.IntSort(), z3.IntSort())


class Packed(Model):
    """The id as eight bytes, big-endian."""
    pytypes = ('bytes',)

    def __init__(self, i):
        self.i = i

    def binop(self, m, op, other):
        if op.__name__ == 'Add' and isinstance(other, Uid):
            return Message(self.i)
        raise Unsupported('bytes of another form')


class Uid(Model):
    pytypes = ('bytes',)


class Message(Model):
    """The eight bytes of the id followed by the unique id of the dataspace."""
    pytypes = ('bytes',)

    def __init__(self, i):
        self.i = i


class PackI64(Model):
    def a_pack(self, m):
        return self.pack

    def pack(self, m, i):
        if not m.branch(And(i >= -2**63, i < 2**63)):
            raise PyExc('struct.error')
        return Packed(i)


def crc_distinguishes_ids():
    """CRC32 of two messages of one length differs by a linear function of their difference (assumed of zlib, as of every CRC).
    That function is injective on the low 32 bits of the id: rank 32 here, and appending any byte maps checksums one to one."""
    q = Struct('>q').pack
    zero = zlib.crc32(q(0))
    rows = [zlib.crc32(q(1 << k)) ^ zero for k in range(32)]
    step = lambda c: zlib.crc32(b'\0', c)
    after = [step(1 << k) ^ step(0) for k in range(32)]
    return rank(rows) == 32 and rank(after) == 32


def rank(rows):
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)


def setting(m):
    m.models['struct.Struct'] = lambda mm, fmt: PackI64() if fmt in ('>q', '!q') else Opaque('struct')

    def crc32(mm, msg, start=0):
        if not isinstance(msg, Message) or start != 0:
            raise Unsupported('a checksum of something else')
        c = CRC(msg.i)
        mm.assume(And(c >= 0, c < 2**32))
        return c
    m.models['binascii.crc32'] = m.models['zlib.crc32'] = crc32
    return Uid()



def parse(text, base):
    return z3.Function(f'int_ok_{base}', z3.StringSort(), z3.BoolSort())(text), z3.Function(f'int_of_{base}', z3.StringSort(), z3.IntSort())(text)


def parts(text):
    sep = z3.StringVal('X')
    k = z3.IndexOf(text, sep, 0)
    return z3.SubString(text, 0, k), z3.SubString(text, k + 1, z3.Length(text))


def good(text):
    """The text has the form of a code and its checksum is the one of its id."""
    head, tail = parts(text)
    (ok1, i), (ok2, c) = parse(head, 10), parse(tail, 16)
    return And(z3.Contains(text, z3.StringVal('X')), ok1, ok2, i >= -2**63, i < 2**63, c == CRC(i)), i


@contract('P08', COMMON + 'index_code_to_id', 'a text is accepted exactly as id X checksum whose checksum is the one of that id and dataspace')
def decode(m):
    uid = setting(m)
    text = z3.String('code')
    m.assume(Not(parse(z3.StringVal(''), 16)[0]))       # int('', 16) is refused
    ok, i = good(text)
    for kind, v in m.paths(COMMON + 'index_code_to_id', [text, uid]):
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            m.ensure('a code of this dataspace is not refused', Not(ok))
            continue
        m.ensure('accepted only with the checksum of its id', ok)
        m.ensure('the id is the one in the code', m.eq(v, i))


@contract('P08', COMMON + 'index_id_to_code', 'the code of an id is the id, X and its checksum; it decodes to this id')
def encode(m):
    uid = setting(m)
    i = z3.Int('index_id')
    m.prove_timeout = 3000
    m.to_str = lambda v: DEC(v) if is_z3(v) and z3.is_int(v) else type(m).to_str(m, v)
    m.assume(And(i >= 0, i < 2**63))                    # what AUTOINCREMENT produces
    # contracts of str, format and int: decimal and hexadecimal digits without X, read back as the same number
    for text, base, value in [(m.to_str(i), 10, i)] + [(m.format_of(CRC(i), spec), 16, CRC(i)) for spec in ('08X', 'X', '08x', 'x')]:
        ok, n = parse(text, base)
        m.assume(And(ok, n == value, Not(z3.Contains(text, z3.StringVal('X')))))
    for kind, v in m.paths(COMMON + 'index_id_to_code', [i, uid]):
        if not m.ensure('every id has a code', kind == 'return'):
            continue
        ok, n = good(v)
        head, tail = parts(v)
        if m.ensure('the code begins with the id', m.eq(head, m.to_str(i))):
            m.assume(m.eq(head, m.to_str(i)))
        m.ensure('the code decodes to this id', And(ok, n == i))


@contract('P08', COMMON + 'index_code_to_id', 'a code of which only the id (below 2^32) or only the checksum was changed is refused')
def corrupt(m):
    uid = setting(m)
    i, j, c = z3.Ints('index_id other_id other_checksum')
    if not m.ensure('checksums of ids below 2^32 differ (rank of zlib.crc32)', crc_distinguishes_ids()):
        return
    m.assume(Implies(And(i >= 0, i < 2**32, j >= 0, j < 2**32, i != j), CRC(i) != CRC(j)))
    m.assume(And(i >= 0, i < 2**32))
    code = z3.String('changed_code')
    m.assume(Not(parse(z3.StringVal(''), 16)[0]))
    head, tail = parts(code)
    (ok1, n), (ok2, k) = parse(head, 10), parse(tail, 16)
    m.assume(z3.Xor(And(n == j, j >= 0, j < 2**32, i != j, k == CRC(i)), And(n == i, k == c, c != CRC(i))))
    for kind, v in m.paths(COMMON + 'index_code_to_id', [code, uid]):
        m.ensure('refused', kind == 'raise' and v.name == 'ValueError')
