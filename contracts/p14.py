"""The hash of the index."""
from ._lib import *

HASH = UT + 'SequenceHash'


class Sha(Model):
    """SHA-256 by what was fed to it."""
    def __init__(self, m):
        self.fed = PList(m, [], 'list')

    def m_update(self, m, data):
        parts = m.segs(data) if isinstance(data, PList) else []
        if len(parts) != 8 or not all(isinstance(x, One) and x.guard is True for x in parts):
            raise Unsupported('hash of other pieces than eight bytes')
        self.fed.segs = self.fed.segs + [One(tuple(x.value for x in parts))]

    def m_hexdigest(self, m):
        return Digest(list(self.fed.segs))


class Digest(Model):
    def __init__(self, segs):
        self.segs = segs


def fed(m, segs, N, value):
    """Exactly the values, in order, each as eight bytes."""
    v = PList(m, segs, 'list')
    k = m.any_index(N)
    m.ensure('as many values as there are', m.eq(m.size(v), N))
    x = m.elem(segs, k)
    m.ensure('every value in order, as its eight bytes, the highest first', And(*[m.eq(b, value(k) / 256**(7 - j) % 256) for j, b in enumerate(x)]))


def whole(n):
    return And(n >= 0, n < 2**64)


@contract('P14', [HASH + '.__init__', HASH + '.add_value', HASH + '.get_hexdigest'], 'the hash is that of exactly the given numbers in order, which must increase; anything else is refused')
def sequence_hash(m):
    N, value = z3.Int('N'), fn('value', 'i', 'i')
    m.assume(N >= 0)
    m.models['hashlib.sha256'] = lambda mm: Sha(mm)
    increasing = lambda i: And(whole(value(i)), Or(i == 0, value(i) > value(i - 1)))
    k = m.any_index(N)
    for kind, v in m.thunk_paths(lambda: m.call(m.getattr(m.new(HASH, m.iterator(N, value)), 'get_hexdigest'), [])):
        if kind == 'raise':
            m.ensure('refused as an illegal value', v.name == 'ValueError')
            m.ensure('refused only if the numbers do not increase or do not fit', m.exists_in(N, lambda i: Not(increasing(i))))
            continue
        m.ensure('accepted numbers increase and fit', increasing(k))
        fed(m, v.segs, N, value)


class Index(Model):
    def __init__(self, N, ids):
        self.N, self.ids = N, ids

    def m_find_all_index_ids(self, m, ordered=False):
        if ordered is not True:
            raise Unsupported('ids in no particular order')
        return m.iterator(self.N, self.ids)


class Props(Model):
    def __init__(self, m):
        self.writes = PList(m, [], 'list')

    def m_add_or_update(self, m, key, value):
        self.writes.segs = self.writes.segs + [One((key, value))]


@contract('P14', DS + 'refresh_index_hash_property', 'the stored hash is that of all index ids in order')
def stored_hash(m):
    N, ids = z3.Int('N'), fn('index_id', 'i', 'i')
    m.assume(N >= 0)
    i, j = z3.Ints('i_ j_')
    m.assume_forall([i], Implies(And(i >= 0, i < N), whole(ids(i))))
    m.assume_forall([i, j], Implies(And(i >= 0, i < j, j < N), ids(i) < ids(j)))
    m.models['hashlib.sha256'] = lambda mm: Sha(mm)
    props = Props(m)
    for kind, v in m.paths(DS + 'refresh_index_hash_property', [Index(N, ids), props]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        w = m.segs(props.writes)
        if not m.ensure('one property is written', len(w) == 1 and isinstance(w[0], One)):
            continue
        key, value = w[0].value
        m.ensure('the index hash', m.eq(key, 'index_hash'))
        m.ensure('by its digest', isinstance(value, Digest))
        fed(m, value.segs, N, ids)
