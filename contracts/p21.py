"""Quantities and locations that match no index record."""
from ._lib import *


class World(Model):
    """N locations with K labels each; a location's labels agree with
    hits(i) index records; partition s of the structure has the columns sbits(s).

    BitFlags are used through the contract proved under P07: two flags are
    equal exactly when they have the same set positions."""
    def __init__(self, m):
        self.N, self.K, self.S = z3.Int('locations'), z3.Int('columns'), z3.Int('partitions')
        m.assume(And(self.N >= 0, self.K >= 1, self.S >= 0))
        self.name, self.lab = fn('column', 'i', 's'), fn('label', 'i', 'i', 's')
        self.lid, self.hits = fn('location_id', 'i', 'i'), fn('matches', 'i', 'i')
        self.sbits, self.lbits = fn('structure_bits', 'i', 'i'), fn('labelled_columns', 'i', 'i')
        m.distinct(self.K, self.name)
        m.distinct(self.N, self.lid)
        m.forall_in(self.N, lambda i: self.hits(i) >= 0)
        m.contracts['toron._utils:BitFlags'] = self.flags

    def row_of(self, m, v):
        """The location whose labels the sequence holds."""
        segs = m.segs(v)
        j = m.index()
        g = m.single_gen(segs)
        t = m.elem(segs, j) if g is not None and m.eq_terms(m.size(v), self.K) else None
        if t is None or not is_z3(t) or not t.decl().eq(self.lab) or not t.arg(1).eq(j):
            raise Unsupported('labels of another form')
        return t.arg(0)

    def flags(self, m, *args):
        if len(args) != 1:
            raise Unsupported('flags of another form')
        if isinstance(args[0], Term):
            return args[0]
        return Term('flags', self.lbits(self.row_of(m, args[0])))

    def loc(self, m, i):
        return m.rec(DM + 'Location', id=self.lid(i), labels=m.listof(self.K, lambda j: self.lab(i, j), 'tuple'))

    def m_get_label_names(self, m):
        return m.listof(self.K, self.name)

    def m_find_all(self, m):
        return m.seq('locations', lambda i: self.loc(m, i), self.N)

    def m_get_all(self, m):
        return m.listof(self.S, lambda s: m.rec(DM + 'Structure', id=s, granularity=None, bits=Term('flags', self.sbits(s))))

    def m_filter_index_ids_by_label(self, m, criteria, include_undefined=True):
        j, n, guard, (key, val) = leaf(m, criteria)
        if not is_app(val, self.lab):
            raise Unsupported('criteria of another form')
        i = val.arg(0)
        m.ensure('criteria name every labelled column with its label, and no other',
                 And(val.arg(1) == j, m.eq(n, self.K), Implies(And(j >= 0, j < self.K), And(
                     guard == (val != z3.StringVal('')), m.eq(key, self.name(j))))))
        if include_undefined is not True:
            raise Unsupported('undefined record excluded')
        k = m.index()
        return PList(m, [Gen(k, self.hits(i), True, [One(m.int('matching'))])])

    def covered(self, m, i):
        return m.exists(m.segs(m.listof(self.S, self.sbits)), lambda b: b == self.lbits(i))


@contract('P21', DS + 'find_locations_without_index', 'exactly the locations that agree with no index record')
def without_index(m):
    w = World(m)
    for kind, v in m.paths(DS + 'find_locations_without_index', [w, w]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        exactly(m, v, w.N, w.lid, lambda i: w.hits(i) == 0, 'location without index record')


@contract('P21', DS + 'find_locations_without_structure', 'exactly the locations whose labelled columns are no partition')
def without_structure(m):
    w = World(m)
    for kind, v in m.paths(DS + 'find_locations_without_structure', [w, w]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        exactly(m, v, w.N, w.lid, lambda i: Not(w.covered(m, i)), 'location without partition')


@contract('P21', DS + 'find_nonmatching_locations', 'exactly the locations without index record or without partition')
def nonmatching(m):
    w = World(m)
    for kind, v in m.paths(DS + 'find_nonmatching_locations', [w, w, w]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        exactly(m, v, w.N, w.lid, lambda i: Or(Not(w.covered(m, i)), w.hits(i) == 0), 'nonmatching location',
                count=m.count(w.N, lambda i: Not(w.covered(m, i))) + m.count(w.N, lambda i: And(w.covered(m, i), w.hits(i) == 0)))


class Owners(Model):
    """N records (locations or attribute groups); record i has used(i) quantities."""
    def __init__(self, m, cls, by):
        self.N, self.cls, self.by = z3.Int('records'), cls, by
        self.oid, self.used, self.uses = fn('record_id', 'i', 'i'), fn('quantities', 'i', 'i'), fn('quantities_of_id', 'i', 'i')
        m.assume(self.N >= 0)
        m.distinct(self.N, self.oid)
        i = m.index('r')
        m.assume_forall([i], self.uses(i) >= 0)

    def m_find_all(self, m):
        extra = {'labels': Opaque('labels')} if self.cls == 'Location' else {'attributes': Opaque('attributes')}
        return m.seq('records', lambda i: m.rec(DM + self.cls, id=self.oid(i), **extra), self.N)

    def m_find(self, m, location_id=None, attribute_group_id=None):
        got = {'location_id': location_id, 'attribute_group_id': attribute_group_id}
        x = got.pop(self.by)
        if x is None or any(y is not None for y in got.values()):
            raise Unsupported('find with other criteria')
        k = m.index()
        return PList(m, [Gen(k, self.uses(x), True, [One(m.rec(DM + 'Quantity', id=m.int('qid'), location_id=m.int('l'), attribute_group_id=m.int('a'), value=m.real('v')))])])


def orphans(prop_cls, by, func):
    def run(m):
        t = Owners(m, prop_cls, by)
        for kind, v in m.paths(DS + func, [t, t]):
            if kind == 'raise':
                m.unreachable('never raises')
                continue
            exactly(m, v, t.N, t.oid, lambda i: t.uses(t.oid(i)) == 0, 'record without quantity')
    run.__name__ = func
    run.__module__ = __name__
    contract('P21', DS + func, 'exactly the records that no quantity uses')(run)


orphans('AttributeGroup', 'attribute_group_id', 'find_attribute_groups_without_quantity')
orphans('Location', 'location_id', 'find_locations_without_quantity')


@contract('P21', DS + 'count_nonmatching_locations', 'each unmatched location is counted once, in the right class')
def counting(m):
    w = World(m)
    for kind, v in m.paths(DS + 'count_nonmatching_locations', [w, w, w]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        m.ensure('no other class', m.forall(v.log, lambda okv: Or(*[m.eq(okv[1], k) for k in ('structure_and_index', 'structure', 'index')])))
        noix, nost = (lambda i: w.hits(i) == 0), (lambda i: Not(w.covered(m, i)))
        for key, cond in (('structure_and_index', lambda i: And(nost(i), noix(i))), ('structure', lambda i: And(nost(i), Not(noix(i)))),
                          ('index', lambda i: And(Not(nost(i)), noix(i)))):
            got = m.dict_lookup(v, key)
            m.ensure(f'number of locations: {key}', m.eq(real(got), m.count(w.N, cond)))


@contract('P20', DS + 'get_quantity_value_sum', 'sum of the stored quantities of a pair, or nothing when there is none')
def value_sum(m):
    l, a, N = z3.Int('location'), z3.Int('group'), z3.Int('N')
    val = fn('qvalue', 'i', 'r')
    m.assume(N >= 0)

    class Q(Model):
        def m_find(self, m, location_id=None, attribute_group_id=None, **k):
            if k or not m.eq_terms(location_id, l) or not m.eq_terms(attribute_group_id, a):
                raise Unsupported('find with other criteria')
            return m.iterator(N, lambda i: m.rec(DM + 'Quantity', id=i, location_id=l, attribute_group_id=a, value=val(i)))
    for kind, v in m.paths(DS + 'get_quantity_value_sum', [l, a, Q()]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        if v is None:
            m.ensure('nothing only when no quantity is stored', N == 0)
        else:
            m.ensure('the sum of the stored values', And(N > 0, real(v) == m.sum(N, val)))
