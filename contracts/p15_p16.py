"""Weights: conflict modes; merging of weights and mappings."""
from pyvc.spec import *

RP = 'toron.dal1.repositories:'
DM = 'toron.data_models:'


class OneWeight:
    """Weight table seen at one (group, index) pair; the contract of the
    abstract methods is the documented one (BaseWeightRepository)."""
    def __init__(self, m, g, i):
        self.g, self.i = g, i
        self.has, self.old, self.wid = z3.Bool('exists'), z3.Real('old'), z3.Int('weight_id')
        m.assume(self.old >= 0)
        self.state = Rec(m, 'state', {'has': self.has, 'value': self.old})
        self.log = PList(m, [], 'list')

    def m_add(self, m, weight_group_id, index_id, value):
        if not (m.eq_terms(weight_group_id, self.g) and m.eq_terms(index_id, self.i)):
            raise Unsupported('another weight')
        if m.branch(Or(index_id == 0, value < 0, self.state.fields['has'])):
            raise PyExc('ValueError', ('refused',))
        self.state.fields.update(has=True, value=value)

    def m_get_by_weight_group_id_and_index_id(self, m, weight_group_id, index_id):
        if not (m.eq_terms(weight_group_id, self.g) and m.eq_terms(index_id, self.i)):
            raise Unsupported('another weight')
        if not m.branch(self.state.fields['has']):
            raise PyExc('KeyError', ('none',))
        return m.rec(DM + 'Weight', id=self.wid, weight_group_id=self.g, index_id=self.i, value=self.state.fields['value'])

    def m_update(self, m, record):
        f = record.fields
        if not (m.eq_terms(f['id'], self.wid) and m.eq_terms(f['weight_group_id'], self.g) and m.eq_terms(f['index_id'], self.i)):
            raise Unsupported('another weight')
        if m.branch(f['value'] < 0):
            raise PyExc('sqlite3.IntegrityError', ('negative',))
        self.state.fields['value'] = f['value']


@contract('P15', DM + 'BaseWeightRepository.add_or_resolve', 'each conflict mode does exactly what it says')
def conflict_modes(m):
    base = m.snapshot()
    for mode in ('abort', 'ignore', 'replace', 'sum', 'nonsense'):
        m.restore(base)
        g, i, v = z3.Int('group'), z3.Int('index_id'), z3.Real('new')
        m.assume(i >= 0)
        t = OneWeight(m, g, i)
        r = m.repo(RP + 'WeightRepository', t)
        for kind, x in m.method_paths(r, 'add_or_resolve', [g, i, v], {'on_conflict': mode}):
            s = t.state.fields
            bad = Or(i == 0, v < 0)
            if kind == 'raise':
                m.ensure(f'{mode}: refused only when it must be', Or(bad, And(t.has, mode in ('abort', 'nonsense'))))
                m.ensure(f'{mode}: a refused weight changes nothing', And(m.eq(s['has'], t.has), m.eq(s['value'], t.old)))
                continue
            m.ensure(f'{mode}: undefined record and negative weights are refused', Not(bad))
            m.ensure(f'{mode}: the weight exists afterwards', s['has'])
            want = {'ignore': t.old, 'replace': v, 'sum': t.old + v}.get(mode)
            if want is None:
                m.ensure(f'{mode}: an existing weight aborts', Not(t.has))
                want = v
            m.ensure(f'{mode}: value', m.eq(s['value'], If(t.has, want, v)))
            code = {'ignore': 'skipped', 'replace': 'overwritten', 'sum': 'summed'}.get(mode, '?')
            m.ensure(f'{mode}: result code', m.eq(x, If(t.has, z3.StringVal(code), z3.StringVal('inserted'))))


class WeightsByIndex:
    """Weights of several index records: record i has n(i) weights, in
    pairwise different groups."""
    def __init__(self, m):
        self.n = fn('n_weights', 'i', 'i')
        self.grp, self.val, self.wid = fn('wgroup', 'i', 'i', 'i'), fn('wvalue', 'i', 'i', 'r'), fn('wid', 'i', 'i', 'i')
        i, j, k = m.index('a'), m.index('b'), m.index('c')
        m.assume_forall([i], self.n(i) >= 0)
        m.assume_forall([i, j], self.val(i, j) >= 0)
        m.assume_forall([i, j, k], Implies(And(j >= 0, j < k, k < self.n(i)), self.grp(i, j) != self.grp(i, k)))
        i2, j2 = m.index('d'), m.index('e')
        m.assume_forall([i, j, i2, j2], Implies(Or(i != i2, j != j2), self.wid(i, j) != self.wid(i2, j2)))
        self.deleted, self.added = PList(m, [], 'list'), PList(m, [], 'list')

    def m_find_by_index_id(self, m, index_id):
        j = m.index()
        return PList(m, [Gen(j, self.n(index_id), True, [One(m.rec(
            DM + 'Weight', id=self.wid(index_id, j), weight_group_id=self.grp(index_id, j), index_id=index_id, value=self.val(index_id, j)))])])

    def m_delete(self, m, id):
        self.deleted.segs = self.deleted.segs + [One(id)]

    def m_add(self, m, weight_group_id, index_id, value):
        self.added.segs = self.added.segs + [One((weight_group_id, index_id, value))]


@contract('P16', DM + 'BaseWeightRepository.merge_by_index_id', 'merged weights: sum per group, all old ones removed')
def merge_weights(m):
    N, T, g = z3.Int('N'), z3.Int('target'), z3.Int('any_group')
    ids = fn('index_id', 'i', 'i')
    m.assume(N >= 0)
    m.distinct(N, ids)
    m.forall_in(N, lambda k: ids(k) != T)
    t = WeightsByIndex(m)
    r = m.repo(RP + 'WeightRepository', t)
    for kind, v in m.method_paths(r, 'merge_by_index_id', [m.listof(N, ids), T]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        A = m.size(t.added)
        p, p2 = m.any_index(A), m.any_index(A)
        grp, tgt, val = m.elem(m.segs(t.added), p)
        inner = lambda i: m.sum(t.n(i), lambda j: If(t.grp(i, j) == grp, t.val(i, j), z3.RealVal(0)))
        m.ensure('new weights belong to the surviving record', m.eq(tgt, T))
        m.ensure('the new weight of a group is the sum of the merged ones', val == inner(T) + m.sum(N, lambda k: inner(ids(k))))
        m.ensure('one new weight per group', Implies(p != p2, grp != m.elem(m.segs(t.added), p2)[0]))
        a = m.any_index(N)
        b = m.any_index(t.n(ids(a)))
        m.ensure('no group is lost', m.exists_in(A, lambda q: m.elem(m.segs(t.added), q)[0] == t.grp(ids(a), b)))
        m.ensure('every merged weight is deleted', m.exists_in(m.size(t.deleted), lambda q: m.elem(m.segs(t.deleted), q) == t.wid(ids(a), b)))
        c = m.any_index(t.n(T))
        m.ensure('the survivor\'s old weights are deleted', m.exists_in(m.size(t.deleted), lambda q: m.elem(m.segs(t.deleted), q) == t.wid(T, c)))
        m.ensure('no group of the survivor is lost', m.exists_in(A, lambda q: m.elem(m.segs(t.added), q)[0] == t.grp(T, c)))
        d = m.any_index(m.size(t.deleted))
        w = m.elem(m.segs(t.deleted), d)
        k, j = m.index('k'), m.index('j')
        m.ensure('only merged weights are deleted', Or(z3.Exists([j], And(j >= 0, j < t.n(T), w == t.wid(T, j))),
                 z3.Exists([k, j], And(k >= 0, k < N, j >= 0, j < t.n(ids(k)), w == t.wid(ids(k), j)))))
