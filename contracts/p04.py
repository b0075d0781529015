"""Mapping proportions."""
from pyvc.spec import *

RP = 'toron.dal1.repositories:'
DM = 'toron.data_models:'


class Mappings:
    """Abstract mapping table restricted to one (link, source id): N records."""
    def __init__(self, m, link, src):
        self.link, self.src = link, src
        self.N = z3.Int('N')
        self.val, self.idx, self.mid = fn('mvalue', 'i', 'r'), fn('mindex', 'i', 'i'), fn('mid', 'i', 'i')
        m.assume(self.N >= 0)
        m.forall_in(self.N, lambda k: And(self.val(k) >= 0, self.idx(k) >= 0))
        m.distinct(self.N, self.mid)
        self.log = PList(m, [], 'list')

    def rec(self, m, k):
        return m.rec(DM + 'MappingRecord', id=self.mid(k), link_id=self.link, other_index_id=self.src, index_id=self.idx(k),
                     mapping_level=Opaque('level'), value=self.val(k), proportion=None)

    def m_find(self, m, link_id=None, other_index_id=None, index_id=None):
        if index_id is not None or not m.eq_terms(link_id, self.link) or not m.eq_terms(other_index_id, self.src):
            raise Unsupported('find outside the contracted pair')
        return m.seq('found', lambda k: self.rec(m, k), self.N)

    def m_update(self, m, record):
        self.log.segs = self.log.segs + [One(record)]


@contract('P04', DM + 'BaseMappingRepository.refresh_proportions', 'proportions of a defined source id: value / total, or equal shares; they add up to one')
def refresh_defined(m):
    link, src = z3.Int('link'), z3.Int('source')
    m.assume(src != 0)
    t = Mappings(m, link, src)
    m.forall_in(t.N, lambda k: Or(src != 0, t.idx(k) != 0))
    r = m.repo(RP + 'MappingRepository', t)
    S = m.sum(t.N, t.val)
    for kind, v in m.method_paths(r, 'refresh_proportions', [link, src]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        if not m.ensure('every record is updated exactly once', m.size(t.log) == t.N):
            continue
        prop = lambda x: x.fields['proportion']
        m.ensure('proportions add up to one', Implies(t.N > 0, m.total(t.log, prop) == 1))
        k = m.any_index(t.N)
        x = m.elem(m.segs(t.log), k)
        f = x.fields
        m.ensure('the record keeps its identity', And(m.eq(f['id'], t.mid(k)), m.eq(f['index_id'], t.idx(k)), m.eq(f['link_id'], link),
                                                      m.eq(f['other_index_id'], src), m.eq(f['value'], t.val(k))))
        m.ensure('proportion is value / total', Implies(S != 0, f['proportion'] * S == t.val(k)))
        m.ensure('equal shares when the total is zero', Implies(S == 0, f['proportion'] * z3.ToReal(t.N) == 1))
        m.ensure('proportion lies between 0 and 1', And(f['proportion'] >= 0, f['proportion'] <= 1))


@contract('P04', DM + 'BaseMappingRepository.refresh_proportions', 'proportions of the undefined source id are zero, and 0 -> 0 is refused')
def refresh_undefined(m):
    link = z3.Int('link')
    t = Mappings(m, link, 0)
    r = m.repo(RP + 'MappingRepository', t)
    for kind, v in m.method_paths(r, 'refresh_proportions', [link, 0]):
        if kind == 'raise':
            m.ensure('only undefined-to-undefined is refused', And(v.name == 'ValueError', m.exists_in(t.N, lambda k: t.idx(k) == 0)))
            continue
        if not m.ensure('every record is updated exactly once', m.size(t.log) == t.N):
            continue
        k = m.any_index(t.N)
        x = m.elem(m.segs(t.log), k)
        m.ensure('proportion is zero', x.fields['proportion'] == 0)
        m.ensure('record kept', And(m.eq(x.fields['id'], t.mid(k)), m.eq(x.fields['value'], t.val(k))))
        m.ensure('no undefined-to-undefined mapping accepted', t.idx(k) != 0)


@contract('P04', DM + 'MappingRecord.__post_init__', 'no mapping record can carry a share of the undefined source id')
def record_guard(m):
    o, i, v, p = z3.Int('o'), z3.Int('i'), z3.Real('v'), z3.Real('p')
    none = z3.Bool('pnone')
    for kind, x in m.thunk_paths(lambda: m.new(DM + 'MappingRecord', 1, 2, o, i, Opaque('level'), v, Opt(none, p))):
        if kind == 'raise':
            m.ensure('refused only for the undefined source', And(x.name == 'ValueError', o == 0, Or(i == 0, And(Not(none), p != 0))))
            continue
        m.ensure('accepted records have no share for the undefined source',
                 Or(o != 0, And(i != 0, Or(none, p == 0))))
