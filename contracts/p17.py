"""Deleting an index record."""
from ._lib import *


class Store(Model):
    """The record has W weights and M mappings; the dataspace has L links and
    K label columns.  What is deleted or refreshed is logged in order."""
    def __init__(self, m):
        self.W, self.M, self.L, self.K = z3.Int('weights'), z3.Int('mappings'), z3.Int('links'), z3.Int('columns')
        m.assume(And(self.W >= 0, self.M >= 0, self.L >= 0, self.K >= 1))
        self.wid, self.mid, self.oid, self.lev, self.lid = fn('weight_id', 'i', 'i'), fn('mapping_id', 'i', 'i'), \
            fn('other_index_id', 'i', 'i'), fn('mapping_level', 'i', 'i'), fn('link_id', 'i', 'i')
        self.mlink = fn('mapping_link', 'i', 'i')
        for n, f in ((self.W, self.wid), (self.M, self.mid), (self.L, self.lid)):
            m.distinct(n, f)
        self.full = z3.Int('every_column')
        self.rec = z3.Int('index_id')
        self.log = {k: PList(m, [], 'list') for k in ('weight', 'mapping', 'refresh', 'index')}
        m.contracts['toron._utils:BitFlags'] = self.flags

    def flags(self, m, *args):
        if len(args) != 1:
            raise Unsupported('flags of another form')
        k = m.any_index(self.K)
        m.ensure('the full level has one set flag for every label column',
                 And(m.size(args[0]) == self.K, m.truth(m.elem(m.segs(args[0]), k))))
        return Term('flags', self.full)

    def put(self, what, x):
        self.log[what].segs = self.log[what].segs + [One(x)]

    def mapping_rec(self, m, i):
        return m.rec(DM + 'MappingRecord', id=self.mid(i), link_id=self.mlink(i), other_index_id=self.oid(i), index_id=self.rec,
                     mapping_level=Term('flags as bytes', self.lev(i)), value=fn('value', 'i', 'r')(i), proportion=fn('proportion', 'i', 'r')(i))


class Weights(Store):
    def __init__(self, s):
        self.s = s

    def m_find_by_index_id(self, m, x):
        m.ensure('weights of this record', m.eq(x, self.s.rec))
        return m.iterator(self.s.W, lambda i: m.rec(DM + 'Weight', id=self.s.wid(i), weight_group_id=fn('group', 'i', 'i')(i), index_id=self.s.rec, value=fn('w', 'i', 'r')(i)))

    def m_delete(self, m, x):
        self.s.put('weight', x)


class Mappings(Model):
    def __init__(self, s):
        self.s = s

    def m_find(self, m, link_id=None, other_index_id=None, index_id=None, mapping_level=None):
        if link_id is not None or other_index_id is not None or mapping_level is not None:
            raise Unsupported('find with other criteria')
        m.ensure('mappings of this record', m.eq(index_id, self.s.rec))
        return m.iterator(self.s.M, lambda i: self.s.mapping_rec(m, i))

    def m_delete(self, m, x):
        self.s.put('mapping', x)

    def m_refresh_proportions(self, m, link_id, other_index_id):
        self.s.put('refresh', (link_id, other_index_id))


class Links(Model):
    def __init__(self, s):
        self.s = s

    def m_get_all(self, m):
        return m.listof(self.s.L, lambda i: m.rec(DM + 'Link', id=self.s.lid(i), other_unique_id='', other_filename_hint=None, name='', description=None, selectors=None,
                                                  user_properties=None, other_index_hash=None, is_locally_complete=True, is_default=False))


class Index(Model):
    def __init__(self, s):
        self.s = s

    def m_get_label_names(self, m):
        return m.listof(self.s.K, fn('column', 'i', 's'))

    def m_delete(self, m, x):
        self.s.put('index', x)


@contract('P17', DS + 'delete_index_record', 'exactly the weights and mappings of the record go, remaining proportions are refreshed; refused when a mapping is ambiguous')
def delete(m):
    s = Store(m)
    for kind, v in m.paths(DS + 'delete_index_record', [s.rec, Index(s), Weights(s), Links(s), Mappings(s)]):
        full = lambda i: s.lev(i) == s.full
        k = m.any_index(s.M)
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            m.ensure('refused only for an ambiguous mapping', m.count(s.M, lambda i: Not(full(i))) > 0)
            m.ensure('the record stays', not s.log['index'].segs)
            continue
        m.ensure('no ambiguous mapping is deleted', full(k))
        idx = s.log['index'].segs
        m.ensure('the record itself is deleted once', And(len(idx) == 1, idx and m.eq(idx[0].value, s.rec)))
        exactly(m, s.log['weight'], s.W, s.wid, lambda i: True, 'weight of the record', key=lambda x: x)
        exactly(m, s.log['mapping'], s.M, s.mid, lambda i: True, 'mapping of the record', key=lambda x: x)
        l = m.any_index(s.L)
        m.ensure('proportions of every touched link and source id are refreshed',
                 m.exists_seg(s.log['refresh'], lambda x: And(m.eq(x[0], s.lid(l)), m.eq(x[1], s.oid(k)))))
