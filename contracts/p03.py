"""Translating the rows of a reader."""
from ._lib import *
from pyvc.evalx import as_str_const

RD = 'toron.reader:'


def norm(sql):
    sql = as_str_const(sql)
    if sql is None:
        raise Unsupported('statement text')
    return ' '.join(sql.split())


class Reader:
    """A reader with A attribute rows and N collected values; its statements by their text."""
    def __init__(self, m):
        self.m = m
        self.A, self.N = z3.Int('attribute_rows'), z3.Int('values')
        m.assume(And(self.A >= 0, self.N >= 0))
        self.aid, self.attrs = fn('attr_data_id', 'i', 'i'), fn('attributes', 'i', 's')
        m.distinct(self.A, self.aid)
        self.idx, self.arow, self.val = fn('row_index_id', 'i', 'i'), fn('row_attributes', 'i', 'i'), fn('row_value', 'i', 'r')
        m.forall_in(self.N, lambda q: And(self.idx(q) >= 0, self.arow(q) >= 0, self.arow(q) < self.A))
        self.link = fn('link_for', 's', 'i')
        self.count, self.trg, self.prop = fn('mappings', 'i', 'i', 'i'), fn('target_index_id', 'i', 'i', 'i', 'i'), fn('proportion', 'i', 'i', 'i', 'r')
        i, j = z3.Ints('l_ o_')
        m.assume_forall([i, j], self.count(i, j) >= 0)
        self.updates, self.new, self.state = PList(m, [], 'list'), PList(m, [], 'list'), PList(m, [], 'list')

    def step(self, what):
        self.state.segs = self.state.segs + [One(what)]

    def steps(self):
        return [s.value for s in self.state.segs if isinstance(s, One)]

    def linkof(self, q):
        return self.link(self.attrs(self.arow(q)))


class Cursor(Model):
    def __init__(self, r):
        self.r = r
        self.rows = PList(r.m, [], 'list')

    def iter_segs(self, m):
        return list(self.rows.segs)

    def m_execute(self, m, sql, params=None):
        r, t = self.r, norm(sql)
        if t == 'SELECT attr_data_id, attributes FROM main.attr_data':
            self.rows.segs = m.listof(r.A, lambda a: (r.aid(a), r.attrs(a))).segs
        elif t == 'UPDATE main.attr_data SET link_id=? WHERE attr_data_id=?':
            r.updates.segs = r.updates.segs + [One(tuple(m.unpack(params, 2)))]
        elif t.startswith('CREATE TABLE main.new_quant_data ( index_id INTEGER NOT NULL, attr_data_id INTEGER NOT NULL, quant_value REAL'):
            r.step('create')
        elif t == 'SELECT index_id, attr_data_id, quant_value, link_id FROM main.quant_data JOIN main.attr_data USING (attr_data_id)':
            self.linked(m)
            self.rows.segs = m.listof(r.N, lambda q: (r.idx(q), r.aid(r.arow(q)), r.val(q), r.linkof(q))).segs
        elif t == 'INSERT INTO main.new_quant_data VALUES (?, ?, ?)':
            r.new.segs = r.new.segs + [One(tuple(m.unpack(params, 3)))]
        elif t == 'DROP TABLE main.quant_data':
            r.step('drop')
        elif t == 'ALTER TABLE main.new_quant_data RENAME TO quant_data':
            r.step('rename')
        else:
            raise Unsupported(f'statement {t[:60]}')
        return self

    def m_executemany(self, m, sql, rows):
        if norm(sql) != 'INSERT INTO main.new_quant_data VALUES (?, ?, ?)':
            raise Unsupported('statement')
        self.r.new.segs = self.r.new.segs + list(m.iter_segs(rows, True))

    def linked(self, m):
        r = self.r
        a = m.any_index(r.A)
        m.ensure('every attribute row was given the link chosen for its attributes',
                 m.exists_seg(r.updates, lambda x: And(m.eq(x[0], r.link(r.attrs(a))), m.eq(x[1], r.aid(a)))))
        m.ensure('and only once', m.eq(m.total(r.updates, lambda x: If(m.eq(x[1], r.aid(a)), z3.RealVal(1), z3.RealVal(0))), z3.RealVal(1)))


class Connection(Model):
    def __init__(self, r):
        self.r = r

    def m_cursor(self, m):
        return Cursor(self.r)


class Space(Model):
    """A dataspace: repositories by class, its index hash and unique id."""
    def __init__(self, name, repos):
        self.name, self.repos = name, repos

    def a_unique_id(self, m):
        return Term('unique id', z3.String(self.name + '_unique_id'))

    def a_index_columns(self, m):
        return Term('columns', z3.String(self.name + '_columns'))

    def m__managed_cursor(self, m, n=1):
        if n != 1:
            raise Unsupported('several cursors')
        return ('cm', lambda mm, inner: inner(Opaque(self.name + ' cursor')))

    def a__dal(self, m):
        return Dal(self)


class Dal(Model):
    def __init__(self, s):
        self.s = s

    def m_PropertyRepository(self, m, cur):
        return self.s.repos['property']

    def m_MappingRepository(self, m, cur):
        return self.s.repos['mapping']

    def m_LinkRepository(self, m, cur):
        return self.s.repos['link']


class Hash(Model):
    def m_get(self, m, key):
        m.ensure('the index hash is read', m.eq(key, 'index_hash'))
        return z3.String('source_index_hash')


class LinkRepo(Model):
    pass


class Maps(Model):
    def __init__(self, r):
        self.r = r

    def m_find(self, m, link_id=None, other_index_id=None, index_id=None, mapping_level=None):
        if link_id is None or other_index_id is None or index_id is not None or mapping_level is not None:
            raise Unsupported('find with other criteria')
        r = self.r
        return m.iterator(r.count(link_id, other_index_id), lambda j: m.rec(
            DM + 'MappingRecord', id=fn('id', 'i', 'i', 'i', 'i')(link_id, other_index_id, j), link_id=link_id, other_index_id=other_index_id, index_id=r.trg(link_id, other_index_id, j),
            mapping_level=Opaque('level'), value=fn('mapping_value', 'i', 'i', 'i', 'r')(link_id, other_index_id, j), proportion=r.prop(link_id, other_index_id, j)))


def setup(m):
    r = Reader(m)
    maps, links = Maps(r), LinkRepo()
    src, trg = Space('source', {'property': Hash()}), Space('target', {'mapping': maps, 'link': links})
    reader = Rec(m, m.cls(RD + 'NodeReader'), {'_node': src, '_index_columns': Opaque('columns'), '_attr_keys': Opaque('keys'), 'quantize_default': False})

    def chooser(mm, ref=None, link_repo=None, other_index_hash=None):
        mm.ensure('links to the source are looked up', mm.eq(ref.term, z3.String('source_unique_id')) if isinstance(ref, Term) else False)
        mm.ensure('in the target', link_repo is links)
        mm.ensure('by the current index hash of the source', mm.eq(other_index_hash, z3.String('source_index_hash')))
        if mm.branch(z3.Bool('no_usable_link')):
            raise PyExc('RuntimeError', ('no link',))
        return lambda m2, attributes: r.link(attributes.term)
    m.contracts[DS + 'make_get_link_id_func'] = chooser
    m.contracts[RD + 'NodeReader._managed_connection'] = lambda mm, self: ('cm', lambda m2, inner: inner(Connection(r)))
    return r, src, trg, reader


def finished(m, r, reader, trg):
    m.ensure('the new table takes the place of the old one', r.steps() == ['create', 'drop', 'rename'])
    m.ensure('the reader uses the target from now on', reader.fields['_node'] is trg)
    m.ensure('and its label columns', m.eq(reader.fields['_index_columns'].term, z3.String('target_columns')) if isinstance(reader.fields['_index_columns'], Term) else False)


@contract('P03', RD + 'NodeReader.translate', 'every value goes to the targets of its mappings by their proportions, with its attributes; undefined stays undefined')
def translate(m):
    r, src, trg, reader = setup(m)
    t, d = z3.Ints('target attr_data')
    for kind, v in m.paths(RD + 'NodeReader.translate', [trg], {'quantize': False}, reader):
        if kind == 'raise':
            m.ensure('refused only without a usable link', z3.Bool('no_usable_link'))
            m.ensure('and then nothing was written', And(not r.updates.segs, not r.new.segs, not r.steps()))
            continue
        m.ensure('an error without a usable link', Not(z3.Bool('no_usable_link')))
        finished(m, r, reader, trg)
        got = m.total(r.new, lambda x: If(And(m.eq(x[0], t), m.eq(x[1], d)), real(x[2]), z3.RealVal(0)))
        share = lambda q, j: r.val(q) * r.prop(r.linkof(q), r.idx(q), j)
        per = lambda q: If(r.idx(q) == 0, If(t == 0, r.val(q), z3.RealVal(0)),
                           m.sum(r.count(r.linkof(q), r.idx(q)), lambda j: If(r.trg(r.linkof(q), r.idx(q), j) == t, share(q, j), z3.RealVal(0))))
        m.ensure('what a target record receives for some attributes is the sum of its shares',
                 m.eq(got, m.sum(r.N, lambda q: If(r.aid(r.arow(q)) == d, per(q), z3.RealVal(0)))))
        # the proportions of a mapped source id add up to one (P04)
        m.forall_in(r.N, lambda q: Implies(r.idx(q) != 0, m.sum(r.count(r.linkof(q), r.idx(q)), lambda j: r.prop(r.linkof(q), r.idx(q), j)) == 1))
        m.lemma_sum_eq('the shares of a value add up to it', r.N, lambda q: If(r.aid(r.arow(q)) == d, If(r.idx(q) == 0, r.val(q), r.val(q) * m.sum(
            r.count(r.linkof(q), r.idx(q)), lambda j: r.prop(r.linkof(q), r.idx(q), j))), z3.RealVal(0)), lambda q: If(r.aid(r.arow(q)) == d, r.val(q), z3.RealVal(0)))
        m.ensure('the total for some attributes is unchanged',
                 m.eq(m.total(r.new, lambda x: If(m.eq(x[1], d), real(x[2]), z3.RealVal(0))), m.sum(r.N, lambda q: If(r.aid(r.arow(q)) == d, r.val(q), z3.RealVal(0)))))
