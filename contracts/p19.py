"""Matching the rows of a mapping with index records."""
from ._lib import *
from pyvc.evalx import as_str_const
from .p03 import norm

MP = 'toron.mapper:'


class World(Model):
    """S structures, the rows of the mapping at each level, the index records found by labels."""
    def __init__(self, m, side):
        self.m, self.side = m, side
        self.S, self.L, self.limit = z3.Ints('structures labels match_limit')
        m.assume(And(self.S >= 0, self.L >= 1, self.limit >= 0))
        self.overlapping = z3.Bool('allow_overlapping')
        self.level, self.graded, self.gran = fn('level', 'i', 'i'), fn('has_granularity', 'i', 'b'), fn('granularity', 'i', 'r')
        m.assume_forall([z3.Int('i_')], self.gran(z3.Int('i_')) >= 0)
        m.distinct(self.S, self.level)
        self.rows, self.run = fn('rows_of_level', 'i', 'i'), fn('run_id', 'i', 'i', 'i')
        self.coded, self.code, self.known = fn('has_index_id', 'i', 'i', 'b'), fn('index_id', 'i', 'i', 'i'), fn('index_id_exists', 'i', 'b')
        self.col, self.cell = fn('column', 'i', 's'), fn('label', 'i', 'i', 's')
        m.distinct(self.L, self.col)
        self.found, self.match = fn('records_found', 'i', 'i'), fn('record_found', 'i', 'i', 'i')
        self.covered = fn('matched_at_another_level', 'i', 'i', 'b')
        self.weighted, self.weight = fn('has_weight', 'i', 'b'), fn('weight', 'i', 'r')
        i = z3.Int('i_')
        m.assume_forall([i], And(self.rows(i) >= 0, self.found(i) >= 0))
        self.added, self.order, self.skipped = PList(m, [], 'list'), PList(m, [], 'list'), PList(m, [], 'list')
        self.refreshed = PList(m, [], 'list')

    # the mapper
    def a_node1(self, m):
        return Node(self, 'node1')

    def a_node2(self, m):
        return Node(self, 'node2')

    def structures(self, m, side):
        if side != self.side:
            return Untouchable('structure of the other side')
        return m.listof(self.S, lambda i: m.rec(DM + 'Structure', id=Term('structure', i), granularity=Opt(Not(self.graded(self.level(i))), self.gran(self.level(i))), bits=Term('bits', self.level(i))))

    def a_node1_structure(self, m):
        return self.structures(m, 'node1')

    def a_node2_structure(self, m):
        return self.structures(m, 'node2')

    def a_con(self, m):
        return Connection(self)

    def m__refresh_proportions(self, m, cur, node_var):
        m.ensure('the proportions of this side are computed', m.eq(node_var, self.side))
        self.refreshed.segs = self.refreshed.segs + [One(node_var)]


class Node(Model):
    def __init__(self, w, side):
        self.w, self.side = w, side

    def here(self, m):
        if self.side != self.w.side:
            m.ensure('the other dataspace is not touched', False)
            raise Unsupported('the other dataspace')

    def a_index_columns(self, m):
        self.here(m)
        return m.listof(self.w.L, self.w.col, 'tuple')

    def m__managed_cursor(self, m, n=1):
        self.here(m)

        def block(mm, inner):
            inner(Opaque('cursor'))
            raise PyExc('Done', ())      # what follows only reports
        return ('cm', block)

    def a__dal(self, m):
        return self

    def m_IndexRepository(self, m, cur):
        return Records(self.w)

    def m_WeightRepository(self, m, cur):
        return Weights(self.w)

    def m_PropertyRepository(self, m, cur):
        return Opaque('properties')

    def m_WeightGroupRepository(self, m, cur):
        return Opaque('groups')


class Records(Model):
    def __init__(self, w):
        self.w = w

    def m_get(self, m, index_id):
        if not m.branch(self.w.known(m.pick(index_id))):
            raise PyExc('KeyError', ())
        return Opaque('record')

    def m_filter_index_ids_by_label(self, m, criteria):
        w = self.w
        n, own, (l, i) = labels(m, w, criteria)
        if not own:
            raise Unsupported('criteria')
        row = place(l, i)
        return m.iterator(w.found(row), lambda k: w.match(row, k))


class Weights(Model):
    def __init__(self, w):
        self.w = w

    def m_get_by_weight_group_id_and_index_id(self, m, group, index_id):
        w = self.w
        index_id = m.pick(index_id)
        m.ensure('weights of the default group', m.eq(group, 'default group'))
        if not m.branch(w.weighted(index_id)):
            raise PyExc('KeyError', ())
        return m.rec(DM + 'Weight', id=Opaque('weight'), weight_group_id=group, index_id=index_id, value=w.weight(index_id))


place = fn('row', 'i', 'i', 'i')


def labels(m, w, criteria):
    """(size, ok, row) of a search by the non-empty labels of one row."""
    ctx, n, guard, (k, v) = leaf(m, criteria)
    if not is_app(v, w.cell):
        raise Unsupported('criteria of something else than labels of a row')
    row = v.arg(0)
    if not is_app(row, place):
        raise Unsupported('criteria of no row')
    j = m.any_index(w.L)
    m.ensure('searched by the label of each column', z3.Implies(z3.substitute(guard, (ctx, j)), z3.And(zbool(m.eq(z3.substitute(k, (ctx, j)), w.col(j))),
             zbool(m.eq(z3.substitute(v, (ctx, j)), w.cell(row, j))))))
    m.ensure('every non-empty label is searched and no other', z3.substitute(guard, (ctx, j)) == (w.cell(row, j) != ''))
    m.ensure('all columns are regarded', m.eq(n, w.L))
    return n, True, (row.arg(0), row.arg(1))


class Connection(Model):
    def __init__(self, w):
        self.w = w

    def m_cursor(self, m):
        return Cursor(self.w)


class Cursor(Model):
    def __init__(self, w):
        self.w = w
        self.rows = PList(w.m, [], 'list')

    def m_close(self, m):
        pass

    def iter_segs(self, m):
        return list(self.rows.segs)

    def m_fetchone(self, m):
        r = self.rows.segs
        return r[0].value

    def m_execute(self, m, sql, params=()):
        w, t, s = self.w, norm(sql), self.w.side
        if t == f'SELECT run_id, {s}_index_id, {s}_location FROM mapping_source WHERE {s}_level=?':
            level, = m.unpack(params, 1)
            l = level.term
            w.order.segs = w.order.segs + [One(level)]
            self.rows.segs = m.listof(w.rows(l), lambda i: (w.run(l, i), Opt(Not(w.coded(l, i)), w.code(l, i)), Term('location', place(l, i)))).segs
        elif t == f'SELECT EXISTS ( SELECT 1 FROM {s}_matches WHERE index_id = ? AND mapping_level != ? )':
            x, level = [m.pick(p) for p in m.unpack(params, 2)]
            c = Cursor(w)
            c.rows.segs = [One((If(w.covered(x, level.term), z3.IntVal(1), z3.IntVal(0)),))]
            return c
        elif t == f'INSERT INTO {s}_matches (run_id, index_id, mapping_level, weight_value) VALUES (?, ?, ?, ?)':
            w.added.segs = w.added.segs + [One(tuple(m.unpack(params, 4)))]
        else:
            raise Unsupported(f'statement {t[:60]}')
        return self


    def m_executemany(self, m, sql, rows):
        m.run_segs(list(m.iter_segs(rows, True)), lambda row: self.m_execute(m, sql, row))


class Counts(Model):
    """What was skipped, by reason."""
    def __init__(self, w):
        self.w = w

    def m___getitem__(self, m, key):
        return z3.Int('count ' + key)

    def m___setitem__(self, m, key, v):
        w = self.w
        if key != 'highest_overlimit':
            w.skipped.segs = w.skipped.segs + [One((key, v - z3.Int('count ' + key)))]


def matching(m, side):
    w = World(m, side)
    m.contracts[DS + 'get_default_weight_group'] = lambda mm, props, groups: m.rec(DM + 'WeightGroup', id='default group', name='default', description=None, selectors=None, is_complete=True)
    m.contracts[UT + 'BitFlags'] = lambda mm, bits: bits
    m.models['collections.Counter'] = lambda mm: Counts(w)
    m.models['json.loads'] = lambda mm, text: mm.listof(w.L, lambda j: w.cell(text.term, j))
    for kind, v in m.paths(MP + 'Mapper.match_records', [side, w.limit, w.overlapping], self_obj=w):
        m.ensure('the rows are matched', kind == 'raise' and v.name == 'Done')
        m.ensure('the proportions are computed', m.eq(m.size(w.refreshed), 1))
        a, b, q = m.any_index(m.size(w.order)), m.any_index(m.size(w.order)), m.any_index(w.S)
        at = lambda x: m.elem(m.segs(w.order), x).term
        m.ensure('the rows of every level are matched', m.exists_seg(w.order, lambda x: x.term == w.level(q)))
        m.ensure('finer levels first, those without granularity last', Implies(And(a < b, w.graded(at(b))), And(w.graded(at(a)), w.gran(at(a)) >= w.gran(at(b)))))
        p, i, k = m.index('p'), m.index('i'), m.index('k')
        given, n, kept, known, none, over, bare = row(m, w, at(p), i)
        x = w.match(place(at(p), i), k)
        here = And(p >= 0, p < m.size(w.order), i >= 0, i < w.rows(at(p)))
        expected = [(And(here, given, known), w.code(at(p), i)),
                    (And(here, Not(given), k >= 0, k < n, n <= w.limit, Or(n == 1, kept(k)), Not(bare)), x)]
        cases = w.overlapping, Not(w.overlapping)
        leaves = []
        for ctx, guard, val in seg_leaves(m.segs(w.added)):
            if len(ctx) not in (2, 3):
                raise Unsupported('matches stored in another form')
            by = list(zip(ctx, (p, i, k)))
            guard, (run, idx, lev, weight) = subst(guard, by, m), subst(val, by, m)
            right = And(m.eq(run, w.run(at(p), i)), m.eq(lev.term, at(p)))
            only = lambda what, goal: m.ensure(what, z3.Implies(zbool(guard), zbool(goal)))
            only('stored for this row', And(here, right))
            only('the record of the index code', Implies(given, And(known, m.eq(idx, w.code(at(p), i)))))
            only('a record found for the row', Implies(Not(given), And(k >= 0, k < n, m.eq(idx, x)) if len(ctx) == 3 else And(n == 1, m.eq(idx, w.match(place(at(p), i), 0)))))
            only('not more than the limit', Implies(Not(given), n <= w.limit))
            if len(ctx) == 3:
                only('not one matched at another level', Or(n == 1, kept(k)))
            for c in cases:
                only('nothing where a weight is missing', Implies(And(c, Not(given)), Not(bare)))
            m.ensure('with the weight of the record', z3.Implies(zbool(guard), zbool(m.eq(weight, weight_of(w, idx.val if isinstance(idx, Opt) else idx)))))
            leaves.append((guard, And(right, *[]), idx))
        for c, y in expected:
            m.ensure('all of them', z3.Implies(zbool(c), zbool(Or(*[And(g, r, m.eq(z, y)) for g, r, z in leaves]))))
        for u in range(len(leaves)):
            for v2 in range(u):
                m.ensure('each once', z3.Not(zbool(And(leaves[u][0], leaves[v2][0]))))
        reasons = {'missing_index_id': And(given, Not(known)), 'no_label_match': And(Not(given), n == 0), 'count_overlimit': And(Not(given), n > w.limit, n > 0),
                   'count_unweighted': And(Not(given), n > 1, n <= w.limit, bare)}
        counted = dict.fromkeys(reasons, False)
        for ctx, guard, (key, amount) in seg_leaves(m.segs(w.skipped)):
            if key not in reasons:
                continue
            guard = subst(guard, [(ctx[0], p), (ctx[1], i)], m)
            m.ensure('a skipped row is counted by its reason', z3.Implies(zbool(guard), zbool(And(reasons[key], m.eq(amount, 1)))))
            counted[key] = Or(counted[key], guard)
        for key, c in reasons.items():
            for d in cases:
                m.ensure('every skipped row is counted', z3.Implies(zbool(And(here, c, d)), zbool(counted[key])))


def weight_of(w, x):
    return Opt(And(Not(w.weighted(x)), x != 0), If(w.weighted(x), w.weight(x), z3.RealVal(0)))


def row(m, w, l, i):
    """Row i of level l: coded, records found, kept(k), known code, none found, too many, several of which one has no weight."""
    r = place(l, i)
    n = w.found(r)
    kept = lambda k: Or(w.overlapping, Not(w.covered(w.match(r, k), l)))
    missing = lambda k: And(Not(w.weighted(w.match(r, k))), w.match(r, k) != 0)
    new = lambda k: Not(w.covered(w.match(r, k), l))
    j = m.index()
    several = zi(m.length([Gen(j, n, new(j), [One(0)])])) > 1
    bare = And(n > 1, Or(And(w.overlapping, m.count(n, missing) > 0),
                         And(Not(w.overlapping), several, m.count(n, lambda k: And(new(k), missing(k))) > 0)))
    return w.coded(l, i), n, kept, w.known(w.code(l, i)), n == 0, n > w.limit, bare




@contract('P19', MP + 'Mapper.match_records', 'every row is matched with exactly the records found for it', budget=120)
def left(m):
    matching(m, 'node1')


@contract('P19', MP + 'Mapper.match_records', 'and so on the other side', budget=120)
def right(m):
    matching(m, 'node2')
