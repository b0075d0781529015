"""Reshaping tabular data."""
from ._lib import *


class Wide:
    """N wide rows; row i has named cells, no name twice."""
    def __init__(self, m, W=None):
        self.m = m
        self.N, self.W, self.C = z3.Ints('rows width stacked_columns')
        m.assume(And(self.N >= 0, self.W >= 0, self.C >= 0))
        self.key, self.val = fn('column_name', 'i', 'i', 'i'), fn('cell', 'i', 'i', 'i')
        self.width = fn('row_width', 'i', 'i')
        self.col = fn('stacked_column', 'i', 'i')
        i, a, b = z3.Ints('i_ a_ b_')
        m.assume_forall([i], self.width(i) >= 0)
        m.assume_forall([i, a, b], Implies(And(a >= 0, a < b, b < self.width(i)), self.key(i, a) != self.key(i, b)))
        m.distinct(self.C, self.col)
        self.var, self.value = z3.Ints('variable_name value_name')

    def name(self, k):
        """A column name: any hashable value, known only by which names are equal."""
        return Term('name', k, ('Hashable',), True)

    def row(self, i):
        j = self.m.index('cell')
        return PDict(self.m, [Gen(j, self.width(i), True, [One(('set', self.name(self.key(i, j)), Term('cell', self.val(i, j))))], unique=True)])

    def has(self, i, s):
        return self.m.dict_has(self.row(i), self.name(s))

    def kept(self, i, s):
        """Row i has a column named s that is not stacked."""
        return self.m.exists(self.row(i).log, lambda okv: And(okv[1].term == s, Not(self.stacked(okv[1].term))))

    def stacked(self, s):
        return self.m.contains(self.cols(), self.name(s))

    def cols(self, kind='list'):
        return self.m.listof(self.C, lambda c: self.name(self.col(c)), kind)


def is_term(x, kind, term):
    if isinstance(x, Choice):
        return And(*[Implies(g, is_term(y, kind, term)) for g, y in x.alts])
    if isinstance(x, Opt):
        return And(Not(x.none), is_term(x.val, kind, term))
    return isinstance(x, Term) and x.name == kind and x.term == term


def cell_text(w, v, i, s):
    """v is the cell of row i in the column named s."""
    if not (isinstance(v, Term) and v.name == 'cell'):
        return False
    return w.m.exists_in(w.width(i), lambda j: And(w.key(i, j) == s, v.term == w.val(i, j)))


def entries(m, d):
    """(position in the log, range and guard, key, value) of every write."""
    for p, s in enumerate(d.log):
        for ctx, guard, val in seg_leaves([s]):
            if val[0] != 'set':
                raise Unsupported('row built in another form')
            yield p, guard, val[1].term, val[2]


def check_row(m, guard, d, expected, name):
    """expected: {what: (keys, pred)}: a written value that is the last one of
    its key is what pred(key, value) asks for."""
    es = list(entries(m, d))
    for p, g, k, v in es:
        later = [And(g2, k2 == k) for p2, g2, k2, v2 in es if p2 > p]
        m.ensure(f'{name}: {", ".join(expected)}', Implies(And(guard, g, *[Not(x) for x in later]),
                                                           And(*[Implies(key(k), pred(k, v)) for key, pred in expected.values()])))


def blocks(m, segs):
    """Rows built as: for each record, for each stacked column, one row.
    Yields (range of records, record, stacked column's Gen) for each block."""
    for s in segs:
        if not isinstance(s, Gen) or len(s.segs) != 1:
            raise Unsupported('rows built in another form')
        if isinstance(s.segs[0], Gen):
            yield (s.idx, s.lo, s.n, s.guard), s.segs[0]
        elif isinstance(s.segs[0], One):
            yield None, s
        else:
            raise Unsupported('rows built in another form')


def check_order(m, w, segs, first=0):
    """Records first..N-1 in order, and in each the stacked columns in order."""
    at = z3.IntVal(first)
    for rng, inner in blocks(m, segs):
        r = m.index('r')
        if rng is None:
            m.ensure('the first record is taken by itself', w.N > at)
            m.assume(w.N > at)
            n, lo, g = inner.n, inner.lo, inner.guard
            at = z3.simplify(at + 1)
        else:
            idx, lo_i, n_i, g_i = rng
            # the block may count its records from another number
            m.ensure('the records are taken in order, each once', And(m.eq(z3.If(zi(n_i) > zi(lo_i), zi(n_i) - zi(lo_i), 0), z3.If(w.N > at, w.N - at, 0)), g_i))
            n, lo, g = (subst(x, [(idx, r)], m) for x in (inner.n, inner.lo, inner.guard))
            at = w.N
        m.ensure('the stacked columns are taken in order, each once', And(m.eq(n, w.C), m.eq(lo, 0), g))
    m.ensure('no record is left out', m.eq(at, w.N) if segs else Or(w.N <= first, w.C <= 0))


def records(m, w, segs, first=0):
    """(record, stacked column, range, guard, row) of each kind of row built."""
    at = z3.IntVal(first)
    for s in segs:
        for ctx, guard, d in seg_leaves([s]):
            i, c = (at, ctx[0]) if len(ctx) == 1 else (z3.simplify(ctx[0] - zi(s.lo) + at), ctx[1])
            for g, x in d.alts if isinstance(d, Choice) else [(True, d)]:
                base = m.snapshot()
                yield i, c, And(guard, g), x
                m.restore(base)
        at = z3.simplify(at + (zi(s.n) - zi(s.lo))) if isinstance(s.segs[0], Gen) else z3.simplify(at + 1)


@contract('P24', UT + 'wide_to_narrow', 'for any rows and columns: every stacked cell comes out once, in order, beside the cells not stacked', budget=90)
def narrow(m):
    w = Wide(m)
    m.assume(w.var != w.value)
    m.contracts[UT + 'make_dictreaderlike'] = lambda mm, data: mm.iterator(w.N, w.row)
    for kind, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(UT + 'wide_to_narrow'), [Opaque('data'), w.cols(), w.name(w.var), w.name(w.value)])], {})):
        if kind == 'raise':
            i, c = m.index('i'), m.index('c')
            clash = Or(w.has(i, w.var), w.has(i, w.value))
            missing = And(c >= 0, c < w.C, Not(w.has(i, w.col(c))))
            m.ensure('refused only for a clash of names or a missing column',
                     z3.Exists([i, c], zbool(And(i >= 0, i < w.N, Or(clash, missing)))))
            m.ensure('refused with the error meant for it', v.name in ('ValueError', 'KeyError'))
            continue
        i, c = m.any_index(w.N), m.any_index(w.C)
        m.ensure('accepted rows have every stacked column', w.has(i, w.col(c)))
        m.ensure('accepted rows have no column of the new names', Not(Or(w.has(i, w.var), w.has(i, w.value))))
        check_order(m, w, m.segs(v))
        for i, c, guard, d in records(m, w, m.segs(v)):
            j = m.any_index(w.width(i))
            m.ensure('a row has every column not stacked', Implies(And(guard, Not(w.stacked(w.key(i, j)))), m.dict_has(d, w.name(w.key(i, j)))))
            m.ensure('a row has the two new columns', Implies(guard, And(m.dict_has(d, w.name(w.var)), m.dict_has(d, w.name(w.value)))))
            check_row(m, guard, d, {
                'the name of the stacked column': (lambda k: k == w.var, lambda k, x: is_term(x, 'name', w.col(c))),
                'the cell of the stacked column': (lambda k: k == w.value, lambda k, x: cell_text(w, x, i, w.col(c))),
                'the cells not stacked are unchanged': (lambda k: And(k != w.var, k != w.value), lambda k, x: And(cell_text(w, x, i, k), Not(w.stacked(k)))),
            }, 'each row')


def cell_or_none(w, v, i, s):
    """v is the cell of row i in the column named s, None if the row has none."""
    if isinstance(v, Opt):
        return And(zbool(v.none) == zbool(Not(w.has(i, s))), Or(v.none, cell_text(w, v.val, i, s)))
    return Not(w.has(i, s)) if v is None else And(w.has(i, s), cell_text(w, v, i, s))


@contract('P24', UT + 'wide_to_long', 'records given as mappings: one row for each record and stacked column, in order, beside the cells not stacked', budget=90)
def long_mappings(m):
    w = Wide(m)
    m.assume(w.var != w.value)
    for kind, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(UT + 'wide_to_long'), [m.listof(w.N, w.row), w.cols(), w.name(w.var), w.name(w.value)])], {})):
        if kind == 'raise':
            c = m.index('c')
            missing = And(c >= 0, c < w.C, Not(w.has(0, w.col(c))))
            m.ensure('refused only for a clash of names or a missing column', And(w.N > 0, Or(
                w.kept(0, w.var), w.kept(0, w.value), z3.Exists([c], zbool(missing)))))
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            continue
        c = m.any_index(w.C)
        m.ensure('accepted records have every stacked column', Implies(w.N > 0, w.has(0, w.col(c))))
        m.ensure('accepted records have no unstacked column of the new names', Implies(w.N > 0, Not(Or(w.kept(0, w.var), w.kept(0, w.value)))))
        segs = m.segs(v)
        check_order(m, w, segs)
        for i, c, guard, d in records(m, w, segs):
            j = m.any_index(w.width(0))
            m.ensure('a row has every column not stacked', Implies(And(guard, Not(w.stacked(w.key(0, j)))), m.dict_has(d, w.name(w.key(0, j)))))
            m.ensure('a row has the two new columns', Implies(guard, And(m.dict_has(d, w.name(w.var)), m.dict_has(d, w.name(w.value)))))
            check_row(m, guard, d, {
                'the name of the stacked column': (lambda k: k == w.var, lambda k, x: is_term(x, 'name', w.col(c))),
                'the cell of the stacked column': (lambda k: k == w.value, lambda k, x: cell_or_none(w, x, i, w.col(c))),
                'the cells not stacked are unchanged': (lambda k: And(k != w.var, k != w.value), lambda k, x: And(cell_or_none(w, x, i, k), Not(w.stacked(k)))),
            }, 'each row')


SEQ = ('tuple', 'Sequence')


class Rows:
    """N rows given as sequences; each is only handed on."""
    def __init__(self, m):
        self.m = m
        self.N = z3.Int('rows')
        m.assume(self.N >= 0)
        self.id = fn('row', 'i', 'i')

    def row(self, i):
        return Term('row', self.id(i), SEQ, True)


def same_rows(m, w, data, first, what):
    """data yields rows first, first+1, ..., N-1."""
    left = z3.If(w.N > first, w.N - first, 0)
    segs = m.segs(data)
    m.ensure(f'{what}: no row is lost or repeated', m.eq(m.size(PList(m, segs, 'list')), left))
    if not segs:
        return
    k = m.any_index(left)
    m.ensure(f'{what}: every row in its place', is_term(m.elem(segs, k), 'row', w.id(k + first)))


def listed(m, v):
    data, columns = m.unpack(v, 2)
    return m.call_builtin(Builtin('list'), [data], {}), columns


def form(m, w, kind):
    return m.iterator(w.N, w.row) if kind == 'iterator' else m.listof(w.N, w.row)


@contract('P24', UT + 'normalize_tabular', 'rows given as sequences: every row in order, the first one being the header unless columns are given')
def sequences(m):
    w = Rows(m)
    cols = Term('columns', z3.Int('given_columns'), SEQ, True)
    for kind in ('list', 'iterator'):
        for given in (None, cols):
            base = m.snapshot()
            for k, v in m.thunk_paths(lambda: listed(m, m.call(m.func(UT + 'normalize_tabular'), [form(m, w, kind), given]))):
                what = f'{kind}, columns {"given" if given else "in the first row"}'
                if k == 'raise':
                    m.ensure(f'{what}: accepted', False)
                    continue
                data, got = v
                if given is not None:
                    m.ensure(f'{what}: the columns given are used', is_term(got, 'columns', cols.term))
                    same_rows(m, w, data, 0, what)
                else:
                    m.ensure(f'{what}: the first row names the columns', Implies(w.N > 0, is_term(got, 'row', w.id(0))))
                    same_rows(m, w, data, 1, what)
            m.restore(base)


@contract('P24', UT + 'normalize_tabular', 'rows given as mappings: every row in order, its cells under the columns of the first row or those given')
def mappings(m):
    w = Wide(m)
    m.assume(w.N > 0)
    i = m.any_index(w.N)
    for kind in ('list', 'iterator'):
        for given in (False, True):
            base = m.snapshot()
            if given:
                m.assume(w.C > 0)    # an empty tuple of columns counts as none given
            n, name = (w.C, w.col) if given else (w.width(0), lambda j: w.key(0, j))

            def run():
                data, got = listed(m, m.call(m.func(UT + 'normalize_tabular'), [form(m, w, kind), w.cols('tuple') if given else None]))
                row = m.pick(m.elem(m.segs(data), i))
                return data, got, row
            for k, v in m.thunk_paths(run):
                what = f'{kind}, columns {"given" if given else "of the first row"}'
                if k == 'raise':
                    m.ensure(f'{what}: accepted', False)
                    continue
                data, got, row = v
                c = m.any_index(n)
                if m.ensure(f'{what}: every column is named', m.eq(m.size(got), n)):
                    m.ensure(f'{what}: columns in order', m.eq(m.elem(m.segs(got), c), w.name(name(c))))
                m.ensure(f'{what}: no row is lost or repeated', m.eq(m.size(data), w.N))
                if m.ensure(f'{what}: a cell for every column', m.eq(m.size(row), n)):
                    x = m.elem(m.segs(row), c)
                    none, val = (x.none, x.val) if isinstance(x, Opt) else (x is None, x)
                    m.ensure(f'{what}: nothing only where the row has no such column', zbool(none) == zbool(Not(w.has(i, name(c)))))
                    if val is not None:
                        m.ensure(f'{what}: the cell of that row and column', Or(none, cell_text(w, val, i, name(c))))
            m.restore(base)


@contract('P24', UT + 'normalize_tabular', 'input of no tabular form is refused')
def refused(m):
    for what, data in (('not iterable', z3.Int('number')),
                       ('rows of no tabular form', m.listof(z3.Int('n'), lambda i: fn('thing', 'i', 'i')(i)))):
        base = m.snapshot()
        m.assume(z3.Int('n') > 0)
        for k, v in m.thunk_paths(lambda: m.call(m.func(UT + 'normalize_tabular'), [data])):
            m.ensure(f'{what}: refused', k == 'raise' and v.name == 'TypeError')
        m.restore(base)


class Table(Wide):
    """A header and N rows as wide as it; the columns of every row are those of the header."""
    def __init__(self, m):
        super().__init__(m)
        i, j = z3.Ints('i_ j_')
        m.assume_forall([i, j], And(self.width(i) == self.width(0), self.key(i, j) == self.key(0, j)))

    def header(self):
        return self.m.listof(self.width(0), lambda j: self.name(self.key(0, j)), 'tuple')

    def cells(self, i):
        return self.m.listof(self.width(0), lambda j: Term('cell', self.val(i, j)), 'tuple')

    def data(self):
        i = self.m.index()
        return PList(self.m, [One(self.header()), Gen(i, self.N, True, [One(self.cells(i))])], 'list')


@contract('P24', UT + 'wide_to_long', 'a header and rows: one row for each record and stacked column, in order, beside the cells not stacked', budget=90)
def long_sequences(m):
    w = Table(m)
    m.assume(w.var != w.value)
    for kind, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(UT + 'wide_to_long'), [w.data(), w.cols(), w.name(w.var), w.name(w.value)])], {})):
        if kind == 'raise':
            c = m.index('c')
            missing = And(c >= 0, c < w.C, Not(w.has(0, w.col(c))))
            m.ensure('refused only for a clash of names or a missing column', Or(w.kept(0, w.var), w.kept(0, w.value), z3.Exists([c], zbool(missing))))
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            continue
        c = m.any_index(w.C)
        m.ensure('accepted tables have every stacked column', w.has(0, w.col(c)))
        m.ensure('accepted tables have no unstacked column of the new names', Not(Or(w.kept(0, w.var), w.kept(0, w.value))))
        segs = m.segs(v)
        if not m.ensure('a header comes first', len(segs) > 0 and isinstance(segs[0], One)):
            continue
        aligned(m, w, 'the header', True, segs[0].value, lambda j, x: is_term(x, 'name', w.key(0, j)),
                lambda x: is_term(x, 'name', w.var), lambda x: is_term(x, 'name', w.value))
        check_order(m, w, segs[1:])
        for i, c, guard, d in records(m, w, segs[1:]):
            aligned(m, w, 'a row', guard, d, lambda j, x: is_term(x, 'cell', w.val(i, j)),
                    lambda x: is_term(x, 'name', w.col(c)), lambda x: cell_or_none(w, x, i, w.col(c)))


def aligned(m, w, what, guard, row, cell, name, value):
    """The row has, in order, what `cell` asks for in every column not stacked,
    then the two new columns."""
    segs = m.segs(row)
    if len(segs) != 3 or not isinstance(segs[0], Gen) or not all(isinstance(s, One) and s.guard is True for s in segs[1:]):
        raise Unsupported('row built in another form')
    g = segs[0]
    j = m.any_index(w.width(0))
    m.ensure(f'{what}: the columns are taken in order', Implies(guard, And(m.eq(g.n, w.width(0)), m.eq(g.lo, 0))))
    hits = []
    for ctx, inside, x in seg_leaves([g]):
        if len(ctx) != 1:
            raise Unsupported('row built in another form')
        inside, x = subst(inside, [(ctx[0], j)], m), subst(x, [(ctx[0], j)], m)
        hits.append(inside)
        m.ensure(f'{what}: the cell of each column not stacked', Implies(And(guard, inside), cell(j, x)))
    m.ensure(f'{what}: every column not stacked and no other', Implies(guard, zbool(Or(*hits)) == zbool(Not(w.stacked(w.key(0, j))))))
    m.ensure(f'{what}: no column twice', Implies(guard, And(*[Not(And(p, q)) for n, p in enumerate(hits) for q in hits[:n]])))
    m.ensure(f'{what}: then the new columns', Implies(guard, And(name(segs[1].value), value(segs[2].value))))


@contract('P24', UT + 'make_dictreaderlike', 'for records given as mappings and for a header with rows: every record once, in order, each cell under its column')
def dict_rows(m):
    run = lambda data: m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(UT + 'make_dictreaderlike'), [data])], {}))
    for kind in ('list', 'iterator'):
        base = m.snapshot()
        w = Wide(m)
        i = m.any_index(w.N)
        for k, v in run(form(m, w, kind)):
            if not m.ensure(f'{kind} of mappings: accepted', k == 'return'):
                continue
            m.ensure(f'{kind} of mappings: no record is lost or repeated', m.eq(m.size(v), w.N))
            if m.segs(v):
                d = m.elem(m.segs(v), i)
                j = m.any_index(w.width(i))
                for g, x in (d.alts if isinstance(d, Choice) else [(True, d)]):
                    m.ensure(f'{kind} of mappings: every column is there', Implies(g, m.dict_has(x, w.name(w.key(i, j)))))
                    check_row(m, g, x, {'the cells are unchanged': (lambda s: True, lambda s, y: cell_text(w, y, i, s))}, f'{kind} of mappings')
        m.restore(base)
    w = Table(m)
    for k, v in run(w.data()):
        if not m.ensure('header and rows: accepted', k == 'return'):
            continue
        i, j = m.any_index(w.N), m.any_index(w.width(0))
        if m.ensure('header and rows: no record is lost or repeated', m.eq(m.size(v), w.N)):
            d = m.elem(m.segs(v), i)
            m.ensure('header and rows: every column is there', m.dict_has(d, w.name(w.key(0, j))))
            check_row(m, True, d, {'each cell under its column': (lambda s: True, lambda s, y: cell_text(w, y, i, s))}, 'header and rows')


class GenFunc(Model):
    pytypes = ('function',)

    def __init__(self, make):
        self.make, self.args = make, None

    def call(self, m, name, args, kwargs):
        self.args = (list(args), dict(kwargs))
        return self.make()


@contract('P24', UT + 'eagerly_initialize', 'an initialised generator yields what it would have yielded')
def eager(m):
    w = Rows(m)
    for k, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(UT + 'eagerly_initialize'), [m.iterator(w.N, w.row)])], {})):
        if m.ensure('accepted', k == 'return'):
            same_rows(m, w, v, 0, 'any number of items')
    f = GenFunc(lambda: m.iterator(w.N, w.row))
    for k, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.call(m.func(UT + 'eagerly_initialize'), [f]), [1], {'b': 2})], {})):
        if m.ensure('accepted as a decorator', k == 'return'):
            m.ensure('the arguments are handed on', f.args == ([1], {'b': 2}))
            same_rows(m, w, v, 0, 'decorated, any number of items')
