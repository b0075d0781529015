"""Loading quantities."""
from ._lib import *


class Load(Model):
    """A dataspace and N rows: L labels, A attributes, a value column; each cell of a row known by its column."""
    def __init__(self, m):
        self.m = m
        self.N, self.W, self.L, self.A, self.S = z3.Ints('rows columns labels attributes structures')
        m.assume(And(self.N >= 0, self.W >= 0, self.L >= 1, self.A >= 0, self.S >= 0))
        self.col, self.label, self.attr = fn('column_name', 'i', 's'), fn('label_name', 'i', 's'), fn('attribute_name', 'i', 's')
        self.cell = fn('cell', 'i', 's', 'i')
        self.truthy = fn('cell_truthy', 'i', 'b')
        m.distinct(self.W, self.col, fn('place_of_column', 's', 'i'))
        m.distinct(self.L, self.label)
        m.distinct(self.A, self.attr)
        self.value = z3.String('value_column')
        i, k = z3.Ints('i_ k_')
        # the cells of the value column stand for the rows
        m.assume_forall([i, k], Implies(self.cell(i, self.value) == self.cell(k, self.value), i == k))
        self.adds, self.updates = PList(m, [], 'list'), PList(m, [], 'list')
        self.matching, self.refused, self.stored_value = fn('matching_records', 'i', 'i'), fn('quantity_refused', 'i', 'b'), fn('stored_value', 'i', 'r')
        m.assume_forall([z3.Int('i_')], self.matching(z3.Int('i_')) >= 0)
        self.domain = z3.Int('domain_of_space')
        self.given = z3.Bool('domain_is_set')

    def columns(self):
        return self.m.listof(self.W, self.col, 'tuple')

    def c(self, i, s):
        t = self.cell(i, s)
        return Term('cell', t, None, self.truthy(t))

    def row(self, i):
        return self.m.listof(self.W, lambda j: self.c(i, self.col(j)), 'tuple')

    def has(self, s):
        at = fn('place_of_column', 's', 'i')(s)
        return And(at >= 0, at < self.W, self.col(at) == s)

    def is_label(self, s):
        return self.m.exists_in(self.L, lambda j: self.label(j) == s)

    def is_attr(self, s):
        return self.m.exists_in(self.A, lambda j: self.attr(j) == s)

    # the dataspace
    def a__dal(self, m):
        return self

    def a_domain(self, m):
        return Term('cell', self.domain, None, True) if m.branch(self.given) else None

    def m__managed_transaction(self, m):
        # what follows the transaction only reports; it has no cursor
        def block(mm, inner):
            inner(Opaque('cursor'))
            raise PyExc('Committed', ())
        return ('cm', block)

    def m_LocationRepository(self, m, cur):
        return Locations(self)

    def m_AttributeGroupRepository(self, m, cur):
        return Attributes(self)

    def m_QuantityRepository(self, m, cur):
        return Quantities(self)

    def m_PropertyRepository(self, m, cur):
        return Opaque('properties')

    def m_IndexRepository(self, m, cur):
        return Records(self)

    def m_StructureRepository(self, m, cur):
        return Structures(self)

    def m_get_registered_attributes(self, m):
        return m.listof(self.A, self.attr)

    def a__connector(self, m):
        return Connector()


def columns_checked(w):
    """verify_columns_set by its contract: refused unless every required column is there."""
    def check(m, columns, required_columns, allow_extras=False):
        m.ensure('the columns of the data are checked, others are allowed', And(allow_extras is True, m.eq(m.size(columns), w.W)))
        if m.branch(z3.Bool('columns_missing')):
            raise PyExc('ValueError', ('missing',))
        for ctx, guard, val in seg_leaves(list(m.iter_segs(required_columns, True))):
            val = z3.StringVal(val) if isinstance(val, str) else val
            there = zbool(Implies(guard, w.has(val)))
            m.assume_forall(ctx, there) if ctx else m.assume(there)
    return check


class Connector(Model):
    def m_transaction_is_active(self, m, cur):
        return m.fresh('still_active', z3.BoolSort())


class Records(Model):
    def __init__(self, w):
        self.w = w

    def m_filter_by_label(self, m, criteria):
        w = self.w
        i = row_of(w, criteria.log, w.label)
        if i is None:
            raise Unsupported('criteria of something else than cells of a row')
        with scope(m):
            check_dict(m, w, True, criteria, i, (w.L, w.label, w.is_label), True, 'labels searched')
        n = w.matching(i)
        return m.iterator(n, lambda i: Term('record', i, None, True))


class Structures(Model):
    def __init__(self, w):
        self.w = w

    def m_get_all(self, m):
        return m.listof(self.w.S, lambda i: m.rec(DM + 'Structure', id=i, granularity=None, bits=Term('bits', fn('structure_bits', 'i', 'i')(i))))


class Locations(Model):
    def __init__(self, w):
        self.w = w

    def m_get_label_names(self, m):
        return m.listof(self.w.L, self.w.label)

    def m_get_by_labels_add_if_missing(self, m, labels):
        return m.rec(DM + 'Location', id=labels, labels=Opaque('labels'))


class Attributes(Model):
    def __init__(self, w):
        self.w = w

    def m_get_by_value_add_if_missing(self, m, value):
        return m.rec(DM + 'AttributeGroup', id=value, attributes=value)


class Quantities(Model):
    def __init__(self, w):
        self.w = w

    def m_add(self, m, location_id, attribute_group_id, value):
        if m.branch(self.w.refused(value.term) if isinstance(value, Term) and value.name == 'cell' else m.fresh('refused', z3.BoolSort())):
            raise PyExc('IntegrityError', ('conflict',))
        self.w.adds.segs = self.w.adds.segs + [One((location_id, attribute_group_id, value))]

    def m_get_by_location_id_and_attribute_group_id(self, m, location_id, attribute_group_id):
        if m.branch(m.fresh('no_such_quantity', z3.BoolSort())):
            raise PyExc('KeyError', ('no such quantity',))
        q = m.fresh('quantity', z3.IntSort())
        return m.rec(DM + 'Quantity', id=Term('quantity', q), location_id=location_id, attribute_group_id=attribute_group_id, value=self.w.stored_value(q))

    def m_update(self, m, quantity):
        self.w.updates.segs = self.w.updates.segs + [One((quantity.fields['location_id'], quantity.fields['attribute_group_id'], quantity.fields['value'], quantity.fields['id']))]


def is_cell(v, term):
    if isinstance(v, Choice):
        return And(*[Implies(g, is_cell(x, term)) for g, x in v.alts])
    if isinstance(v, Opt):
        return And(Not(v.none), is_cell(v.val, term))
    return v.term == term if isinstance(v, Term) and v.name == 'cell' else False


def check_dict(m, w, guard, d, i, keys, truthy, what):
    """d holds exactly the cells of row i in the columns named by keys
    ((count, name, holds)), only the non-empty ones if truthy."""
    n, name, holds = keys
    for okv in seg_leaves(d.log):
        ctx, g, val = okv
        if val[0] != 'set':
            raise Unsupported('dictionary built in another form')
        k, v = val[1], val[2]
        m.ensure(f'{what}: only the cells of the row', Implies(And(guard, g), And(holds(k), is_cell(v, w.cell(i, k)), Implies(truthy, w.truthy(w.cell(i, k))))))
    j = m.any_index(n)
    m.ensure(f'{what}: all of them', Implies(And(guard, holds(name(j)), Or(not truthy, w.truthy(w.cell(i, name(j))))), m.dict_has(d, name(j))))


@contract('P20', SP + 'DataSpace.insert_quantities', 'every row with attributes is stored once, under all its labels and exactly its non-empty attributes', budget=120)
def insert(m):
    w = Load(m)
    m.contracts[UT + 'normalize_tabular'] = lambda mm, data, columns=None: (mm.iterator(w.N, w.row), w.columns())
    m.contracts[UT + 'verify_columns_set'] = columns_checked(w)
    m.contracts[DS + 'get_domain'] = lambda mm, repo: w.a_domain(mm)
    is_attr = lambda s: And(w.is_attr(s), Or(Not(w.given), s != 'domain'))
    right = lambda i: Or(Not(w.given), w.cell(i, z3.StringVal('domain')) == w.domain)
    stored = lambda i: And(right(i), m.exists(m.listof(w.A, w.attr).segs, lambda a: And(Or(Not(w.given), a != 'domain'), w.truthy(w.cell(i, a)))))
    for kind, v in m.paths(SP + 'DataSpace.insert_quantities', [], {'value': w.value, 'attributes': m.listof(w.A, w.attr), 'data': Opaque('data')}, self_obj=w):
        if kind == 'raise' and v.name != 'Committed':
            m.ensure('refused for missing columns or by the repository', v.name in ('ValueError', 'IntegrityError'))
            continue
        m.ensure('stored in one transaction', kind == 'raise')
        l, a, k = m.any_index(w.L), m.any_index(w.A), m.any_index(w.N)
        m.ensure('accepted data has every label column', w.has(w.label(l)))
        m.ensure('and every attribute column', Implies(is_attr(w.attr(a)), w.has(w.attr(a))))
        m.ensure('and the value column', w.has(w.value))
        rows(m, w, w.adds, is_attr, stored, right, k)


def rows(m, w, adds, is_attr, stored, right, k):
    tag = lambda x: x[2].term
    m.ensure('a row with attributes is stored', Implies(stored(k), m.exists_seg(adds, lambda x: tag(x) == w.cell(k, w.value))))
    at_most_once(m, 'no row is stored twice', adds, tag)
    for ctx, guard, (labels, attrs, value) in seg_leaves(adds.segs):
        here = And(guard, is_cell(value, w.cell(k, w.value)))
        m.ensure('only rows with attributes and the domain of the space are stored', Implies(here, stored(k)))
        check_dict(m, w, here, labels, k, (w.L, w.label, w.is_label), False, 'labels')
        check_dict(m, w, here, attrs, k, (w.A, w.attr, is_attr), True, 'attributes')


def row_of(w, segs, column):
    """The row i when segs hold nothing but cells cell(i, .) of one row, else None."""
    rows = []
    for ctx, guard, val in seg_leaves(segs):
        x = val[2] if isinstance(val, tuple) else val
        if not (isinstance(x, Term) and is_app(x.term, w.cell)):
            return None
        rows.append(x.term.arg(0))
    return rows[0] if rows and all(r.eq(rows[0]) for r in rows) else None


def flags(w):
    """BitFlags by its contract (P07): equal for equal patterns of truthy values."""
    def make(m, *args):
        if len(args) == 1 and isinstance(args[0], Term):
            return args[0]
        if len(args) != 1:
            raise Unsupported('BitFlags of several arguments')
        segs = list(m.iter_segs(args[0], True))
        i = row_of(w, segs, w.label)
        if i is None:
            raise Unsupported('flags of something else than cells of a row')
        with scope(m):
            j = m.any_index(w.L)
            m.ensure('the pattern has a flag for every label', m.eq(m.size(PList(m, segs, 'list')), w.L))
            m.ensure('the pattern is that of the labels in storage order', is_cell(m.elem(segs, j), w.cell(i, w.label(j))))
        return Term('bits', fn('bits_of_row', 'i', 'i')(i))
    return make


def number(v):
    """The cell that a stored value was made from."""
    if isinstance(v, Term) and v.name == 'cell':
        return v.term
    found = [x.arg(0) for x in [v] + v.children() if is_app(x, fn('float_of_cell', 'i', 'r'))] if is_z3(v) else []
    if len(found) != 1:
        raise Unsupported('stored value of another form')
    return found[0]


def loading(mode, with_domain, allowed=False):
    def run(m):
        w = Load(m)
        m.contracts[UT + 'normalize_tabular'] = lambda mm, data, columns=None: (mm.iterator(w.N, w.row), w.columns())
        m.contracts[UT + 'verify_columns_set'] = columns_checked(w)
        m.contracts[UT + 'BitFlags'] = flags(w)
        m.models['itertools.compress'] = lambda mm, data, sel: data      # only in an error message
        domain = z3.StringVal('domain')
        has_domain = m.exists(w.columns().segs, lambda c: c == domain)
        m.assume(w.has(domain) if with_domain else Not(has_domain))
        stored = lambda i: m.total(m.listof(w.A, w.attr), lambda a: If(And(m.exists(w.columns().segs, lambda c: c == a), w.truthy(w.cell(i, a))), z3.RealVal(1), z3.RealVal(0))) >= 1
        is_attr = lambda s: And(w.is_attr(s), m.exists(w.columns().segs, lambda c: c == s))
        known = lambda i: And(w.matching(i) > 0, m.exists(Structures(w).m_get_all(m).segs, lambda x: x.fields['bits'].term == fn('bits_of_row', 'i', 'i')(i)))
        refused, tag = lambda i: w.refused(w.cell(i, w.value)), lambda x: number(x[2])
        for kind, v in m.paths(SP + 'DataSpace.insert_quantities2', [], {'value_column': w.value, 'data': Opaque('data'), 'on_existing': mode,
                                                                        'allow_invalid_label': allowed, 'allow_invalid_partition': allowed}, self_obj=w):
            if kind == 'raise' and v.name != 'Committed':
                m.ensure('refused with an error meant for it', v.name in ('ValueError', 'IntegrityError', 'ToronError') + (('TypeError',) if mode == 'sum' else ()))
                continue
            m.ensure('stored in one transaction', kind == 'raise')
            l, k = m.any_index(w.L), m.any_index(w.N)
            at = w.cell(k, w.value)
            m.ensure('accepted data has every label column', w.has(w.label(l)))
            m.ensure('and the value column', w.has(w.value))
            m.ensure('rows of another domain are not accepted', Implies(with_domain, w.cell(k, domain) == w.domain))

            def there(what, cond, log):
                m.ensure(what, present(m, log, tag, at, k, cond))
            both = PList(m, w.adds.segs + w.updates.segs, 'list')
            if mode in ('replace', 'sum'):
                there('a row with attributes is stored', stored(k), both)
            else:
                m.ensure('nothing stored is changed', not w.updates.segs)
                there('a row with attributes is stored' + (' unless its quantity exists' if mode == 'ignore' else ''),
                      And(stored(k), Or(mode == 'abort', Not(refused(k)))), both)
            at_most_once(m, 'no row is stored twice', both, tag)
            for log in (w.adds, w.updates):
                for ctx, guard, (labels, attrs, value, *old) in seg_leaves(log.segs):
                    here = And(guard, number(value) == at)
                    m.ensure('only rows with attributes are stored', Implies(here, stored(k)))
                    if not allowed:
                        m.ensure('only rows whose labels the index and the structure know are stored', Implies(here, known(k)))
                    if log is w.updates:
                        m.ensure('a quantity changes only when it exists', Implies(here, refused(k)))
                        m.ensure('the new value' if mode == 'replace' else 'the sum of both values', Implies(here, (
                            isinstance(value, Term) if mode == 'replace' else m.eq(value, w.stored_value(old[0].term) + fn('float_of_cell', 'i', 'r')(at)))))
                    else:
                        m.ensure('the value of the row is stored', Implies(here, isinstance(value, Term)))
                    check_dict(m, w, here, labels, k, (w.L, w.label, w.is_label), False, 'labels')
                    check_dict(m, w, here, attrs, k, (w.A, w.attr, is_attr), True, 'attributes')
    run.__name__ = 'load_' + mode + ('_domain' if with_domain else '') + ('_allowed' if allowed else '')
    contract('P20', SP + 'DataSpace.insert_quantities2', f'on_existing {mode}, {"with" if with_domain else "no"} domain column{", unknown labels allowed" if allowed else ""}: '
             'every row with attributes is stored once, under all its labels and exactly its non-empty attributes', budget=150)(run)


for mode in ('abort', 'ignore', 'replace', 'sum'):
    for with_domain in (False, True):
        loading(mode, with_domain)
loading('abort', True, True)


@contract('P20', UT + 'verify_columns_set', 'refused exactly when a required column is missing')
def columns_present(m):
    w = Load(m)
    missing = lambda l: Not(m.exists(w.columns().segs, lambda c: c == w.label(l)))
    for kind, v in m.paths(UT + 'verify_columns_set', [w.columns(), m.iterator(w.L, w.label)], {'allow_extras': True}):
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            m.ensure('only if a required column is missing', m.count(w.L, missing) > 0)
            continue
        l = m.any_index(w.L)
        m.ensure('accepted columns hold every required one', Not(missing(l)))


class Stored(Model):
    """A repository in which the record asked for is there, or can be added."""
    def __init__(self, m, w):
        self.m, self.w = m, w
        self.there = z3.Bool('record_is_there')
        self.added = PList(m, [], 'list')
        self.asked = PList(m, [], 'list')

    def found(self, m):
        """There from the start, or added since."""
        return len(self.added.segs) > 0 or m.branch(self.there)

    def m_get_label_names(self, m):
        return m.listof(self.w.L, self.w.label)

    def m_add(self, m, *args, star=None):
        self.added.segs = self.added.segs + [One(star if star is not None else args[0] if len(args) == 1 else args)]

    def m_find_by_label(self, m, criteria):
        self.asked.segs = self.asked.segs + [One(criteria)]
        return m.iterator(z3.IntVal(1 if self.found(m) else 0), lambda i: Term('location', i, None, True))

    def m_get_by_value(self, m, value):
        self.asked.segs = self.asked.segs + [One(value)]
        if not self.found(m):
            raise PyExc('KeyError', ('no such group',))
        return Term('group', z3.IntVal(0), None, True)


@contract('P20', DM + 'BaseAttributeGroupRepository.get_by_value_add_if_missing', 'the group of exactly these attributes, added once when missing')
def group(m):
    w = Load(m)
    r = Stored(m, w)
    value = PDict(m, [Gen(j, w.A, True, [One(('set', w.attr(j), w.c(z3.IntVal(0), w.attr(j))))], unique=True) for j in [m.index()]])
    for kind, v in m.paths(DM + 'BaseAttributeGroupRepository.get_by_value_add_if_missing', [value], self_obj=r):
        if kind == 'raise':
            m.ensure('never raises', False)
            continue
        m.ensure('the record found is returned', isinstance(v, Term) and v.name == 'group')
        m.ensure('looked up by exactly these attributes', all(x.value is value for x in r.asked.segs))
        m.ensure('added only when missing', r.there == (not r.added.segs))
        m.ensure('added once, with exactly these attributes', len(r.added.segs) <= 1 and all(x.value is value for x in r.added.segs))


@contract('P20', DM + 'BaseLocationRepository.get_by_labels_add_if_missing', 'the location of exactly these labels, added once when missing')
def location(m):
    w = Load(m)
    r = Stored(m, w)
    labels = PDict(m, [Gen(j, w.L, True, [One(('set', w.label(j), w.c(z3.IntVal(0), w.label(j))))], unique=True) for j in [m.index()]])
    for kind, v in m.paths(DM + 'BaseLocationRepository.get_by_labels_add_if_missing', [labels], self_obj=r):
        if kind == 'raise':
            m.ensure('never raises', False)
            continue
        m.ensure('the record found is returned', isinstance(v, Term) and v.name == 'location')
        m.ensure('looked up by exactly these labels', all(x.value is labels for x in r.asked.segs))
        m.ensure('added only when missing', r.there == (not r.added.segs))
        m.ensure('added once', len(r.added.segs) <= 1)
        for x in r.added.segs:
            j = m.any_index(w.L)
            m.ensure('with a value for every label', m.eq(m.size(x.value), w.L))
            m.ensure('its labels in storage order', is_cell(m.elem(m.segs(x.value), j), w.cell(z3.IntVal(0), w.label(j))))
