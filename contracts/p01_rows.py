"""Reading the quantities of a dataspace as rows of index records."""
from ._lib import *
from .p05 import Candidates


class Space(Model):
    """S structures; structure s has groups of quantities, one per location; a location finds its records by its labels."""
    def __init__(self, m, quantize):
        self.m, self.quantize = m, quantize
        self.S, self.L = z3.Ints('structures labels')
        m.assume(And(self.S >= 1, self.L >= 1))
        self.graded, self.gran = fn('has_granularity', 'i', 'b'), fn('granularity', 'i', 'r')
        self.groups, self.loc, self.size = fn('locations', 'i', 'i'), fn('location', 'i', 'i', 'i'), fn('quantities', 'i', 'i', 'i')
        self.value, self.attr = fn('quantity', 'i', 'i', 'i', 'r'), fn('attribute_group', 'i', 'i', 'i', 'i')
        self.col, self.cell = fn('column', 'i', 's'), fn('label', 'i', 'i', 's')
        m.distinct(self.L, self.col)
        self.found, self.record = fn('records_found', 'i', 'i'), fn('record_found', 'i', 'i', 'i')
        self.width, self.key, self.val = fn('attributes', 'i', 'i'), fn('attribute_name', 'i', 'i', 's'), fn('attribute_value', 'i', 'i', 's')
        i, j = z3.Ints('i_ j_')
        m.assume_forall([i], And(self.groups(i) >= 0, self.found(i) >= 0, self.width(i) >= 0))
        m.assume_forall([i, j], self.size(i, j) >= 1)
        self.domain = z3.String('domain')
        self.complete = z3.Bool('default_group_complete')
        self.default = z3.Int('default_group')
        self.choice = fn('group_chosen', 'i', 'i')
        self.share, self.whole = fn('share', 'i', 'i', 'r', 'i', 'r'), fn('whole_share', 'i', 'i', 'r', 'i', 'r')
        self.others = Candidates(m)
        m.contracts['toron.selectors:get_greatest_unique_specificity'] = self.choose
        m.contracts[DS + 'get_default_weight_group'] = lambda mm, props, groups: self.group(mm, self.default, self.complete, None)
        m.contracts[DS + 'disaggregate_value'] = self.split
        m.contracts[UT + 'quantize_values'] = self.round
        m.models['itertools.groupby'] = self.by_location

    def group(self, m, id, complete, selectors):
        return m.rec(DM + 'WeightGroup', id=id, name=Opaque('name'), description=None, selectors=selectors, is_complete=complete)

    def finest(self, s):
        return And(self.graded(s) == self.graded(0), Or(Not(self.graded(s)), self.gran(s) == self.gran(0)))

    # the dataspace
    def a_domain(self, m):
        return self.domain

    def a__dal(self, m):
        return self

    def m__managed_cursor(self, m, n=1):
        return ('cm', lambda mm, inner: inner(tuple(Opaque(f'cursor {k}') for k in range(n)) if n > 1 else Opaque('cursor')))

    def m_PropertyRepository(self, m, cur):
        return Opaque('properties')

    def m_WeightGroupRepository(self, m, cur):
        return WeightGroups(self)

    def m_StructureRepository(self, m, cur):
        return Structures(self)

    def m_AttributeGroupRepository(self, m, cur):
        return Attributes(self)

    def m_IndexRepository(self, m, cur):
        return Records(self)

    def m_WeightRepository(self, m, cur):
        return Opaque('weights')

    def m_LocationRepository(self, m, cur):
        return Locations(self)

    def m_QuantityRepository(self, m, cur):
        return Quantities(self)

    # callees by contract
    def by_location(self, m, it, key=None):
        if not isinstance(it, Stream):
            raise Unsupported('groups of something else')
        s = it.s
        i, j = m.index(), m.index()
        q = self.quantity(m, s, i, j)
        if not m.eq_terms(m.call(key, [q]), self.loc(s, i)):
            raise Unsupported('grouped by something else')
        return PIter(m, [Gen(i, self.groups(s), True, [One((self.loc(s, i), PIter(m, [Gen(j, self.size(s, i), True, [One(q)])])))])])

    def quantity(self, m, s, i, j):
        return m.rec(DM + 'Quantity', id=Term('quantity id', i), location_id=self.loc(s, i), attribute_group_id=self.attr(s, i, j), value=self.value(s, i, j))

    def choose(self, m, row_dict=None, selector_dict=None, default=None):
        m.ensure('the default group is the fallback', m.eq(default, self.default))
        c = self.others
        with scope(m):
            c.candidates(m, selector_dict, lambda k: c.complete(k))
        return self.choice(self.attributes_of(m, row_dict))

    def attributes_of(self, m, d):
        """The attribute group whose attributes, with the domain, are d."""
        for ctx, guard, (_, k, v) in seg_leaves(d.log):
            if is_app(k, self.key):
                return k.arg(0)
        raise Unsupported('attributes of another form')

    def place(self, m, ids):
        segs = m.segs(ids)
        ls = seg_leaves(segs)
        if len(ls) != 1 or len(ls[0][0]) != 1 or not is_app(ls[0][2], self.record):
            raise Unsupported('records of another form')
        l = ls[0][2].arg(0)
        k = m.any_index(self.found(l))
        m.ensure('shared by all records of the location', And(m.size(ids) == self.found(l), m.elem(segs, k) == self.record(l, k)))
        return l

    def split(self, m, quantity_value, index_ids, weight_group_id, weight_repo):
        l = self.place(m, index_ids)
        return m.iterator(self.found(l), lambda k: (self.record(l, k), self.share(weight_group_id, l, quantity_value, k)))

    def round(self, m, items, sum_total):
        ls = seg_leaves(m.segs(items))
        if len(ls) != 1 or not is_app(ls[0][2][1], self.share):
            raise Unsupported('shares of another form')
        g, l, v = [ls[0][2][1].arg(n) for n in range(3)]
        m.ensure('whole shares of the same quantity', m.eq(sum_total, v))
        return m.iterator(self.found(l), lambda k: (self.record(l, k), self.whole(g, l, v, k)))


class Stream(Model):
    def __init__(self, s):
        self.s = s


class WeightGroups(Model):
    def __init__(self, w):
        self.w = w

    def m_get_all(self, m):
        c = self.w.others
        return m.listof(c.N, lambda i: self.w.group(m, c.id(i), c.complete(i), c.selectors(m, i)))


class Structures(Model):
    def __init__(self, w):
        self.w = w

    def m_get_all(self, m):
        w = self.w
        return m.listof(w.S, lambda i: m.rec(DM + 'Structure', id=i, granularity=Opt(Not(w.graded(i)), w.gran(i)), bits=Opaque('bits')))


class Attributes(Model):
    def __init__(self, w):
        self.w = w

    def m_get(self, m, g):
        w = self.w
        a = m.index()
        return m.rec(DM + 'AttributeGroup', id=g, attributes=PDict(m, [Gen(a, w.width(g), True, [One(('set', w.key(g, a), w.val(g, a)))])]))


class Locations(Model):
    def __init__(self, w):
        self.w = w

    def m_get_label_names(self, m):
        return m.listof(self.w.L, self.w.col)

    def m_get(self, m, l):
        return m.rec(DM + 'Location', id=l, labels=m.listof(self.w.L, lambda j: self.w.cell(l, j), 'tuple'))


class Quantities(Model):
    def __init__(self, w):
        self.w = w

    def m_find_by_structure(self, m, structure=None, attribute_id_filter=None):
        m.ensure('the filter is used', isinstance(attribute_id_filter, Opaque) and attribute_id_filter.name == 'filter')
        return Stream(structure.fields['id'])


class Records(Model):
    def __init__(self, w):
        self.w = w

    def m_filter_index_ids_by_label(self, m, criteria):
        w = self.w
        ctx, n, guard, (k, v) = leaf(m, criteria)
        if not is_app(v, w.cell):
            raise Unsupported('criteria of something else than labels of a location')
        l = v.arg(0)
        j = m.any_index(w.L)
        at = lambda t: z3.substitute(t, (ctx, j))
        m.ensure('searched by the labels of the location', z3.Implies(at(guard), z3.And(zbool(m.eq(at(k), w.col(j))), zbool(m.eq(at(v), w.cell(l, j))))))
        m.ensure('every non-empty label is searched and no other', at(guard) == (w.cell(l, j) != ''))
        m.ensure('all columns are regarded', m.eq(n, w.L))
        return m.iterator(w.found(l), lambda k: w.record(l, k))


def rows(m, quantize):
    w = Space(m, quantize)
    for kind, v in m.thunk_paths(lambda: m.call_builtin(Builtin('list'), [m.call(m.func(SP + 'DataSpace._disaggregate'), [w, Opaque('filter'), quantize])], {})):
        if kind == 'raise':
            i, j = m.index('i'), m.index('j')
            nowhere = z3.Exists([i, j], zbool(And(i >= 0, i < w.S, j >= 0, j < w.groups(i), w.found(w.loc(i, j)) == 0)))
            m.ensure('refused without a complete default group, or for a location without records', And(v.name == 'RuntimeError', Or(Not(w.complete), nowhere)))
            continue
        m.ensure('the default group is complete', w.complete)
        s = m.any_index(w.S)
        i = m.any_index(w.groups(s))
        j = m.any_index(w.size(s, i))
        l, g, q = w.loc(s, i), w.attr(s, i, j), w.value(s, i, j)
        k = m.any_index(w.found(l))
        share = w.whole if quantize else w.share
        m.ensure('every location has records', w.found(l) > 0)
        one, many = [], []
        for ctx, guard, (rid, attrs, val) in seg_leaves(m.segs(v)):
            if len(ctx) not in (3, 4):
                raise Unsupported('rows of another form')
            by = list(zip(ctx, (s, i, j, k)))
            guard, rid, attrs, val = subst(guard, by, m), subst(rid, by, m), subst(attrs, by, m), subst(val, by, m)
            if len(ctx) == 3:
                one.append(guard)
                m.ensure('whole only at the finest level', z3.Implies(zbool(guard), zbool(w.finest(s))))
                m.ensure('the whole quantity goes to the record of the location', z3.Implies(zbool(guard), zbool(And(rid == w.record(l, 0), val == q))))
            else:
                many.append(guard)
                m.ensure('shared at the other levels', z3.Implies(zbool(guard), zbool(Not(w.finest(s)))))
                m.ensure('each record gets its share by the group chosen for the attributes', z3.Implies(zbool(guard), zbool(And(rid == w.record(l, k), val == share(w.choice(g), l, q, k)))))
            a = m.any_index(w.width(g))
            m.ensure('with every attribute', Implies(And(guard, w.key(g, a) != 'domain'), And(m.dict_has(attrs, w.key(g, a)))))
            m.ensure('and the domain, if there is one', Implies(And(guard, w.domain != ''), m.dict_has(attrs, z3.StringVal('domain'))))
        m.ensure('every quantity of the finest level comes out', Implies(w.finest(s), Or(*one)))
        m.ensure('every share of the other levels comes out', Implies(Not(w.finest(s)), Or(*many)))
        for gs in one, many:
            m.ensure('once', And(*[Not(And(x, y)) for n, x in enumerate(gs) for y in gs[:n]]))


@contract('P01', SP + 'DataSpace._disaggregate', 'every quantity comes out once: whole at the finest level, else one share for each record of its location', budget=90)
def rows_read(m):
    rows(m, False)


@contract('P01', SP + 'DataSpace._disaggregate', 'so in whole numbers', budget=90)
def rows_whole(m):
    rows(m, True)
