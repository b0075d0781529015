"""Order of labels and attributes."""
from ._lib import *


@contract('P23', DS + 'change_element_order', 'the element goes the requested number of places, stopping at the ends; the others keep their order')
def reorder(m):
    n, off = z3.Int('n'), z3.Int('offset')
    x = fn('name', 'i', 's')
    el = z3.String('element')
    m.assume(n >= 0)
    m.distinct(n, x)
    for kind, v in m.paths(DS + 'change_element_order', [m.listof(n, x), el], {'offset': off}):
        k = m.any_index(n)
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ToronError')
            m.ensure('refused only when the element is not there', x(k) != el)
            continue
        p = z3.Int('position')
        m.assume(And(p >= 0, p < n, x(p) == el))
        q = If(p + off < 0, z3.IntVal(0), If(p + off > n - 1, n - 1, p + off))
        if not m.ensure('same number of elements', m.size(v) == n):
            continue
        j = m.any_index(n)
        r = If(j == q, p, If(And(p < q, j >= p, j < q), j + 1, If(And(q < p, j > q, j <= p), j - 1, j)))
        m.ensure('element moved, others in order', m.eq(m.elem(m.segs(v), j), x(r)))


class Props(Model):
    """Property store with one known entry, and a record of what is written."""
    def __init__(self, m, key, missing, value):
        self.key, self.missing, self.value = key, missing, value
        self.written = PList(m, [], 'list')

    def m_get(self, m, key):
        if key != self.key:
            raise Unsupported(f'property {key!r}')
        if m.branch(self.missing):
            raise PyExc('KeyError', (key,))
        return self.value

    def write(self, m, key, value):
        self.written.segs = self.written.segs + [One((key, value))]

    m_add = m_update = m_add_or_update = write


class Labels(Model):
    def __init__(self, m, n, x):
        self.n, self.x = n, x

    def m_get_label_names(self, m):
        return m.listof(self.n, self.x)

    m_get_columns = m_get_label_names


def order(m, missing):
    n, d = z3.Int('labels'), z3.Int('ordered')
    x, y = fn('label', 'i', 's'), fn('ordered_label', 'i', 's')
    m.assume(And(n >= 0, d >= 0))
    m.distinct(n, x)
    m.distinct(d, y)
    props = Props(m, 'label_display_order', missing, m.listof(d, y))
    for kind, v in m.paths(DS + 'get_labels_in_display_order', [Labels(m, n, x), props]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        listed = (lambda s: False) if missing else (lambda s: m.exists(m.segs(m.listof(d, y)), lambda t: t == s))
        j = m.any_index(n)
        m.ensure('every label is listed', Implies(And(j >= 0, j < n), m.exists_seg(v, lambda t: m.eq(t, x(j)))))
        m.ensure('no label is listed twice', m.eq(m.size(v), m.count(n, lambda i: Not(listed(x(i)))) + (0 if missing else z3.ToReal(d))))
        first = not missing
        for ctx, guard, t in seg_leaves(m.segs(v)):
            if len(ctx) != 1:
                raise Unsupported('result of another form')
            if first:
                m.ensure('the order starts with the specified labels', And(m.eq(t, y(ctx[0])), guard == And(ctx[0] >= 0, ctx[0] < d)))
            else:
                m.ensure('then the other labels in storage order', And(is_app(t, x) and t.arg(0).eq(ctx[0]), Implies(guard, Not(listed(t)))))
            first = False


@contract('P23', DS + 'get_labels_in_display_order', 'the specified labels in their order, then every other label in storage order')
def display_order(m):
    order(m, False)


@contract('P23', DS + 'get_labels_in_display_order', 'storage order when no order is specified')
def default_order(m):
    order(m, True)


@contract('P23', DS + 'rename_labels_in_display_order', 'the display order lists the same labels under their new names')
def rename_order(m):
    d, q = z3.Int('ordered'), z3.Int('renamed')
    y, old, new = fn('ordered_label', 'i', 's'), fn('old', 'i', 's'), fn('new', 'i', 's')
    m.assume(And(d >= 0, q >= 0))
    m.distinct(q, old)
    missing = z3.Bool('no_order')
    props = Props(m, 'label_display_order', missing, m.listof(d, y))
    for kind, v in m.paths(DS + 'rename_labels_in_display_order', [mapping(m, q, old, new), props]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        w = props.written.segs
        if not w:
            m.ensure('nothing written only without an order', missing)
            continue
        m.ensure('written once under its key', And(len(w) == 1, w[0].value[0] == 'label_display_order', Not(missing)))
        out = w[0].value[1]
        if not m.ensure('same number of labels', m.size(out) == d):
            continue
        k, r = m.any_index(d), m.any_index(q)
        got = m.elem(m.segs(out), k)
        m.ensure('renamed labels have their new name', Implies(y(k) == old(r), m.eq(got, new(r))))
        m.ensure('other labels keep their name', Implies(Not(m.exists(m.segs(m.listof(q, old)), lambda s: s == y(k))), m.eq(got, y(k))))


def mapping(m, q, old, new):
    """dict {old(i): new(i)}"""
    i = m.index()
    return PDict(m, [Gen(i, q, True, [One(('set', old(i), new(i)))])])
