"""Name collisions."""
from ._lib import *
from .p23 import Props, Labels


class Names:
    """Symbolic new names, label columns, registered attributes and backend-reserved names."""
    def __init__(self, m):
        for tag in ('new', 'label', 'attribute', 'reserved'):
            n, f = z3.Int(f'{tag}_names'), fn(f'{tag}_name', 'i', 's')
            m.assume(n >= 0)
            setattr(self, tag, (n, f))
            if tag != 'new':
                m.distinct(n, f)
        self.m = m
        mod = m.program.module('toron.data_service')
        self.common = [x.value for x in m.segs(m.global_name(mod, 'COMMON_RESERVED_IDENTIFIERS'))]
        m.ensure('the names every backend needs are reserved', all(x in self.common for x in ('domain', 'index_id', 'value', 'weight')))

    def has(self, tag, s):
        n, f = getattr(self, tag)
        return self.m.exists(self.m.segs(self.m.listof(n, f)), lambda t: t == s)

    def any(self, tag, cond):
        n, f = getattr(self, tag)
        return self.m.count(n, lambda i: cond(f(i))) > 0

    def is_reserved(self, s):
        return Or(self.has('reserved', s), *[s == z3.StringVal(c) for c in self.common])

    def list(self, tag, kind='list'):
        return self.m.listof(*getattr(self, tag), kind)


@contract('P27', DS + 'validate_new_index_columns', 'accepted exactly when no new name is reserved, a column or a registered attribute')
def new_columns(m):
    w = Names(m)
    props = Props(m, 'registered_attributes', z3.Bool('no_attributes'), w.list('attribute'))
    labels = Labels(m, *w.label)
    has_attr = lambda s: And(Not(props.missing), w.has('attribute', s))
    clash = lambda s: Or(w.is_reserved(s), w.has('label', s), has_attr(s))
    for kind, v in m.paths(DS + 'validate_new_index_columns', [w.list('new'), w.list('reserved', 'set'), labels, props, Opaque('attributes')]):
        m.ensure('nothing is written', not props.written.segs)
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ToronError')
            m.ensure('refused only for a collision', w.any('new', clash))
        else:
            k = m.any_index(w.new[0])
            m.ensure('an accepted name collides with nothing', Not(clash(w.new[1](k))))


@contract('P27', DS + 'set_registered_attributes', 'stored exactly when every attribute is unreserved, no label and not repeated')
def attributes(m):
    w = Names(m)
    props = Props(m, 'registered_attributes', True, None)
    labels = Labels(m, *w.label)
    n, f = w.new
    clash = lambda s: Or(w.is_reserved(s), w.has('label', s))
    for kind, v in m.paths(DS + 'set_registered_attributes', [w.list('new'), w.list('reserved', 'set'), labels, props]):
        out = props.written.segs
        if kind == 'raise':
            m.ensure('nothing is written', not out)
            m.ensure('refused with the error meant for it', v.name == 'ValueError')
            i, j = m.index('i'), m.index('j')
            m.ensure('refused only for a collision', z3.Or(zbool(w.any('new', clash)), z3.Exists([i, j], zbool(And(i >= 0, i < j, j < n, f(i) == f(j))))))
            continue
        if not m.ensure('stored once', And(len(out) == 1, out and out[0].value[0] == 'registered_attributes')):
            continue
        got = out[0].value[1]
        k, j = m.any_index(n), m.any_index(n)
        m.ensure('an accepted name collides with nothing', Not(clash(f(k))))
        m.ensure('no attribute is repeated', Implies(j < k, f(j) != f(k)))
        if m.ensure('every attribute is stored', m.size(got) == n):
            m.ensure('attributes are stored in the order given', m.eq(m.elem(m.segs(got), k), f(k)))
