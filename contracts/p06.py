"""Selectors: operators, combinators, specificity."""
from ._lib import *
from pyvc.machine import apps_of

SL = 'toron.selectors:'
OPS = ('=', '~=', '|=', '^=', '$=', '*=')


class Row(Model):
    """A row with or without the attribute."""
    def __init__(self, m):
        self.has, self.value = z3.Bool('present'), z3.String('value')

    def m_get(self, m, key, default=None):
        m.ensure('the attribute of the selector is looked up', m.eq(key, z3.String('attr')))
        if m.branch(self.has):
            return self.value
        return default


def words(s):
    return z3.Function('str_word_count', z3.StringSort(), z3.IntSort())(s)


def word(s, i):
    return z3.Function('str_word', z3.StringSort(), z3.IntSort(), z3.StringSort())(s, i)


def fold_of(m, got):
    """The case folding in use (it leaves the empty text empty)."""
    for name in ('str_casefold', 'str_lower', 'str_upper'):
        if is_z3(got) and apps_of([got], name):
            break
    f = z3.Function(name, z3.StringSort(), z3.StringSort())
    m.assume(f(z3.StringVal('')) == z3.StringVal(''))
    return f


def iff_some(m, name, got, n, f):
    got = zbool(m.truth_term(got))
    k = m.any_index(n)
    m.ensure(f'{name}: whenever one does', Implies(f(k), got))
    m.ensure(f'{name}: only when one does', Implies(got, m.count(n, f) > 0))


def relation(op, a, b):
    if op == '=':
        return a == b
    if op == '|=':
        return Or(a == b, z3.PrefixOf(z3.Concat(a, z3.StringVal('-')), b))
    if op == '^=':
        return z3.PrefixOf(a, b)
    if op == '$=':
        return z3.SuffixOf(a, b)
    return z3.Contains(b, a)


@contract('P06', SL + 'SimpleSelector.__call__', 'each operator tests its relation between the attribute and the value, case-folded on request')
def operators(m):
    attr, val = z3.String('attr'), z3.String('val')
    m.assume(val != z3.StringVal(''))
    row = Row(m)
    b = If(row.has, row.value, z3.StringVal(''))
    base = m.snapshot()
    for op in (None,) + OPS:
        for fold in (False, True):
            if op is None and fold:
                continue
            m.restore(base)

            def run(op=op, fold=fold):
                args = [attr] + ([op, val] if op else [])
                sel = m.new(SL + 'SimpleSelector', *args, **({'ignore_case': True} if fold else {}))
                return (m.call(sel, [row]), m.getattr(sel, 'specificity'))
            for kind, v in m.thunk_paths(run):
                if kind == 'raise':
                    m.unreachable(f'{op} never raises')
                    continue
                got, spec = v
                va, vb = val, b
                if fold:
                    f = fold_of(m, got)
                    va, vb = f(val), f(b)
                if op == '~=':
                    m.assume(And(words(z3.StringVal('')) == 0, words(vb) >= 0))
                    iff_some(m, f'operator ~={" i" if fold else ""}', got, words(vb), lambda i: word(vb, i) == va)
                    continue
                want = b != z3.StringVal('') if op is None else relation(op, va, vb)
                m.ensure(f'operator {op}{" i" if fold else ""}', m.truth_term(got) == zbool(want))
                m.ensure(f'specificity of {op}{" i" if fold else ""}', m.eq(spec, (1, 1 if op else 0)))


class Members:
    """N member selectors; member i matches the row or not and has a specificity."""
    def __init__(self, m):
        self.N = z3.Int('members')
        m.assume(self.N >= 0)
        self.hit, self.a, self.b = fn('matches', 'i', 'b'), fn('specificity_0', 'i', 'i'), fn('specificity_1', 'i', 'i')
        m.forall_in(self.N, lambda i: And(self.a(i) >= 0, self.b(i) >= 0))
        cls = 'toron.selectors:SimpleSelector'
        self.row = Opaque('row')
        m.contracts[cls + '.__call__'] = self.call
        m.contracts[cls + '.specificity'] = lambda mm, s: (self.a(s.fields['_attr']), self.b(s.fields['_attr']))
        i = m.index()
        self.list = PList(m, [Gen(i, self.N, True, [One(Rec(m, m.cls(cls), {'_attr': i}))])], 'list')

    def call(self, m, sel, row):
        m.ensure('members are asked about the row itself', row is self.row)
        return self.hit(sel.fields['_attr'])


def combine(m, cls, matches, spec):
    s = Members(m)
    sel = Rec(m, m.cls(SL + cls), {'selector_list': s.list})
    base = m.snapshot()
    for kind, v in m.thunk_paths(lambda: m.call(sel, [s.row])):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        matches(s, v)
    m.restore(base)
    m.assume(s.N >= 1)
    for kind, v in m.thunk_paths(lambda: m.getattr(sel, 'specificity')):
        if kind == 'raise':
            m.unreachable('specificity never raises')
            continue
        for name, g in spec(s, *m.unpack(v, 2)):
            m.ensure(name, g)


def greatest(m, s, x, y):
    k = m.any_index(s.N)
    yield 'no member is more specific', Or(s.a(k) < x, And(s.a(k) == x, s.b(k) <= y))
    yield 'some member is that specific', m.exists_in(s.N, lambda i: And(s.a(i) == x, s.b(i) == y))


@contract('P06', SL + 'MatchesAnySelector.__call__', ':is() matches when any member does, as specific as the most specific member')
def matches_any(m):
    combine(m, 'MatchesAnySelector', lambda s, v: iff_some(m, 'some member matches', v, s.N, s.hit), lambda s, x, y: greatest(m, s, x, y))


@contract('P06', SL + 'NegationSelector.__call__', ':not() matches when no member does, as specific as the most specific member')
def negation(m):
    combine(m, 'NegationSelector', lambda s, v: iff_some(m, 'does not match: some member matches', Not(m.truth_term(v)), s.N, s.hit), lambda s, x, y: greatest(m, s, x, y))


@contract('P06', SL + 'SpecificityAdjustmentSelector.__call__', ':where() matches when any member does and has no specificity')
def where(m):
    combine(m, 'SpecificityAdjustmentSelector', lambda s, v: iff_some(m, 'some member matches', v, s.N, s.hit), lambda s, x, y: [('no specificity', And(m.eq(x, 0), m.eq(y, 0)))])


@contract('P06', SL + 'CompoundSelector.__call__', 'a compound selector matches when every member does and adds up their specificities')
def compound(m):
    combine(m, 'CompoundSelector', lambda s, v: iff_some(m, 'does not match: some member does not match', Not(m.truth_term(v)), s.N, lambda i: Not(s.hit(i))),
            lambda s, x, y: [('first components are added', m.eq(x, m.sum(s.N, lambda i: z3.ToReal(s.a(i))))),
                             ('second components are added', m.eq(y, m.sum(s.N, lambda i: z3.ToReal(s.b(i)))))])
