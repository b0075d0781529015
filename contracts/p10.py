"""Granularity."""
from ._lib import *


def at(g, ctx, j):
    return z3.substitute(zbool(g), (ctx, j))


class Blocks(Model):
    """K columns; the defined records fall into N blocks of equal labels, block i holding size(i) >= 1 of the U records."""
    def __init__(self, m):
        self.K, self.N, self.U = z3.Int('columns'), z3.Int('blocks'), z3.Int('records')
        m.assume(And(self.K >= 0, self.N >= 0, self.U >= 0))
        self.col, self.lab, self.size = fn('column', 'i', 's'), fn('label', 'i', 'i', 's'), fn('block_size', 'i', 'i')
        m.distinct(self.K, self.col)
        m.forall_in(self.N, lambda i: self.size(i) >= 1)
        m.assume(m.sum(self.N, lambda i: z3.ToReal(self.size(i))) == z3.ToReal(self.U))

    def m_get_cardinality(self, m, include_undefined=True):
        m.ensure('the undefined record is left out', include_undefined is False)
        return self.U

    def columns(self, m):
        return m.listof(self.K, self.col)

    def m_find_distinct_labels(self, m, star=None, include_undefined=True):
        m.ensure('the undefined record is left out', include_undefined is False)
        if star is None:
            raise Unsupported('columns given one by one')
        ctx, n, guard, val = leaf(m, star)
        j = m.any_index(self.K)
        m.ensure('the blocks of exactly the columns of the partition', And(n == self.K, at(And(guard, val == self.col(ctx)), ctx, j)) if is_app(val, self.col) else False)
        return m.iterator(self.N, lambda i: m.listof(self.K, lambda j: self.lab(i, j), 'tuple'))

    def m_filter_index_ids_by_label(self, m, criteria, include_undefined=True):
        m.ensure('the undefined record is left out', include_undefined is False)
        ctx, n, guard, (key, val) = leaf(m, criteria)
        if not (is_app(key, self.col) and is_app(val, self.lab)):
            raise Unsupported('criteria of another form')
        i = val.arg(0)
        j = m.any_index(self.K)
        m.ensure('every column of the partition is a criterion with the label of the block', And(n == self.K, at(guard, ctx, j), key.arg(0).eq(ctx), val.arg(1).eq(ctx)))
        b = fn('record_of_block', 'i', 'i', 'i')
        return m.iterator(self.size(i), lambda q: b(i, q))


def log2(x):
    return z3.Function('log2', z3.RealSort(), z3.RealSort())(x)


@contract('P10', DS + 'calculate_granularity', 'the Shannon entropy in bits of the partition, and nothing for no columns or no records')
def entropy(m):
    s = Blocks(m)
    U = z3.ToReal(s.U)
    size = lambda i: z3.ToReal(s.size(i))
    for kind, v in m.paths(DS + 'calculate_granularity', [s.columns(m), s, s]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        if v is None:
            m.ensure('nothing only without columns or records', Or(s.K == 0, s.U == 0))
            continue
        m.ensure('columns and records', And(s.K > 0, s.U > 0))
        m.ensure('log2 of the number of records less the mean log2 of the block sizes',
                 m.eq(v, log2(U) - m.sum(s.N, lambda i: size(i) / U * log2(size(i)))))
        # log2(a / b) = log2 a - log2 b for the probabilities that occur
        x, y = z3.Reals('x y')
        m.assume(z3.ForAll([x, y], z3.Implies(z3.And(x > 0, y > 0), log2(x / y) == log2(x) - log2(y))))
        m.ensure('entropy of the block probabilities', m.eq(v, -m.sum(s.N, lambda i: size(i) / U * (log2(size(i)) - log2(U)))))
