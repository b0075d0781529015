"""Splitting one quantity over index records: disaggregation and quantisation."""
from pyvc.spec import *

DS = 'toron.data_service:'
UT = 'toron._utils:'


class WeightRepo(Model):
    """Contract of the weight repository look-up: returns the weight record of
    (group, index) or raises KeyError; every stored weight is >= 0."""
    def __init__(self, m):
        self.w = fn('weight', 'i', 'i', 'r')
        self.has = fn('has_weight', 'i', 'i', 'b')
        g, i = m.index('g'), m.index('i')
        m.assume_forall([g, i], self.w(g, i) >= 0)

    def m_get_by_weight_group_id_and_index_id(self, m, g, i):
        if not m.branch(self.has(g, i)):
            raise PyExc('KeyError', ('no weight',))
        return Rec(m, 'Weight', {'id': m.int('wid'), 'weight_group_id': g, 'index_id': i,
                                 'value': self.w(g, i)})


def disagg_setup(m):
    N, G, q = z3.Int('N'), z3.Int('group'), z3.Real('q')
    ids = fn('index_id', 'i', 'i')
    m.assume(N >= 0)
    m.distinct(N, ids)
    m.forall_in(N, lambda k: ids(k) >= 0)
    repo = WeightRepo(m)
    return N, G, q, ids, repo


@contract('P01', DS + 'disaggregate_value', 'shares of one quantity: conserved, proportional, one per record')
def disaggregate(m):
    N, G, q, ids, repo = disagg_setup(m)
    m.assume(N >= 1)
    # every record except the undefined one has a weight
    m.forall_in(N, lambda k: Implies(ids(k) != 0, repo.has(G, ids(k))))
    weff = lambda k: If(repo.has(G, ids(k)), repo.w(G, ids(k)), z3.RealVal(0))
    W = m.sum(N, weff)
    U = m.count(N, lambda k: ids(k) == 0)
    for kind, v in m.paths(DS + 'disaggregate_value', [q, m.listof(N, ids), G, repo]):
        if kind == 'raise':
            m.unreachable('no exception when weights exist')
            continue
        m.ensure('the shares add up to the quantity', m.total(v, lambda x: x[1]) == q)
        m.ensure('exactly one share per record', m.size(v) == N)
        k = m.any_index(N)
        rid, share = m.elem(m.segs(v), k)
        m.ensure('shares are reported for the given records in order', m.eq(rid, ids(k)))
        m.ensure('share proportional to weight', Implies(W != 0, share * W == q * weff(k)))
        m.ensure('equal shares when all weights are zero',
                 Implies(And(W == 0, N > 1, ids(k) != 0), share * (z3.ToReal(N) - U) == q))
        m.ensure('undefined record gets nothing from a group with zero weights',
                 Implies(And(W == 0, N > 1, ids(k) == 0), share == 0))


@contract('P01', DS + 'disaggregate_value', 'a record without a weight is refused')
def disaggregate_missing(m):
    N, G, q, ids, repo = disagg_setup(m)
    p = m.given_index(N)
    m.assume(And(ids(p) != 0, Not(repo.has(G, ids(p)))))
    for kind, v in m.paths(DS + 'disaggregate_value', [q, m.listof(N, ids), G, repo]):
        if kind == 'raise':
            m.ensure('refusal is a KeyError', v.name == 'KeyError')
        else:
            m.unreachable('never silently distributes')


def quant_setup(m):
    N = z3.Int('N')
    ids, v = fn('index_id', 'i', 'i'), fn('value', 'i', 'r')
    m.assume(N >= 1)
    m.distinct(N, ids)
    h = fn('splitmix64', 'i', 'i')
    m.contracts[UT + 'splitmix64'] = lambda m, x: h(x)
    m.lemma_sum_le('fraction < 1', N, lambda k: v(k) - trunc(v(k)), lambda k: z3.RealVal(1), True)
    m.lemma_sum_le('fraction > -1', N, lambda k: z3.RealVal(-1), lambda k: v(k) - trunc(v(k)), True)
    return N, ids, v, h


def quant_case(m, sign):
    N, ids, v, h = quant_setup(m)
    if sign > 0:
        m.forall_in(N, lambda k: v(k) >= 0)
        m.lemma_sum_le('whole part <= value', N, lambda k: trunc(v(k)), v)
    else:
        m.forall_in(N, lambda k: v(k) <= 0)
        m.lemma_sum_le('whole part >= value', N, v, lambda k: trunc(v(k)))
    S = m.sum(N, v)
    items = PIter(m, m.listof(N, lambda k: (ids(k), v(k))).segs)
    for kind, r in m.paths(UT + 'quantize_values', [items, S]):
        if kind == 'raise':
            m.unreachable('never raises')
            continue
        m.ensure('quantised values add up to the total', m.total(r, lambda x: x[1]) == S)
        m.ensure('one output per input', m.size(r) == N)


@contract('P02', UT + 'quantize_values', 'largest-remainder rounding conserves the total (values >= 0)')
def quantize_nonneg(m):
    quant_case(m, 1)


@contract('P02', UT + 'quantize_values', 'largest-remainder rounding conserves the total (values <= 0)')
def quantize_nonpos(m):
    quant_case(m, -1)
