"""Shared pieces of contracts."""
import contextlib

from pyvc.spec import *
from pyvc.evalx import seg_leaves

DS = 'toron.data_service:'
DM = 'toron.data_models:'
UT = 'toron._utils:'
RP = 'toron.dal1.repositories:'
SP = 'toron.space:'


@contextlib.contextmanager
def scope(m):
    """Assumptions made for a check only."""
    pc, quants = list(m.pc), list(m.quants)
    try:
        yield
    finally:
        m.pc, m.quants = pc, quants


def leaf(m, v):
    """(index, n, guard, value) of a container built by one loop over [0, n)."""
    segs = v.log if isinstance(v, PDict) else m.segs(v)
    if len(segs) != 1 or not isinstance(segs[0], Gen):
        raise Unsupported('container of another form')
    ls = seg_leaves(segs)
    if len(ls) != 1 or len(ls[0][0]) != 1:
        raise Unsupported('container of another form')
    (ctx,), guard, val = ls[0]
    if isinstance(v, PDict):
        if val[0] != 'set':
            raise Unsupported('container of another form')
        val = val[1:]
    g = segs[0]
    return ctx, g.n, z3.simplify(zbool(guard)), val


def is_app(t, f):
    return is_z3(t) and z3.is_app(t) and t.decl().eq(f)


def exactly(m, v, N, lid, bad, what, key=lambda x: x.fields['id'], count=None):
    """v lists exactly the elements i < N with bad(i) by their ids, once each."""
    k = m.any_index(N)
    m.ensure(f'every {what} is reported', Implies(bad(k), m.exists_seg(v, lambda x: m.eq(key(x), lid(k)))))
    m.ensure(f'each {what} is reported once', m.eq(m.total(v, lambda x: z3.RealVal(1)), m.count(N, bad) if count is None else count))
    for ctx, guard, x in seg_leaves(m.segs(v)):
        if len(ctx) != 1:
            raise Unsupported('result of another form')
        c = ctx[0]
        m.ensure(f'only a {what} is reported', z3.Implies(zbool(guard), zbool(And(m.eq(key(x), lid(c)), bad(c), c >= 0, c < N))))


def at_most_once(m, what, v, tag):
    """No two elements of v have the same tag."""
    def copy(leaf):
        ctx, guard, x = leaf
        new = [m.index('o') for _ in ctx]
        sub = list(zip(ctx, new))
        return new, subst(guard, sub, m), tag(subst(x, sub, m))
    ls = seg_leaves(m.segs(v))
    for p, a in enumerate(ls):
        for q in range(p, len(ls)):
            if p == q and not a[0]:
                continue
            (i, g, s), (j, h, t) = copy(a), copy(ls[q])
            other = Not(And(*[x == y for x, y in zip(i, j)])) if p == q else True
            m.ensure(what, z3.Implies(zbool(And(g, h, other)), z3.Not(zbool(m.eq(s, t)))))


def present(m, v, tag, at, k, cond=True):
    """If cond, some element of v has the tag `at`; the one at position k of a loop is tried first."""
    there = []
    for ctx, guard, x in seg_leaves(m.segs(v)):
        if len(ctx) == 1:
            sub = [(ctx[0], k)]
            there.append(And(subst(guard, sub, m), m.eq(tag(subst(x, sub, m)), at)))
    there = zbool(Implies(cond, Or(*there)))
    return there if m._check([z3.Not(there)] + m.range_facts([there]), 2000)[0] == z3.unsat else Implies(cond, m.exists_seg(v, lambda x: m.eq(tag(x), at)))
