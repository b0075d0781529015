from harness.core import *
from harness.common import *
from harness import refsel as R

ATTRS = ['k', 'm']
WORDS = ['p', 'q', 'pq', 'p-1']


def gen_weights(rng, n):
    k = rng.randrange(8)
    if k == 0:
        return [0.0] * n
    if k == 6:
        return [rng.choice([1e-12, 3e-11, 0.0, 1e-10]) for _ in range(n)]
    if k == 7:
        return [rng.choice([1e12, 1e-3, 3e9, 0.5]) for _ in range(n)]
    if k == 1:
        return [float(rng.randrange(0, 3)) for _ in range(n)]
    return [rng.choice([0.0, rng.random() * 10, float(rng.randrange(1, 100))]) for _ in range(n)]


def gen_case(rng, tie=None):
    ncols = rng.randint(1, 3)
    index = rand_index(rng, ncols, rng.randint(1, 9))
    cols = NAMES[:ncols]
    parts = [rand_subset(rng, cols) for _ in range(rng.randint(0, 3))]
    n = len(index)
    groups = [{'name': 'g0', 'values': gen_weights(rng, n), 'default': True}]
    for g in range(rng.randint(0, 3)):
        groups.append({'name': f'g{g + 1}', 'values': gen_weights(rng, n),
                       'sel': [R.rand_sel(rng, rng.randint(0, 2), ATTRS, WORDS) for _ in range(rng.randint(0, 2))]})
        if rng.random() < 0.2 and n > 1:
            groups[-1]['values'][rng.randrange(n)] = None       # incomplete: never chosen
    quants = []
    for _ in range(rng.randint(1, 6)):
        base = rng.choice(index)
        quants.append({'base': base, 'keep': rng.random(), 'seed': rng.randrange(10 ** 6),
                       'attrs': {a: rng.choice(WORDS) for a in ATTRS if rng.random() < 0.7} or {'k': 'p'},
                       'value': rng.choice([0.0, 1.0, 10.0, -3.5, rng.random() * 100, float(rng.randrange(1000))])})
    return {'cols': cols, 'index': index, 'parts': parts, 'groups': groups, 'q': quants}


def setup(c):
    cols = c['cols']
    with quiet():
        s = DataSpace()
        s.add_index_columns(*cols)
        s.insert_index(c['index'], columns=cols)
        for p in c['parts']:
            try:
                s.add_partition_definition(set(p))
            except RuntimeError:
                pass
        for g in c['groups']:
            s.add_weight_group(g['name'], selectors=[R.text(t) for t in g.get('sel', [])] or None, make_default=bool(g.get('default')))
            data = [list(r) + [v] for r, v in zip(c['index'], g['values']) if v is not None]
            s.insert_weights(g['name'], data, columns=cols + ['w!'], value_column='w!')
    st = sorted([sorted(k) for k in structure(s)])
    import random
    rowsq = []
    for q in c['q']:
        rng = random.Random(q['seed'])
        keep = rng.choice(st)
        rowsq.append(([v if col in keep else '' for col, v in zip(cols, q['base'])], q['attrs'], q['value']))
    acc = {}
    for labels, attrs, v in rowsq:       # one stored value per location and attributes
        acc[(tuple(labels), tuple(sorted(attrs.items())))] = v
    quants = [(k[0], dict(k[1]), v) for k, v in acc.items()]
    with quiet():
        s.insert_quantities(value='v', attributes=ATTRS, columns=cols + ATTRS + ['v'],
                            data=[list(l) + [a.get(x, '') for x in ATTRS] + [v] for l, a, v in quants])
    return s, quants


def expected(c, quants):
    cols = c['cols']
    default = 'g0'
    complete = {g['name']: g for g in c['groups'] if None not in g['values']}
    cands = {n: g['sel'] for n, g in complete.items() if g.get('sel')}
    out = {}
    n = len(c['index'])
    for labels, attrs, v in quants:
        match = [i for i, r in enumerate(c['index']) if all(l == '' or l == x for l, x in zip(labels, r))]
        g = R.best(cands, attrs, default)
        w = complete[g]['values']
        W = sum(w[i] for i in match)
        for i in match:
            share = v * w[i] / W if W else v / len(match)
            key = (tuple(c['index'][i]), tuple(sorted(attrs.items())))
            out[key] = out.get(key, 0) + share
    return out


def read(s, ncols, reader):
    cols = reader.columns
    keys = cols[ncols:-1]
    got = {}
    for r in reader:
        key = (tuple(r[:ncols]), tuple(sorted((k, v) for k, v in zip(keys, r[ncols:-1]) if v is not None)))
        ensure(key not in got, f'two rows for {key}')
        got[key] = r[-1]
    return got


def compare(want, got, scale, what=''):
    for k in set(want) | set(got):
        ensure(close(want.get(k, 0), got.get(k, 0) or 0, scale), f'{what}{k}: expected {want.get(k)}, got {got.get(k)}')


@scenario('P01', 'reading a dataspace', n=350)
class Read:
    def gen(rng, i):
        return gen_case(rng)

    def check(c):
        s, quants = setup(c)
        scale = max([1.0] + [abs(v) for _, _, v in quants])
        want = expected(c, quants)
        got = read(s, len(c['cols']), s())
        compare(want, got, scale)
        missing = [k for k in want if k not in got]
        ensure(not missing, f'no row for matching record {missing}')
        ensure(close(sum(got.values()), sum(v for _, _, v in quants), scale), 'total not conserved')
        on_disk = read(s, len(c['cols']), s(cache_to_drive=True))
        compare(want, on_disk, scale, 'cached to drive: ')
        again = read(s, len(c['cols']), s())
        compare(want, again, scale, 'second read: ')


@scenario('P01', 'reading a selection of attributes', n=80)
class ReadSome:
    def gen(rng, i):
        c = gen_case(rng)
        c['pick'] = [R.rand_sel(rng, 1, ATTRS, WORDS) for _ in range(rng.randint(1, 2))]
        return c

    def check(c):
        s, quants = setup(c)
        sub = [q for q in quants if any(R.matches(t, q[1]) for t in c['pick'])]
        got = read(s, len(c['cols']), s(*[R.text(t) for t in c['pick']]))
        compare(expected(c, sub), got, 1000.0)
        by = read(s, len(c['cols']), s(sum_by_attrs=['k']))
        want = {}
        for (lab, attrs), v in expected(c, quants).items():
            k = (lab, tuple(x for x in attrs if x[0] == 'k'))
            want[k] = want.get(k, 0) + v
        compare(want, by, 1000.0, 'summed by attribute: ')


class FakeWeights:
    def __init__(self, w):
        self.w = w

    def get_by_weight_group_id_and_index_id(self, weight_group_id, index_id):
        from toron.data_models import Weight
        if weight_group_id != 7 or index_id not in self.w:
            raise KeyError('no weight')
        return Weight(index_id, 7, index_id, self.w[index_id])


@scenario('P01', 'splitting one value', n=2500)
class Split:
    def gen(rng, i):
        n = rng.choice([1, 1, 2, 3, 5, 10])
        ids = rng.sample(range(0 if rng.random() < 0.5 else 1, 30), n)
        if rng.random() < 0.4 and 0 not in ids:
            ids.insert(rng.randrange(n + 1), 0)
        w = gen_weights(rng, len(ids))
        miss = [j for j in ids if j and rng.random() < 0.05]
        return {'ids': ids, 'w': w, 'q': rand_value(rng), 'miss': miss, 'has0': rng.random() < 0.1, 'arr': rng.random() < 0.5}

    def check(c):
        f = internal('toron.data_service', 'disaggregate_value')
        import array
        ids = array.array('q', c['ids']) if c['arr'] else list(c['ids'])
        w = {i: v for i, v in zip(c['ids'], c['w']) if i not in c['miss'] and (i or c['has0'])}
        try:
            out = list(f(c['q'], ids, 7, FakeWeights(w)))
        except KeyError:
            ensure(bool(c['miss']), 'refused although every weight exists')
            return
        ensure(not c['miss'], f'records without weight {c["miss"]} not refused: {out}')
        ensure([i for i, _ in out] == c['ids'], f'records {c["ids"]} got shares for {[i for i, _ in out]}')
        scale = abs(c['q'])
        ensure(close(sum(v for _, v in out), c['q'], scale), f'total {c["q"]} -> {out}')
        W = sum(w.get(i, 0) for i in c['ids'])
        m = len([i for i in c['ids'] if i])
        for i, v in out:
            if W:
                want = c['q'] * w.get(i, 0) / W
            else:
                want = (c['q'] / m if i else 0.0) if len(c['ids']) > 1 and m else c['q']
            ensure(close(v, want, scale), f'{i}: {v}, expected {want}; {c}')


@scenario('P01', 'a missing weight is refused when reading', n=40)
class Missing:
    def gen(rng, i):
        n = rng.randint(2, 6)
        return {'n': n, 'hole': rng.randrange(n), 'which': rng.choice(['default', 'selected'])}

    def check(c):
        index = [['x', str(k)] for k in range(c['n'])]
        s = make_space(['A', 'B'], index, [['A']], [{'name': 'd', 'values': [1.0] * c['n'], 'default': True},
                                                   {'name': 'e', 'values': [2.0] * c['n'], 'selectors': ['[k="p"]']}])
        g = 'd' if c['which'] == 'default' else 'e'
        with quiet():
            s.insert_quantities(value='v', attributes=['k'], columns=['A', 'B', 'k', 'v'], data=[['x', '', 'p' if g == 'e' else 'z', 9]])
            s.delete_weights(g, B=str(c['hole']))
            s.edit_weight_group(g, is_complete=True)
            try:
                out = list(s())
            except Exception:
                return
        raise Violation(f'record {c["hole"]} without weight silently skipped: {out}')


@scenario('P01', 'incomplete default group is refused; unknown labels are refused', n=20)
class Refuse:
    def gen(rng, i):
        return {'n': rng.randint(2, 5), 'kind': i % 3}

    def check(c):
        index = [['x', str(k)] for k in range(c['n'])]
        vals = [1.0] * c['n']
        if c['kind'] == 0:
            vals[0] = None
        s = make_space(['A', 'B'], index, [['A']], [{'name': 'd', 'values': vals, 'default': True}])
        row = {0: ['x', '', 'p', 4], 1: ['nope', '', 'p', 4], 2: ['x', 'nope', 'p', 4]}[c['kind']]
        with quiet():
            s.insert_quantities(value='v', attributes=['k'], columns=['A', 'B', 'k', 'v'], data=[row])
            try:
                out = list(s())
            except Exception:
                return
        raise Violation(f'quantity {row} silently read as {out}')
