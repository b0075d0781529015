from harness.core import *
from harness.common import *
import csv, io, itertools

VALS = ['x', '', 'y', 5, 0, None, 2.5, 'None', ' z ', False]


def rand_table(rng, nmin=1):
    n = rng.randint(nmin, 5)
    cols = rng.sample(['A', 'B', 'C', 'variable2', 'x y', 'None', '0'], n)
    return cols, [[rng.choice(VALS) for _ in range(n)] for _ in range(rng.randint(0, 6))]


def u(name):
    return internal('toron._utils', name)


def same(got, want, what):
    got = [list(r) for r in got]
    ensure(got == want and [[type(x) for x in r] for r in got] == [[type(x) for x in r] for r in want], f'{what}: {got}, expected {want}')


def feeds(cols, rows_):
    """(name, data, columns argument)"""
    t, d = [tuple(r) for r in rows_], [dict(zip(cols, r)) for r in rows_]
    gen = lambda x: (y for y in x)
    out = [('rows with header', [cols] + rows_, None), ('tuples with header', (tuple(cols),) + tuple(t), None), ('generated rows', gen([cols] + rows_), None),
           ('rows and columns', rows_, cols), ('generated rows and columns', gen(t), tuple(cols))]
    if d:
        turned = [d[0]] + [dict(reversed(list(x.items()))) for x in d[1:]]
        out += [('dictionaries', d, None), ('dictionaries whose keys come in different orders', turned, None), ('generated dictionaries', gen(d), None), ('dictionaries and columns', d, cols),
                ('unordered dictionaries and columns', [dict(reversed(list(x.items()))) for x in d], cols)]
    return out


@scenario('P24', 'every kind of table gives the same rows', n=1500)
class Normalize:
    def gen(rng, i):
        cols, rws = rand_table(rng)
        return {'cols': cols, 'rows': rws}

    def check(c):
        f = u('normalize_tabular')
        for what, data, columns in feeds(c['cols'], c['rows']):
            got, gc = f(data, columns) if columns is not None else f(data)
            ensure(list(gc) == c['cols'], f'{what}: columns {gc!r}')
            same(got, c['rows'], what)
        if c['rows']:
            sub = c['cols'][::-1][:2]
            got, gc = f([dict(zip(c['cols'], r)) for r in c['rows']], sub)
            same(got, [[dict(zip(c['cols'], r))[x] for x in sub] for r in c['rows']], 'chosen columns')
        else:
            got, gc = f(iter([]), c['cols'])
            ensure(list(got) == [] and list(gc) == c['cols'], 'empty data')
            got, gc = f([])
            ensure(list(got) == [] and list(gc) == [], 'no data')
        for what, data, columns in feeds(c['cols'], c['rows']):
            if columns is None:
                r = list(u('make_readerlike')(data))
                same(r, [c['cols']] + c['rows'], 'reader ' + what)
        for what, data, columns in feeds(c['cols'], c['rows']):
            if columns is None:
                r = list(u('make_dictreaderlike')(data))
                ensure([dict(x) for x in r] == [dict(zip(c['cols'], x)) for x in c['rows']], f'dictionaries from {what}: {r}')


@scenario('P24', 'csv readers', n=400)
class Csv:
    def gen(rng, i):
        cols, rws = rand_table(rng)
        return {'cols': cols, 'rows': [[str(x) for x in r] for r in rws]}

    def check(c):
        buf = io.StringIO(newline='')
        w = csv.writer(buf)
        w.writerows([c['cols']] + c['rows'])
        text = buf.getvalue()
        rws = [r for r in csv.reader(io.StringIO(text, newline=''))][1:]
        rd = lambda: csv.reader(io.StringIO(text, newline=''))
        dr = lambda: csv.DictReader(io.StringIO(text, newline=''))
        if [r for r in rws if not r] or rws != c['rows']:
            raise Trivial()
        got, gc = u('normalize_tabular')(rd())
        ensure(list(gc) == c['cols'], 'columns')
        same(got, rws, 'csv.reader')
        if rws:
            got, gc = u('normalize_tabular')(dr())
            ensure(list(gc) == c['cols'], 'columns of DictReader')
            same(got, rws, 'csv.DictReader')
        same(u('make_readerlike')(rd()), [c['cols']] + rws, 'readerlike csv.reader')
        same(u('make_readerlike')(dr()), [c['cols']] + rws, 'readerlike DictReader')
        ensure([dict(x) for x in u('make_dictreaderlike')(dr())] == [dict(zip(c['cols'], r)) for r in rws], 'dictreaderlike DictReader')


@scenario('P24', 'malformed tables are refused', n=60)
class Malformed:
    def gen(rng, i):
        return {'k': i % 6}

    def check(c):
        bad = [5, None, [5, 6], [{1, 2}], [None.__class__], iter([3.5])][c['k']]
        for name in ('normalize_tabular', 'make_readerlike', 'make_dictreaderlike'):
            if c['k'] == 5:
                bad = iter([3.5])
            try:
                r = u(name)(bad)
                r = [list(x) for x in (r[0] if isinstance(r, tuple) else r)]
            except TypeError:
                continue
            raise Violation(f'{name} accepted {bad!r}: {r}')


@scenario('P24', 'stacking never overwrites another column', n=200)
class StackNames:
    def gen(rng, i):
        cols, rws = rand_table(rng)
        rws = rws or [[rng.choice(VALS) for _ in cols]]
        k = rng.randint(0, len(cols) - 1)
        return {'cols': cols, 'rows': rws, 'stack': cols[:k], 'clash': cols[-1], 'which': rng.choice(['var_name', 'value_name']), 'f': rng.choice(['wide_to_long', 'wide_to_narrow'])}

    def check(c):
        import toron
        keep = [x for x in c['cols'] if x not in c['stack']]
        try:
            out = list(getattr(toron, c['f'])([dict(zip(c['cols'], r)) for r in c['rows']], c['stack'], **{(c['which'] if c['f'] == 'wide_to_narrow' or c['which'] == 'var_name' else 'val_name'): c['clash']}))
        except ValueError:
            return
        want = [[dict(zip(c['cols'], r))[x] for x in keep] for r in c['rows'] for _ in c['stack']]
        got = [[dict(r).get(x) for x in keep] for r in out if isinstance(r, dict)]
        if c['f'] == 'wide_to_long':
            ensure(not c['stack'], f'accepted a {c["which"]} that is already a column')
            return
        ensure(got == want, f'a column was overwritten: {got}, was {want}')


@scenario('P24', 'required columns are checked', n=800)
class Required:
    def gen(rng, i):
        pool = ['A', 'B', 'C', 'D']
        return {'c': rng.sample(pool, rng.randint(0, 4)), 'r': rng.sample(pool, rng.randint(0, 4)), 'x': rng.random() < 0.5, 'it': rng.random() < 0.5}

    def check(c):
        f = u('verify_columns_set')
        ok = set(c['r']) <= set(c['c']) and (c['x'] or set(c['c']) <= set(c['r']))
        w = iter if c['it'] else list
        try:
            f(w(c['c']), w(c['r']), allow_extras=c['x'])
        except ValueError:
            ensure(not ok, f'{c} refused')
            return
        ensure(ok, f'{c} accepted')


@scenario('P24', 'wide to long', n=2000)
class WideToLong:
    def gen(rng, i):
        cols, rws = rand_table(rng)
        return {'cols': cols, 'rows': rws, 'stack': rng.sample(cols, rng.randint(0, len(cols))), 'names': rng.choice([None, ['var', 'val']]), 'it': rng.randrange(4)}

    def check(c):
        from toron import wide_to_long
        cols, stack = c['cols'], c['stack']
        kw = {} if not c['names'] else {'var_name': c['names'][0], 'val_name': c['names'][1]}
        var, val = c['names'] or ['variable', 'value']
        keep = [x for x in cols if x not in stack]
        arg = [list, tuple, iter, lambda x: x[0] if len(x) == 1 else x][c['it']]
        want = []
        for r in c['rows']:
            d = dict(zip(cols, r))
            want += [[d[x] for x in keep] + [s, d[s]] for s in stack]
        for what, data, columns in feeds(cols, c['rows']):
            if columns is not None:
                continue
            out = list(wide_to_long(data, arg(stack), **kw))
            if 'dict' in what:
                ensure([list(x.keys()) for x in out] == [keep + [var, val]] * len(want), f'{what}: keys {[list(x) for x in out][:1]}')
                same([list(x.values()) for x in out], want, what)
            else:
                ensure([list(x) for x in out[:1]] == [keep + [var, val]], f'{what}: header {out[:1]}')
                same(out[1:], want, what)
        ensure(list(wide_to_long([], stack, **kw)) == [] and list(wide_to_long(iter([]), stack, **kw)) == [], 'empty table')
        for data in ([cols] + c['rows'], [dict(zip(cols, r)) for r in c['rows']]):
            if not data:
                continue
            try:
                wide_to_long(data, stack + ['missing column'])
            except ValueError:
                continue
            raise Violation('missing column accepted')


@scenario('P24', 'every kind of table is loaded the same way', n=150)
class Load:
    def gen(rng, i):
        n = rng.randint(1, 3)
        idx = rand_index(rng, n)
        return {'n': n, 'idx': idx, 'w': [float(rng.randrange(50)) for _ in idx], 'order': rng.sample(range(n + 1), n + 1), 'what': rng.choice(['index', 'weights', 'quantities'])}

    def check(c):
        names = NAMES[:c['n']]
        cols = [(names + ['w'])[j] for j in c['order']]
        table = [[(r + [w])[j] for j in c['order']] for r, w in zip(c['idx'], c['w'])]
        results = {}
        for what, data, columns in feeds(cols, table):
            if not table:
                continue
            kw = {} if columns is None else {'columns': columns}
            with quiet():
                s = make_space(names, c['idx'] if c['what'] != 'index' else [])
                s.add_weight_group('w', make_default=True)
                if c['what'] == 'index':
                    s.insert_index(data, **kw)
                elif c['what'] == 'weights':
                    s.insert_weights('w', data, **kw)
                else:
                    data, columns = with_attr(data, columns)
                    s.insert_quantities(value='w', attributes=['k'], data=data, **({} if columns is None else {'columns': columns}))
            d = dump(s, drop=('property',))
            results[what] = d
        ref = next(iter(results.items()), None)
        for k, v in results.items():
            ensure(v == ref[1], lambda: f'{c["what"]} loaded from {k} differ from {ref[0]}: {[(t, v[t], ref[1].get(t)) for t in v if v[t] != ref[1].get(t)][:2]}')
        if ref and c['what'] in ('index', 'weights'):
            got = {tuple(r[1:]) for r in s.select_index()} - {('-',) * c['n']}
            ensure(got == {tuple(r) for r in c['idx']}, f'index {got}')
            back = {v: k for k, v in ids_of(s, names).items()}
            wts = {back[r['index_id']]: r['weight_value'] for r in rows(s, 'weight')}
            for r, w in zip(c['idx'], c['w']):
                ensure(wts.get(tuple(r)) == w, f'weight of {r}: {wts.get(tuple(r))}, expected {w}')


def with_attr(data, columns):
    rws = list(data)
    if isinstance(rws[0], dict):
        return [dict(r, k='a') for r in rws], columns and list(columns) + ['k']
    if columns is None:
        return [list(rws[0]) + ['k']] + [list(r) + ['a'] for r in rws[1:]], None
    return [list(r) + ['a'] for r in rws], list(columns) + ['k']
