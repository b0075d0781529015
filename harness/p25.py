from harness.core import *
from harness.common import *

KEYS = ['k', 'm', 'A b']
WORDS = ['p', 'q', 'r"s', '', 'é', 'None', '1']


def gen_data(rng, n):
    pool = [{a: rng.choice(WORDS) for a in KEYS if rng.random() < 0.7} for _ in range(rng.randint(1, 4))]
    whole = rng.random() < 0.5
    return [[rng.randint(0, n), rng.choice(pool), float(rng.randint(-20, 60)) if whole else rand_value(rng)] for _ in range(rng.randint(0, 25))]


def build(c):
    NodeReader = internal('toron.reader', 'NodeReader')
    s = make_space(['L', 'M'], c['index'])
    labels = {0: ('-', '-')} | {v: k for k, v in ids_of(s, 'LM').items()}
    data = [(i if i <= len(c['index']) else 0, dict(a), v) for i, a, v in c['data']]

    def reader():
        return NodeReader(((i, dict(reversed(list(a.items()))) if n % 2 else dict(a), v) for n, (i, a, v) in enumerate(data)), s, cache_to_drive=c['disk'])
    return s, labels, data, reader


def gen_case(rng):
    idx = rand_index(rng, 2)
    return {'index': idx, 'data': gen_data(rng, len(idx)), 'disk': rng.random() < 0.3}


@scenario('P25', 'one row per record and attributes, holding the sum', n=900)
class Rows:
    def gen(rng, i):
        return gen_case(rng)

    def check(c):
        s, labels, data, reader = build(c)
        want = {}
        for i, a, v in data:
            k = labels[i], tuple(sorted(a.items()))
            want[k] = want.get(k, 0) + v
        r = reader()
        keys = sorted({k for _, a, _ in data for k in a})
        ensure(r.columns == ['L', 'M'] + keys + ['value'], f'columns {r.columns}')
        ensure(r.index_columns == ['L', 'M'], 'index columns')
        got = {}
        for row in r:
            ensure(len(row) == len(r.columns), f'row {row}')
            k = tuple(row[:2]), tuple((a, v) for a, v in zip(keys, row[2:-1]) if v is not None)
            ensure(k not in got, f'{k} twice')
            got[k] = row[-1]
        ensure(set(got) == set(want), f'keys {set(got) ^ set(want)}')
        big = sum(abs(v) for _, _, v in data)
        for k in want:
            ensure(close(got[k], want[k], big), f'{k}: {got[k]}, expected {want[k]}')
        ensure(list(r) == [], 'exhausted reader yields again')
        r.close()
        df = reader().to_pandas()
        ensure(list(df.columns) == r.columns and len(df) == len(want), f'data frame {df.shape}')
        ensure(close(float(df['value'].sum()) if len(df) else 0.0, sum(v for _, _, v in data), big), 'total of the data frame')


@scenario('P25', 'translating collected rows', n=300)
class Translated:
    """rows given one by one, repeated or not, through a stored link"""
    def gen(rng, i):
        c = gen_case(rng)
        n = len(c['index'])
        c['index2'] = rand_index(rng, 1)
        c['rel'] = [[a, rng.randint(0, len(c['index2'])), rng.choice([1.0, 2.5, 0.0, rng.random()])] for a in range(1, n + 1) for _ in range(rng.randint(1, 3))]
        c['dup'] = [rng.randrange(25) for _ in range(rng.randint(0, 3))]
        return c

    def check(c):
        s, labels, data, reader = build(c)
        data += [data[i] for i in c['dup'] if i < len(data)]
        t = make_space(['B'], c['index2'])
        labels2 = {0: ('-',)} | {v: k for k, v in ids_of(t, 'B').items()}
        rel = {}
        for a, b, v in c['rel']:
            rel.setdefault(a, {}).setdefault(b, v)
        with quiet():
            t.add_link(s, 'l', is_default=True)
            t.insert_mappings2(s, 'l', [[a, b, b'\x80', v] for a in rel for b, v in rel[a].items()] + [[0, 0, b'\x80', 1.0]],
                               columns=['other_index_id', 'index_id', 'mapping_level', 'l'])
        want = {}
        for i, a, v in data:
            if i and i not in rel:
                raise Trivial()
            tot = sum(rel[i].values()) if i else 0
            parts = {0: 1.0} if not i else {b: (x / tot if tot else 1 / len(rel[i])) for b, x in rel[i].items()}
            for b, x in parts.items():
                k = labels2[b], tuple(sorted(a.items()))
                want[k] = want.get(k, 0) + v * x
        r = reader()
        r.translate(t)
        keys = r.columns[1:-1]
        got = {}
        for row in r:
            k = tuple(row[:1]), tuple((a, v) for a, v in zip(keys, row[1:-1]) if v is not None)
            ensure(k not in got, f'{k} twice')
            got[k] = row[-1]
        big = sum(abs(v) for _, _, v in data)
        for k in set(got) | set(want):
            ensure(close(got.get(k, 0), want.get(k, 0), big), f'{k}: {got.get(k)}, expected {want.get(k)}')


@scenario('P25', 'pivot', n=1200)
class Pivot:
    def gen(rng, i):
        c = gen_case(rng)
        c['cols'] = rng.sample(KEYS, rng.randint(1, 3))
        c['agg'] = rng.choice(['sum', 'sum', None, 'mean'])
        return c

    def check(c):
        pivot = internal('toron.reader', 'pivot_reader')
        s, labels, data, reader = build(c)
        per = {}
        for i, a, v in data:
            k = i, tuple(sorted(a.items()))
            per[k] = per.get(k, 0) + v
        cells = {}
        for (i, a), v in per.items():
            p = tuple(dict(a).get(x, '') for x in c['cols'])
            if any(p):
                cells.setdefault((labels[i], p), []).append(v)
        agg = (lambda x: sum(x) / len(x)) if c['agg'] == 'mean' else sum
        want = {k: agg(v) for k, v in cells.items()}

        def head(p):
            p = list(p)
            while p and p[-1] == '':
                p.pop()
            return p[0] if len(p) == 1 else tuple(p)
        r = reader()
        out = [list(x) for x in (pivot(r, iter(c['cols']), c['agg']) if c['agg'] else pivot(r, c['cols']))]
        ensure(out and out[0][:2] == ['L', 'M'], f'header {out[:1]}')
        heads = out[0][2:]
        expected_heads = {head(tuple(dict(a).get(x, '') for x in c['cols'])) for _, a in per} - {()}
        ensure(len(set(heads)) == len(heads) and set(heads) == expected_heads, f'columns {heads}, expected {expected_heads}')
        got, seen = {}, set()
        for row in out[1:]:
            ensure(len(row) == len(out[0]) and tuple(row[:2]) not in seen, f'row {row}')
            seen.add(tuple(row[:2]))
            for h, v in zip(heads, row[2:]):
                if v is not None:
                    got[tuple(row[:2]), h] = v
        want = {(l, head(p)): v for (l, p), v in want.items()}
        ensure(set(got) == set(want), f'cells {set(got) ^ set(want)}')
        big = sum(abs(v) for _, _, v in data)
        for k in want:
            ensure(close(got[k], want[k], big), f'{k}: {got[k]}, expected {want[k]}')
        # the reader itself is unchanged by pivoting
        ensure(close(sum(x[-1] for x in r), sum(v for _, _, v in data), big), 'pivoting changed the reader')
        again = [list(x) for x in pivot(reader(), c['cols'], c['agg'] or 'sum')]
        ensure(again == out, 'pivoting twice differs')
        if c['agg'] in ('sum', None) and heads:
            pdf = internal('toron.reader', 'pivot_reader_to_pandas')(reader(), c['cols'])
            ensure(pdf.shape == (len(out) - 1, len(out[0])), 'data frame shape')
            tot = sum(v for v in pdf.iloc[:, 2:].fillna(0).to_numpy().flatten().tolist())
            ensure(close(tot, sum(want.values()), big), f'data frame total {tot}')


@scenario('P25', 'what is stored is what is read', n=250)
class Stored:
    def gen(rng, i):
        idx = rand_index(rng, 2)
        q = []
        for _ in range(rng.randint(0, 12)):
            l = list(rng.choice(idx + [['-', '-']]))
            if rng.random() < 0.5:
                l[rng.randrange(2)] = ''
            q.append([l, {a: rng.choice([w for w in WORDS if w]) for a in KEYS if rng.random() < 0.6} or {'k': 'p'}, float(rng.randint(0, 90))])
        return {'index': idx, 'q': q, 'sel': rng.choice([None, ['k', 'p'], ['m', 'q'], ['k', 'q']]), 'quant': rng.random() < 0.4, 'disk': rng.random() < 0.2, 'w': [float(rng.randrange(5)) for _ in idx],
                'domain': rng.choice(['', '', 'D']), 'by': rng.choice([None, None, 'k', ['k'], ['m', 'k'], ['zz']])}

    def check(c):
        s = make_space(['L', 'M'], c['index'], partitions=[{'L'}, {'M'}], weights=[{'name': 'w', 'values': c['w'], 'default': True}])
        data = {}
        for l, a, v in c['q']:
            if l[0] + l[1] in ('', '-'):
                continue
            data[tuple(l), tuple(sorted(a.items()))] = v
        with quiet():
            if data:
                s.insert_quantities(value='v', attributes=KEYS, columns=['L', 'M'] + KEYS + ['v'],
                                    data=[list(l) + [dict(a).get(k, '') for k in KEYS] + [v] for (l, a), v in data.items()])
            if c['domain']:
                s.set_domain(c['domain'])
            sel = [] if not c['sel'] else [f'[{c["sel"][0]}="{c["sel"][1]}"]']
            r = s(*sel, cache_to_drive=c['disk'], quantize=c['quant'], sum_by_attrs=c['by'])
            out = list(r)
        chosen = {k: v for k, v in data.items() if not c['sel'] or dict(k[1]).get(c['sel'][0]) == c['sel'][1]}
        keys = r.columns[2:-1]
        got, want = {}, {}
        for row in out:
            a = tuple((k, v) for k, v in zip(keys, row[2:-1]) if v is not None)
            got[a] = got.get(a, 0) + row[-1]
        for (l, a), v in chosen.items():
            by = None if not c['by'] else set(c['by'] if isinstance(c['by'], list) else [c['by']])
            a = tuple(sorted([x for x in a if by is None or x[0] in by] + ([('domain', c['domain'])] if c['domain'] else [])))
            want[a] = want.get(a, 0) + v
        ensure(set(got) <= set(want), f'attributes {set(got) ^ set(want)}')
        for a in want:
            ensure(close(got.get(a, 0), want[a], 1000), f'{a}: read {got.get(a)}, stored {want[a]}')
        rws = [tuple(x[:-1]) for x in out]
        ensure(len(set(rws)) == len(rws), 'a record and attributes listed twice')
