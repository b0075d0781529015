from harness.core import *
from harness.common import *
from harness import refsel as R

ATTRS = ['k', 'm']
WORDS = ['p', 'q', 'pq', 'p-1']


def gen_map(rng, ns, nt, whole=False):
    """rows [source, target, value]: every source id 1..ns is mapped"""
    out = []
    for s in range(1, ns + 1):
        ts = rng.sample(range(0, nt + 1), rng.randint(1, min(3, nt + 1)))
        zero = rng.random() < 0.15
        for t in ts:
            out.append([s, t, 0.0 if zero else rng.choice([0.0, 1.0, 2.5, float(rng.randrange(1, 50)), rng.random()])])
    if rng.random() < 0.3:
        out.append([0, rng.randint(1, nt), 5.0])
    rng.shuffle(out)
    return out


def gen_links(rng, ns, nt):
    links = [{'name': 'L0', 'rows': gen_map(rng, ns, nt), 'sel': [R.rand_sel(rng, 1, ATTRS, WORDS)] if rng.random() < 0.2 else [], 'default': True}]
    for i in range(rng.randint(0, 2)):
        links.append({'name': f'L{i + 1}', 'rows': gen_map(rng, ns, nt), 'sel': [R.rand_sel(rng, rng.randint(0, 2), ATTRS, WORDS) for _ in range(rng.randint(0, 2))],
                      'default': False, 'stale': rng.random() < 0.2})
    rng.shuffle(links)
    return links


def gen_case(rng):
    ns, nt = rng.randint(1, 6), rng.randint(1, 6)
    q = []
    for _ in range(rng.randint(1, 7)):
        q.append([rng.randrange(0, ns + 1), {a: rng.choice(WORDS) for a in ATTRS if rng.random() < 0.7} or {'k': 'p'},
                  rng.choice([0.0, 1.0, 10.0, -3.5, rng.random() * 100, float(rng.randrange(1000))])])
    return {'ns': ns, 'nt': nt, 'links': gen_links(rng, ns, nt), 'q': q}


def space(n, col='A'):
    s = DataSpace()
    with quiet():
        s.add_index_columns(col, 'Z')
        s.insert_index([[f'{col}{i}', str(i % 3)] for i in range(1, n + 1)], columns=[col, 'Z'])
        s.add_weight_group('w', make_default=True)
        s.insert_weights('w', [[f'{col}{i}', str(i % 3), float(i)] for i in range(1, n + 1)], columns=[col, 'Z', 'w'])
    return s


def put_links(src, dst, links):
    """-> link name -> {source: {target: share}} for the current, complete ones"""
    level = b'\xc0'      # both label columns
    with quiet():
        for l in links:
            dst.add_link(src, l['name'], selectors=[R.text(t) for t in l['sel']] or None, is_default=l['default'])
            rws = [[s, t, level, v] for s, t, v in l['rows']]
            if l.get('stale'):
                last = max(s for s, _, _ in l['rows'])
                rws = [r for r in rws if r[0] != last]
            if rws:
                dst.insert_mappings2(src, l['name'], rws, columns=['other_index_id', 'index_id', 'mapping_level', l['name']])
    complete = {k.name: k.is_locally_complete for k in dst.links}
    return complete


def shares(rows, s):
    mine = [(t, v) for a, t, v in rows if a == s]
    tot = sum(v for _, v in mine)
    return {t: (v / tot if tot else 1 / len(mine)) for t, v in mine}


def choose(links, complete, attrs):
    default = [l['name'] for l in links if l['default']][0]
    cands = {l['name']: l['sel'] for l in links if l['sel'] and complete[l['name']] and not l.get('stale')}
    name = R.best(cands, attrs, default)
    return [l for l in links if l['name'] == name][0]


def translate_ref(data, links, complete):
    out = {}
    for (i, attrs), v in data.items():
        parts = {0: 1.0} if i == 0 else shares(choose(links, complete, dict(attrs))['rows'], i)
        for t, p in parts.items():
            out[(t, attrs)] = out.get((t, attrs), 0) + v * p
    return out


def labels(n, col):
    return {(f'{col}{i}', str(i % 3)): i for i in range(1, n + 1)} | {('-', '-'): 0}


def put_quantities(s, col, q):
    data = {}
    for i, attrs, v in q:
        data[(i, tuple(sorted(attrs.items())))] = v
    with quiet():
        s.insert_quantities(value='v', attributes=ATTRS, columns=[col, 'Z'] + ATTRS + ['v'],
                            data=[[f'{col}{i}' if i else '-', str(i % 3) if i else '-'] + [dict(a).get(x, '') for x in ATTRS] + [v] for (i, a), v in data.items()])
    return data


def collect(reader, back):
    cols = reader.columns
    keys = cols[2:-1]
    out = {}
    for r in reader:
        k = (back[tuple(r[:2])], tuple(sorted((a, v) for a, v in zip(keys, r[2:-1]) if v is not None)))
        ensure(k not in out, f'two rows for {k}')
        out[k] = r[-1]
    return out


def same(want, got, what=''):
    for k in set(want) | set(got):
        ensure(close(want.get(k, 0), got.get(k, 0) or 0, 1000), f'{what}{k}: expected {want.get(k)}, got {got.get(k)}')


@scenario('P03', 'translate through the chosen link', n=260)
class Translate:
    def gen(rng, i):
        return gen_case(rng)

    def check(c):
        src, dst = space(c['ns'], 'A'), space(c['nt'], 'B')
        data = put_quantities(src, 'A', c['q'])
        complete = put_links(src, dst, c['links'])
        want = translate_ref(data, c['links'], complete)
        r = src()
        r.translate(dst)
        got = collect(r, labels(c['nt'], 'B'))
        same(want, got)
        ensure(close(sum(got.values()), sum(data.values()), 1000), 'total not conserved')
        ensure(r.index_columns == dst.index_columns, 'columns not those of the target')
        same(want, collect(src(cache_to_drive=True) >> dst, labels(c['nt'], 'B')), 'cached: ')


@scenario('P03', 'whole-number translation conserves each record', n=120)
class Quantized:
    def gen(rng, i):
        c = gen_case(rng)
        sign = rng.choice([1, -1])
        for q in c['q']:
            q[2] = float(sign * rng.randrange(0, 200))
        return c

    def check(c):
        src, dst = space(c['ns'], 'A'), space(c['nt'], 'B')
        data = put_quantities(src, 'A', c['q'])
        complete = put_links(src, dst, c['links'])
        exact = translate_ref(data, c['links'], complete)
        for how in (0, 1):
            r = src(quantize=bool(how))
            r.translate(dst, quantize=None if how else True)
            got = collect(r, labels(c['nt'], 'B'))
            ensure(abs(sum(got.values()) - sum(data.values())) < 1e-6, f'total {sum(data.values())} -> {sum(got.values())}')
            for k, v in got.items():
                ensure(abs(v - round(v)) < 1e-9, f'{k}: {v} is not whole')
                n = sum(1 for (i, a) in data if a == k[1])
                ensure(abs(v - exact.get(k, 0)) < n + 1e-6, f'{k}: {v} too far from {exact.get(k)}')
            for attrs in {a for _, a in data}:
                ensure(abs(sum(v for k, v in got.items() if k[1] == attrs) - sum(v for k, v in data.items() if k[1] == attrs)) < 1e-6, 'attribute total')


@scenario('P03', 'chained translation', n=60)
class Chain:
    def gen(rng, i):
        c = gen_case(rng)
        c['nu'] = rng.randint(1, 4)
        c['links2'] = gen_links(rng, c['nt'], c['nu'])
        return c

    def check(c):
        a, b, d = space(c['ns'], 'A'), space(c['nt'], 'B'), space(c['nu'], 'C')
        data = put_quantities(a, 'A', c['q'])
        c1 = put_links(a, b, c['links'])
        c2 = put_links(b, d, c['links2'])
        r = a() >> b >> d
        want = translate_ref(translate_ref(data, c['links'], c1), c['links2'], c2)
        same(want, collect(r, labels(c['nu'], 'C')))


@scenario('P03', 'outdated or missing links are refused', n=50)
class Refused:
    def gen(rng, i):
        c = gen_case(rng)
        for l in c['links']:
            l['stale'] = False
        c['kind'] = i % 5
        return c

    def check(c):
        src, dst = space(c['ns'], 'A'), space(c['nt'], 'B')
        put_quantities(src, 'A', c['q'])
        if c['kind'] != 0:
            put_links(src, dst, c['links'])
        with quiet():
            if c['kind'] == 1:
                src.insert_index([['A99', '9']], columns=['A', 'Z'])
                src.insert_weights('w', [['A99', '9', 1.0]], columns=['A', 'Z', 'w'])
            elif c['kind'] == 2:
                dst.edit_link(src, [l['name'] for l in c['links'] if l['default']][0], is_default=False)
            elif c['kind'] == 3:
                for l in c['links']:
                    dst.drop_link(src, l['name'])
            elif c['kind'] == 4:
                for l in c['links']:
                    if l['default']:
                        dst.edit_link(src, l['name'], other_index_hash='0' * 64)
        r = src()
        before = None
        try:
            r.translate(dst)
        except Exception:
            ensure(r.index_columns == src.index_columns, 'reader switched to the target although translation was refused')
            list(r)
            return
        raise Violation(f'translation accepted although {["there is no link", "the source index changed", "there is no default link", "links were dropped", "the default link is out of date"][c["kind"]]}')
