from harness.core import *
from harness.common import *
from harness import refsel as R
from harness import hist as H

ATTRS = ['k', 'm', 'n']
WORDS = ['p', 'q', 'pq', 'p-1']


def rand_cands(rng, n, depth=2):
    return [[rng.choice([f'c{i}', i, (i,)]) if rng.random() < 0.1 else i + 2, [R.rand_sel(rng, rng.randint(0, depth), ATTRS, WORDS) for _ in range(rng.randint(0, 3))]] for i in range(n)]


def keyed(cands):
    return {tuple(k) if isinstance(k, list) else k: v for k, v in cands}


@scenario('P05', 'choice among candidates', n=4000)
class Choice:
    def gen(rng, i):
        return {'c': rand_cands(rng, rng.randint(0, 6)), 'row': {a: rng.choice(WORDS) for a in ATTRS if rng.random() < 0.85}, 'seed': rng.randrange(10**6)}

    def check(c):
        from toron.selectors import get_greatest_unique_specificity as f, GetMatchingKey
        import random
        row = c['row']
        want = R.best(keyed(c['c']), row, 'DEFAULT')
        items = list(keyed(c['c']).items())
        rng = random.Random(c['seed'])
        for turn in range(3):
            d = {k: [R.build(t) for t in ts] for k, ts in items}
            d = {k: (v if v or rng.random() < 0.5 else None) for k, v in d.items()}
            got = f(row_dict=dict(row), selector_dict=d, default='DEFAULT')
            ensure(got == want and type(got) == type(want), f'{row}: {[(k, [R.text(t) for t in ts]) for k, ts in items]} -> {got!r}, expected {want!r}')
            g = GetMatchingKey(d if turn else list(d.items()), default='DEFAULT')
            ensure(g(dict(row)) == want, f'GetMatchingKey {g(dict(row))!r}, expected {want!r}')
            ensure(g(json.dumps(row)) == want, 'GetMatchingKey on JSON text')
            rng.shuffle(items)
            items = [(k, rng.sample(ts, len(ts))) for k, ts in items]


@scenario('P05', 'levels of specificity shared or not', n=2500)
class Levels:
    """selectors that all match, with chosen specificities"""
    def gen(rng, i):
        return {'c': [[i, [[rng.randint(0, 3), rng.randint(0, 3), rng.random() < 0.85] for _ in range(rng.randint(0, 3))]] for i in range(rng.randint(0, 6))]}

    def check(c):
        from toron.selectors import get_greatest_unique_specificity as f

        class Sel:
            def __init__(self, a, b, m):
                self.specificity, self.m = (a, b), m

            def __call__(self, row):
                return self.m
        best = {}
        for k, ss in c['c']:
            ms = [(a, b) for a, b, m in ss if m]
            if ms:
                best[k] = max(ms)
        want = 'DEFAULT'
        for lv in sorted(set(best.values()), reverse=True):
            ks = [k for k in best if best[k] == lv]
            if len(ks) == 1:
                want = ks[0]
                break
        for items in (c['c'], c['c'][::-1]):
            got = f(row_dict={'A': 'x'}, selector_dict={k: [Sel(*s) for s in ss] for k, ss in items}, default='DEFAULT')
            ensure(got == want, f'{items} -> {got!r}, expected {want!r}')


@scenario('P05', 'weight group used for each attribute group', n=500)
class Groups:
    def gen(rng, i):
        groups = []
        for k in range(rng.randint(1, 5)):
            groups.append({'name': f'g{k}', 'sel': [R.rand_sel(rng, rng.randint(0, 2), ATTRS, WORDS) for _ in range(rng.randint(0, 2))],
                           'complete': rng.random() < 0.75, 'default': False})
        groups[0]['default'] = True
        rng.shuffle(groups)
        return {'g': groups, 'attrs': [{a: rng.choice(WORDS) for a in ATTRS if rng.random() < 0.8} or {'k': 'p'} for _ in range(rng.randint(1, 5))]}

    def check(c):
        find = internal('toron.data_service', 'find_matching_weight_groups')
        ws = [{'name': g['name'], 'values': [1.0, 2.0 if g['complete'] else None], 'selectors': [R.text(t) for t in g['sel']], 'default': g['default']} for g in c['g']]
        s = make_space(['A'], [['x'], ['y']], weights=ws)
        attrs = []
        for a in c['attrs']:
            if a not in attrs:
                attrs.append(a)
        with quiet():
            s.insert_quantities(value='v', attributes=ATTRS, columns=['A'] + ATTRS + ['v'], data=[['x'] + [a.get(k, '') for k in ATTRS] + [1] for a in attrs])
        default = [g['name'] for g in c['g'] if g['default']][0]
        cands = {g['name']: g['sel'] for g in c['g'] if g['complete'] and g['sel']}
        with s._managed_transaction() as cur:
            d = s._dal
            for ids in (None, 'all', 'some'):
                ar = d.AttributeGroupRepository(cur)
                if ids:
                    ids = [x.id for x in ar.find_all()]
                    ids = ids[:1] if ids == 'some' else ids
                with s._managed_cursor() as cur2:
                    out = list(find(attribute_repo=d.AttributeGroupRepository(cur2), weight_group_repo=d.WeightGroupRepository(cur),
                                    property_repo=d.PropertyRepository(cur), attribute_ids=ids))
                ensure(sorted(repr(sorted(a.attributes.items())) for a, _ in out) == sorted(repr(sorted(a.items())) for a in attrs) or ids, 'attribute groups left out')
                for a, g in out:
                    want = R.best(cands, a.attributes, default)
                    ensure(g.name == want, f'{a.attributes}: group {g.name}, expected {want}')


@scenario('P05', 'weight group that a reading uses', n=400)
class Reading:
    """the values read show which weights were used"""
    def gen(rng, i):
        c = Groups.gen(rng, i)
        c['n'] = 3
        for g in c['g']:
            if g['default']:
                g['complete'] = True
        return c

    def check(c):
        idx = [['x', str(i)] for i in range(3)]
        ws = []
        for k, g in enumerate(c['g']):
            v = [float(3 ** k), float(5 ** k), float(7 ** k + k)]
            ws.append({'name': g['name'], 'values': v if g['complete'] else v[:2] + [None], 'selectors': [R.text(t) for t in g['sel']], 'default': g['default']})
        s = make_space(['A', 'B'], idx, weights=ws, partitions=[{'A'}])
        attrs = []
        for a in c['attrs']:
            if a not in attrs:
                attrs.append(a)
        with quiet():
            s.insert_quantities(value='v', attributes=ATTRS, columns=['A', 'B'] + ATTRS + ['v'], data=[['x', ''] + [a.get(k, '') for k in ATTRS] + [100] for a in attrs])
            r = s()
            cols = r.columns
            got = {}
            for row in r:
                key = tuple(sorted((k, v) for k, v in zip(cols[2:-1], row[2:-1]) if v is not None))
                got[key, row[1]] = row[-1]
        default = [g['name'] for g in c['g'] if g['default']][0]
        cands = {g['name']: g['sel'] for g in c['g'] if g['complete'] and g['sel']}
        for a in attrs:
            w = [x for x in ws if x['name'] == R.best(cands, a, default)][0]
            for i in range(3):
                key = (tuple(sorted(a.items())), str(i))
                want = 100 * w['values'][i] / sum(w['values'])
                ensure(close(got.get(key, 0), want, 100), f'{a} record {i}: {got.get(key)}, expected {want} with weights of {w["name"]}')


@scenario('P05', 'link used for each set of attributes', n=400)
class Links:
    def gen(rng, i):
        links = []
        for k in range(rng.randint(1, 5)):
            links.append({'name': f'l{k}', 'sel': [R.rand_sel(rng, rng.randint(0, 2), ATTRS, WORDS) for _ in range(rng.randint(0, 2))],
                          'complete': rng.random() < 0.75, 'stale': rng.random() < 0.2})
        return {'l': links, 'default': rng.randrange(len(links)) if rng.random() < 0.9 else None,
                'attrs': [{a: rng.choice(WORDS) for a in ATTRS if rng.random() < 0.8} for _ in range(4)]}

    def check(c):
        make = internal('toron.data_service', 'make_get_link_id_func')
        a, b = make_space(['A'], [['x'], ['y']]), make_space(['A'], [['x'], ['y']])
        good = None
        with quiet():
            for k, l in enumerate(c['l']):
                b.add_link(a, l['name'], selectors=[R.text(t) for t in l['sel']] or None, is_default=(k == c['default']))
        with b._managed_transaction() as cur:
            repo = b._dal.LinkRepository(cur)
            for x in list(repo.get_all()):
                l = [y for y in c['l'] if y['name'] == x.name][0]
                import dataclasses
                repo.update(dataclasses.replace(x, other_index_hash='other' if l['stale'] else 'good', is_locally_complete=l['complete'],
                                                is_default=c['default'] is not None and c['l'][c['default']]['name'] == x.name))
            name = {x.id: x.name for x in repo.get_all()}
            live = [l for l in c['l'] if not l['stale']]
            dname = c['l'][c['default']]['name'] if c['default'] is not None else None
            ok = dname is not None and any(l['name'] == dname for l in live)
            try:
                f = make(ref=a.unique_id, link_repo=repo, other_index_hash='good')
            except RuntimeError:
                ensure(not ok, 'refused although there is a current default link')
                return
            ensure(ok, f'accepted: default {dname}, current {[l["name"] for l in live]}')
            cands = {l['name']: l['sel'] for l in live if l['complete'] and l['sel']}
            for at in c['attrs']:
                want = R.best(cands, at, dname)
                ensure(name[f(dict(at))] == want, f'{at}: link {name[f(dict(at))]}, expected {want}')
