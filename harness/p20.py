from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P20', 'histories of loading quantities', ['insert_quantities', 'insert_quantities2', 'insert_quantities2', 'insert_index', 'add_partition', 'del_noindex'],
        ['refs'], parts=('quants',), only=('insert_quantities', 'insert_quantities2'), n=2000, quants=1.0, maps=0, weights=0)

ATTRS = ['k', 'm', 'my attr']
LABS = ['x', 'x', 'y', 'y', 'z', '', '', "o'k", 'X', ' x', 'x ']


def gen_rows(rng, ncols):
    out = []
    for _ in range(rng.randint(1, 8)):
        labs = [rng.choice(LABS) for _ in range(ncols)]
        at = [rng.choice(['p', 'q', '', 'P"', 'é', 'P', ' p', 'p ', 'e\u0301', '0', ' ']) for _ in ATTRS]
        out.append(labs + at + [rng.choice([1, 2.5, 0, -3, '7', '1e3', 10**9])])
    return out


@scenario('P20', 'loaded quantities are exactly the accepted rows', n=900)
class Load:
    def gen(rng, i):
        n = rng.randint(1, 3)
        return {'n': n, 'index': rand_index(rng, n, labels=['x', 'y', "o'k", 'X', ' x']), 'parts': [rand_subset(rng, NAMES[:n])], 'rows': gen_rows(rng, n),
                'api': rng.choice([1, 2, 2]), 'mode': rng.choice(['abort', 'ignore', 'replace', 'sum']), 'bad_label': rng.random() < 0.7, 'bad_part': rng.random() < 0.7,
                'domain': rng.choice([None, None, 'dom']), 'wrong_domain': rng.random() < 0.1, 'dicts': rng.random() < 0.3, 'perm': rng.random(),
                'reg': rng.sample(ATTRS, rng.randint(1, 3)), 'split': rng.random() < 0.3, 'extra': rng.random() < 0.3}

    def check(c):
        n, cols = c['n'], NAMES[:c['n']]
        s = make_space(cols, c['index'])
        with quiet():
            for p in c['parts']:
                try:
                    s.add_partition_definition(set(p))
                except Exception:
                    pass
            if c['domain']:
                s.set_domain(c['domain'])
            s.set_registered_attributes(c['reg'])
        st = set(H.struct_of(H.snap(s)))
        names = cols + ATTRS + ['v'] + (['extra'] if c['extra'] else [])
        data = [r + (['e'] if c['extra'] else []) for r in c['rows']]
        if c['domain']:
            names = ['domain'] + names
            data = [[c['domain'] if not (c['wrong_domain'] and j == 0) else 'other'] + r for j, r in enumerate(data)]
        order = list(range(len(names)))
        random.Random(c['perm']).shuffle(order)
        names, data = [names[j] for j in order], [[r[j] for j in order] for r in data]
        used = c['reg'] if c['api'] == 2 else ATTRS
        want, refuse = {}, False
        for j, r in enumerate(c['rows']):
            if c['domain'] and c['wrong_domain'] and j == 0:
                if c['api'] == 2:
                    refuse = True
                    break
                continue
            loc = tuple(r[:n])
            at = tuple(sorted((a, x) for a, x in zip(ATTRS, r[n:]) if x and a in used))
            v = float(r[-1])
            if not at:
                continue
            if c['api'] == 2:
                lab = frozenset(x for x, y in zip(cols, loc) if y)
                known = any(all(not y or y == z for y, z in zip(loc, rec)) for rec in c['index'] + [['-'] * n])
                if (not c['bad_part'] and lab not in st) or (not c['bad_label'] and not known):
                    refuse = True
                    break
            if (loc, at) in want:
                mode = c['mode'] if c['api'] == 2 else 'abort'
                if mode == 'abort':
                    refuse = True
                    break
                if mode == 'replace':
                    want[loc, at] = v
                elif mode == 'sum':
                    want[loc, at] += v
            else:
                want[loc, at] = v
        before = dump(s)
        err = None
        try:
            with quiet():
                parts = [data] if not c['split'] or refuse else [[r] for r in data]
                for part in parts:
                    d = [dict(zip(names, r)) for r in part] if c['dicts'] else part
                    cc = None if c['dicts'] else names
                    if c['api'] == 2:
                        s.insert_quantities2(value_column='v', data=d, columns=cc, allow_invalid_label=c['bad_label'],
                                             allow_invalid_partition=c['bad_part'], on_existing=c['mode'])
                    else:
                        s.insert_quantities(value='v', attributes=ATTRS, data=d, columns=cc)
        except Exception as e:
            err = e
        if refuse:
            ensure(err is not None, 'accepted, but must be refused')
            ensure(dump(s) == before, 'refused load changed the store')
            return
        ensure(err is None, f'refused: {err!r}')
        o = H.snap(s)
        locs, ats = list(o['locs'].values()), [json.dumps(a, sort_keys=True) for a in o['attrs'].values()]
        ensure(len(set(locs)) == len(locs), f'equal label combinations stored twice: {locs}')
        ensure(len(set(ats)) == len(ats), f'equal attributes stored twice: {ats}')
        from harness.oracle import qcontent
        got = qcontent(o)
        ensure(got == want, f'stored {got}, expected {want}')
        # selecting returns the same
        if c['api'] == 1 or set(c['reg']) == set(ATTRS):
            with quiet():
                it = list(s.select_quantities() if c['api'] == 1 else s.select_quantities2())
            head, body = list(it[0]), it[1:]
            dom = ['domain'] if c['domain'] else []
            ensure(head[:len(dom) + n] == dom + cols and head[-1] == 'quantity', f'header {head}')
            sel = {}
            for r in body:
                d = dict(zip(head, r))
                ensure(not dom or d['domain'] == c['domain'], 'domain column')
                k = (tuple(d[x] for x in cols), tuple(sorted((a, d[a]) for a in head[len(dom) + n:-1] if d[a] is not None)))
                ensure(k not in sel, f'{k} selected twice')
                sel[k] = d['quantity']
            ensure(sel == want, f'selected {sel}, expected {want}')


@scenario('P20', 'missing locations and attribute groups are added once', n=300)
class AddMissing:
    def gen(rng, i):
        n = rng.randint(1, 3)
        return {'n': n, 'locs': [[rng.choice(['x', 'y', '', 'X', ' x']) for _ in range(n)] for _ in range(rng.randint(1, 8))],
                'attrs': [{a: rng.choice(['p', 'q', "p'", 'P', ' p', 'p ']) for a in rng.sample(ATTRS, rng.randint(1, 3))} for _ in range(rng.randint(1, 8))], 'p': rng.random()}

    def check(c):
        L = internal('toron.dal1.repositories', 'LocationRepository')
        A = internal('toron.dal1.repositories', 'AttributeGroupRepository')
        internal('toron.data_models', 'BaseLocationRepository.get_by_labels_add_if_missing')
        internal('toron.data_models', 'BaseAttributeGroupRepository.get_by_value_add_if_missing')
        cols = NAMES[:c['n']]
        s = make_space(cols, [])
        seen, aseen = {}, {}
        with s._managed_transaction() as cur:
            rng = random.Random(c['p'])
            for l in c['locs']:
                items = list(zip(cols, l))
                rng.shuffle(items)
                g = L(cur).get_by_labels_add_if_missing(dict(items))
                ensure(tuple(g.labels) == tuple(l), f'location {g} for {l}')
                ensure(seen.setdefault(tuple(l), g.id) == g.id, f'{l} stored twice')
            ensure(len(set(seen.values())) == len(seen), 'two label combinations share one location')
            for a in c['attrs']:
                items = list(a.items())
                rng.shuffle(items)
                g = A(cur).get_by_value_add_if_missing(dict(items))
                ensure(dict(g.attributes) == a, f'attribute group {g} for {a}')
                ensure(aseen.setdefault(json.dumps(a, sort_keys=True), g.id) == g.id, f'{a} stored twice')
            ensure(len(set(aseen.values())) == len(aseen), 'two attribute dictionaries share one group')
        o = H.snap(s)
        ensure(set(o['locs'].values()) == set(seen) and len(o['locs']) == len(seen), f'{o["locs"]}')
        ensure(len(o['attrs']) == len(aseen), f'{o["attrs"]}')
