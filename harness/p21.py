from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P21', 'histories of quantities', H.QUANT_OPS + ['del_unmatched', 'del_noindex'] + H.INDEX_OPS + ['add_partition', 'drop_partition', 'add_column'],
        ['refs'], parts=('quants', 'index', 'weights', 'maps', 'cols'), only=('del_unmatched', 'del_noindex'), n=2000, quants=1.0, maps=0.2, weights=0.2)


@scenario('P21', 'unmatched quantities are found and removed exactly', n=900)
class Unmatched:
    def gen(rng, i):
        n = rng.randint(1, 3)
        rows_ = []
        for _ in range(rng.randint(1, 9)):
            rows_.append([[rng.choice(['x', 'y', 'z', '', '', '-', ' ']) for _ in range(n)], rng.choice('pq'), float(rng.randrange(9))])
        return {'n': n, 'index': rand_index(rng, n, rng.choice([0, 1, 2, 4]), labels=['x', 'y', ' ']), 'part': rand_subset(rng, NAMES[:n]) if rng.random() < 0.6 else None, 'rows': rows_,
                'what': rng.choice(['unmatched', 'noindex']), 'header': rng.random() < 0.5, 'domain': rng.random() < 0.2, 'orphan': rng.random() < 0.4}

    def check(c):
        n, cols = c['n'], NAMES[:c['n']]
        s = make_space(cols, c['index'])
        want = {}
        with quiet():
            if c['part']:
                try:
                    s.add_partition_definition(set(c['part']))
                except Exception:
                    pass
            for l, a, v in c['rows']:
                want[tuple(l), a] = v
            s.insert_quantities(value='v', attributes=['k'], data=[list(l) + [a, v] for (l, a), v in want.items()], columns=cols + ['k', 'v'])
            if c['domain']:
                s.set_domain('D')
            if c['orphan']:
                Loc = internal('toron.dal1.repositories', 'LocationRepository')
                Att = internal('toron.dal1.repositories', 'AttributeGroupRepository')
                with s._managed_transaction() as cur:
                    Loc(cur).get_by_labels_add_if_missing({x: 'unused' for x in cols})
                    Att(cur).get_by_value_add_if_missing({'k': 'unused'})
        o = H.snap(s)
        st = set(H.struct_of(o))
        recs = list(o['index'].values())

        def unmatched(l):
            no = not any(all(not x or x == y for x, y in zip(l, r)) for r in recs)
            if c['what'] == 'unmatched':
                no = no or frozenset(x for x, y in zip(cols, l) if y) not in st
            return no
        bad = {k: v for k, v in want.items() if unmatched(k[0])}
        f = s.select_unmatched_quantities if c['what'] == 'unmatched' else s.select_quantities_without_index
        with quiet():
            out = [list(r) for r in f(header=c['header'])]
        dom = ['domain'] if c['domain'] else []
        if c['header']:
            ensure(out and out[0] == dom + cols + ['k', 'quantity'], f'header {out[:1]}')
            out = out[1:]
        got = {}
        for r in out:
            k = (tuple(r[len(dom):len(dom) + n]), r[-2])
            ensure(k not in got, f'{k} reported twice')
            got[k] = r[-1]
        ensure(got == bad, f'reported {got}, expected {bad}')
        with quiet():
            (s.delete_unmatched_quantities if c['what'] == 'unmatched' else s.delete_quantities_without_index)()
        a = H.snap(s)
        left = {(a['locs'][q[0]], a['attrs'][q[1]]['k']): q[2] for q in a['quants'].values()}
        ensure(left == {k: v for k, v in want.items() if k not in bad}, f'left {left} after removing {bad}')
        for k in ('index', 'struct', 'props', 'cols'):
            ensure(a[k] == o[k], f'{k} changed')
        # locations and attribute groups in use stay, with the same ids
        use_l, use_a = {q[0] for q in a['quants'].values()}, {q[1] for q in a['quants'].values()}
        for k, use in (('locs', use_l), ('attrs', use_a)):
            for i in use:
                ensure(a[k][i] == o[k][i], f'{k} {i} changed')
        ensure(set(a['attrs']) == use_a, f'attribute groups {a["attrs"]}, in use {use_a}')
        if c['what'] == 'noindex':
            ensure(set(a['locs']) == use_l, f'locations {a["locs"]}, in use {use_l}')
        else:
            for i, l in a['locs'].items():
                ensure(not unmatched(l), f'location {l} matches nothing but was kept')


@scenario('P21', 'locating functions', n=400)
class Functions:
    def gen(rng, i):
        n = rng.randint(1, 3)
        return {'n': n, 'index': rand_index(rng, n, rng.choice([0, 1, 3]), labels=['x', 'y', ' ']), 'part': rand_subset(rng, NAMES[:n]),
                'locs': sorted({tuple(rng.choice(['x', 'y', 'z', '', '-', ' ']) for _ in range(n)) for _ in range(rng.randint(1, 9))}), 'q': rng.random()}

    def check(c):
        n, cols = c['n'], NAMES[:c['n']]
        DS = lambda f: internal('toron.data_service', f)
        R = lambda f: internal('toron.dal1.repositories', f)
        s = make_space(cols, c['index'])
        rng = random.Random(c['q'])
        with quiet():
            try:
                s.add_partition_definition(set(c['part']))
            except Exception:
                pass
            with s._managed_transaction() as cur:
                ids = {tuple(l): R('LocationRepository')(cur).get_by_labels_add_if_missing(dict(zip(cols, l))).id for l in c['locs']}
                at = R('AttributeGroupRepository')(cur).get_by_value_add_if_missing({'k': 'p'}).id
                has = {l for l in ids if rng.random() < 0.5}
                for l in has:
                    R('QuantityRepository')(cur).add(ids[l], at, 1.0)
        st = set(H.struct_of(H.snap(s)))
        recs = [tuple(r) for r in c['index']] + [('-',) * n]
        noidx = {l for l in ids if not any(all(not x or x == y for x, y in zip(l, r)) for r in recs)}
        nost = {l for l in ids if frozenset(x for x, y in zip(cols, l) if y) not in st}
        with s._managed_cursor(n=3) as (c1, c2, c3):
            loc, idx, stc, qua = R('LocationRepository')(c1), R('IndexRepository')(c2), R('StructureRepository')(c3), R('QuantityRepository')(c3)
            f = lambda it: [tuple(x.labels) for x in it]
            for name, got, want in (
                    ('find_locations_without_index', lambda: DS('find_locations_without_index')(location_repo=loc, aux_index_repo=idx), noidx),
                    ('find_nonmatching_locations', lambda: DS('find_nonmatching_locations')(location_repo=loc, structure_repo=stc, aux_index_repo=idx), noidx | nost),
                    ('find_locations_without_quantity', lambda: DS('find_locations_without_quantity')(location_repo=loc, alt_quantity_repo=qua), set(ids) - has)):
                g = f(got())
                ensure(len(g) == len(set(g)) and set(g) == want, f'{name} gives {g}, expected {sorted(want)}')
            g = f(DS('find_locations_without_structure')(location_repo=loc, structure_repo=stc))
            ensure(len(g) == len(set(g)) and set(g) == nost, f'find_locations_without_structure gives {g}, expected {sorted(nost)}')
            d = DS('count_nonmatching_locations')(location_repo=loc, structure_repo=stc, aux_index_repo=idx)
            w = {'structure_and_index': len(noidx & nost), 'structure': len(nost - noidx), 'index': len(noidx - nost)}
            ensure(d == w, f'count_nonmatching_locations gives {d}, expected {w}')
