from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P16', 'histories with merges', H.INDEX_OPS + ['update_index'] * 6 + ['insert_weights', 'insert_mappings2', 'insert_mappings'],
        ['proportions', 'links', 'weights', 'refs', 'hash'], parts=('index', 'weights', 'maps'), only=('update_index',), n=2500, maps=1.0, weights=1.0)


@scenario('P16', 'totals and untouched records of a merge', n=700)
class Merge:
    """one call merging several records into one or two survivors, with many links, levels and groups"""
    def gen(rng, i):
        n = rng.randint(2, 6)
        v = lambda: rng.choice([0, 1.0, rng.random(), rng.random() * 1e6, 0.1, 1 / 3])
        maps = []
        for l in range(2):
            for o in range(4):
                for x in range(n + 1):
                    if rng.random() < 0.5:
                        maps.append([l, o, x, rng.choice([[1, 1], [1, 1], [1, 0]]), v()])
        k = rng.randint(1, n - 1)
        order = list(range(1, n + 1)); rng.shuffle(order)
        return {'n': n, 'w': [[v() if rng.random() < 0.8 else None for _ in range(n)] for _ in range(2)], 'maps': maps, 'keep': order[0],
                'gone': order[1:1 + k], 'split': rng.random() < 0.3, 'rename': rng.random() < 0.3, 'dicts': rng.random() < 0.2}

    def check(c):
        n = c['n']
        lab = {i: [f'a{i}', 'b'] for i in range(1, n + 1)}
        s, other = make_space(['A', 'B'], list(lab.values()), [['A']]), DataSpace()
        with quiet():
            other.add_index_columns('S')
            other.insert_index([[f's{i}'] for i in range(4)], columns=['S'])
            for g, w in enumerate(c['w']):
                s.add_weight_group(f'g{g}')
                rows_ = [lab[i + 1] + [x] for i, x in enumerate(w) if x is not None]
                if rows_:
                    s.insert_weights(f'g{g}', rows_, columns=['A', 'B', f'g{g}'])
            for l in range(2):
                s.add_link(other, f'L{l}')
                rows_ = [[o, x, H.to_level(lev), v] for k, o, x, lev, v in c['maps'] if k == l and (o or x)]
                if rows_:
                    s.insert_mappings2(other, f'L{l}', rows_, columns=['other_index_id', 'index_id', 'mapping_level', f'L{l}'])
        b = H.snap(s)
        data = [[c['keep']] + lab[x] for x in c['gone']]
        if c['rename']:
            data.append([c['keep'], 'new', 'b'])
        cols = ['index_id', 'A', 'B']
        with quiet():
            for part in ([[r] for r in data] if c['split'] else [data]):
                if c['dicts']:
                    s.update_index([dict(zip(cols, r)) for r in part], merge_on_conflict=True)
                else:
                    s.update_index(part, columns=cols, merge_on_conflict=True)
        a = H.snap(s)
        K, gone = c['keep'], set(c['gone'])
        R = lambda i: K if i in gone else i
        ensure(set(a['index']) == set(b['index']) - gone, f'records {sorted(a["index"])}')
        ensure(a['index'][K] == (('new', 'b') if c['rename'] else tuple(lab[c['gone'][-1]])), f'labels of the survivor {a["index"][K]}')
        w = {}
        for (g, i), v in b['weights'].items():
            w[g, R(i)] = w.get((g, R(i)), 0) + v
        ensure(set(a['weights']) == set(w), f'weights {a["weights"]}, expected {w}')
        for k in w:
            ensure(close(a['weights'][k], w[k]), f'weight {k} is {a["weights"][k]}, expected {w[k]}')
        m = {}
        for (l, o, i, lev), (v, p) in b['maps'].items():
            x = m.get((l, o, R(i), lev), (0, 0))
            m[l, o, R(i), lev] = (x[0] + v, x[1] + (p or 0))
        ensure(set(a['maps']) == set(m), f'mappings {sorted(a["maps"])}, expected {sorted(m)}')
        for k in m:
            v, p = a['maps'][k]
            ensure(close(v, m[k][0]) and abs((p or 0) - m[k][1]) < 1e-9, f'mapping {k} is {(v, p)}, expected {m[k]}')
        H.inv_links(a); H.inv_weights(a); H.inv_hash(a)
