from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P17', 'histories with deletions', H.INDEX_OPS + ['delete_index'] * 8 + ['insert_weights', 'insert_mappings2', 'insert_mappings', 'reify'],
        ['proportions', 'links', 'weights', 'refs', 'hash', 'granularity'], parts=('index', 'weights', 'maps', 'quants', 'groups', 'links'), only=('delete_index',),
        n=2500, maps=1.0, weights=1.0, quants=0.3)


@scenario('P17', 'deleting any subset of records', n=500)
class Subset:
    def gen(rng, i):
        n = rng.randint(1, 6)
        maps = [[o, x, rng.random() < 0.95, rng.choice([0, 1.0, rng.random() * 9])] for o in range(4) for x in range(n + 1) if (o or x) and rng.random() < 0.5]
        return {'n': n, 'w': [rng.random() < 0.7 for _ in range(n)], 'maps': maps, 'gone': [x for x in range(0 if rng.random() < .1 else 1, n + 1) if rng.random() < 0.4],
                'how': rng.choice(['rows', 'dicts', 'one by one', 'criteria']), 'dup': rng.random() < 0.1}

    def check(c):
        n = c['n']
        lab = {i: [f'a{i}', 'b' if i % 2 else 'c'] for i in range(1, n + 1)}
        lab[0] = ['-', '-']
        s, other = make_space(['A', 'B'], [lab[i] for i in range(1, n + 1)], [['A']]), DataSpace()
        with quiet():
            other.add_index_columns('S')
            other.insert_index([[f's{i}'] for i in range(4)], columns=['S'])
            s.add_weight_group('g')
            rows_ = [lab[i + 1] + [float(i)] for i, x in enumerate(c['w']) if x]
            if rows_:
                s.insert_weights('g', rows_, columns=['A', 'B', 'g'])
            s.add_link(other, 'L')
            rows_ = [[o, x, H.to_level([1, 1] if full else [1, 0]), v] for o, x, full, v in c['maps']]
            if rows_:
                s.insert_mappings2(other, 'L', rows_, columns=['other_index_id', 'index_id', 'mapping_level', 'L'])
        b = H.snap(s)
        gone = set(c['gone'])
        cols = ['index_id', 'A', 'B']
        data = [[i] + lab[i] for i in c['gone']]
        if c['dup'] and data:
            data.append(data[0])
        err = None
        if c['how'] == 'criteria':
            gone = {i for i in lab if lab[i][1] == 'b'}
        bad = 0 in gone or any(x in gone and not full for o, x, full, v in c['maps'])
        if c['how'] == 'one by one' and bad:
            raise Trivial()
        if not data and c['how'] in ('rows', 'dicts'):
            try:
                with quiet():
                    s.delete_index(data, **({'columns': cols} if c['how'] == 'rows' else {}))
            except Exception:
                pass
            ensure(H.snap(s) == b, f'an empty table of records removed {set(b["index"]) - set(H.snap(s)["index"])}')
            return
        try:
            with quiet():
                if c['how'] == 'criteria':
                    s.delete_index(B='b')
                elif c['how'] == 'rows':
                    s.delete_index(data, columns=cols)
                elif c['how'] == 'dicts':
                    s.delete_index([dict(zip(cols, r)) for r in data])
                else:
                    for r in data:
                        s.delete_index([r], columns=cols)
        except Exception as e:
            err = e
        a = H.snap(s)
        if bad:
            ensure(err is not None and a == b, f'must be refused unchanged: {err!r}')
            return
        ensure(err is None, f'refused: {err!r}')
        ensure(a['index'] == {i: l for i, l in b['index'].items() if i not in gone}, f'records {a["index"]} after deleting {gone}')
        ensure(a['weights'] == {k: v for k, v in b['weights'].items() if k[1] not in gone}, f'weights {a["weights"]}')
        ensure({k: v[0] for k, v in a['maps'].items()} == {k: v[0] for k, v in b['maps'].items() if k[2] not in gone}, f'mappings {a["maps"]}')
        for k in ('groups', 'links'):
            ensure(set(a[k]) == set(b[k]), f'{k} changed')
        for f in ('proportions', 'links', 'weights', 'hash', 'granularity', 'refs'):
            H.ALL_INV[f](a)
