import itertools
from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P10', 'histories of index, column and partition operations', H.INDEX_OPS + H.COLUMN_OPS + ['add_partition'], ['granularity', 'structure'], spec=False, n=2000,
        maps=0.3, weights=0.3)


@scenario('P10', 'both calculations equal the entropy', n=500)
class Calc:
    def gen(rng, i):
        nc = rng.randint(1, 4)
        return {'cols': rng.sample(NAMES[:4] + HOSTILE[:12], nc),
                'rows': rand_index(rng, nc, rng.choice([0, 1, 2, 5, 9, 20]), labels=['x', 'y', 'z', 'w'][:rng.randint(2, 4)])}

    def check(c):
        slow = internal('toron.data_service', 'calculate_granularity')
        fast = internal('toron.dal1.optimizations', 'calculate_granularity')
        Repo = internal('toron.dal1.repositories', 'IndexRepository')
        s = make_space(c['cols'], c['rows'])
        N = len(c['rows'])
        got = {}
        for r in range(len(c['cols']) + 1):
            for sub in itertools.combinations(range(len(c['cols'])), r):
                names = [c['cols'][j] for j in sub]
                with s._managed_cursor(n=2) as (c1, c2):
                    vals = [f(list(names), Repo(c1), Repo(c2)) for f in (slow, fast)]
                groups = {}
                for row in c['rows']:
                    k = tuple(row[j] for j in sub)
                    groups[k] = groups.get(k, 0) + 1
                want = entropy(groups.values(), N) if sub and N else None
                for which, v in zip(('plain', 'SQL'), vals):
                    ensure((v is None) == (want is None) and (v is None or abs(v - want) < 1e-9), f'{which} granularity of {names} is {v}, expected {want}')
                if want is not None:
                    ensure(-1e-9 <= vals[0] <= math.log2(N) + 1e-9, f'granularity {vals[0]} of {N} records')
                    got[frozenset(sub)] = vals[0]
        for a in got:
            for b in got:
                ensure(not a <= b or got[a] <= got[b] + 1e-9, f'granularity decreases when labels are added: {a}: {got[a]}, {b}: {got[b]}')


@scenario('P10', 'stored granularity after each kind of change', n=150)
class Stored:
    """changes made through a file and through every loading interface keep the structure table current"""
    def gen(rng, i):
        rows_ = rand_index(rng, 3, rng.randint(2, 12), ['x', 'y', 'z'])
        return {'rows': rows_, 'cut': rng.randrange(len(rows_) + 1), 'parts': [rand_subset(rng, ['A', 'B', 'C']) for _ in range(2)], 'file': rng.random() < 0.3,
                'change': rng.choice(['delete', 'merge', 'drop', 'rename', 'relabel', 'insert', 'none'])}

    def check(c):
        s = make_space(['A', 'B', 'C'], c['rows'][:c['cut']])
        with quiet():
            for p in c['parts']:
                try:
                    s.add_partition_definition(set(p))
                except Exception:
                    pass
        H.inv_granularity(H.snap(s))
        if c['file']:
            p = os.path.join(scratch(), 'f.toron')
            s.to_file(p)
            s = toron.read_file(p)
        with quiet():
            if c['rows'][c['cut']:]:
                s.insert_index(c['rows'][c['cut']:], columns=['A', 'B', 'C'])
            r = c['rows'][0]
            i = ids_of(s, None)[tuple(r)]
            try:
                if c['change'] == 'delete':
                    s.delete_index(A=r[0])
                elif c['change'] == 'merge':
                    s.update_index([[i] + c['rows'][-1]], columns=['index_id', 'A', 'B', 'C'], merge_on_conflict=True)
                elif c['change'] == 'drop':
                    s.drop_index_columns('C')
                elif c['change'] == 'rename':
                    s.rename_label_column('B', 'Z')
                elif c['change'] == 'relabel':
                    s.insert_index([[i, 'new', 'new', r[2]]], columns=['index_id', 'A', 'B', 'C'], on_label_conflict='replace')
                elif c['change'] == 'insert':
                    s.insert_index([['p', 'q', 'r']], columns=['A', 'B', 'C'])
            except Exception:
                pass
        o = H.snap(s)
        H.inv_granularity(o)
        H.inv_structure(o)
