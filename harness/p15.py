from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P15', 'histories of weight and index operations', H.WEIGHT_OPS * 2 + H.INDEX_OPS, ['weights'], parts=('weights', 'groups', 'default'), n=2500, maps=0.2)
history('P15', 'long histories', H.WEIGHT_OPS + H.INDEX_OPS + H.COLUMN_OPS, ['weights'], parts=('weights', 'groups', 'default'), n=250, length=(10, 25), maps=0.1)


@scenario('P15', 'final weights do not depend on batching', n=500)
class Batching:
    """the same rows loaded in one call, one by one, or in chunks, by labels or by id; reference fold by conflict mode"""
    def gen(rng, i):
        n = rng.randint(1, 4)
        rows_ = [[rng.randrange(n), rng.choice([0, 1.5, 2, rng.random() * 9])] for _ in range(rng.randint(1, 9))]
        cuts = sorted(rng.randrange(len(rows_) + 1) for _ in range(rng.randint(0, 3)))
        return {'n': n, 'rows': rows_, 'cuts': cuts, 'mode': rng.choice(['ignore', 'replace', 'sum']), 'pre': [rng.choice([None, 3.0]) for _ in range(n)],
                'by_id': rng.random() < 0.5, 'dicts': rng.random() < 0.3}

    def check(c):
        ref = {i: v for i, v in enumerate(c['pre']) if v is not None}
        for i, w in c['rows']:
            if i not in ref:
                ref[i] = w
            elif c['mode'] == 'replace':
                ref[i] = w
            elif c['mode'] == 'sum':
                ref[i] += w
        outs = []
        b = [0] + c['cuts'] + [len(c['rows'])]
        for chunks in ([c['rows']], [[r] for r in c['rows']], [c['rows'][x:y] for x, y in zip(b, b[1:])]):
            s = make_space(['A', 'B'], [[f'a{i}', 'b'] for i in range(c['n'])])
            with quiet():
                s.add_weight_group('w')
                pre = [[f'a{i}', 'b', v] for i, v in enumerate(c['pre']) if v is not None]
                if pre:
                    s.insert_weights('w', pre, columns=['A', 'B', 'w'])
                for ch in chunks:
                    if not ch:
                        continue
                    if c['by_id']:
                        data = [[i + 1, f'a{i}', 'b', w] for i, w in ch]
                        cols = ['index_id', 'A', 'B', 'w']
                    else:
                        data = [[f'a{i}', 'b', w] for i, w in ch]
                        cols = ['A', 'B', 'w']
                    if c['dicts']:
                        s.insert_weights('w', [dict(zip(cols, r)) for r in data], on_conflict=c['mode'])
                    else:
                        s.insert_weights('w', data, columns=cols, on_conflict=c['mode'])
            o = H.snap(s)
            H.inv_weights(o)
            outs.append({i - 1: v for (g, i), v in o['weights'].items()})
        for o in outs:
            ensure(set(o) == set(ref) and all(close(o[i], ref[i]) for i in ref), f'weights {o}, expected {ref} ({c["mode"]})')


@scenario('P15', 'conflict resolution of one weight', n=400)
class Resolve:
    """the repository's own contract: result label, stored value, other weights untouched"""
    def gen(rng, i):
        return {'old': rng.choice([None, 0.0, 2.5]), 'new': rng.choice([0.0, 1.25, 4]), 'mode': rng.choice(['abort', 'ignore', 'replace', 'sum'])}

    def check(c):
        Repo = internal('toron.dal1.repositories', 'WeightRepository')
        internal('toron.data_models', 'BaseWeightRepository.add_or_resolve')
        s = make_space(['A'], [['x'], ['y']])
        with quiet():
            s.add_weight_group('w')
            s.add_weight_group('v')
            s.insert_weights('w', [['y', 7.0]], columns=['A', 'w'])
            s.insert_weights('v', [['x', 5.0], ['y', 6.0]], columns=['A', 'v'])
            if c['old'] is not None:
                s.insert_weights('w', [['x', c['old']]], columns=['A', 'w'])
        before = H.snap(s)['weights']
        err = res = None
        with quiet(), s._managed_transaction() as cur:
            try:
                res = Repo(cur).add_or_resolve(1, 1, c['new'], on_conflict=c['mode'])
            except Exception as e:
                err = e
        after = H.snap(s)['weights']
        want = dict(before)
        wlabel = 'inserted'
        if c['old'] is None:
            want[(1, 1)] = c['new']
        elif c['mode'] == 'abort':
            ensure(err is not None, 'second weight accepted in abort mode')
            ensure(after == before, 'abort changed the weights')
            return
        else:
            want[(1, 1)] = {'ignore': c['old'], 'replace': c['new'], 'sum': c['old'] + c['new']}[c['mode']]
            wlabel = {'ignore': 'skipped', 'replace': 'overwritten', 'sum': 'summed'}[c['mode']]
        ensure(err is None, f'{err!r}')
        ensure(after == want, f'weights {after}, expected {want}')
        ensure(res == wlabel, f'reported {res!r}, expected {wlabel!r}')


@scenario('P15', 'the default weight group', n=200)
class Default:
    def gen(rng, i):
        return {'ops': [[rng.choice(['add', 'add', 'drop', 'set', 'edit']), rng.choice('abc'), rng.choice([None, True, False])] for _ in range(rng.randint(1, 8))]}

    def check(c):
        s = make_space(['A'], [['x'], ['y']])
        default, groups = None, []
        for op, name, flag in c['ops']:
            with quiet():
                if op == 'add' and name not in groups:
                    s.add_weight_group(name, make_default=flag)
                    if flag or (flag is None and not groups):
                        default = name
                    groups.append(name)
                elif op == 'drop' and name in groups:
                    s.drop_weight_group(name)
                    groups.remove(name)
                    if default == name:
                        default = None
                elif op == 'set' and name in groups:
                    s.set_default_weight_group(s.get_weight_group(name))
                    default = name
                elif op == 'edit' and name in groups:
                    s.edit_weight_group(name, description='d')
            try:
                g = s.get_default_weight_group().name if groups else None
            except Exception:
                g = None
            ensure(g == default, f'default weight group {g}, expected {default} after {op} {name}')
            ensure(sorted(x.name for x in s.weight_groups) == sorted(groups) if hasattr(s, 'weight_groups') else True, 'groups differ')
