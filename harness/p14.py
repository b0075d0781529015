from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P14', 'histories of index and column operations', H.INDEX_OPS * 2 + H.COLUMN_OPS, ['index', 'hash', 'refs'], parts=('index', 'cols'), n=2000)
history('P14', 'histories with mappings and weights', H.INDEX_OPS + H.MAP_OPS + H.WEIGHT_OPS, ['index', 'hash'], parts=('index', 'cols'), n=600)


@scenario('P14', 'hash of a sequence of ids', n=400)
class Hashes:
    def gen(rng, i):
        ids = sorted({rng.choice([rng.randrange(10), rng.randrange(10**6), rng.randrange(2**63)]) for _ in range(rng.randrange(8))})
        bad = rng.random() < 0.3
        return {'ids': ids, 'pos': rng.randrange(len(ids) + 1), 'bad': rng.choice(['dup', 'down', 'neg', 'big']) if bad else None}

    def check(c):
        SH = internal('toron._utils', 'SequenceHash')
        ids = list(c['ids'])
        h = SH(ids)
        ensure(h.get_hexdigest() == H.seqhash(ids), f'hash of {ids}')
        h2 = SH()
        for i in ids:
            h2.add_value(i)
        ensure(h2.get_hexdigest() == h.get_hexdigest(), 'incremental hash differs')
        ensure(SH(iter(ids)).get_hexdigest() == h.get_hexdigest(), 'hash of an iterator differs')
        if c['bad']:
            x = {'dup': ids[-1] if ids else -1, 'down': ids[-1] - 1 if ids else -1, 'neg': -1, 'big': 2**64}[c['bad']]
            before = h.get_hexdigest()
            try:
                h.add_value(x)
            except ValueError:
                ensure(h.get_hexdigest() == before, 'refused value changed the hash')
                return
            raise Violation(f'{x} accepted after {ids}')


@scenario('P14', 'equal id sets give equal hashes', n=150)
class SameSet:
    """two dataspaces that reach the same ids by different histories"""
    def gen(rng, i):
        n = rng.randint(2, 9)
        keep = sorted(x for x in range(1, n + 1) if rng.random() < 0.6)
        o1, o2 = [x for x in range(1, n + 1) if x not in keep], [x for x in range(1, n + 1) if x not in keep]
        rng.shuffle(o1); rng.shuffle(o2)
        return {'n': n, 'keep': keep, 'o1': o1, 'o2': o2, 'split': rng.randrange(n + 1), 'bulk': rng.random() < 0.5, 'merge': rng.random() < 0.4}

    def check(c):
        hs = []
        for k, order in enumerate((c['o1'], c['o2'])):
            s = DataSpace()
            with quiet():
                s.add_index_columns('A', 'B')
                rows_ = [[f'a{i}', str(k)] for i in range(1, c['n'] + 1)]
                for part in (rows_[:c['split'] * k], rows_[c['split'] * k:]):
                    if part:
                        s.insert_index(part, columns=['A', 'B'])
                if k and c['merge'] and c['keep']:
                    for x in order:
                        s.update_index([[c['keep'][0], f'a{x}', '1']], columns=['index_id', 'A', 'B'], merge_on_conflict=True)
                elif c['bulk'] and order:
                    s.delete_index([[x] + rows_[x - 1] for x in order], columns=['index_id', 'A', 'B'])
                else:
                    for x in order:
                        s.delete_index(A=f'a{x}')
            o = H.snap(s)
            ensure(sorted(o['index']) == [0] + c['keep'], f'ids {sorted(o["index"])}, expected {c["keep"]}')
            hs.append(o['props'].get('index_hash'))
        ensure(hs[0] == hs[1] == H.seqhash([0] + c['keep']), f'{hs} for ids {c["keep"]}')


@scenario('P14', 'the undefined record is protected', n=60)
class Undefined:
    def gen(rng, i):
        return {'n': rng.randint(0, 3), 'what': rng.choice(['delete_repo', 'update_repo', 'delete_index', 'delete_crit', 'update_index', 'replace', 'insert', 'merge'])}

    def check(c):
        s = DataSpace()
        with quiet():
            s.add_index_columns('A', 'B')
            if c['n']:
                s.insert_index([[f'a{i}', 'b'] for i in range(c['n'])], columns=['A', 'B'])
        before = dump(s)
        w = c['what']
        try:
            with quiet():
                if w in ('delete_repo', 'update_repo'):
                    IndexRepo = internal('toron.dal1.repositories', 'IndexRepository')
                    Index = internal('toron.data_models', 'Index')
                    with s._managed_transaction() as cur:
                        repo = IndexRepo(cur)
                        if w == 'delete_repo':
                            repo.delete(0)
                        else:
                            repo.update(Index(0, 'q', 'r'))
                elif w == 'delete_index':
                    s.delete_index([[0, '-', '-']], columns=['index_id', 'A', 'B'])
                elif w == 'delete_crit':
                    s.delete_index(A='-', B='-')
                elif w == 'update_index':
                    s.update_index([[0, 'q', 'r']], columns=['index_id', 'A', 'B'])
                elif w == 'replace':
                    s.insert_index([[0, 'q', 'r']], columns=['index_id', 'A', 'B'], on_label_conflict='replace')
                elif w == 'insert':
                    s.insert_index([['-', '-']], columns=['A', 'B'])
                elif w == 'merge':
                    if not c['n']:
                        raise Trivial()
                    s.update_index([[1, '-', '-']], columns=['index_id', 'A', 'B'], merge_on_conflict=True)
        except Trivial:
            raise
        except Skip:
            raise
        except Exception:
            pass
        after = dump(s)
        ensure(H.snap(s)['index'][0] == ('-', '-'), f'undefined record changed by {w}')
        if w not in ('insert', 'merge'):
            ensure(after == before, f'{w} of the undefined record changed the store')


@scenario('P14', 'dataspaces without records', n=40)
class Empty:
    def gen(rng, i):
        return {'steps': rng.sample(['columns', 'domain', 'partition', 'file', 'refused', 'emptied'], i % 5)}

    def check(c):
        s = DataSpace()
        H.ALL_INV['hash'](H.snap(s))
        for x in c['steps']:
            with quiet():
                try:
                    if x == 'columns':
                        s.add_index_columns('A', 'B')
                    elif x == 'domain':
                        s.set_domain('d')
                    elif x == 'partition':
                        s.add_partition(s.index_columns[0])
                    elif x == 'file':
                        import os
                        from toron import read_file
                        p = os.path.join(scratch(), 'e.toron')
                        s.to_file(p)
                        s = read_file(p)
                    elif x == 'refused':
                        s.insert_index([['a', ''], ['b', 'c']], columns=['A', 'B'])
                    else:
                        s.insert_index([['a', 'x'], ['b', 'c']], columns=['A', 'B'])
                        s.delete_index(A='a')
                        s.delete_index(A='b')
                except Exception:
                    pass
            H.ALL_INV['hash'](H.snap(s))
