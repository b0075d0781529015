import itertools
from harness.core import *
from harness.common import *
from harness import hist as H
from harness.oracle import minimal
from harness.histscn import history

history('P09', 'histories of column and partition operations', H.COLUMN_OPS * 2 + ['add_partition'] * 4 + ['insert_index', 'insert_quantities', 'insert_mappings2'],
        ['structure'], parts=('defs', 'cols'), n=1500)


def unions(defs):
    out = {frozenset()}
    for d in defs:
        out |= {x | frozenset(d) for x in out}
    return out


FAMILIES = None


def families():
    """every family of at most 3 different subsets of 3 columns, in every order, and every family without regard to order"""
    subs = [list(c) for r in range(4) for c in itertools.combinations('ABC', r)]
    out = []
    for r in range(4):
        out += [{'defs': list(f)} for f in itertools.permutations(subs, r)]
    for r in range(4, 9):
        out += [{'defs': list(f)} for f in itertools.combinations(subs, r)]
    return out


@scenario('P09', 'structure and minimal set of a family', n=500, cases=families)
class Families:
    def gen(rng, i):
        cols = 'ABCDEFG'[:rng.randint(2, 7)]
        return {'defs': [rand_subset(rng, cols, empty=rng.random() < 0.1) for _ in range(rng.randint(0, 7))]}

    def check(c):
        make = internal('toron.partitions', 'make_structure')
        mini = internal('toron.partitions', 'find_minimal_partition_generating_set')
        defs = [set(d) for d in c['defs']]
        given = [set(d) for d in defs]
        st = make(defs)
        ensure(defs == given, 'definitions changed in place')
        fs = [frozenset(x) for x in st]
        ensure(len(set(fs)) == len(fs), f'{st} lists a partition twice')
        ensure(set(fs) == unions(defs), f'structure of {defs} is {st}')
        for k in {0, len(defs), len(defs) // 2}:
            g = mini(defs[:k], defs[k:])
            ensure(defs == given, 'definitions changed in place')
            ensure(unions(g) == unions(defs), f'{g} does not generate the structure of {defs}')
            for j in range(len(g)):
                ensure(frozenset(g[j]) not in unions(g[:j] + g[j + 1:]), f'{g} (from {defs}) contains {g[j]}, the union of other members')


@scenario('P09', 'definitions added several at a time', n=300)
class Several:
    def gen(rng, i):
        cols = ['A', 'B', 'C', 'D'][:rng.randint(1, 4)]
        return {'cols': cols, 'steps': [[rand_subset(rng, cols) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))],
                'drop': rng.random() < 0.4, 'n': rng.randint(0, 3), 'bad': rng.random() < 0.1, 'k': rng.randrange(10)}

    def check(c):
        s = make_space(c['cols'], [['x%d' % i] * len(c['cols']) for i in range(c['n'])])
        defs = {frozenset(c['cols'])}

        def look():
            o = H.snap(s)
            H.inv_structure(o)
            H.inv_granularity(o)
            ensure({frozenset(x) for x in s.partition_definitions} == defs, f'{s.partition_definitions}, expected {defs}')
            return o
        look()
        for st in c['steps']:
            with quiet():
                s.add_partition_definitions(*[set(d) for d in st])
            defs = minimal(defs | {frozenset(d) for d in st})
            o = look()
            for d in st:
                ensure(frozenset(d) in H.struct_of(o), f'definition {d} is not in the structure')
        if c['bad']:
            before = dump(s)
            try:
                with quiet():
                    s.add_partition_definitions({c['cols'][0]}, {'no such column'})
                raise Violation('unknown column accepted in a partition definition')
            except Violation:
                raise
            except Exception:
                pass
            ensure(dump(s) == before, 'refused definition changed the store')
        if c['drop']:
            ds = sorted(defs, key=sorted)
            d = [ds[c['k'] % len(ds)]] + ([ds[(c['k'] + 1) % len(ds)]] if c['k'] % 3 == 0 else [])
            try:
                with quiet():
                    s.drop_partition_definitions(*[set(x) for x in d])
                ensure(frozenset(c['cols']) not in d, 'whole set of columns dropped')
                defs = minimal((defs - set(d)) | {frozenset(c['cols'])})
            except ValueError:
                ensure(frozenset(c['cols']) in d, f'drop of {d} refused')
            look()
