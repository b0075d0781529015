from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P04', 'histories of mapping operations', H.MAP_OPS * 2 + H.INDEX_OPS, ['proportions', 'links', 'refs'], parts=('maps', 'links'), n=2500, maps=1.0)
history('P04', 'long histories', H.MAP_OPS + H.INDEX_OPS + H.COLUMN_OPS, ['proportions', 'links', 'refs'], parts=('maps', 'links'), n=300,
        length=(10, 25), maps=1.0)


def two_spaces(nsrc, ntrg):
    a, b = DataSpace(), DataSpace()
    with quiet():
        a.add_index_columns('S'); b.add_index_columns('T')
        a.insert_index([[f's{i}'] for i in range(nsrc)], columns=['S'])
        b.insert_index([[f't{i}'] for i in range(ntrg)], columns=['T'])
        a.add_weight_group('w'); b.add_weight_group('w')
    return a, b


@scenario('P04', 'proportions of arbitrary values', n=600)
class Values:
    """one link, arbitrary magnitudes and orders of the values: share = value / total, equal shares for a zero total"""
    def gen(rng, i):
        n = rng.randint(1, 6)
        mag = rng.choice([1, 1e-300, 1e-12, 1e12, 1e150])
        rows = [[rng.randint(0, 3), rng.randint(0, n), rng.choice([0, rng.random() * mag, float(rng.randrange(5)), mag])] for _ in range(rng.randint(1, 10))]
        seen, out = set(), []
        for r in rows:
            if tuple(r[:2]) not in seen:
                seen.add(tuple(r[:2])); out.append(r)
        return {'n': n, 'rows': out, 'cut': rng.randrange(len(out) + 1)}

    def check(c):
        a, b = two_spaces(3, c['n'])
        with quiet():
            b.add_link(a, 'L')
            lev = H.to_level([1])
            for part in (c['rows'][:c['cut']], c['rows'][c['cut']:]):
                if part:
                    b.insert_mappings2(a, 'L', [r[:2] + [lev, r[2]] for r in part], columns=['other_index_id', 'index_id', 'mapping_level', 'L'])
        o = H.snap(b)
        H.inv_proportions(o)
        H.inv_links(o)
        got = {k[1:3]: v[0] for k, v in o['maps'].items()}
        want = {tuple(r[:2]): r[2] for r in c['rows'] if tuple(r[:2]) != (0, 0)}
        ensure(got == want, f'stored {got}, given {want}')


@scenario('P04', 'mappings imported from a mapper', n=250)
class Imported:
    def gen(rng, i):
        na, nb = rng.randint(1, 5), rng.randint(1, 5)
        rows = [[f's{rng.randrange(na + 1)}', rng.choice([0, 1.0, 2.5, rng.random() * 10]), f't{rng.randrange(nb + 1)}'] for _ in range(rng.randint(1, 8))]
        return {'na': na, 'nb': nb, 'rows': rows, 'dir': rng.choice(['->', '<-', '<->'])}

    def check(c):
        load_mapping = internal('toron.graph', 'load_mapping')
        a, b = two_spaces(c['na'], c['nb'])
        try:
            with quiet():
                load_mapping(a, c['dir'], b, 'L', [list(r) for r in c['rows']], columns=['S', 'L', 'T'])
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError, ImportError)):
                raise Skip(f'load_mapping: {e!r}')
            raise Trivial()
        for s in (a, b):
            o = H.snap(s)
            H.inv_proportions(o)
            H.inv_links(o)
