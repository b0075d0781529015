from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P23', 'histories of renaming, reordering and dropping columns', ['order', 'order', 'rename_column', 'rename_column', 'drop_column', 'add_column', 'add_partition', 'insert_index',
        'insert_quantities', 'insert_mappings2'], ['structure', 'index', 'refs'], parts=('index', 'cols', 'order', 'defs', 'weights', 'maps', 'quants'),
        only=('order', 'rename_column', 'drop_column'), n=2500, quants=0.5)


def moved(seq, e, off):
    p = seq.index(e)
    q = min(max(p + off, 0), len(seq) - 1)
    out = [x for x in seq if x != e]
    return out[:q] + [e] + out[q:]


def order_cases():
    out = []
    for n in range(1, 7):
        seq = list('ABCDEF'[:n])
        for p in range(n):
            for off in list(range(-n - 2, n + 3)) + [100, -100, 10**9]:
                out.append({'seq': seq, 'e': seq[p], 'off': off})
    return out


@scenario('P23', 'moving an element', n=0, cases=order_cases)
class Move:
    def check(c):
        f = internal('toron.data_service', 'change_element_order')
        given = list(c['seq'])
        got = f(given, c['e'], offset=c['off'])
        ensure(list(got) == moved(c['seq'], c['e'], c['off']), f'{c} gives {got}')
        ensure(given == c['seq'], 'argument changed in place')
        try:
            f(given, 'missing', offset=c['off'])
        except Exception:
            return
        raise Violation('missing element accepted')


@scenario('P23', 'display order of labels and attributes', n=400)
class Display:
    def gen(rng, i):
        n = rng.randint(1, 5)
        return {'cols': rng.sample(NAMES + HOSTILE[:6], n), 'rows': rand_index(rng, n), 'attrs': rng.sample(['k', 'm', 'my attr', 'q"u', "q'"], rng.randint(1, 5)),
                'ops': [[rng.choice(['label', 'label', 'attr', 'rename', 'renames', 'add', 'drop', 'drop2']), rng.randrange(9), rng.randrange(9), rng.choice([-9, -2, -1, 0, 1, 2, 9])]
                        for _ in range(rng.randint(1, 7))]}

    def check(c):
        s = make_space(c['cols'], c['rows'])
        with quiet():
            s.set_registered_attributes(c['attrs'])
        cols, disp, attrs = list(c['cols']), None, list(c['attrs'])
        recs = {tuple(r[1:]): r[0] for r in s.select_index() if r[0]}
        recs = {i: dict(zip(cols, l)) for l, i in recs.items()}
        fresh = 0
        for op, a, b, off in c['ops']:
            x, y = cols[a % len(cols)], attrs[a % len(attrs)]
            cur = [z for z in (disp or [])] + [z for z in cols if z not in (disp or [])]
            with quiet():
                if op == 'label':
                    s.change_label_order(x, off)
                    disp = moved(cur, x, off)
                elif op == 'attr':
                    s.change_attribute_order(y, off)
                    attrs = moved(attrs, y, off)
                elif op in ('rename', 'renames'):
                    fresh += 1
                    ren = {x: f'new {fresh}'}
                    if op == 'renames' and len(cols) > 1:
                        z = cols[(a + 1) % len(cols)]
                        ren[z] = f'new"{fresh}'
                    if op == 'rename':
                        s.rename_label_column(x, ren[x])
                    else:
                        s.rename_index_columns(ren)
                    cols = [ren.get(z, z) for z in cols]
                    disp = disp and [ren.get(z, z) for z in disp]
                    recs = {i: {ren.get(k, k): v for k, v in d.items()} for i, d in recs.items()}
                elif op == 'add':
                    fresh += 1
                    s.add_index_columns(f'add {fresh}')
                    cols.append(f'add {fresh}')
                    for d in recs.values():
                        d[f'add {fresh}'] = '-'
                elif op in ('drop', 'drop2'):
                    gone = {x} if op == 'drop' else {x, cols[b % len(cols)]}
                    keep = [z for z in cols if z not in gone]
                    left = [tuple(d[z] for z in keep) for d in recs.values()]
                    ok = bool(keep) and len(set(left)) == len(left) and ('-',) * len(keep) not in left
                    before = dump(s)
                    try:
                        s.drop_index_columns(*sorted(gone))
                        ensure(ok, f'dropping {gone} accepted')
                    except Violation:
                        raise
                    except Exception as e:
                        ensure(not ok, f'dropping {gone} refused: {e!r}')
                        ensure(dump(s) == before, 'refused drop changed the store')
                        continue
                    cols = keep
                    disp = disp and [z for z in disp if z not in gone]
                    recs = {i: {k: v for k, v in d.items() if k not in gone} for i, d in recs.items()}
            want = [z for z in (disp or [])] + [z for z in cols if z not in (disp or [])]
            ensure(list(s.get_label_columns()) == want, f'after {op}: display order {s.get_label_columns()}, expected {want}')
            ensure(list(s.index_columns) == cols, f'after {op}: columns {s.index_columns}, expected {cols}')
            ensure(list(s.get_registered_attributes()) == attrs, f'after {op}: attributes {s.get_registered_attributes()}, expected {attrs}')
            got = {r[0]: dict(zip(cols, r[1:])) for r in s.select_index() if r[0]}
            ensure(got == recs, f'after {op}: records {got}, expected {recs}')
        H.inv_structure(H.snap(s))
