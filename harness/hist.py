"""Random histories of public operations on a DataSpace, structured snapshots and the stored-state invariants.

A history is a list of JSON ops.  Ids are given as positions and resolved against the current records, so every
history is meaningful whatever happened before.  apply() returns None or the exception the operation raised."""
import hashlib, json as _json
from harness.core import *
from harness.common import *
from harness import refsel as R

LAB = ['x', 'y', 'z', "o'k", 'X y', '\t1', ' ']
BASE_COLS = ['A', 'B']
EXTRA_COLS = ['C', 'my col', 'x"y', 'select']
GROUPS = ['g0', 'g1', 'g2']
LINKS = ['L0', 'L1']


# ---------------------------------------------------------------- snapshots
def snap(s):
    con = s._connector.acquire_connection()
    try:
        def q(sql):
            return con.execute(sql).fetchall()
        props = dict(q('SELECT key, value FROM property'))
        cols = [r[1] for r in q('PRAGMA table_info(label_index)')][1:]
        o = {'cols': cols, 'props': props}
        o['index'] = {r[0]: tuple(r[1:]) for r in q('SELECT * FROM label_index')}
        o['groups'] = {r[0]: {'name': r[1], 'desc': r[2], 'sel': r[3], 'complete': r[4]} for r in
                       q('SELECT weight_group_id, name, description, selectors, is_complete FROM weight_group')}
        w = q('SELECT weight_group_id, index_id, weight_value FROM weight')
        o['weights'] = {(r[0], r[1]): r[2] for r in w}
        ensure(len(w) == len(o['weights']), f'two weights for one record and group: {sorted(w)}')
        o['links'] = {r[0]: {'uid': r[1], 'name': r[2], 'default': r[3], 'hash': r[4], 'complete': r[5], 'sel': r[6], 'hint': r[7]} for r in
                      q('SELECT link_id, other_unique_id, name, is_default, other_index_hash, is_locally_complete, selectors, other_filename_hint FROM link')}
        m = q('SELECT link_id, other_index_id, index_id, mapping_level, mapping_value, proportion FROM mapping')
        o['maps'] = {tuple(r[:4]): (r[4], r[5]) for r in m}
        ensure(len(m) == len(o['maps']), 'two mappings for one pair and level')
        o['locs'] = {r[0]: tuple(r[1:]) for r in q('SELECT * FROM label_location')}
        o['attrs'] = {r[0]: r[1] for r in q('SELECT attribute_group_id, attributes FROM attribute_group')}
        o['quants'] = {r[0]: tuple(r[1:]) for r in q('SELECT quantity_id, _location_id, attribute_group_id, quantity_value FROM quantity')}
        o['struct'] = q('SELECT * FROM label_structure')
        return o
    finally:
        s._connector.release_connection(con)


# ---------------------------------------------------------------- operations
def rlabels(rng, n):
    return [rng.choice(LAB[:rng.choice([2, 3, 3, 5, 7])]) for _ in range(n)]


def rweight(rng):
    return rng.choice([0, 0.0, 1.0, 2.5, 10, rng.random() * 100])


def level_bits(rng, n):
    return [1] * n if rng.random() < 0.6 else [rng.randrange(2) for _ in range(n)]


def gen_op(rng, kinds):
    k = rng.choice(kinds)
    r = lambda n=10: rng.randrange(n)
    op = {'op': k}
    if k == 'insert_index':
        op.update(rows=[[rlabels(rng, 8), rweight(rng)] for _ in range(rng.randint(1, 4))],
                  group=rng.choice(GROUPS + [None]), wc=rng.choice(['abort', 'ignore', 'replace']),
                  more=rng.sample(GROUPS, rng.randint(1, 3)) if rng.random() < 0.4 else None, named=rng.sample(GROUPS, rng.randint(0, 2)) if rng.random() < 0.5 else None)
    elif k == 'replace_index':
        op.update(rows=[[r(20), rlabels(rng, 8)] for _ in range(rng.randint(1, 2))], lc=rng.choice(['abort', 'ignore', 'replace']))
    elif k == 'insert_weights':
        op.update(group=rng.choice(GROUPS), rows=[[r(20), rweight(rng)] for _ in range(rng.randint(1, 5))], by_id=rng.random() < 0.4,
                  mode=rng.choice(['abort', 'ignore', 'replace', 'sum']), all=rng.random() < 0.4)
    elif k == 'update_weights':
        op.update(group=rng.choice(GROUPS), rows=[[r(20), rweight(rng)] for _ in range(rng.randint(1, 3))])
    elif k == 'delete_weights':
        op.update(group=rng.choice(GROUPS), rows=[r(20) for _ in range(2)] if rng.random() < 0.5 else None, col=r(), val=rng.choice(LAB[:3]))
    elif k == 'update_index':
        op.update(rows=[[r(20), rlabels(rng, 8), rng.random() < 0.5, r(20)] for _ in range(rng.randint(1, 3))], merge=rng.random() < 0.7)
    elif k == 'delete_index':
        op.update(rows=[r(20) for _ in range(rng.randint(1, 2))] if rng.random() < 0.5 else None, crit=[[r(), rng.choice(LAB[:3])] for _ in range(rng.randint(1, 2))])
    elif k in ('add_partition', 'drop_partition'):
        op.update(bits=[rng.randrange(2) for _ in range(8)])
    elif k in ('add_group', 'drop_group', 'default_group'):
        op.update(group=rng.choice(GROUPS), default=rng.choice([None, True, False]), sel=rng.choice([None, ['[k="p"]']]))
    elif k in ('add_link', 'drop_link', 'default_link'):
        op.update(link=rng.choice(LINKS), default=rng.choice([None, True, False]))
    elif k == 'insert_mappings2':
        op.update(link=rng.choice(LINKS), rows=[[r(5), r(20), level_bits(rng, 8), rweight(rng)] for _ in range(rng.randint(1, 8))], all=rng.random() < 0.4)
    elif k in ('insert_mappings', 'update_mappings', 'delete_mappings'):
        op.update(link=rng.choice(LINKS), rows=[[r(5), r(20), level_bits(rng, 8), rweight(rng)] for _ in range(rng.randint(1, 4))],
                  crit=[[r(), rng.choice(LAB[:3])] for _ in range(rng.randint(1, 2))] if k == 'delete_mappings' and rng.random() < 0.5 else None)
    elif k == 'reify':
        op.update(link=rng.choice(LINKS), crit=[[r(), rng.choice(LAB[:3])]] if rng.random() < 0.5 else [])
    elif k == 'add_column':
        op.update(col=rng.choice(EXTRA_COLS))
    elif k == 'rename_column':
        op.update(k=r(), col=rng.choice(EXTRA_COLS + ['R1', 'R2']), api=r(2))
    elif k == 'drop_column':
        op.update(k=r())
    elif k in ('insert_quantities', 'insert_quantities2'):
        op.update(rows=[[rlabels(rng, 8), [rng.random() < 0.6 for _ in range(8)], rng.choice(['p', 'q', '']), rng.choice(['u', '']), rng.choice([1, 2.5, 0, -3, '7'])]
                        for _ in range(rng.randint(1, 4))], mode=rng.choice(['abort', 'ignore', 'replace', 'sum']))
    elif k in ('del_unmatched', 'del_noindex'):
        pass
    elif k == 'order':
        op.update(k=r(), off=rng.randint(-4, 4))
    elif k == 'domain':
        op.update(val=rng.choice(['D', '', 'year']))
    elif k == 'registered':
        op.update(names=rng.choice([['k', 'm'], ['m', 'k', 'z'], ['A'], ['k', 'my col'], []]))
    elif k == 'attr_order':
        op.update(attr=rng.choice(['k', 'm', 'zz']), off=rng.randint(-2, 2))
    elif k == 'edit_group':
        op.update(group=rng.choice(GROUPS), change=rng.choice([{'description': 'd'}, {'name': 'g1'}, {'is_complete': True}, {'selectors': ['[k]']}, {'selectors': ['[bad']}, {'bogus': 1}]))
    elif k == 'edit_link':
        op.update(link=rng.choice(LINKS), change=rng.choice([{'description': 'd'}, {'name': 'L1'}, {'is_default': True}, {'is_default': False}, {'selectors': ['[bad']}, {'bogus': 1}]))
    elif k == 'partitions':
        op.update(sets=[[rng.randrange(2) for _ in range(8)] for _ in range(rng.randint(1, 3))], bad=rng.random() < 0.3)
    else:
        raise AssertionError(k)
    if k in ODD and rng.random() < 0.25 and op.get('rows') is not None:
        op.update(odd=rng.choice(ODD[k]), pos=r(4))
    return op


# rows that the operation must skip, or refuse as a whole, whatever the other rows are
ODD = {'insert_index': ['empty', 'undefined', 'null'], 'replace_index': ['unknown', 'zero'],
       'insert_weights': ['unknown', 'mismatch', 'nan', 'inf', 'text', 'neg', 'undefined', 'blank'],
       'update_weights': ['unknown', 'mismatch', 'undefined', 'neg'], 'delete_weights': ['unknown', 'mismatch'],
       'update_index': ['unknown', 'empty', 'zero'], 'delete_index': ['unknown', 'mismatch', 'zero'],
       'insert_mappings': ['unknown', 'mismatch', 'neg'], 'update_mappings': ['unknown', 'mismatch', 'neg'],
       'delete_mappings': ['unknown', 'mismatch'], 'insert_mappings2': ['neg', 'noid'],
       'insert_quantities': ['none', 'noattr'], 'insert_quantities2': ['none', 'noattr']}
REFUSED = {('insert_index', 'null'), ('replace_index', 'unknown'), ('insert_weights', 'neg'), ('update_weights', 'undefined'), ('update_weights', 'neg'),
           ('update_index', 'zero'), ('delete_index', 'zero'), ('insert_mappings', 'neg'), ('update_mappings', 'neg'), ('insert_mappings2', 'neg'),
           ('insert_quantities', 'none'), ('insert_quantities2', 'none')}


def put_odd(op, rows_, make):
    if op.get('odd'):
        rows_.insert(op['pos'] % (len(rows_) + 1), make(op['odd']))
    return rows_


def pick(ids, k):
    return ids[k % len(ids)] if ids else None


def crit(cols, pairs):
    return {cols[i % len(cols)]: v for i, v in pairs}


def level(bits, n):
    from toron.data_models import BitFlags  # noqa
    return to_level(bits[:n])


def to_level(bits):
    out = bytearray()
    for i in range(0, len(bits), 8):
        b = 0
        for j, x in enumerate(bits[i:i + 8]):
            if x:
                b |= 1 << (7 - j)
        out.append(b)
    while out and out[-1] == 0:
        out.pop()
    return bytes(out) if out else b''


def apply(s, other, op, wrap=lambda x: x):
    """Run op on s; wrap() transforms every data argument (used to inject failing iterators)."""
    try:
        with quiet():
            _apply(s, other, op, wrap)
    except Trivial:
        return 'skip'
    except Exception as e:
        return e
    return None


def _apply(s, other, op, wrap):
    k = op['op']
    cols = list(s.index_columns)
    n = len(cols)
    idx = [(r[0], tuple(r[1:])) for r in s.select_index() if r[0] != 0]
    if k == 'insert_index':
        rows_ = [list(l[:n]) + [w] for l, w in op['rows']]
        put_odd(op, rows_, lambda o: {'empty': ['x'] * (n - 1) + ['', 1.0], 'undefined': ['-'] * n + [1.0], 'null': [None] + ['x'] * (n - 1) + [1.0]}[o])
        g = op['group']
        if op.get('more'):      # several weight columns, of which some may be chosen by name
            have = {x.name for x in s.weight_groups}
            rows_ = [r[:n] + [r[n]] * len(op['more']) for r in rows_]
            kw = {} if op['named'] is None else {'weights': [x for x in op['named'] if x in op['more'] and x in have]}
            s.insert_index(wrap(rows_), columns=cols + op['more'], on_weight_conflict=op['wc'], **kw)
            return
        s.insert_index(wrap(rows_), columns=cols + [g or 'nothing'], on_weight_conflict=op['wc'])
    elif k == 'replace_index':
        if not idx:
            raise Trivial()
        rows_ = [[pick(idx, i)[0]] + l[:n] for i, l in op['rows']]
        put_odd(op, rows_, lambda o: {'unknown': [999999] + ['x'] * n, 'zero': [0] + ['x'] * n}[o])
        s.insert_index(wrap(rows_), columns=['index_id'] + cols, on_label_conflict=op['lc'])
    elif k in ('insert_weights', 'update_weights'):
        if not idx:
            raise Trivial()
        chosen = [(pick(idx, i), w) for i, w in op['rows']]
        if op.get('all'):
            chosen = [(x, op['rows'][j % len(op['rows'])][1]) for j, x in enumerate(idx)]
        rows_ = [[i] + list(l) + [w] for (i, l), w in chosen]
        i0, l0 = chosen[0][0][0], list(chosen[0][0][1])
        put_odd(op, rows_, lambda o: {'unknown': [999999] + ['no such label'] * n + [1.0], 'mismatch': [i0] + l0[:-1] + ['no such label', 1.0],
                                      'nan': [i0] + l0 + [float('nan')], 'inf': [i0] + l0 + [float('inf')], 'text': [i0] + l0 + ['abc'],
                                      'neg': [i0] + l0 + [-1.0], 'undefined': [0] + ['-'] * n + [1.0], 'blank': [i0] + l0 + ['']}[o])
        if k == 'update_weights':
            s.update_weights(op['group'], wrap(rows_), columns=['index_id'] + cols + [op['group']])
        elif op['by_id']:
            s.insert_weights(op['group'], wrap(rows_), columns=['index_id'] + cols + ['w!'], value_column='w!', on_conflict=op['mode'])
        else:
            s.insert_weights(op['group'], wrap([r[1:] for r in rows_]), columns=cols + [op['group']], on_conflict=op['mode'])
    elif k == 'delete_weights':
        if op['rows'] is not None:
            if not idx:
                raise Trivial()
            rows_ = [[pick(idx, i)[0]] + list(pick(idx, i)[1]) for i in op['rows']]
            put_odd(op, rows_, lambda o: {'unknown': [999999] + ['x'] * n, 'mismatch': [idx[-1][0]] + ['no such label'] * n}[o])
            s.delete_weights(op['group'], wrap(rows_), columns=['index_id'] + cols)
        else:
            s.delete_weights(op['group'], **{cols[op['col'] % n]: op['val']})
    elif k == 'update_index':
        if not idx:
            raise Trivial()
        rows_ = [[pick(idx, i)[0]] + (list(pick(idx, j)[1]) if same else l[:n]) for i, l, same, j in op['rows']]
        put_odd(op, rows_, lambda o: {'unknown': [999999] + ['x'] * n, 'empty': [idx[0][0]] + ['x'] * (n - 1) + [''], 'zero': [0] + ['new'] * n}[o])
        s.update_index(wrap(rows_), columns=['index_id'] + cols, merge_on_conflict=op['merge'])
    elif k == 'delete_index':
        if op['rows'] is not None:
            if not idx:
                raise Trivial()
            rows_ = [[pick(idx, i)[0]] + list(pick(idx, i)[1]) for i in op['rows']]
            put_odd(op, rows_, lambda o: {'unknown': [999999] + ['x'] * n, 'mismatch': [idx[-1][0]] + ['no such label'] * n, 'zero': [0] + ['-'] * n}[o])
            s.delete_index(wrap(rows_), columns=['index_id'] + cols)
        else:
            s.delete_index(**crit(cols, op['crit']))
    elif k == 'add_partition':
        s.add_partition_definition({c for c, b in zip(cols, op['bits']) if b})
    elif k == 'drop_partition':
        d = s.partition_definitions
        s.drop_partition_definitions(set(d[sum(op['bits']) % len(d)]) if d else set(cols))
    elif k == 'add_group':
        s.add_weight_group(op['group'], selectors=op['sel'], make_default=op['default'])
    elif k == 'drop_group':
        s.drop_weight_group(op['group'])
    elif k == 'default_group':
        g = s.get_weight_group(op['group'])
        if g is None:
            raise Trivial()
        s.set_default_weight_group(g)
    elif k == 'add_link':
        s.add_link(other, op['link'], is_default=op['default'])
    elif k == 'drop_link':
        s.drop_link(other, op['link'])
    elif k == 'default_link':
        s.edit_link(other, op['link'], is_default=bool(op['default']))
    elif k == 'insert_mappings2':
        ids = [0] + [i for i, _ in idx]
        rows_ = [[o, pick(ids, i), to_level(b[:n]), w] for o, i, b, w in op['rows']]
        if op['all']:
            rows_ = [[1 + j % 4, i, to_level([1] * n), op['rows'][j % len(op['rows'])][3]] for j, i in enumerate(ids)]
        put_odd(op, rows_, lambda o: {'neg': [3, ids[-1], to_level([1] * n), -1.0], 'noid': [0, 0, to_level([1] * n), 5.0]}[o])
        s.insert_mappings2(other, op['link'], wrap(rows_), columns=['other_index_id', 'index_id', 'mapping_level', op['link']])
    elif k in ('insert_mappings', 'update_mappings', 'delete_mappings'):
        if op['crit']:
            s.delete_mappings(other, op['link'], **crit(cols, op['crit']))
            return
        if not idx:
            raise Trivial()
        rows_ = [[o, w, pick(idx, i)[0]] + list(pick(idx, i)[1]) + [to_level(b[:n])] for o, i, b, w in op['rows']]
        if k == 'delete_mappings':
            cur = {(a, c): b for a, b, c in [(r[0], r[1], r[2]) for r in s.select_mappings(other, op['link'])]}
            rows_ = [[r[0], cur.get((r[0], r[2]), r[1])] + r[2:] for r in rows_]
        put_odd(op, rows_, lambda o: {'unknown': [1, 1.0, 999999] + ['x'] * n + [to_level([1] * n)],
                                      'mismatch': [1, 1.0, idx[0][0]] + ['no such label'] * n + [to_level([1] * n)],
                                      'neg': [1, -1.0, idx[0][0]] + list(idx[0][1]) + [to_level([1] * n)]}[o])
        getattr(s, k)(other, op['link'], wrap(rows_), columns=['other_index_id', op['link'], 'index_id'] + cols + ['mapping_level'])
    elif k == 'reify':
        s.reify_mappings(other, op['link'], **crit(cols, op['crit']))
    elif k == 'add_column':
        s.add_index_columns(op['col'])
    elif k == 'rename_column':
        if op['api']:
            s.rename_label_column(cols[op['k'] % n], op['col'])
        else:
            s.rename_index_columns({cols[op['k'] % n]: op['col']})
    elif k == 'drop_column':
        s.drop_index_columns(cols[op['k'] % n])
    elif k in ('insert_quantities', 'insert_quantities2'):
        rows_ = [[x if b else '' for x, b in zip(l[:n], m)] + [a1, a2, v] for l, m, a1, a2, v in op['rows']]
        put_odd(op, rows_, lambda o: {'none': ['x'] * n + ['p', 'w', None], 'noattr': ['x'] * n + ['', '', 3.0]}[o])
        at = op.get('attrs') or ['k', 'm']
        vc = op.get('value', 'v')
        if k == 'insert_quantities':
            s.insert_quantities(value=vc, attributes=at, data=wrap(rows_), columns=cols + at + [vc])
        else:
            s.insert_quantities2(value_column=vc, data=wrap(rows_), columns=cols + at + [vc], on_existing=op['mode'],
                                 allow_invalid_label=True, allow_invalid_partition=True)
    elif k == 'del_unmatched':
        s.delete_unmatched_quantities()
    elif k == 'del_noindex':
        s.delete_quantities_without_index()
    elif k == 'order':
        s.change_label_order(cols[op['k'] % n], op['off'])
    elif k == 'domain':
        s.set_domain(op['val'])
    elif k == 'registered':
        s.set_registered_attributes(wrap(op['names']))
    elif k == 'attr_order':
        s.change_attribute_order(op['attr'], op['off'])
    elif k == 'edit_group':
        s.edit_weight_group(op['group'], **op['change'])
    elif k == 'edit_link':
        s.edit_link(other, op['link'], **op['change'])
    elif k == 'partitions':
        sets = [{c for c, b in zip(cols, x) if b} for x in op['sets']]
        s.add_partition_definitions(*sets, *([{'no such column'}] if op['bad'] else []))
    else:
        raise AssertionError(k)


INDEX_OPS = ['insert_index', 'insert_index', 'replace_index', 'update_index', 'update_index', 'delete_index']
WEIGHT_OPS = ['insert_weights', 'insert_weights', 'insert_weights', 'update_weights', 'delete_weights', 'add_group', 'drop_group', 'default_group']
MAP_OPS = ['insert_mappings2', 'insert_mappings2', 'insert_mappings', 'update_mappings', 'delete_mappings', 'reify', 'add_link', 'drop_link', 'default_link']
COLUMN_OPS = ['add_column', 'rename_column', 'drop_column', 'add_partition', 'drop_partition']
QUANT_OPS = ['insert_quantities', 'insert_quantities2', 'del_unmatched', 'del_noindex']
OTHER_OPS = ['domain', 'registered', 'attr_order', 'edit_group', 'edit_link', 'partitions']
ALL_OPS = INDEX_OPS + WEIGHT_OPS + MAP_OPS + COLUMN_OPS + QUANT_OPS + ['order']


def gen_prelude(rng, maps=0.6, weights=0.7, quants=0.3):
    pre = [{'op': 'insert_index', 'rows': [[rlabels(rng, 8), 1.0] for _ in range(rng.randint(2, 7))], 'group': None, 'wc': 'ignore'}]
    if rng.random() < weights:
        for g in GROUPS[:rng.randint(1, 2)]:
            op = gen_op(rng, ['insert_weights'])
            pre.append(dict(op, group=g, all=rng.random() < 0.7, mode='replace'))
    if rng.random() < 0.4:
        pre.append(gen_op(rng, ['add_partition']))
    if rng.random() < maps:
        for l in LINKS[:rng.randint(1, 2)]:
            pre.append({'op': 'add_link', 'link': l, 'default': None})
            pre.append(dict(gen_op(rng, ['insert_mappings2']), link=l, all=rng.random() < 0.5))
    if rng.random() < quants:
        pre.append(gen_op(rng, ['insert_quantities']))
    return pre


def gen_history(rng, kinds, n=None, **kw):
    return {'cols': rng.randint(1, 3), 'via': rng.choice(['new'] * 8 + ['read', 'read', 'cache', 'bind']), 'ops': gen_prelude(rng, **kw) + [gen_op(rng, kinds) for _ in range(n or rng.randint(1, 7))]}


def start(c):
    s, other = DataSpace(), DataSpace()
    with quiet():
        s.add_index_columns(*c.get('names', ['A', 'B', 'D'])[:c['cols']])
        s.set_registered_attributes(c.get('attrs', ['k', 'm']))
        other.add_index_columns('S')
        other.insert_index([[f's{i}'] for i in range(4)], columns=['S'])
        if c.get('via', 'new') != 'new':  # the same content, in a dataspace that comes from a file
            p = os.path.join(scratch(), f'via{len(os.listdir(scratch()))}.toron')
            s.to_file(p, fsync=False)
            s = toron.bind_file(p, mode='rw') if c['via'] == 'bind' else toron.read_file(p, cache_to_drive=c['via'] == 'cache')
    return s, other


# ---------------------------------------------------------------- invariants of the stored state
def seqhash(ids):
    """SHA-256 of the ids as 8-byte big-endian integers, in ascending order (independent of the code under test)"""
    h = hashlib.sha256()
    for i in sorted(ids):
        h.update(int(i).to_bytes(8, 'big'))
    return h.hexdigest()


def inv_proportions(o):
    tot = {}
    for (l, a, i, lev), (v, p) in o['maps'].items():
        ensure(v >= 0, f'negative mapping value {v}')
        ensure(a != 0 or i != 0, 'mapping from undefined to undefined')
        tot.setdefault((l, a), []).append((i, lev, v, p))
    for (l, a), items in tot.items():
        if a == 0:
            for i, lev, v, p in items:
                ensure(not p, f'proportion {p} for the undefined source record')
            continue
        T = sum(v for _, _, v, _ in items)
        for i, lev, v, p in items:
            if not T and o.get('merged'):
                continue  # merging adds up equal shares
            want = v / T if T else 1 / len(items)
            ensure(p is not None and close(p, want), f'link {l} source {a} -> {i}: proportion {p}, expected {want} from {items}')
            ensure(-1e-12 <= p <= 1 + 1e-9, f'proportion {p}')
        ensure(close(sum(p for _, _, _, p in items), 1), f'link {l} source {a}: proportions add up to {sum(p for _, _, _, p in items)}')


def inv_links(o):
    by = {}
    for lid, k in o['links'].items():
        ids = {a for (l, a, i, lev) in o['maps'] if l == lid}
        local = {i for (l, a, i, lev) in o['maps'] if l == lid}
        if ids or k['hash'] is not None:
            ensure(k['hash'] == seqhash([0] + sorted(ids - {0})), f'link {k["name"]}: recorded hash is not that of source ids {sorted(ids)}')
        if k['complete']:
            miss = [i for i in o['index'] if i and i not in local]
            ensure(not miss, f'link {k["name"]} is flagged complete but records {miss} have no mapping')
        by.setdefault(k['uid'], []).append(k)
    for uid, ks in by.items():
        ensure(len({k['name'] for k in ks}) == len(ks), 'link name used twice')
        ensure(sum(1 for k in ks if k['default']) <= 1, 'two default links')


def inv_index(o):
    ensure(o['index'].get(0) == ('-',) * len(o['cols']), f'undefined record is {o["index"].get(0)}')
    labs = list(o['index'].values())
    ensure(len(set(labs)) == len(labs), f'label combinations not unique: {sorted(labs)}')
    for i, l in o['index'].items():
        ensure(all(isinstance(x, str) and x != '' for x in l), f'record {i} has empty labels {l}')


def inv_hash(o):
    if 'index_hash' in o['props'] or len(o['index']) > 1:
        ensure(o['props'].get('index_hash') == seqhash(sorted(o['index'])), f'index hash is not that of ids {sorted(o["index"])}')


def inv_weights(o):
    for (g, i), v in o['weights'].items():
        ensure(g in o['groups'], f'weight of unknown group {g}')
        ensure(i in o['index'] and i != 0, f'weight for record {i}')
    defined = [i for i in o['index'] if i]
    for g, k in o['groups'].items():
        full = all((g, i) in o['weights'] for i in defined)
        if defined:
            ensure(bool(k['complete']) == full, f'group {k["name"]}: flagged complete={k["complete"]}, '
                   f'records without weight {[i for i in defined if (g, i) not in o["weights"]]}')
    d = o['props'].get('default_weight_group_id')
    ensure(d is None or d in o['groups'], f'default weight group {d} does not exist')


def inv_refs(o):
    for (l, a, i, lev) in o['maps']:
        ensure(l in o['links'], 'mapping of a link that does not exist')
        ensure(i in o['index'], f'mapping to record {i} that does not exist')
    for qid, (loc, at, v) in o['quants'].items():
        ensure(loc in o['locs'] and at in o['attrs'], 'quantity without location or attributes')


def struct_of(o):
    out = {}
    for r in o['struct']:
        key = frozenset(c for c, b in zip(o['cols'], r[2:]) if b)
        ensure(key not in out, f'partition {sorted(key)} stored twice')
        out[key] = r[1]
    return out


def inv_structure(o):
    if not o['cols']:
        return
    st = struct_of(o)
    defs = [frozenset(d) for d in o['props'].get('partition_definitions', [])]
    want = {frozenset()}
    for d in defs:
        want |= {w | d for w in want}
    ensure(set(st) == want, f'structure {sorted(map(sorted, st))} is not the union closure {sorted(map(sorted, want))} of {defs}')
    ensure(frozenset(o['cols']) in st, 'whole set of columns missing from the structure')


def inv_granularity(o):
    st = struct_of(o)
    recs = [l for i, l in o['index'].items() if i]
    for key, g in st.items():
        if not recs or not key:
            ensure(g is None or (recs and not key and g == 0), f'granularity {g} of {sorted(key)} with {len(recs)} records')
            continue
        pos = [o['cols'].index(c) for c in key]
        groups = {}
        for l in recs:
            k = tuple(l[p] for p in pos)
            groups[k] = groups.get(k, 0) + 1
        want = entropy(groups.values(), len(recs))
        ensure(g is not None and abs(g - want) < 1e-9, f'granularity of {sorted(key)} is {g}, expected {want}')


ALL_INV = {'proportions': inv_proportions, 'links': inv_links, 'index': inv_index, 'hash': inv_hash, 'weights': inv_weights,
           'refs': inv_refs, 'structure': inv_structure, 'granularity': inv_granularity}


def run(c, invs, step=None):
    """Apply the history, checking invariants after each operation; step(before, op, err, after, s, other)."""
    s, other = start(c)
    done = 0
    merged = False
    before = snap(s)
    for j, op in enumerate(c['ops']):
        err = apply(s, other, op)
        if err == 'skip':
            continue
        after = snap(s)
        merged = merged or op['op'] == 'update_index'
        try:
            for f in invs:
                f(dict(after, merged=merged))
            if step:
                step(before, op, err, after, s, other)
        except Violation as e:
            raise Violation(f'after operation {j} {json.dumps(op, default=jdefault)}{f" (raised {err!r})" if err else ""}: {e}', e.sig)
        before = after
        done += err is None
    if done < 2:
        raise Trivial()
    return s, other
