from harness.core import *
from harness.common import *
from harness import hist as H

POOL = ['A', 'B', 'C', 'k', 'm', 'my col', 'a', 'value', 'domain', 'index_id', '_location_id', 'x"y', 'select', 'select_', 'K', 'b', 'quantity', '_structure_id', '_granularity']

MORE = [f'n{j}' for j in range(14)]


@scenario('P27', 'names stay disjoint whatever is tried', n=1500)
class Names:
    def gen(rng, i):
        ops = []
        big = rng.random() < 0.15
        for _ in range(rng.randint(2, 9)):
            if big and rng.random() < 0.5:
                ops.append([rng.choice(['add', 'attrs']), rng.sample(POOL + MORE, rng.randint(8, 16)), 0, False])
                continue
            if big and rng.random() < 0.5:
                ops.append([rng.choice(['add', 'rename', 'attrs']), rng.sample(MORE, 1), rng.randrange(30), False])
                continue
            ops.append([rng.choice(['add', 'add', 'add', 'rename', 'renames', 'attrs', 'attrs', 'drop']), rng.sample(POOL, rng.randint(1, 3)), rng.randrange(9), rng.random() < 0.15])
        return {'ops': ops}

    def check(c):
        from toron import _utils  # noqa
        s = DataSpace()
        reserved = {x for x in self_reserved(s)}
        cols, attrs, done = [], [], 0
        for op, names, k, dup in c['ops']:
            names = list(names)
            if dup and op in ('add', 'attrs'):
                names.append(names[0])
            before = dump(s)
            err = None
            if op == 'drop':
                if len(cols) < 2:
                    continue
                bad = False
                gone = cols[k % len(cols)]
                new = [x for x in cols if x != gone]
                fold = False
            elif op == 'add':
                bad = any(n in reserved or n in cols or n in attrs for n in names) or len(set(names)) < len(names)
                new = cols + names
            elif op == 'rename':
                if not cols:
                    continue
                bad = names[0] in reserved or names[0] in cols or names[0] in attrs
                new = [names[0] if j == k % len(cols) else x for j, x in enumerate(cols)]
            elif op == 'renames':
                if not cols:
                    continue
                m = dict(zip(cols[k % len(cols):], names))
                bad = any(n in reserved or n in cols or n in attrs for n in m.values())
                new = [m.get(x, x) for x in cols]
            else:
                bad = any(n in reserved or n in cols for n in names) or len(set(names)) < len(names)
                new = cols
            # SQLite compares column names without regard to case
            low = [x.lower() for x in new]
            fold = op in ('add', 'rename', 'renames') and len(set(low)) < len(low)
            near = op in ('rename', 'renames') and any(n.lower() == x.lower() for n in names for x in cols)
            try:
                with quiet():
                    if op == 'drop':
                        s.drop_index_columns(gone)
                    elif op == 'add':
                        s.add_index_columns(*names)
                    elif op == 'rename':
                        s.rename_label_column(cols[k % len(cols)], names[0])
                    elif op == 'renames':
                        s.rename_index_columns(m)
                    else:
                        s.set_registered_attributes(names)
            except Exception as e:
                err = e
            if bad or fold:
                ensure(err is not None, f'{op} {names} accepted; columns {cols}, attributes {attrs}, reserved names {sorted(reserved & set(names))}')
            else:
                ensure(err is None or near or any(n.lower() in {r.lower() for r in reserved} for n in names), f'{op} {names} refused: {err!r}; columns {cols}, attributes {attrs}')
            if err is not None:
                ensure(dump(s) == before, f'refused {op} {names} changed the store')
            elif op == 'attrs':
                attrs = names
            else:
                cols = new
            done += err is None
            ensure(list(s.index_columns) == cols, f'columns {s.index_columns}, expected {cols}')
            ensure(list(s.get_registered_attributes()) == attrs, f'attributes {s.get_registered_attributes()}, expected {attrs}')
            ensure(not set(s.index_columns) & set(s.get_registered_attributes()), 'a name is both label column and attribute')
            ensure(not (set(s.index_columns) | set(s.get_registered_attributes())) & reserved, 'a reserved name is in use')
        if not done:
            raise Trivial()


# names the documentation reserves: columns of the tables that hold labels, and the common ones
DOC_RESERVED = {'index_id', 'domain', 'value', 'weight', '_location_id', '_structure_id', '_granularity'}


def self_reserved(s):
    r = set(getattr(s._dal, 'reserved_identifiers', ()))
    try:
        r |= set(internal('toron.data_service', 'COMMON_RESERVED_IDENTIFIERS'))
    except Skip:
        pass
    return r | DOC_RESERVED


@scenario('P27', 'the columns the storage itself uses are refused', n=40)
class Reserved:
    def gen(rng, i):
        return {'name': ['_location_id', '_structure_id', '_granularity', 'index_id', 'domain', 'value', 'weight'][i % 7], 'how': i // 7 % 3}

    def check(c):
        s = make_space(['A'], [['x']])
        # the fixed columns of the label tables and the documented common names
        con = s._connector.acquire_connection()
        fixed = {r[1] for t in ('label_index', 'label_location', 'label_structure') for r in con.execute(f'PRAGMA table_info({t})')} - {'A'}
        s._connector.release_connection(con)
        if c['name'] not in fixed and c['name'] not in self_reserved(s):
            raise Trivial()
        before = dump(s)
        try:
            with quiet():
                if c['how'] == 0:
                    s.add_index_columns(c['name'])
                elif c['how'] == 1:
                    s.rename_label_column('A', c['name'])
                else:
                    s.set_registered_attributes([c['name']])
        except Exception:
            ensure(dump(s) == before, 'refused name changed the store')
            return
        raise Violation(f'reserved name {c["name"]!r} accepted')
