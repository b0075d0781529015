from harness.core import *
from harness.common import *
from harness import hist as H
from harness.p12 import content, space_content
import json as J, re as RE

MAGIC = b'\x01\x2d\x84\xc8'


def qid(s):
    return '"' + s.replace('"', '""') + '"'


def old_020(path, c):
    """A version 0.2.0 file with the content of case c (tables as that version created them)."""
    cols = c['cols']
    con = sqlite3.connect(path, isolation_level=None)
    x = con.execute
    x('PRAGMA foreign_keys=OFF')
    x(f"PRAGMA application_id={int.from_bytes(MAGIC, 'big')}")
    x(f"PRAGMA user_version={int.from_bytes(b'DAL1', 'big')}")
    x('CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT' + ''.join(
        f", {qid(n)} TEXT NOT NULL CHECK ({qid(n)} != '') DEFAULT '-'" for n in cols) + ')')
    x('CREATE TABLE location(_location_id INTEGER PRIMARY KEY' + ''.join(f", {qid(n)} TEXT NOT NULL DEFAULT ''" for n in cols) + ')')
    x('CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL' + ''.join(
        f', {qid(n)} INTEGER NOT NULL CHECK ({qid(n)} IN (0, 1)) DEFAULT 0' for n in cols) + ')')
    x('''CREATE TABLE weight_group(weight_group_id INTEGER PRIMARY KEY, name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
         is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0, UNIQUE (name))''')
    x('''CREATE TABLE weight(weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0), weight_value REAL NOT NULL,
         FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
         FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE (index_id, weight_group_id))''')
    x('CREATE TABLE attribute_group(attribute_group_id INTEGER PRIMARY KEY, attributes TEXT_ATTRIBUTES NOT NULL, UNIQUE (attributes))')
    x('''CREATE TABLE quantity(quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER, quantity_value NUMERIC NOT NULL,
         FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
         FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE)''')
    x('''CREATE TABLE crosswalk(crosswalk_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT, name TEXT NOT NULL, description TEXT,
         selectors TEXT_SELECTORS, is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL, user_properties TEXT_USERPROPERTIES,
         other_index_hash TEXT, is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
         UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id))''')
    x('''CREATE TABLE relation(relation_id INTEGER PRIMARY KEY, crosswalk_id INTEGER, other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = "integer"),
         index_id INTEGER, mapping_level BLOB_BITFLAGS, relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = "real" AND 0.0 <= relation_value),
         proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
         FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
         FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE (crosswalk_id, other_index_id, index_id))''')
    x('CREATE TABLE property(key TEXT PRIMARY KEY NOT NULL, value TEXT_JSON)')
    ph = lambda n: ', '.join('?' * n)
    x(f'INSERT INTO node_index VALUES ({ph(1 + len(cols))})', [0] + ['-'] * len(cols))
    for r in c['index']:
        x(f'INSERT INTO node_index VALUES ({ph(1 + len(cols))})', r)
    for r in c['locs']:
        x(f'INSERT INTO location VALUES ({ph(1 + len(cols))})', r)
    for r in c['struct']:
        x(f'INSERT INTO structure VALUES ({ph(2 + len(cols))})', r)
    for t, n in (('weight_group', 5), ('weight', 4), ('attribute_group', 2), ('quantity', 4), ('crosswalk', 10), ('relation', 7), ('property', 2)):
        for r in c[t]:
            x(f'INSERT INTO {t} VALUES ({ph(n)})', r)
    if cols:
        for n, t in (('index', 'node_index'), ('location', 'location'), ('structure', 'structure')):
            x(f'CREATE UNIQUE INDEX unique_{n}_label_columns ON {t}({", ".join(map(qid, cols))})')
    x('''CREATE TRIGGER trigger_on_update_for_undefined BEFORE UPDATE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
         BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END''')
    x('''CREATE TRIGGER trigger_on_delete_for_undefined BEFORE DELETE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
         BEGIN SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)'); END''')
    if c['seq'] is not None:
        x("UPDATE sqlite_sequence SET seq=? WHERE name='node_index'", (c['seq'],))
    con.close()


def gen_020(rng):
    n = rng.randint(1, 4)
    cols = (rng.sample(HOSTILE, n) if rng.random() < 0.3 else ['label_a', 'label_b', 'C', 'd d'][:n])
    if len({x.lower() for x in cols}) < n:
        cols = NAMES[:n]
    labs = ['x', 'y', "o'k", '1', ' s', 'é', '0.0']
    ids, seen = [], set()
    for i in range(1, rng.randint(1, 9)):
        t = tuple(rng.choice(labs) for _ in cols)
        if t not in seen and rng.random() < 0.85:
            seen.add(t)
            ids.append([i] + list(t))
    lseen, locs = set(), []
    for i in range(1, rng.randint(1, 7)):
        t = tuple(rng.choice(labs + ['', '']) for _ in cols)
        if t not in lseen:
            lseen.add(t)
            locs.append([i] + list(t))
    sel = lambda: rng.choice([None, '["[a=\\"b\\"]"]', '["[k]", "[m=\\"z\\"]"]'])
    groups = [[i, f'g{i}', rng.choice([None, 'd']), sel(), rng.randrange(2)] for i in range(1, rng.randint(1, 4))]
    weights, w = [], 0
    for g in groups:
        for r in ids:
            if g[4] or rng.random() < 0.5:
                w += rng.randint(1, 2)
                weights.append([w, g[0], r[0], rng.choice([0.0, 1.0, 2.5, rng.random() * 1e6])])
    attrs = [{'category': 'one'}, {'category': 'two', 'k': 'v'}, {'é': "o'k"}, {'a"b': 'c\\d'}][:rng.randint(0, 4)]
    attrs = [[i + 1 + (i > 1), J.dumps(a)] for i, a in enumerate(attrs)]
    quants, q = [], 0
    if attrs and locs:
        for _ in range(rng.randint(0, 12)):
            q += rng.randint(1, 2)
            quants.append([q, rng.choice(locs)[0], rng.choice(attrs)[0], rng.choice([0, 1, 15, 2.5, -3.25, rng.random() * 1e5])])
    links = [[i, rng.choice(['u1', 'u2']), rng.choice([None, 'h.toron']), f'L{i}', None, sel(), None, rng.choice([None, '{"a": 1}']), rng.choice([None, 'abc123']), rng.randrange(2)]
             for i in range(1, rng.randint(1, 4))]
    for u in ('u1', 'u2'):
        mine = [l for l in links if l[1] == u]
        if mine and rng.random() < 0.7:
            rng.choice(mine)[6] = 1
    rels, m = [], 0
    for l in links:
        for o in range(0, 6):
            for r in [[0]] + ids:
                if rng.random() < 0.3:
                    m += rng.randint(1, 2)
                    bits = [1] * n if rng.random() < 0.5 else [rng.randrange(2) for _ in range(n)]
                    rels.append([m, l[0], o, r[0], None if rng.random() < 0.4 else (H.to_level(bits) or None), rng.choice([0.0, 1.0, 12.5]), rng.choice([0.0, 1.0, 0.25, None])])
    defs = [list(cols)] + [rng.sample(cols, rng.randint(1, n)) for _ in range(rng.randint(0, 2))]
    struct, st = [], {frozenset()}
    for d in defs:
        st |= {x | set(d) for x in st}
    for i, k in enumerate(sorted(st, key=lambda k: (len(k), sorted(k)))):
        struct.append([i + 1, rng.choice([None, 1.5]) if k else None] + [int(x in k) for x in cols])
    dom = rng.choice([None, {}, {'domain': 'dom'}, {'foo': 'bar', 'baz': 'qux'}, {'year': '2020'}, {'domain': 'a', 'x': 'y'}])
    props = [['toron_schema_version', '"0.2.0"'], ['toron_app_version', '"0.1.0"'], ['unique_id', '"11111111-1111-1111-11111111111111111"'],
             ['discrete_categories', J.dumps(defs)]]
    if rng.random() < 0.8:
        props.append(['index_hash', J.dumps(H.seqhash([0] + [r[0] for r in ids]))])
    if groups and rng.random() < 0.7:
        props.append(['default_weight_group_id', J.dumps(rng.choice(groups)[0])])
    if dom is not None:
        props.append(['domain', J.dumps(dom)])
    if rng.random() < 0.2:
        props.append(['other key', '[1, {"a": null}]'])
    return {'cols': cols, 'index': ids, 'locs': locs, 'struct': struct, 'weight_group': groups, 'weight': weights, 'attribute_group': attrs, 'quantity': quants,
            'crosswalk': links, 'relation': rels, 'property': props, 'seq': rng.choice([None, 50]) if ids else None}


def expected(c):
    n = len(c['cols'])
    full = H.to_level([1] * n)
    q, first = {}, {}
    for i, l, a, v in sorted(c['quantity']):
        q.setdefault((l, a), []).append(v)
        first.setdefault((l, a), i)
    props = {k: J.loads(v) for k, v in c['property']}
    defs = props.pop('discrete_categories')
    dom = props.get('domain')
    if dom is not None:
        props['domain'] = dom['domain'] if list(dom) == ['domain'] else '_'.join(f'{k}_{dom[k]}' for k in sorted(dom))
    props.update(partition_definitions=defs, toron_schema_version='0.3.1', user_properties={},
                 registered_attributes=sorted({k for _, a in c['attribute_group'] for k in J.loads(a)}))
    return {'label_index': sorted([[0] + ['-'] * n] + c['index']), 'label_location': sorted(c['locs']), 'label_structure': sorted(c['struct']),
            'weight_group': sorted(c['weight_group']), 'weight': sorted(c['weight']), 'attribute_group': sorted(c['attribute_group']),
            'quantity': sorted([first[k], k[0], k[1], v] for k, v in q.items()),
            'link': sorted(c['crosswalk']), 'mapping': sorted([r[0], r[1], r[2], r[3], r[4] or full, r[5], r[6]] for r in c['relation'] if (r[2], r[3]) != (0, 0)),
            'props': props}


def raw_tables(s):
    con = s._connector.acquire_connection()
    try:
        cur = con.cursor()
        out = {}
        for (t,) in cur.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall():
            cols = [r[1] for r in cur.execute(f'PRAGMA table_info({qid(t)})')]
            cur.execute(f"SELECT {', '.join('+' + qid(x) for x in cols)} FROM {qid(t)}")
            out[t] = sorted(map(list, cur.fetchall()))
        out['props'] = {k: J.loads(v) for k, v in out.pop('property')}
        return out
    finally:
        s._connector.release_connection(con)


def schema_of(s):
    """Structure of the storage: columns, uniqueness, references, triggers, and what the checks reject."""
    con = s._connector.acquire_connection()
    try:
        cur = con.cursor()
        out = {}
        for (t,) in cur.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            info = [(r[1], r[2].upper(), r[3], r[4], r[5]) for r in cur.execute(f'PRAGMA table_info({qid(t)})').fetchall()]
            fks = sorted((r[2], r[3], r[4], r[5], r[6]) for r in cur.execute(f'PRAGMA foreign_key_list({qid(t)})').fetchall())
            idx = sorted((r[2], tuple(x[2] for x in cur.execute(f'PRAGMA index_info({qid(r[1])})').fetchall())) for r in cur.execute(f'PRAGMA index_list({qid(t)})').fetchall())
            out[t] = {'columns': info, 'references': fks, 'unique': idx}
        out['triggers'] = sorted(cur.execute("SELECT name, tbl_name FROM sqlite_master WHERE type='trigger'").fetchall())
        out['temp triggers'] = sorted(cur.execute("SELECT name, tbl_name FROM sqlite_temp_master WHERE type='trigger'").fetchall())
        out['fk'] = cur.execute('PRAGMA foreign_keys').fetchone()[0]
        return out
    finally:
        s._connector.release_connection(con)


def relaxed(sch):
    """NOT NULL of the weight references and of is_complete differ between versions without an effect on stored data: compare names and types."""
    out = {}
    for t, v in sch.items():
        if isinstance(v, dict):
            v = dict(v, columns=[(c[0], c[1], c[4]) for c in v['columns']])
            v['references'] = [r[:3] + r[4:] for r in v['references']]
        out[t] = v
    return out


def opened(p, how):
    with quiet():
        if how in ('ro', 'rw', 'rwc'):
            return toron.bind_file(p, mode=how)
        return toron.read_file(p, cache_to_drive=how == 'cache')


def compare(got, want):
    for t in want:
        g, w = got.get(t), want[t]
        if t == 'props':
            g = dict(g)
            ensure(RE.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', str(g.pop('created_date', None))), 'no created_date')
            w = dict(w)
            w.pop('created_date', None)
            if 'domain' not in w:
                ensure(g.pop('domain', '') == '', 'domain')
        if t == 'quantity':
            ensure(len(g) == len(w) and all(a[:3] == b[:3] and close(a[3], sum(b[3])) for a, b in zip(g, w)), f'quantity is {g}, expected (values to be summed) {w}')
        else:
            ensure(g == w, f'{t} is {g}, expected {w}')


@scenario('P26', 'opening a 0.2.0 file', n=400)
class V020:
    def gen(rng, i):
        return dict(gen_020(rng), how=rng.choice(['memory', 'cache', 'rw', 'rwc']), ops=[H.gen_op(rng, H.INDEX_OPS + ['insert_quantities', 'add_partition']) for _ in range(3)])

    def check(c):
        d = scratch()
        p = os.path.join(d, 'old.toron')
        old_020(p, c)
        raw = open(p, 'rb').read()
        s = opened(p, c['how'])
        got = raw_tables(s)
        compare(got, expected(c))
        if c['how'] in ('memory', 'cache'):
            ensure(open(p, 'rb').read() == raw, 'reading changed the old file')
        # structure of the current version
        fresh = DataSpace()
        with quiet():
            fresh.add_index_columns(*c['cols'])
        a, b = relaxed(schema_of(s)), relaxed(schema_of(fresh))
        for t in sorted(set(a) | set(b)):
            ensure(a.get(t) == b.get(t), f'structure of {t}: {a.get(t)}, a new dataspace has {b.get(t)}')
        # opening again changes nothing, and so does a saved copy
        q = os.path.join(d, 'new.toron')
        with quiet():
            s.to_file(q)
        raw2 = open(q, 'rb').read()
        for how in ('memory', 'rw', 'ro'):
            t = opened(q, how)
            ensure(raw_tables(t) == got, f'opening the upgraded file again ({how}) changes it')
        ensure(open(q, 'rb').read() == raw2, 'opening the upgraded file again rewrites it')
        if c['how'] in ('rw', 'rwc'):
            ensure(raw_tables(opened(p, 'ro')) == got, 'the bound file is not the upgraded one')
        # ids are not reused
        top = max([r[0] for r in c['index']] + [c['seq'] or 0])
        cols = c['cols']
        with quiet():
            s.insert_index([['brand new'] * len(cols)], columns=list(cols))
        new = [r[0] for r in s.select_index() if r[1] == 'brand new']
        ensure(new == [top + 1], f'the next record gets id {new}, the largest used is {top}')
        if c['weight_group'] or c['crosswalk']:
            o = H.snap(s)
            H.inv_refs(o)
        for op in c['ops']:
            H.apply(s, fresh, op)
        H.inv_index(H.snap(s))


@scenario('P26', 'old files cannot be upgraded read-only', n=30)
class ReadOnly:
    def gen(rng, i):
        return gen_020(rng)

    def check(c):
        p = os.path.join(scratch(), 'old.toron')
        old_020(p, c)
        raw = open(p, 'rb').read()
        try:
            s = opened(p, 'ro')
            list(s.select_index())
        except Exception:
            s = None
        ensure(s is None, 'an old file is opened read-only as if it were current')
        ensure(open(p, 'rb').read() == raw and os.listdir(os.path.dirname(p)) == ['old.toron'], 'the file was changed')


@scenario('P26', 'opening a 0.3.0 file', n=150)
class V030:
    def gen(rng, i):
        return {'h': H.gen_history(rng, H.INDEX_OPS + ['insert_weights', 'insert_mappings2', 'insert_quantities', 'add_column', 'add_partition', 'rename_column'], 5),
                'how': rng.choice(['memory', 'cache', 'rw', 'rwc', 'ro'])}

    def check(c):
        s, other = H.start(c['h'])
        for op in c['h']['ops']:
            H.apply(s, other, op)
        p = os.path.join(scratch(), 'old.toron')
        with quiet():
            s.to_file(p)
        con = sqlite3.connect(p)
        con.execute("DELETE FROM property WHERE key IN ('user_properties', 'created_date')")
        con.execute("UPDATE property SET value='\"0.3.0\"' WHERE key='toron_schema_version'")
        con.commit()
        con.close()
        raw = open(p, 'rb').read()
        if c['how'] == 'ro':
            try:
                opened(p, 'ro')
            except Exception:
                ensure(open(p, 'rb').read() == raw, 'changed')
                return
            raise Violation('a 0.3.0 file is opened read-only without being upgraded')
        t = opened(p, c['how'])
        want = raw_tables(s)
        want['quantity'] = [r[:3] + [[r[3]]] for r in want['quantity']]
        compare(raw_tables(t), want)
        a, b = schema_of(t), schema_of(s)
        for k in sorted(set(a) | set(b)):
            ensure(a.get(k) == b.get(k), f'structure of {k}: {a.get(k)}, before {b.get(k)}')


@scenario('P26', 'unsupported and damaged files', n=120)
class Damaged:
    def gen(rng, i):
        kind = ['version', 'dangling', 'no relation', 'no property', 'no version row', 'domain type', 'existing link', 'bad attributes', 'half upgraded', 'later version'][i % 10]
        return dict(gen_020(rng), kind=kind, version=rng.choice(['0.1.0', '0.4.0', '0.3.2', '1.0', '', '0.2', '0.2.00', 'x', '0.30']), how=rng.choice(['memory', 'cache', 'rw', 'rwc']))

    def check(c):
        k = c['kind']
        p = os.path.join(scratch(), 'old.toron')
        if k == 'later version':
            with quiet():
                DataSpace().to_file(p)
        else:
            old_020(p, c)
        con = sqlite3.connect(p, isolation_level=None)
        con.execute('PRAGMA foreign_keys=OFF')
        if k in ('version', 'later version'):
            con.execute("UPDATE property SET value=? WHERE key='toron_schema_version'", (J.dumps(c['version']),))
        elif k == 'dangling':
            con.execute("INSERT INTO relation VALUES(9999, 77, 1, 0, NULL, 1.0, 1.0)")
        elif k == 'no relation':
            con.execute('DROP TABLE relation')
        elif k == 'no property':
            con.execute('DROP TABLE property')
        elif k == 'no version row':
            con.execute("DELETE FROM property WHERE key='toron_schema_version'")
        elif k == 'domain type':
            con.execute("INSERT OR REPLACE INTO property VALUES ('domain', '[1]')")
        elif k == 'existing link':
            con.execute('CREATE TABLE link(a)')
        elif k == 'bad attributes':
            con.execute("INSERT INTO attribute_group VALUES (99, '{not json')")
        elif k == 'half upgraded':
            con.execute('ALTER TABLE crosswalk RENAME TO link')
        con.close()
        raw = open(p, 'rb').read()
        before = content(p)
        try:
            s = opened(p, c['how'])
        except Exception:
            s = None
        ensure(s is None, f'a file with {k} {c["version"] if "version" in k else ""} is accepted')
        ensure(content(p) == before, f'the refused file ({k}) was changed')
        if c['how'] in ('memory', 'cache'):
            ensure(open(p, 'rb').read() == raw, 'reading changed the file')


@scenario('P26', 'an error at any point of the upgrade leaves the old content', n=150)
class FaultyUpgrade:
    def gen(rng, i):
        return dict(gen_020(rng), k=rng.randrange(60), err=rng.choice(['error', 'interrupt']))

    def check(c):
        from harness.p12 import Fault, is_io
        p = os.path.join(scratch(), 'old.toron')
        old_020(p, c)
        before = content(p)
        err = RuntimeError('injected') if c['err'] == 'error' else KeyboardInterrupt('injected')
        count = [0]

        def prof(frame, event, arg):
            if event == 'c_call' and getattr(arg, '__name__', '') in ('execute', 'executemany') and 'migrations.py' in frame.f_code.co_filename:
                count[0] += 1
                if count[0] - 1 == c['k']:
                    raise err
        failed = None
        try:
            with quiet():
                sys.setprofile(prof)
                try:
                    toron.bind_file(p, mode='rw')
                finally:
                    sys.setprofile(None)
        except BaseException as e:
            if e is not err and not isinstance(e, (RuntimeError, sqlite3.Error)):
                raise
            failed = e
        if count[0] <= c['k']:
            ensure(failed is None, f'upgrade fails: {failed!r}')
            raise Trivial()
        after = content(p)
        if after != before:
            with quiet():
                s = opened(p, 'ro')
            compare(raw_tables(s), expected(c))
        else:
            s = opened(p, 'rw')
            compare(raw_tables(s), expected(c))
