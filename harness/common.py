"""Generators and reference observations shared by the harness modules."""
import math, os, sqlite3
from harness.core import ensure, Violation, Skip, Trivial, internal, quiet, scratch
import toron
from toron import DataSpace

NAMES = ['A', 'B', 'C', 'D', 'E']
HOSTILE = ['my col', 'x"y', "it's", 'select', 'a;b', 'naïve', 'a--b', 'A]', '[x', 'a`b', 'tab\tx', 'Ünï', 'col%s', '?', ':p', 'a.b', 'group',
           'x""y', '"', 'order by', '(', 'a,b', '\\', 'x\\', '日本', '$1', "''", '{a}', '/*c*/']

# labels that sort before or after the usual ones, look like numbers, patterns or keywords, or hold only white space
ODD_LABELS = ['\tx', ' ', '  x ', '\n', '!', '%', '_x', "o'k", '"', '0', '10', '1.0', '-1', '- ', 'NULL', 'None', 'é', 'É', 'X', '日本', '~', '\x01', 'x y', 'A', '\U0001f600']


def dump(space, drop=()):
    """Every table of the backing database, as {table: sorted rows}."""
    con = space._connector.acquire_connection()
    try:
        cur = con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' ORDER BY name")
        out = {}
        for (t,) in cur.fetchall():
            if t in drop:
                continue
            c = con.execute('SELECT * FROM "%s"' % t.replace('"', '""'))
            cols = tuple(d[0] for d in c.description)
            out[t] = (cols, sorted(c.fetchall(), key=repr))
        return out
    finally:
        space._connector.release_connection(con)


def in_txn(space):
    con = space._connector.acquire_connection()
    try:
        return con.in_transaction
    finally:
        space._connector.release_connection(con)


def rows(space, table, order='1'):
    con = space._connector.acquire_connection()
    try:
        c = con.execute('SELECT * FROM "%s" ORDER BY %s' % (table, order))
        cols = [d[0] for d in c.description]
        return [dict(zip(cols, r)) for r in c.fetchall()]
    finally:
        space._connector.release_connection(con)


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), scale)


def entropy(groups, total):
    return -sum((n / total) * math.log2(n / total) for n in groups if n)


def rand_value(rng, signed=True):
    k = rng.randrange(8)
    v = {6: lambda: rng.random() * 1e-9, 7: lambda: rng.choice([0.1, 1/3, 1e12 + 0.5]), 0: lambda: float(rng.randrange(0, 20)), 1: lambda: rng.random(), 2: lambda: rng.uniform(0, 1000), 3: lambda: 0.0,
         4: lambda: rng.randrange(1, 10**6) / 7, 5: lambda: float(rng.randrange(0, 10**9))}[k]()
    return -v if signed and rng.random() < 0.2 else v


def rand_index(rng, ncols=None, nrows=None, labels=None):
    """distinct label rows"""
    ncols = ncols or rng.randint(1, 4)
    if labels is None:
        labels = rng.sample(ODD_LABELS, 4) if rng.random() < 0.15 else ['x', 'y', 'z', 'w']
    if nrows is None and rng.random() < 0.04:
        nrows = rng.randint(9, 24)     # now and then a larger index
    space = len(labels) ** ncols
    nrows = min(space, nrows if nrows is not None else rng.randint(1, 8))
    out = set()
    while len(out) < nrows:
        out.add(tuple(rng.choice(labels) for _ in range(ncols)))
    out = sorted(out)
    rng.shuffle(out)
    return [list(r) for r in out]


def make_space(cols, index, partitions=(), weights=None, complete_groups=True, cls=DataSpace):
    """weights: list of {name, values: {row position: value}, selectors, default}"""
    s = cls()
    with quiet():
        s.add_index_columns(*cols)
        if index:
            s.insert_index(index, columns=list(cols))
        for p in partitions:
            s.add_partition_definition(set(p))
        for w in weights or []:
            s.add_weight_group(w['name'], selectors=w.get('selectors') or None, make_default=bool(w.get('default')))
            data = [list(r) + [w['values'][i]] for i, r in enumerate(index) if w['values'][i] is not None]
            if data:
                s.insert_weights(w['name'], data, columns=list(cols) + ['__w__'], value_column='__w__')
    return s


def ids_of(space, cols):
    """labels tuple -> id"""
    return {tuple(r[1:]): r[0] for r in space.select_index()}


def structure(space):
    """{frozenset of columns: granularity}"""
    out = {}
    cols = space.index_columns
    for r in rows(space, 'label_structure'):
        key = frozenset(c for c in cols if r[c])
        if key in out:
            raise Violation(f'partition {sorted(key)} stored twice')
        out[key] = r['_granularity']
    return out


def rand_subset(rng, cols, empty=False):
    while True:
        s = [c for c in cols if rng.random() < 0.5]
        if s or empty:
            return s
