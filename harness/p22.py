from harness.core import *
from harness.common import *
from harness import hist as H

LABELS = ["it's", '"', "''", "'; DROP TABLE label_index; --", ' ', '%', '_', 'NULL', '0', '007', '7', '7.0', '1e5', 'naïve', '日本', '\n', 'a\tb', '\\', '\\n', '[x]', '{}', '?', ':p', '$1',
          '--', '- ', '/*', '*/', 'true', 'None', ' x', 'x ', 'X', 'é', 'e\u0301', ',', '"x"', 'x"y', '`', '\U0001f600', '-1', '[A="x"]', 'nan', '\u200b']
COLS = HOSTILE + ["'; DROP TABLE property; --", ' ', ' lead', 'trail ', '%', '_', '0', '1', 'NULL', 'table', 'where', 'true', 'rowid ', 'a\nb', '\\n', '--', '*', 'A.B', '"a"', "'a'", '[a]', '`a`',
                  'x' * 300, '\U0001f600', 'e\u0301', '?1', '@v', '#', '!', '~', '<>', '=', 'a=b', 'key', 'order', 'default', '-']
GROUPNAMES = ['g "q"', "g'q", 'g; x', 'weight group', 'naïve g', '%s', '日本g', 'g\\', 'g\n', '{g}', '?g', 'select from', ' ']
ATTRS = ['k"q', "m'q", 'a b', 'naïve', '日本', '%s', '?', 'a.b', '$.k', '[0]', 'k\\', '\\u0041', '{x}', '"', "'", 'a\nb', '$', 'k,m', ':k', '*', ' ', '0']
BASE_LAB = H.LAB + ['p', 'q', 'u']


def distinct(names, n, rng):
    while True:
        out = rng.sample(names, n)
        if len({x.casefold() for x in out}) == n and len({x.upper() for x in out}) == n:
            return out


def translate(op, m):
    """The same operation with every name and label replaced."""
    out = {}
    for k, v in op.items():
        if k in ('op', 'mode', 'wc', 'lc', 'by_id', 'sel'):
            out[k] = v
        elif k in ('more', 'named'):
            out[k] = v and [m['group'].get(x, x) for x in v]
        elif k == 'group':
            out[k] = m['group'].get(v, v)
        elif k == 'link':
            out[k] = m['link'].get(v, v)
        elif k == 'col' and isinstance(v, str):
            out[k] = m['col'].get(v, v)
        else:
            out[k] = relabel(v, m['label'])
    if op['op'].startswith('insert_quantities'):
        out['attrs'] = [m['attr'][x] for x in ('k', 'm')]
        out['value'] = m['value']
    if op.get('sel'):
        out['sel'] = None
    return out


def relabel(v, m):
    if isinstance(v, str):
        return m.get(v, v)
    if isinstance(v, (list, tuple)):
        return [relabel(x, m) for x in v]
    return v


def spread(text, cols, c):
    """The listing of ambiguous columns, with plain names: some columns joined in order by ', '."""
    if not text:
        return text
    for mask in range(1 << len(cols)):
        sub = [x for i, x in enumerate(cols) if mask >> i & 1]
        if ', '.join(sub) == text:
            return sorted(map(c, sub))
    raise Violation(f'{text!r} does not name columns of {cols}')


def view(s, other, links, m=None):
    """What the public interface returns, with the names of m mapped back to plain ones."""
    inv = lambda k: {v: q for q, v in (m or {}).get(k, {}).items()}
    col, lab, grp, lnk, att = (inv(k) for k in ('col', 'label', 'group', 'link', 'attr'))
    c = lambda x: col.get(x, x)
    o = H.snap(s)
    L = lambda t: tuple(lab.get(x, x) for x in t)
    out = {'cols': [c(x) for x in o['cols']], 'shown': [c(x) for x in s.index_columns], 'index': {i: L(t) for i, t in o['index'].items()},
           'groups': {i: (grp.get(g['name'], g['name']), bool(g['complete'])) for i, g in o['groups'].items()}, 'weights': o['weights'],
           'links': {i: (lnk.get(g['name'], g['name']), g['default'], g['hash'], g['complete']) for i, g in o['links'].items()}, 'maps': o['maps'],
           'locs': sorted(L(t) for t in o['locs'].values()), 'struct': {frozenset(c(x) for x in k): v and round(v, 9) for k, v in H.struct_of(o).items()}}
    A = lambda d: tuple(sorted((att.get(k, k), lab.get(v, v)) for k, v in d.items()))
    ats = {i: (a if isinstance(a, dict) else json.loads(a)) for i, a in o['attrs'].items()}
    out['attrs'] = sorted(A(a) for a in ats.values())
    out['quants'] = sorted((L(o['locs'][l]), A(ats[a]), v) for l, a, v in o['quants'].values())
    p = o['props']
    out['props'] = {k: v for k, v in p.items() if k not in ('unique_id', 'created_date', 'partition_definitions', 'domain', 'registered_attributes', 'label_order', 'toron_app_version')
                    and 'order' not in k and 'label' not in k}
    out['defs'] = sorted(sorted(c(x) for x in d) for d in s.partition_definitions)
    out['registered'] = [att.get(x, x) for x in s.get_registered_attributes()]
    head = list(s.select_index(header=True))[0]
    out['header'] = [c(x) for x in head]
    for g in o['groups'].values():
        r = []
        with quiet():
            for row in list(s.select_weights(g['name'])):
                r.append([(lab if y < len(o['cols']) else grp).get(x, x) if isinstance(x, str) else x for y, x in enumerate(row)])
        out['w ' + grp.get(g['name'], g['name'])] = sorted(map(repr, r))
    for k in o['links'].values():
        r = []
        for row in s.select_mappings(other, k['name']):
            r.append([lab.get(x, x) if isinstance(x, str) else x for x in row[:-1]] + [spread(row[-1], list(s.index_columns), c)])
        out['m ' + lnk.get(k['name'], k['name'])] = sorted(map(repr, r))
    for name in ('select_quantities', 'select_unmatched_quantities', 'select_quantities_without_index'):
        with quiet():
            rows_ = [list(r) for r in getattr(s, name)(header=True)]
        h = [c(att.get(x, x)) for x in rows_[0]] if rows_ else []
        out[name] = sorted(sorted(zip(h, [repr(lab.get(x, x)) for x in r])) for r in rows_[1:])
    # criteria given by name and label
    for x, y in zip(o['cols'], range(99)):
        for l in sorted({t[y] for t in o['index'].values()}):
            got = sorted(r[0] for r in s.select_index(**{x: l}))
            ensure(got == sorted(i for i, t in o['index'].items() if t[y] == l), f'select_index({{{x!r}: {l!r}}}) gives {got}')
            out['crit', c(x), lab.get(l, l)] = got
    return out


KINDS = ['insert_index'] * 3 + [k for k in dict.fromkeys(H.ALL_OPS)]


@scenario('P22', 'the same history with plain and with hostile names', n=900)
class Twin:
    def gen(rng, i):
        c = H.gen_history(rng, KINDS, rng.randint(3, 9))
        for op in c['ops']:
            op.pop('odd', None)
            op.pop('sel', None)
            if op['op'] == 'add_group':
                op['sel'] = None
        n = 3 + len(H.EXTRA_COLS) + 2
        cols = distinct(COLS, n, rng)
        plain_cols = ['A', 'B', 'D'] + H.EXTRA_COLS + ['R1', 'R2']
        at = distinct(ATTRS, 2, rng)
        c['m'] = {'col': dict(zip(plain_cols, cols)), 'label': dict(zip(BASE_LAB, rng.sample(LABELS, len(BASE_LAB)))),
                  'group': dict(zip(H.GROUPS, rng.sample(GROUPNAMES, len(H.GROUPS)))), 'link': dict(zip(H.LINKS, rng.sample(GROUPNAMES, 2))),
                  'attr': dict(zip(['k', 'm'], at)), 'value': rng.choice(['v', 'the "value"', "v'v", 'val ue', '%v', '?v'])}
        if set(cols) & (set(at) | set(c['m']['group'].values()) | {c['m']['value']}) or c['m']['value'] in at:
            return Twin.gen(rng, i)
        return c

    def check(c):
        m = c['m']
        plain_extra = {x: f'E{j}' for j, x in enumerate(H.EXTRA_COLS)}   # plain names for the columns added later
        pm = {'col': plain_extra, 'label': {x: f'l{j}' for j, x in enumerate(BASE_LAB)}, 'group': {}, 'link': {}, 'attr': {'k': 'k', 'm': 'm'}, 'value': 'v'}
        p, po = H.start({k: v for k, v in c.items() if k != 'via'})
        h, ho = H.start(dict(c, names=[m['col'][x] for x in ('A', 'B', 'D')], attrs=[m['attr']['k'], m['attr']['m']]))
        for j, op in enumerate(c['ops']):
            a = H.apply(p, po, translate(op, pm))
            b = H.apply(h, ho, translate(op, m))
            ensure(type(a) == type(b), f'operation {j} {op["op"]}: plain names {a!r}, hostile names {b!r}: {translate(op, m)}')
            va, vb = view(p, po, None, pm), view(h, ho, None, m)
            for k in va:
                if k == 'header' or k == 'w ' or k in vb and va[k] == vb[k]:
                    continue
                raise Violation(f'after operation {j} {translate(op, m)}: {k} differs: plain {va[k]}, hostile {vb.get(k)}')
            ensure(set(va) == set(vb), f'after operation {j}: {set(va) ^ set(vb)}')


@scenario('P22', 'any label column name is stored verbatim or refused', n=500)
class Names:
    def gen(rng, i):
        pool = COLS + ['a\0b', '\0', '\ud800', 'x\udfff', '', 'index_id', 'INDEX_ID', 'Index_Id', '_location_id', '_granularity', '_structure_id', 'value', 'domain', 'weight', 'A', 'a', 'á', 'Á', '\x01', '\x7f', '\u2028', '\ufeff',
                       'sqlite_x', 'rowid', 'oid', '_rowid_', 'label_index', 'main.label_index', 'x]y', 'x[y']
        s = ''.join(rng.choice('ab"\'`[];-- \\\n\t%?é日:$@#.()*{}/') for _ in range(rng.randint(1, 8)))
        return {'name': rng.choice(pool) if rng.random() < 0.7 else s, 'how': rng.choice(['first', 'add', 'rename', 'rename2']), 'rows': rng.randint(0, 3), 'label': rng.choice(LABELS)}

    def check(c):
        s = DataSpace()
        name = c['name']
        with quiet():
            if c['how'] != 'first':
                s.add_index_columns('A', 'B')
                s.insert_index([[f'x{i}', c['label']] for i in range(c['rows'])] or [['x', 'y']], columns=['A', 'B'])
        before = dump(s)
        err = None
        try:
            with quiet():
                if c['how'] in ('first', 'add'):
                    s.add_index_columns(name)
                elif c['how'] == 'rename':
                    s.rename_index_columns({'A': name})
                else:
                    s.rename_label_column('A', name)
        except Exception as e:
            err = e
        ensure(not in_txn(s), 'transaction left open')
        if err is not None:
            ensure(dump(s) == before, f'{name!r} refused with {err!r}, but something changed')
            bad = ('\0' in name or any(0xd800 <= ord(x) <= 0xdfff for x in name) or name.lower() in ('index_id', '_location_id', '_structure_id', '_granularity', 'value', 'domain', 'weight', 'a', 'b', ''))
            ensure(bad, f'{name!r} is refused: {err!r}')
            return
        want = {'first': [name], 'add': ['A', 'B', name], 'rename': [name, 'B'], 'rename2': [name, 'B']}[c['how']]
        ensure(s.index_columns == want, f'columns are {s.index_columns}, expected {want}')
        n = len(want)
        with quiet():
            s.insert_index([[c['label']] + ['n'] * (n - 1)], columns=want)
        got = [tuple(r[1:]) for r in s.select_index() if r[0]]
        ensure((c['label'],) + ('n',) * (n - 1) in got, f'label {c["label"]!r} not returned verbatim: {got}')
        ensure(list(s.select_index(header=True))[0] == ('index_id', *want) or list(list(s.select_index(header=True))[0]) == ['index_id', *want], f'header {list(s.select_index(header=True))[0]}')
        p = os.path.join(scratch(), 'f.toron')
        s.to_file(p, fsync=False)
        t = toron.read_file(p)
        ensure(t.index_columns == want and dump(t) == dump(s), 'names differ after saving and reading')


@scenario('P22', 'attribute names and values, domain and descriptions are verbatim', n=300)
class Attrs:
    def gen(rng, i):
        val = lambda: rng.choice(LABELS + ATTRS)
        return {'attrs': distinct(ATTRS, rng.randint(1, 3), rng), 'rows': [[rng.choice('xy'), [val() for _ in range(3)], float(j)] for j in range(rng.randint(1, 6))],
                'domain': rng.choice([''] + LABELS + ATTRS), 'desc': val(), 'two': rng.random() < 0.5, 'hint': val(), 'value': rng.choice(['v', 'q"t', "q't", 'a b', 'quantity'])}

    def check(c):
        at = c['attrs']
        if c['value'] in at or 'A' in at:
            raise Trivial()
        s, o = make_space(['A'], [['x'], ['y']]), DataSpace()
        want = {}
        with quiet():
            o.add_index_columns('S')
            if c['two']:
                s.set_registered_attributes(at)
            for a, vals, q in c['rows']:
                want[a, tuple(vals[:len(at)])] = q
            data = [[a, *vals, q] for (a, vals), q in want.items()]
            if c['domain']:
                s.set_domain(c['domain'])
                data = [r + [c['domain']] for r in data]
            extra = ['domain'] if c['domain'] else []
            if c['two']:
                s.insert_quantities2(value_column=c['value'], data=data, columns=['A'] + at + [c['value']] + extra)
            else:
                s.insert_quantities(value=c['value'], attributes=at, data=data, columns=['A'] + at + [c['value']] + extra)
            s.add_weight_group('g', description=c['desc'])
            s.add_link(o, 'L', description=c['desc'], other_filename_hint=c['hint'], user_properties={c['desc']: c['hint']})
        ensure(s.domain == c['domain'], f'domain {s.domain!r}')
        ensure(s.get_weight_group('g').description == c['desc'], 'description')
        l = s.get_link(o, 'L')
        ensure(l.description == c['desc'] and l.user_properties == {c['desc']: c['hint']}, f'link {l}')
        rows_ = [list(r) for r in (s.select_quantities2(header=True) if c['two'] else s.select_quantities(header=True))]
        head, rows_ = rows_[0], rows_[1:]
        got = {}
        for r in rows_:
            d = dict(zip(head[:-1], r[:-1]))
            got[d['A'], tuple(d[x] for x in at)] = float(r[-1])
        ensure(got == want and len(rows_) == len(want), f'quantities {got}, expected {want}')
        with quiet():
            sel = {x: v for x, v in zip(at, next(iter(want))[1])}
        Att = internal('toron.dal1.repositories', 'AttributeGroupRepository')
        with s._managed_cursor() as cur:
            found = [g.attributes for g in Att(cur).find_by_criteria(**sel)]
        ensure(found == [dict(zip(at, k[1])) for k in {k[1]: k for k in want if all(sel[x] == y for x, y in zip(at, k[1]))}.values()], f'find_by_criteria({sel}) gives {found}')


@scenario('P22', 'reading, mapping, translating and pivoting with hostile names', n=250)
class Pipeline:
    def gen(rng, i):
        cols = distinct(COLS, 4, rng)
        labs = rng.sample(LABELS, 10)
        at = distinct(ATTRS, 2, rng)
        link, group = rng.choice(GROUPNAMES), rng.choice(GROUPNAMES)
        if {link, group, *at} & set(cols):
            return Pipeline.gen(rng, i)
        return {'cols': cols, 'labs': labs, 'attrs': at, 'words': rng.sample(LABELS, 3), 'n': [rng.randint(2, 5), rng.randint(2, 5)], 'link': link, 'group': group,
                'map': [[rng.randrange(5), rng.randrange(5), rng.choice([1.0, 2.5, 4.0])] for _ in range(8)], 'q': [[rng.randrange(5), rng.random() < .3, rng.randrange(3), rng.randrange(3), float(rng.randrange(1, 50))] for _ in range(6)],
                'file': rng.random() < 0.3}

    def run(c, cols, labs, at, words, link, group, d):
        load = internal('toron.graph', 'load_mapping')
        S = []
        for k in (0, 1):
            s = DataSpace()
            a, b = cols[2 * k:2 * k + 2]
            s.add_index_columns(a, b)
            s.add_weight_group(group, make_default=True)
            s.insert_index([[labs[j], labs[5 + j % 2], float(j + 1)] for j in range(c['n'][k])], columns=[a, b, group])
            s.add_partition_definition({b})
            S.append(s)
        one, two = S
        seen, rows_ = set(), []
        for x, y, v in c['map'] + [[j, j % c['n'][1], 1.0] for j in range(c['n'][0])]:
            x, y = x % c['n'][0], y % c['n'][1]
            if (x, y) not in seen:
                seen.add((x, y))
                rows_.append([labs[x], labs[5 + x % 2], v, labs[y], labs[5 + y % 2]])
        load(one, '->', two, link, rows_, columns=cols[:2] + [link] + cols[2:])
        q = {}
        for x, agg, k1, k2, v in c['q']:
            x = x % c['n'][0]
            q['' if agg else labs[x], labs[5 + x % 2], words[k1], words[k2]] = v
        one.insert_quantities(value='v', attributes=at, data=[list(k) + [v] for k, v in q.items()], columns=cols[:2] + at + ['v'])
        if c['file']:
            out = []
            for j, s in enumerate(S):
                p = os.path.join(scratch(), f'{d}{j}.toron')
                s.to_file(p, fsync=False)
                out.append(toron.read_file(p))
            one, two = out
        res = []
        r = one()
        res.append(list(map(list, [r.columns] + list(r))))
        r = one()
        r.translate(two)
        res.append(list(map(list, [r.columns] + list(r))))
        r = one()
        piv = internal('toron.reader', 'pivot_reader')
        r.translate(two)
        res.append([list(x) for x in piv(r, [at[0]])])
        return res

    def check(c):
        with quiet():
            p = Pipeline.run(c, ['A', 'B', 'C', 'D'], [f'l{j}' for j in range(10)], ['k', 'm'], ['p', 'q', 'r'], 'L', 'g', 'p')
            h = Pipeline.run(c, c['cols'], c['labs'], c['attrs'], c['words'], c['link'], c['group'], 'h')
        for tp, th in zip(p, h):
            ensure(len(tp) == len(th), f'{len(tp) - 1} rows with plain names, {len(th) - 1} with hostile names')
            if not tp:
                continue
            name = dict(zip(['A', 'B', 'C', 'D', 'k', 'm'], c['cols'] + c['attrs']))
            val = dict(zip([f'l{j}' for j in range(10)] + ['p', 'q', 'r'], c['labs'] + c['words']))
            # values are placed by column: attribute columns may be listed in another order
            def norm(t, name, val):
                head = [name.get(x, val.get(x, x)) for x in t[0]]
                return sorted(sorted(((x, repr(val.get(y, y) if isinstance(y, str) else (round(y, 6) if isinstance(y, float) else y))) for x, y in zip(head, r)), key=repr) for r in t[1:])
            a, b = norm(tp, name, val), norm(th, {}, {})
            ensure(a == b, f'plain {a}\nhostile {b}')
