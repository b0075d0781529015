"""Executable specification of the modifying operations: predict(before, op, other) gives the stored content the
operation must produce, or raises Refuse when it must be refused (and so change nothing).  Everything the
specification does not mention must be unchanged (frame condition)."""
import copy
from harness.core import *
from harness.common import *
from harness import hist as H
from harness.hist import pick, crit, to_level


class Refuse(Exception):
    pass


class Unknown(Exception):
    """the documented behaviour leaves the result open: only the invariants are checked"""


def model(o):
    m = {'cols': list(o['cols']), 'index': dict(o['index']), 'weights': dict(o['weights']),
         'maps': {k: v[0] for k, v in o['maps'].items()},
         'groups': {g['name']: (gid, g['desc'], tuple(g['sel'] or [])) for gid, g in o['groups'].items()},
         'default': o['props'].get('default_weight_group_id'),
         'links': {l['name']: (lid, l['uid'], bool(l['default']), tuple(l['sel'] or []), l['hint']) for lid, l in o['links'].items()},
         'quants': qcontent(o), 'defs': {frozenset(d) for d in o['props'].get('partition_definitions', [])},
         'order': o['props'].get('label_display_order'), 'attrs': o['props'].get('registered_attributes'),
         'other': {k: v for k, v in o['props'].items() if k not in
                   ('index_hash', 'partition_definitions', 'label_display_order', 'registered_attributes', 'default_weight_group_id')}}
    return m


def qcontent(o):
    out = {}
    for loc, at, v in o['quants'].values():
        k = (o['locs'][loc], tuple(sorted(o['attrs'][at].items())))
        ensure(k not in out, f'two quantities stored for {k}')
        out[k] = v
    return out


def full_level(m):
    return to_level([1] * len(m['cols']))


def structure(m):
    st = {frozenset()}
    for d in m['defs']:
        st |= {x | d for x in st}
    return st


def level_ok(m, lev):
    """lev is stored bytes of a non-empty member of the structure"""
    return lev != b'' and lev in {to_level([c in s for c in m['cols']]) for s in structure(m)}


def first_ids(m):
    return [(i, l) for i, l in m['index'].items() if i]


def minimal(defs):
    out = []
    for d in sorted(defs, key=len):
        st = {frozenset()}
        for x in out:
            st |= {y | x for y in st}
        if d not in st:
            out.append(d)
    return set(out)


def link_of(m, op):
    if op['link'] not in m['links']:
        raise Refuse()
    return m['links'][op['link']][0]


def predict(before, op, idx, known_max):
    """idx: [(id, labels)] in the order the operation resolved its positions"""
    m = model(before)
    k, cols, n = op['op'], before['cols'], len(before['cols'])
    fresh = [0]

    def by_labels(l):
        for i, x in m['index'].items():
            if x == tuple(l):
                return i
        return None

    if (k, op.get('odd')) in H.REFUSED:
        raise Refuse()
    if k == 'insert_index':
        chosen = op['more'] if op.get('more') else [op['group']]
        if op.get('more') and op['named'] is not None:
            chosen = [x for x in chosen if x in op['named']]
        chosen = [x for x in chosen if x in m['groups']]
        if op.get('odd') == 'undefined' and chosen:
            raise Refuse()
        for l, w in op['rows']:
            l = tuple(l[:n])
            i = by_labels(l)
            if i is None:
                fresh[0] += 1
                i = ('new', l)
                m['index'][i] = l
            for name in chosen:
                key = (m['groups'][name][0], i)
                if key in m['weights']:
                    if op['wc'] == 'abort':
                        raise Refuse()
                    if op['wc'] == 'replace':
                        m['weights'][key] = w
                else:
                    m['weights'][key] = w
    elif k == 'replace_index':
        if op.get('odd') == 'zero' and op['lc'] != 'ignore':
            raise Refuse()
        for p, l in op['rows']:
            i, l = pick(idx, p)[0], tuple(l[:n])
            if m['index'][i] != l:
                if op['lc'] == 'abort':
                    raise Refuse()
                if op['lc'] == 'replace':
                    if by_labels(l) is not None:
                        raise Refuse()
                    m['index'][i] = l
    elif k in ('insert_weights', 'update_weights'):
        if op['group'] not in m['groups']:
            if k == 'update_weights':
                raise Refuse()
            m['groups'][op['group']] = ('new', None, ())
        gid = m['groups'][op['group']][0]
        chosen = [(pick(idx, i), w) for i, w in op['rows']]
        if op.get('all'):
            chosen = [(x, op['rows'][j % len(op['rows'])][1]) for j, x in enumerate(idx)]
        for (i, _), w in chosen:
            key = (gid, i)
            if key in m['weights']:
                mode = 'replace' if k == 'update_weights' else op['mode']
                if mode == 'abort':
                    raise Refuse()
                if mode == 'replace':
                    m['weights'][key] = w
                elif mode == 'sum':
                    m['weights'][key] += w
            else:
                m['weights'][key] = w
    elif k == 'delete_weights':
        if op['group'] not in m['groups']:
            raise Refuse()
        gid = m['groups'][op['group']][0]
        if op['rows'] is not None:
            gone = [pick(idx, i)[0] for i in op['rows']]
        else:
            c = op['col'] % n
            gone = [i for i, l in m['index'].items() if l[c] == op['val']]
        for i in gone:
            m['weights'].pop((gid, i), None)
    elif k == 'update_index':
        merged = set()
        for p, l, same, j in op['rows']:
            i = pick(idx, p)[0]
            l = tuple(pick(idx, j)[1] if same else l[:n])
            if i in merged:
                raise Refuse()
            twin = by_labels(l)
            if twin is not None and twin != i:
                if not op['merge']:
                    raise Refuse()
                merged.add(twin)
                for g, x in [key for key in m['weights'] if key[1] == twin]:
                    v = m['weights'].pop((g, x))
                    m['weights'][(g, i)] = m['weights'].get((g, i), 0) + v
                for key in [key for key in m['maps'] if key[2] == twin]:
                    v = m['maps'].pop(key)
                    nk = (key[0], key[1], i, key[3])
                    m['maps'][nk] = m['maps'].get(nk, 0) + v
                del m['index'][twin]
            m['index'][i] = l
    elif k == 'delete_index':
        if op['rows'] is not None:
            gone = {pick(idx, i)[0] for i in op['rows']}
        else:
            c = crit(cols, op['crit'])
            gone = {i for i, l in m['index'].items() if all(l[cols.index(a)] == v for a, v in c.items())}
        if any(key[2] in gone and key[3] != full_level(m) for key in m['maps']):
            raise Refuse()
        for i in gone:
            del m['index'][i]
        m['weights'] = {key: v for key, v in m['weights'].items() if key[1] not in gone}
        m['maps'] = {key: v for key, v in m['maps'].items() if key[2] not in gone}
    elif k == 'add_partition':
        d = frozenset(c for c, b in zip(cols, op['bits']) if b)
        if d in m['defs'] or d in structure(m) or d not in minimal(m['defs'] | {d, frozenset(cols)}):
            raise Refuse()
        m['defs'] = minimal(m['defs'] | {d, frozenset(cols)})
    elif k == 'drop_partition':
        d = before['props'].get('partition_definitions')
        d = frozenset(d[sum(op['bits']) % len(d)]) if d else frozenset(cols)
        if d == frozenset(cols):
            raise Refuse()
        m['defs'] = minimal((m['defs'] - {d}) | {frozenset(cols)})
    elif k == 'add_group':
        if op['group'] in m['groups']:
            raise Refuse()
        d = op['default'] if op['default'] is not None else not m['groups']
        m['groups'][op['group']] = ('new', None, tuple(op['sel'] or []))
        if d:
            m['default'] = 'new'
    elif k == 'drop_group':
        if op['group'] in m['groups']:
            gid = m['groups'].pop(op['group'])[0]
            m['weights'] = {key: v for key, v in m['weights'].items() if key[0] != gid}
            if m['default'] == gid:
                m['default'] = None
    elif k == 'default_group':
        m['default'] = m['groups'][op['group']][0]
    elif k == 'add_link':
        if op['link'] in m['links']:
            raise Refuse()
        d = op['default'] if op['default'] is not None else not m['links']
        if d:
            m['links'] = {nm: x[:2] + (False,) + x[3:] for nm, x in m['links'].items()}
        m['links'][op['link']] = ('new', 'other', bool(d), (), None)
    elif k == 'drop_link':
        lid = link_of(m, op)
        del m['links'][op['link']]
        m['maps'] = {key: v for key, v in m['maps'].items() if key[0] != lid}
    elif k == 'default_link':
        link_of(m, op)
        if op['default']:
            m['links'] = {nm: x[:2] + (False,) + x[3:] for nm, x in m['links'].items()}
        x = m['links'][op['link']]
        m['links'][op['link']] = x[:2] + (bool(op['default']),) + x[3:]
    elif k == 'insert_mappings2':
        lid = link_of(m, op)
        ids = [0] + [i for i, _ in idx]
        rows_ = [[o, pick(ids, i), to_level(b[:n]), w] for o, i, b, w in op['rows']]
        if op['all']:
            rows_ = [[1 + j % 4, i, to_level([1] * n), op['rows'][j % len(op['rows'])][3]] for j, i in enumerate(ids)]
        for o, i, lev, w in rows_:
            if not level_ok(m, lev) or (o == 0 and i == 0):
                continue
            if (lid, o, i, lev) in m['maps']:
                raise Refuse()
            m['maps'][(lid, o, i, lev)] = w
    elif k in ('insert_mappings', 'update_mappings'):
        lid = link_of(m, op)
        for o, p, b, w in op['rows']:
            i, lev = pick(idx, p)[0], to_level(b[:n])
            if lev and not level_ok(m, lev):
                continue
            same = [key for key in m['maps'] if key[:3] == (lid, o, i)]
            if k == 'update_mappings' and same:
                if len(same) > 1:
                    raise Unknown()
                del m['maps'][same[0]]
                m['maps'][(lid, o, i, lev)] = w
            else:
                if (lid, o, i, lev) in m['maps']:
                    raise Refuse()
                m['maps'][(lid, o, i, lev)] = w
    elif k == 'delete_mappings':
        lid = link_of(m, op)
        if op['crit']:
            c = crit(cols, op['crit'])
            for key in list(m['maps']):
                if key[0] == lid and all(m['index'][key[2]][cols.index(a)] == v for a, v in c.items()):
                    cl = to_level([x in c for x in cols])
                    if all(not (b & ~(cl[q] if q < len(cl) else 0)) for q, b in enumerate(key[3])):
                        del m['maps'][key]
        else:
            for o, p, b, w in op['rows']:
                i = pick(idx, p)[0]
                had = [key for key in before['maps'] if key[:3] == (lid, o, i)]
                same = [key for key in m['maps'] if key[:3] == (lid, o, i)]
                if len(had) > 1:
                    raise Unknown()
                # the row carries the stored value (when there is one), so it designates exactly that mapping
                if same and same[0][3] == full_level(m):
                    del m['maps'][same[0]]
    elif k == 'reify':
        lid = link_of(m, op)
        c = crit(cols, op['crit'])
        cl = to_level([x in c for x in cols])
        for key in list(m['maps']):
            if key[0] == lid and all(m['index'][key[2]][cols.index(a)] == v for a, v in c.items()) and key[3] != full_level(m):
                if not c or all(not (b & ~(cl[q] if q < len(cl) else 0)) for q, b in enumerate(key[3])):
                    nk = key[:3] + (full_level(m),)
                    if nk in m['maps']:
                        raise Refuse()
                    m['maps'][nk] = m['maps'].pop(key)
    elif k == 'add_column':
        if op['col'] in cols or op['col'] in (m['attrs'] or []):
            raise Refuse()
        old = frozenset(cols)
        m['cols'].append(op['col'])
        m['index'] = {i: l + ('-',) for i, l in m['index'].items()}
        m['quants'] = {(l + ('',), a): v for (l, a), v in m['quants'].items()}
        used = any(frozenset(c for c, x in zip(cols, l) if x != '') == old for l in
                   {before['locs'][q[0]] for q in before['quants'].values()}) or any(key[3] == full_level(before) for key in m['maps'])
        whole = frozenset(m['cols'])
        defs = minimal(m['defs'] | {whole})
        if not used:
            defs = minimal((defs - {old}) | {whole})
        m['defs'] = defs
    elif k == 'rename_column':
        if op['col'] in cols or op['col'] in (m['attrs'] or []):
            raise Refuse()
        ren = {cols[op['k'] % n]: op['col']}
        m['cols'] = [ren.get(c, c) for c in cols]
        m['defs'] = {frozenset(ren.get(c, c) for c in d) for d in m['defs']}
        if m['order'] is not None:
            m['order'] = [ren.get(c, c) for c in m['order']]
    elif k == 'drop_column':
        j = op['k'] % n
        if n == 1:
            raise Refuse()
        cut = lambda l: l[:j] + l[j + 1:]
        m['cols'] = list(cut(tuple(cols)))
        m['index'] = {i: cut(l) for i, l in m['index'].items()}
        if len(set(m['index'].values())) < len(m['index']):
            raise Refuse()
        qs = {}
        for (l, a), v in m['quants'].items():
            if (cut(l), a) in qs:
                raise Refuse()      # two locations become identical
            qs[(cut(l), a)] = v
        locs = [cut(l) for l in before['locs'].values()]
        if len(set(locs)) < len(locs):
            raise Refuse()
        m['quants'] = qs
        keep = frozenset(m['cols'])
        m['defs'] = minimal({d & keep for d in m['defs']} | {keep})
        if m['order'] is not None:
            m['order'] = [c for c in m['order'] if c in keep]
    elif k in ('insert_quantities', 'insert_quantities2'):
        for l, bits, a1, a2, v in op['rows']:
            loc = tuple(x if b else '' for x, b in zip(l[:n], bits))
            at = tuple((x, y) for x, y in (('k', a1), ('m', a2)) if y)
            if not at:
                continue
            key = (loc, at)
            if key in m['quants']:
                mode = op['mode'] if k == 'insert_quantities2' else 'abort'
                if mode == 'abort':
                    raise Refuse()
                if mode == 'replace':
                    m['quants'][key] = float(v)
                elif mode == 'sum':
                    m['quants'][key] += float(v)
            else:
                m['quants'][key] = float(v)
    elif k in ('del_unmatched', 'del_noindex'):
        def bad(loc):
            c = [(p, x) for p, x in enumerate(loc) if x != '']
            no = not any(all(l[p] == x for p, x in c) for l in m['index'].values())
            if k == 'del_unmatched':
                no = no or frozenset(cols[p] for p, _ in c) not in H.struct_of(before)
            return no
        m['quants'] = {key: v for key, v in m['quants'].items() if not bad(key[0])}
    elif k == 'order':
        cur = list(m['order'] or [])
        cur += [c for c in cols if c not in cur]
        e = cols[op['k'] % n]
        p = cur.index(e)
        q = min(max(0, p + op['off']), len(cur) - 1)
        cur.pop(p)
        cur.insert(q, e)
        m['order'] = cur
    else:
        raise Unknown()
    return m


def compare(m, after, before, known_max, uid=None, parts=None):
    a = model(after)
    want = lambda p: parts is None or p in parts

    # ids of new records
    new = {i: l for i, l in a['index'].items() if i not in before['index']}
    ren = {}
    for i, l in new.items():
        if ('new', l) in m['index']:
            ren[i] = ('new', l)
            ensure(i > known_max, f'new record got id {i} although id {known_max} was already in use')
    R = lambda i: ren.get(i, i)
    gid = {v[0]: ('new' if n in m['groups'] and m['groups'][n][0] == 'new' else v[0]) for n, v in a['groups'].items()}
    lid = {v[0]: ('new' if n in m['links'] and m['links'][n][0] == 'new' else v[0]) for n, v in a['links'].items()}

    def diff(name, w, g, tol=False):
        if not want(name):
            return
        for k in list(w) + [x for x in g if x not in w]:
            ensure(k in g, f'{name}: {k} ({w.get(k)}) is missing')
            ensure(k in w, f'{name}: unexpected {k} ({g.get(k)})')
            if tol:
                ensure(g[k] is not None and close(w[k], g[k]), f'{name}: {k} is {g[k]}, expected {w[k]}')
            else:
                ensure(w[k] == g[k], f'{name}: {k} is {g[k]}, expected {w[k]}')

    ensure(a['cols'] == m['cols'] or not want('cols'), f'columns {a["cols"]}, expected {m["cols"]}')
    diff('index', m['index'], {R(i): l for i, l in a['index'].items()})
    diff('weights', m['weights'], {(gid.get(g, g), R(i)): v for (g, i), v in a['weights'].items()}, True)
    diff('maps', m['maps'], {(lid.get(k[0], k[0]), k[1], R(k[2]), k[3]): v for k, v in a['maps'].items()}, True)
    diff('groups', {n: v[:1] + v[2:] for n, v in m['groups'].items()}, {n: (gid[v[0]],) + v[2:] for n, v in a['groups'].items()})
    diff('links', {n: v[:1] + v[2:] for n, v in m['links'].items()}, {n: (lid[v[0]],) + v[2:] for n, v in a['links'].items()})
    diff('quants', m['quants'], a['quants'], True)
    if want('default'):
        d = gid.get(a['default'], a['default'])
        ensure(d == m['default'], f'default weight group is {d}, expected {m["default"]}')
    if want('defs'):
        if before['props'].get('partition_definitions') or m['defs']:
            ensure(a['defs'] == m['defs'], f'partition definitions {sorted(map(sorted, a["defs"]))}, expected {sorted(map(sorted, m["defs"]))}')
    if want('order'):
        ensure(a['order'] == m['order'], f'display order {a["order"]}, expected {m["order"]}')
    ensure(a['other'] == m['other'], f'other properties changed: {a["other"]} from {m["other"]}')


def same_store(a, b):
    for k in a:
        ensure(a[k] == b[k], f'{k} changed by an operation that raised: {a[k]} -> {b[k]}')


class Step:
    """step function for hist.run: checks each operation against the specification"""
    def __init__(self, parts=None, only=None):
        self.parts, self.only, self.max = parts, only, 0

    def __call__(self, before, op, err, after, s, other):
        self.max = max([self.max] + list(before['index']))
        idx = [(i, l) for i, l in sorted(before['index'].items()) if i]
        if self.only and op['op'] not in self.only:
            self.max = max([self.max] + list(after['index']))
            return
        try:
            m = predict(before, op, idx, self.max)
        except Refuse:
            ensure(err is not None, 'accepted, but must be refused')
            same_store(before, after)
            return
        except Unknown:
            self.max = max([self.max] + list(after['index']))
            if err is not None:
                same_store(before, after)
            return
        ensure(err is None, f'refused although legitimate: {err!r}')
        compare(m, after, before, self.max, parts=self.parts)
        self.max = max([self.max] + list(after['index']))
