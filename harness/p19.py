from harness.core import *
from harness.common import *
import zlib, uuid, csv, io, argparse

L = ['x', 'y', 'z']


def bits_bytes(bits):
    bits = list(bits)
    while bits and not bits[-1]:
        bits.pop()
    out = bytearray((len(bits) + 7) // 8)
    for j, b in enumerate(bits):
        if b:
            out[j // 8] |= 128 >> (j % 8)
    return bytes(out)


def gen_node(rng):
    n = rng.randint(1, 3)
    idx = rand_index(rng, n, rng.choice([1, 2, 3, 5, 7]), labels=L)
    return {'n': n, 'idx': idx, 'parts': [rand_subset(rng, NAMES[:n]) for _ in range(rng.randint(0, 2))],
            'w': [rng.choice([0.0, 1.0, 2.0, float(rng.randrange(20)), None]) if rng.random() < 0.5 else float(rng.randrange(1, 9)) for _ in idx]}


def make(nd, prefix):
    cols = [prefix + c for c in NAMES[:nd['n']]]
    s = make_space(cols, nd['idx'], weights=[{'name': 'w', 'values': nd['w'], 'default': True}])
    for p in nd['parts']:
        try:
            with quiet():
                s.add_partition_definition({prefix + c for c in p})
        except RuntimeError:
            pass
    st = structure(s)
    ids = {v: list(k) for k, v in ids_of(s, cols).items()}
    ids.setdefault(0, ['-'] * nd['n'])
    wt = {r['index_id']: r['weight_value'] for r in rows(s, 'weight')}
    gran = {tuple(c in k for c in cols): (g if g is not None else -1) for k, g in st.items()}
    return s, cols, ids, wt, gran


def gen_side(rng, nd):
    """[kind, ...]: how a row refers to this node"""
    k = rng.random()
    if k < 0.2:
        return ['id', rng.randrange(0, len(nd['idx']) + 2)]
    base = rng.choice(nd['idx'] + ([['-'] * nd['n']] if rng.random() < 0.3 else [])) if rng.random() < 0.9 else [rng.choice(L) for _ in range(nd['n'])]
    return ['lab', base, rng.randrange(1000)]


def labels_of(side, cols, gran, allow_empty=False):
    """labels restricted to a partition of the node"""
    levels = sorted(l for l in gran if any(l) or allow_empty)
    l = levels[side[2] % len(levels)]
    return [x if b else '' for x, b in zip(side[1], l)]


def match(rows_, ids, wt, gran, limit, overlap, undefined=True):
    """reference: row number -> {index id: share} and its level"""
    order = sorted({r[2] for r in rows_}, key=lambda l: -gran[l])
    taken = {}      # index id -> levels already matched
    out = {}
    for level in order:
        for n, (i, labels, lv) in enumerate(rows_):
            if lv != level:
                continue
            if i is not None:
                m = [i] if i in ids else []
            else:
                m = [k for k, r in ids.items() if all(a == '' or a == b for a, b in zip(labels, r))]
                if len(m) > limit:
                    continue
                if len(m) > 1 and not overlap:
                    m = [k for k in m if not (taken.get(k, set()) - {level})]
            if len(m) > 1 and any(k not in wt and not (undefined and k == 0) for k in m):
                continue
            for k in m:
                taken.setdefault(k, set()).add(level)
            w = {k: wt.get(k, 0.0 if k == 0 else None) for k in m}
            tot = sum(v for v in w.values() if v is not None)
            out[n] = {k: (v / tot if tot else 1 / len(m)) for k, v in w.items()}
    return out


def unclear(rows_, gran, overlap):
    """two levels of one granularity: which comes first is not specified"""
    used = {r[2] for r in rows_}
    return not overlap and len({gran[l] for l in used}) < len(used)


def product(m1, m2, lv2, values):
    want = {}
    for n in set(m1) & set(m2):
        for a, p in m1[n].items():
            for b, q in m2[n].items():
                if a == 0 and b == 0:
                    continue
                k = (a, b, bits_bytes(lv2[n]))
                want[k] = want.get(k, 0) + values[n] * p * q
    return want


def agree(got, want, what):
    ensure(set(got) == set(want), f'{what}: mappings {sorted(set(got) ^ set(want))} differ (got {got}, expected {want})')
    for k in want:
        ensure(close(got[k], want[k], 100), f'{what}: {k} value {got[k]}, expected {want[k]}')


def gen_case(rng):
    a, b = gen_node(rng), gen_node(rng)
    rws = [[gen_side(rng, a), gen_side(rng, b), rng.choice([0.0, 1.0, 10.0, float(rng.randrange(100)), rng.random() * 9])] for _ in range(rng.randint(1, 7))]
    return {'a': a, 'b': b, 'rows': rws, 'limit': rng.choice([1, 1, 2, 3, 10]), 'overlap': rng.random() < 0.5}


@scenario('P19', 'mapper', n=700)
class Mapping:
    def gen(rng, i):
        return gen_case(rng)

    def check(c):
        Mapper, BitFlags = internal('toron.mapper', 'Mapper'), internal('toron._utils', 'BitFlags')
        s1, c1, ids1, wt1, g1 = make(c['a'], '')
        s2, c2, ids2, wt2, g2 = make(c['b'], 'q')
        sides, data = [], []
        for x, y, v in c['rows']:
            row = []
            for side, cols, gran in ((x, c1, g1), (y, c2, g2)):
                if side[0] == 'id':
                    row.append((side[1], [''] * len(cols), tuple([True] * len(cols))))
                else:
                    lab = labels_of(side, cols, gran)
                    row.append((None, lab, tuple(bool(z) for z in lab)))
            sides.append(row)
            data.append([z for i, lab, lv in row for z in (i, lab, BitFlags(lv))] + [v])
        one, two = [r[0] for r in sides], [r[1] for r in sides]
        if unclear(one, g1, c['overlap']) or unclear(two, g2, c['overlap']):
            raise Trivial()
        m1 = match(one, ids1, wt1, g1, c['limit'], c['overlap'])
        m2 = match(two, ids2, wt2, g2, c['limit'], c['overlap'])
        m = Mapper(s1, s2, iter(data))
        for v in ('node1', 'node2'):
            m.match_records(v, match_limit=c['limit'], allow_overlapping=c['overlap'])
        values = [r[2] for r in c['rows']]
        for tgt, src, dst, lv in (('node2', m1, m2, two), ('node1', m2, m1, one)):
            want = product(src, dst, [r[2] for r in lv], values)
            got = {}
            for o, i, level, v in m.iter_mappings(tgt):
                ensure((o, i, bytes(level)) not in got, 'mapping listed twice')
                got[o, i, bytes(level)] = v
            agree(got, want, tgt)
            total = sum(values[n] * (1 - src[n].get(0, 0) * dst[n].get(0, 0)) for n in set(src) & set(dst) if src[n] and dst[n])
            ensure(close(sum(got.values()), total, 100), f'{tgt}: total {sum(got.values())}, matched rows hold {total}')
        full = {k for x in m1.values() for k in x} - {0} == set(ids1) - {0} and {k for x in m2.values() for k in x} - {0} == set(ids2) - {0}
        ensure(bool(m.is_fully_matched()) == full, f'is_fully_matched {m.is_fully_matched()}, expected {full}')


@scenario('P19', 'levels that are no partition are refused', n=150)
class BadLevel:
    def gen(rng, i):
        a, b = gen_node(rng), gen_node(rng)
        a['n'], a['idx'], a['parts'], a['w'] = 3, rand_index(rng, 3, 3, labels=L), a['parts'][:0], [1.0] * 3
        return {'a': a, 'b': b, 'bits': [rng.random() < 0.5 for _ in range(3)], 'side': rng.randrange(2)}

    def check(c):
        Mapper, BitFlags = internal('toron.mapper', 'Mapper'), internal('toron._utils', 'BitFlags')
        s1, c1, ids1, wt1, g1 = make(c['a'], '')
        s2, c2, ids2, wt2, g2 = make(c['b'], 'q')
        bad = [1, [x if b else '' for x, b in zip(c['a']['idx'][0], c['bits'])], BitFlags(c['bits'])]
        good = [1, c['b']['idx'][0], BitFlags([1] * len(c2))]
        bad[0] = None
        try:
            if c['side']:
                Mapper(s2, s1, [good + bad + [1.0]])
            else:
                Mapper(s1, s2, [bad + good + [1.0]])
        except RuntimeError:
            ensure(tuple(c['bits']) not in g1, 'refused although the partition exists')
            return
        ensure(tuple(c['bits']) in g1, f'{c["bits"]} accepted, partitions are {sorted(g1)}')


def code(i, s):
    u = uuid.UUID(s.unique_id).bytes
    return '%dX%08X' % (i, zlib.crc32(i.to_bytes(8, 'big') + u))


class Stream(io.StringIO):
    pass


@scenario('P19', 'mapping files loaded by the command line', n=300)
class Cli:
    def gen(rng, i):
        c = gen_case(rng)
        c['dir'] = rng.choice(['both', 'right', 'left'])
        c['codes'] = [rng.random() < 0.4, rng.random() < 0.4]
        c['swap'] = rng.random() < 0.3
        c['incomplete'] = rng.random() < 0.8
        return c

    def check(c):
        read = internal('toron.cli.command_mapping', 'read_from_stdin')
        import toron
        s1, c1, ids1, wt1, g1 = make(c['a'], '')
        s2, c2, ids2, wt2, g2 = make(c['b'], 'q')
        with quiet():
            s2.add_link(s1, 'link')
            s1.add_link(s2, 'link')
        swap = c['swap'] and any(c['codes'])
        head = [['i1'] * c['codes'][0] + c1, ['i2'] * c['codes'][1] + c2]
        out, one, two = [], [], []
        seen = [False, False]
        for x, y, v in c['rows']:
            cells = []
            for k, (side, cols, gran, ids, s, acc) in enumerate(((x, c1, g1, ids1, s1, one), (y, c2, g2, ids2, s2, two))):
                if side[0] == 'id' and c['codes'][k]:
                    seen[k] = True
                    cells.append([code(side[1], s)] + [''] * len(cols))
                    acc.append((side[1], [''] * len(cols), tuple([True] * len(cols))))
                else:
                    lab = labels_of(side if side[0] != 'id' else ['lab', c['ab'[k]]['idx'][0], side[1]], cols, gran)
                    cells.append(([''] if c['codes'][k] else []) + lab)
                    acc.append((None, lab, tuple(bool(z) for z in lab)))
            out.append(cells + [v])
        for k in (0, 1):
            if c['codes'][k] and not seen[k]:
                raise Trivial()
        if unclear(one, g1, c['overlap']) or unclear(two, g2, c['overlap']):
            raise Trivial()
        o = (1, 0) if swap else (0, 1)
        if swap and head[0] == head[1]:
            raise Trivial()
        buf = io.StringIO(newline='')
        w = csv.writer(buf)
        w.writerow(head[o[0]] + ['link'] + head[o[1]])
        for cells in out:
            w.writerow(cells[o[0]] + [cells[2]] + cells[o[1]])
        values = [r[2] for r in c['rows']]
        args = argparse.Namespace(link='link', direction=c['dir'], stdin=io.StringIO(buf.getvalue(), newline=''), match_limit=c['limit'],
                                  allow_overlapping=c['overlap'], allow_incomplete=c['incomplete'])
        m1 = match(one, ids1, wt1, g1, c['limit'], c['overlap'])
        m2 = match(two, ids2, wt2, g2, c['limit'], c['overlap'])
        full = {k for x in m1.values() for k in x} - {0} == set(ids1) - {0} and {k for x in m2.values() for k in x} - {0} == set(ids2) - {0}
        try:
            with quiet():
                read(args, s1, s2)
        except toron.ToronError as e:
            ensure(not full and not c['incomplete'], f'refused: {e}')
            ensure(rows(s1, 'mapping') == [] and rows(s2, 'mapping') == [], 'mappings loaded although refused')
            return
        ensure(full or c['incomplete'], 'incomplete mapping accepted')
        for name, s, src, dst, lv, on in (('right', s2, m1, m2, two, c['dir'] != 'left'), ('left', s1, m2, m1, one, c['dir'] != 'right')):
            want = product(src, dst, [r[2] for r in lv], values) if on else {}
            got = {(r['other_index_id'], r['index_id'], bytes(r['mapping_level'])): r['mapping_value'] for r in rows(s, 'mapping')}
            agree(got, want, name)


@scenario('P19', 'load_mapping', n=250)
class Load:
    def gen(rng, i):
        c = gen_case(rng)
        c['dir'] = rng.choice(['->', '<-', '<->'])
        for r in c['rows']:
            for k in (0, 1):
                if r[k][0] == 'id':
                    r[k] = ['lab', c['ab'[k]]['idx'][0], r[k][1]]
        return c

    def check(c):
        load = internal('toron.graph', 'load_mapping')
        s1, c1, ids1, wt1, g1 = make(c['a'], '')
        s2, c2, ids2, wt2, g2 = make(c['b'], 'q')
        one, two, data = [], [], []
        for x, y, v in c['rows']:
            la, lb = labels_of(x, c1, g1), labels_of(y, c2, g2)
            one.append((None, la, tuple(bool(z) for z in la)))
            two.append((None, lb, tuple(bool(z) for z in lb)))
            data.append(la + [v] + lb)
        if unclear(one, g1, c['overlap']) or unclear(two, g2, c['overlap']):
            raise Trivial()
        m1 = match(one, ids1, wt1, g1, c['limit'], c['overlap'], False)
        m2 = match(two, ids2, wt2, g2, c['limit'], c['overlap'], False)
        with quiet():
            load(s1, c['dir'], s2, 'link', data, columns=c1 + ['link'] + c2, match_limit=c['limit'], allow_overlapping=c['overlap'])
        values = [r[2] for r in c['rows']]
        for name, s, src, dst, lv, on in (('->', s2, m1, m2, two, '->' in c['dir']), ('<-', s1, m2, m1, one, '<-' in c['dir'])):
            want = product(src, dst, [r[2] for r in lv], values) if on else {}
            got = {(r['other_index_id'], r['index_id'], bytes(r['mapping_level'])): r['mapping_value'] for r in rows(s, 'mapping')}
            agree(got, want, name)
