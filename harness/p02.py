from fractions import Fraction
from harness.core import *
from harness.common import *
M64 = (1 << 64) - 1


def ref_mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


def inv_mix(x):
    """inverse of the published finaliser: shows the hash is injective on 64 bits"""
    def unshift(x, k):
        r = x
        for _ in range(64 // k + 1):
            r = x ^ (r >> k)
        return r
    x = unshift(x, 31)
    x = (x * pow(0x94d049bb133111eb, -1, 1 << 64)) & M64
    x = unshift(x, 27)
    x = (x * pow(0xbf58476d1ce4e5b9, -1, 1 << 64)) & M64
    x = unshift(x, 30)
    return (x - 0x9e3779b97f4a7c15) & M64


def gen_items(rng, n=None):
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    ids = rng.sample(range(0, 60), n) if rng.random() < 0.8 else [rng.randrange(1 << 62) for _ in range(n)]
    ids = list(dict.fromkeys(ids))
    k = rng.randrange(5)
    den = rng.choice([1, 2, 4, 64])
    if k == 0:
        vals = [rng.randrange(0, 5 * den) / den for _ in ids]
    elif k == 1:
        v = rng.randrange(0, 400) / 64
        vals = [v] * len(ids)
    elif k == 2:
        vals = [rng.choice([0.5, 1.5, 2.5, 0.25, 0.0, 3.0]) for _ in ids]
    elif k == 3:
        vals = [rng.randrange(0, 1 << 20) / 1024 for _ in ids]
    else:
        vals = [rng.choice([0.0, 0.0, 1.0, rng.randrange(64) / 64]) for _ in ids]
    if rng.random() < 0.3:
        vals = [-v for v in vals]
    return [[i, v] for i, v in zip(ids, vals)]


@scenario('P02', 'conservation, nearness, largest remainders', n=5000)
class Quantize:
    def gen(rng, i):
        items = gen_items(rng)
        if rng.random() < 0.4:      # make the total whole
            s = sum(v for _, v in items)
            d = math.ceil(abs(s)) - abs(s)
            items[0][1] += math.copysign(d, items[0][1] if items[0][1] else (s or 1))
            if any(v < 0 for _, v in items) and any(v > 0 for _, v in items):
                items = [[i, abs(v)] for i, v in items]
        perm = list(range(len(items)))
        rng.shuffle(perm)
        return {'items': items, 'perm': perm}

    def check(c):
        q = internal('toron._utils', 'quantize_values')
        items = [tuple(x) for x in c['items']]
        total = sum(v for _, v in items)          # exact: dyadic rationals
        out = list(q(iter(items), total))
        ensure(len(out) == len(items) and {i for i, _ in out} == {i for i, _ in items}, f'ids change: {items} -> {out}')
        ensure(sum(Fraction(v) for _, v in out) == Fraction(total), f'{items} total {total} -> {out} total {sum(v for _, v in out)}')
        got = dict(out)
        frac = [i for i, v in got.items() if v != int(v)]
        ensure(len(frac) <= (0 if total == int(total) else 1), f'{items} -> {out}: more than one fractional value')
        for i, v in items:
            ensure(abs(got[i] - v) < 1, f'{i}: {v} -> {got[i]} is 1 or more away ({items})')
            ensure(got[i] * v >= 0, f'{i}: {v} -> {got[i]} changes sign')
        # largest fractional parts first
        up = [(abs(v) % 1, i) for i, v in items if abs(got[i]) >= int(abs(v)) + 1]
        same = [(abs(v) % 1, i) for i, v in items if abs(got[i]) < int(abs(v)) + 1 and got[i] == int(got[i])]
        part = [(abs(v) % 1, i) for i, v in items if got[i] != int(got[i])]
        for f, i in up:
            for g, j in same + part:
                ensure(f > g or (f == g and ref_mix(i) < ref_mix(j)), f'{i} (fraction {f}) was raised before {j} (fraction {g}): {items} -> {out}')
        for f, i in part:
            for g, j in same:
                ensure(f > g or (f == g and ref_mix(i) < ref_mix(j)), f'remainder went to {i} (fraction {f}) before {j} (fraction {g}): {items} -> {out}')
        out2 = dict(q(iter([items[k] for k in c['perm']]), total))
        ensure(out2 == got, f'depends on the order of the shares: {items} -> {out} / {out2}')


@scenario('P02', 'float shares keep the total', n=1500)
class Floats:
    def gen(rng, i):
        n = rng.randint(1, 12)
        q = rng.choice([1.0, 7.0, 100.0, 12.5, 3.7, 1e6])
        w = [rng.choice([1.0, 2.0, 3.0, rng.random(), 0.0]) for _ in range(n)]
        if not sum(w):
            w[0] = 1.0
        s = sum(w)
        return {'items': [[k + 1, q * (x / s)] for k, x in enumerate(w)], 'total': q}

    def check(c):
        q = internal('toron._utils', 'quantize_values')
        out = list(q(iter([tuple(x) for x in c['items']]), c['total']))
        ensure(close(sum(v for _, v in out), c['total']), f'{c} -> {out}')
        got = dict(out)
        ensure(sorted(got) == [i for i, _ in c['items']], f'ids {c} {out}')
        for i, v in c['items']:
            ensure(abs(got[i] - v) < 1 + 1e-6, f'{c} -> {out}')


@scenario('P02', 'tie-breaking hash', n=2000)
class Hash:
    def gen(rng, i):
        return {'x': rng.choice([rng.randrange(1 << 64), rng.randrange(100), (1 << 64) - 1 - rng.randrange(100), 1 << rng.randrange(64)])}

    def check(c):
        h = internal('toron._utils', 'splitmix64')
        y = h(c['x'])
        ensure(0 <= y <= M64, f'out of range {y}')
        ensure(y == ref_mix(c['x']), f'splitmix64({c["x"]}) = {y}')
        ensure(inv_mix(y) == c['x'], 'not injective')


@scenario('P02', 'quantised reading of a dataspace', n=60)
class Space:
    def gen(rng, i):
        cols = ['A', 'B']
        index = rand_index(rng, 2, rng.randint(2, 8))
        w = [rng.choice([0.0, 1.0, 2.0, 3.0, rng.random() * 10]) for _ in index]
        q = []
        for a in sorted({r[0] for r in index}):
            for k in rng.sample(['k1', 'k2', 'k3'], rng.randint(0, 2)):
                q.append([a, '', k, rng.choice([5, 7, 10.5, 3, 1, 0, 100, 2.25, -7, -2.5])])
        q.append(['', '', 'k0', rng.choice([11, 12.5, 7])])
        return {'index': index, 'w': w, 'q': q}

    def check(c):
        cols = ['A', 'B']
        s = make_space(cols, c['index'], [['A']], [{'name': 'w', 'values': c['w'], 'default': True}])
        with quiet():
            s.insert_quantities(value='v', attributes=['k'], data=c['q'], columns=cols + ['k', 'v'])
        plain, quant = {}, {}
        for r in s():
            plain[r[:3]] = plain.get(r[:3], 0) + r[3]
        for r in s(quantize=True):
            quant[r[:3]] = quant.get(r[:3], 0) + r[3]
        for k in {x[2] for x in c['q']}:
            a = sum(v for kk, v in plain.items() if kk[2] == k)
            b = sum(v for kk, v in quant.items() if kk[2] == k)
            t = sum(x[3] for x in c['q'] if x[2] == k)
            ensure(close(a, t) and close(b, t), f'attribute {k}: stored {t}, read {a}, quantised {b}')
        for k in {x[2] for x in c['q']}:
            vals = [x for x in c['q'] if x[2] == k]
            frac = [v for kk, v in quant.items() if kk[2] == k and abs(v - round(v)) > 1e-9]
            ensure(len(frac) <= sum(1 for x in vals if x[3] != int(x[3])), f'{k}: {frac}')
        for kk, v in quant.items():
            n = sum(1 for x in c['q'] if x[2] == kk[2])
            ensure(abs(v - plain.get(kk, 0)) < n + 1e-9, f'{kk}: {plain.get(kk)} -> {v}')
