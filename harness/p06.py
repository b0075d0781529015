from harness.core import *
from harness import refsel as R


@scenario('P06', 'meaning and specificity', n=3000)
class Meaning:
    def gen(rng, i):
        t = R.rand_sel(rng, rng.randint(0, 3))
        return {'t': t, 'rows': [R.rand_row(rng) for _ in range(3)] + [R.near_row(rng, t) for _ in range(5)], 'q': rng.choice(['"', "'"])}

    def check(c):
        from toron.selectors import parse_selector
        t = c['t']
        a = R.build(t)
        txt = R.text(t, quote=c['q'])
        b = parse_selector(txt)
        for name, o in (('built', a), ('parsed', b)):
            for row in c['rows']:
                ensure(o(row) == R.matches(t, row), f'{name} selector {txt} on {row!r}: {o(row)}')
            ensure(tuple(o.specificity) == R.spec(t), f'{name} {txt}: specificity {o.specificity} != {R.spec(t)}')


@scenario('P06', 'text round trip', n=3000)
class RoundTrip:
    def gen(rng, i):
        return {'t': R.rand_sel(rng, rng.randint(0, 3)), 'row': R.rand_row(rng)}

    def check(c):
        from toron.selectors import parse_selector
        a = R.build(c['t'])
        b = parse_selector(str(a))
        ensure(a == b and hash(a) == hash(b), f'{str(a)!r} parses to {b!r}, printed from {a!r}')
        ensure(a(c['row']) == b(c['row']), f'{str(a)!r} changes meaning when parsed')
        ensure(str(b) == str(a), f'printed {str(a)!r} then {str(b)!r}')
        ensure(b.specificity == a.specificity, 'specificity changes')


def shuffled(t, rng):
    if t[0] == 's':
        return t
    inner = [shuffled(x, rng) for x in t[1]]
    rng.shuffle(inner)
    return [t[0], inner]


def mutate(t, rng):
    """a different selector (different meaning key)"""
    if t[0] == 's':
        t = list(t)
        k = rng.randrange(3)
        if k == 0 or t[2] is None:
            t[1] = t[1] + 'q'
        elif k == 1:
            t[3] = t[3] + 'q'
        else:
            t[2] = R.OPS[(R.OPS.index(t[2]) + 1) % len(R.OPS)]
        return t
    i = rng.randrange(len(t[1]))
    if rng.random() < 0.3:
        return [{'is': 'not', 'not': 'where', 'where': 'not', 'and': 'not'}[t[0]], t[1]]
    return [t[0], [mutate(x, rng) if j == i else x for j, x in enumerate(t[1])]]


@scenario('P06', 'equality and hashing', n=1500)
class Equality:
    def gen(rng, i):
        t = R.rand_sel(rng, rng.randint(0, 3))
        return {'t': t, 's': shuffled(t, rng), 'm': mutate(t, rng), 'rows': [R.near_row(rng, t) for _ in range(4)]}

    def check(c):
        a, b, m = R.build(c['t']), R.build(c['s']), R.build(c['m'])
        ensure(a == b and hash(a) == hash(b), f'order matters: {a!r} {b!r}')
        ensure(a == R.build(c['t']), 'not equal to itself')
        if a == m:
            ensure(hash(a) == hash(m), f'equal but hash differs {a!r} {m!r}')
            for row in c['rows']:
                ensure(a(row) == m(row), f'equal selectors differ on {row!r}: {a!r} {m!r}')

        def key(t):
            if t[0] == 's':
                return ('s', t[1], t[2], (t[3].lower() if t[4] else t[3]) if t[2] else None, bool(t[4]))
            return (t[0], frozenset(key(x) for x in t[1]))
        ensure((a == m) == (key(c['t']) == key(c['m'])), f'equality of {a!r} and {m!r} is {a == m}')


BAD = ['', '[', ']', '[A', 'A]', '[A=]', '[A="x]', '[A==x]', '[1A]', '[A] [', ':is()', ':is([A]', ':foo([A])', '[A="x" j]', '[A i]', '[]', '[A!="x"]',
       ':not', ':is([A],)', '[A="x" "y"]', '[A=x y]', 'A', '*', '[A]]', '[[A]]', ':is([A][B])', '[A"x"]', "[A='x\"]", '[A B]']


@scenario('P06', 'malformed text is rejected', n=400, cases=[{'text': b} for b in BAD])
class Malformed:
    def gen(rng, i):
        t = R.text(R.rand_sel(rng, 2))
        k = rng.randrange(len(t))
        return {'text': t[:k], 'cut': True}

    def check(c):
        from toron.selectors import convert_text_selectors, SelectorSyntaxError
        from toron.selectors import parse_selector
        t = c['text']
        if c.get('cut'):
            # a proper prefix of one selector is malformed unless it is itself a selector list
            try:
                s = parse_selector(t)
            except Exception:
                pass
            else:
                ensure(str(s).count('[') == t.count('[') or '"' in t, f'{t!r} accepted as {s!r}')
                raise Trivial()
        try:
            r = convert_text_selectors(json.dumps([t]))
        except SelectorSyntaxError:
            return
        raise Violation(f'malformed selector {t!r} accepted as {r!r}')


@scenario('P06', 'unquoted values and spacing', n=300)
class Spacing:
    def gen(rng, i):
        w = rng.choice(['foo', 'x', 'Bar-1', '_z'])
        a, op = rng.choice(R.ATTRS), rng.choice(R.OPS)
        sp = [' ' * rng.randrange(3) for _ in range(6)]
        ic = rng.random() < 0.3
        return {'text': f'{sp[0]}[{sp[1]}{a}{sp[2]}{op}{sp[3]}{w}{sp[4]}{" i" if ic else ""}{sp[5]}]', 't': ['s', a, op, w, ic]}

    def check(c):
        from toron.selectors import parse_selector
        ensure(parse_selector(c['text']) == R.build(c['t']), c['text'])


@scenario('P06', 'stored selectors keep their meaning', n=25)
class Stored:
    def gen(rng, i):
        return {'ts': [R.rand_sel(rng, 2) for _ in range(3)], 'rows': [R.rand_row(rng) for _ in range(3)]}

    def check(c):
        from toron import DataSpace
        from toron.selectors import parse_selector
        s = DataSpace()
        s.add_index_columns('L')
        s.add_weight_group('w', selectors=[R.text(t) for t in c['ts']])
        got = s.get_weight_group('w').selectors
        ensure(len(got) == len(c['ts']), 'selectors lost')
        for t, g in zip(c['ts'], got):
            for row in c['rows']:
                ensure(parse_selector(g)(row) == R.matches(t, row), f'{g!r} on {row!r}')
