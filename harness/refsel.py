"""Independent reading of selectors: trees ['s',attr,op,val,ic] / ['is'|'not'|'where'|'and',[...]]."""
import re
WORDS = ['x', 'y', 'xx', 'x-1', 'x-1-b', 'en-US', 'X', 'foo bar', 'bar', 'a', 'x y', '-', 'Foo', 'x-']
WEIRD = ['a"b', "it's", 'a\\', '\\', 'a\\"b', 'a\nb', '\\\\', '"', ' lead', 'tab\t', 'é', '日本', ']', '[x]', 'i', ',', ')', '\\n', "\\'", 'a]b"c']
ATTRS = ['A', 'B', 'Cc', 'd-e', '_f', 'g1', '-h']
OPS = ['=', '~=', '|=', '^=', '$=', '*=']


def rand_simple(rng, attrs=ATTRS, words=None):
    a = rng.choice(attrs)
    if rng.random() < 0.25:
        return ['s', a, None, None, False]
    words = words or (WORDS if rng.random() < 0.7 else WEIRD)
    return ['s', a, rng.choice(OPS), rng.choice(words), rng.random() < 0.25]


def rand_sel(rng, depth=2, attrs=ATTRS, words=None, top=True):
    k = rng.random()
    if depth == 0 or k < 0.45:
        return rand_simple(rng, attrs, words)
    if k < 0.65 and top:
        return ['and', [rand_sel(rng, depth - 1, attrs, words, False) for _ in range(rng.randint(2, 3))]]
    kind = rng.choice(['is', 'not', 'where'])
    n = rng.randint(2, 3) if kind == 'is' else rng.randint(1, 3)
    return [kind, [rand_sel(rng, depth - 1, attrs, words, False) for _ in range(n)]]


def matches(t, row):
    k = t[0]
    if k == 's':
        _, attr, op, val, ic = t
        v = row.get(attr, '')
        if op is None:
            return v != '' and v is not None
        if ic:
            val, v = val.upper(), v.upper()
        if op == '=':
            return v == val
        if op == '~=':
            return val in re.split(r'\s+', v.strip()) if v.strip() else False
        if op == '|=':
            return v == val or v[:len(val) + 1] == val + '-'
        if op == '^=':
            return v[:len(val)] == val
        if op == '$=':
            return v[len(v) - len(val):] == val if len(v) >= len(val) else False
        if op == '*=':
            return v.find(val) >= 0
    ms = [matches(x, row) for x in t[1]]
    return {'and': all(ms), 'is': True in ms, 'where': True in ms, 'not': True not in ms}[k]


def spec(t):
    k = t[0]
    if k == 's':
        return (1, 1) if t[2] else (1, 0)
    if k == 'where':
        return (0, 0)
    ss = [spec(x) for x in t[1]]
    if k == 'and':
        return (sum(a for a, b in ss), sum(b for a, b in ss))
    return max(ss)


def text(t, rng=None, quote='"'):
    k = t[0]
    if k == 's':
        _, attr, op, val, ic = t
        if op is None:
            return f'[{attr}]'
        v = val.replace('\\', '\\\\').replace(quote, '\\' + quote)
        return f'[{attr}{op}{quote}{v}{quote}{" i" if ic else ""}]'
    inner = [text(x, rng, quote) for x in t[1]]
    return ''.join(inner) if k == 'and' else f':{k}(' + ', '.join(inner) + ')'


def build(t):
    from toron import selectors as S
    k = t[0]
    if k == 's':
        return S.SimpleSelector(t[1], t[2], t[3], t[4] or None)
    cls = {'and': S.CompoundSelector, 'is': S.MatchesAnySelector, 'not': S.NegationSelector,
           'where': S.SpecificityAdjustmentSelector}[k]
    return cls([build(x) for x in t[1]])


def rand_row(rng, attrs=ATTRS, words=None):
    words = words or WORDS + WEIRD
    return {a: rng.choice(words + ['']) for a in attrs if rng.random() < 0.7}


def best(cands, row, default):
    """cands: {key: [tree]}: key whose best matching specificity is the greatest not shared."""
    m = {}
    for k, ts in cands.items():
        ss = [spec(t) for t in ts or [] if matches(t, row)]
        if ss:
            m[k] = max(ss)
    for s in sorted(set(m.values()), reverse=True):
        ks = [k for k in m if m[k] == s]
        if len(ks) == 1:
            return ks[0]
    return default


def leaves(t):
    return [t] if t[0] == 's' else [x for s in t[1] for x in leaves(s)]


def near_row(rng, t):
    """A row whose values are close to what the selector asks for."""
    row = {}
    for _, a, op, v, _ in leaves(t):
        if rng.random() < 0.15:
            continue
        v = v or rng.choice(WORDS)
        k = rng.randrange(12)
        row[a] = [v, v + '-', v + '-z', 'z' + v, v + 'z', 'z ' + v + ' y', v.swapcase(), v[:-1], v[1:], v + '-' + v, v.split('-')[0], 'z-' + v][k]
    return row
