from harness.core import *
from harness.common import *
from harness import hist as H
from harness.histscn import history

history('P18', 'histories of link operations', ['add_link', 'drop_link', 'default_link', 'insert_mappings2'], ['links', 'refs'], parts=('links', 'maps'), n=900, maps=0.5)

LONG = 'a1b2c3d4-0000-4000-8000-0123456789ab'
UIDS = [LONG, '1111111-1111-a', '1111111-1111-b', '1111111', '1111112-zz', 'abcdefg-1', 'ABCDEFG-1', 'abcdefgh', 'file1', '']
HINTS = [None, 'file1', 'file1.toron', 'file2', '1111111', 'abcdefg', 'abc', 'd/file1', 'FILE1', 'file']


class Other:
    """stands for a dataspace with a chosen unique id"""
    def __init__(self, uid):
        self.unique_id = uid


def gen_links(rng):
    out = []
    for _ in range(rng.randint(0, 6)):
        out.append([rng.choice(UIDS[:-1]), rng.choice(['L', 'M', 'N']), rng.choice(HINTS), rng.choice([None, None, True, False])])
    return out


def build(c):
    s = make_space(['A'], [])
    ref = []     # [uid, name, hint, default]
    for uid, name, hint, d in c['links']:
        err = None
        try:
            with quiet():
                s.add_link(Other(uid), name, other_filename_hint=hint, is_default=d)
        except toron.ToronError as e:
            err = e
        same = [x for x in ref if x[0] == uid]
        if any(x[1] == name for x in same):
            ensure(err is not None, f'second link {name} from {uid} accepted')
            continue
        ensure(err is None, f'link refused: {err!r}')
        d = d if d is not None else not same
        if d:
            for x in same:
                x[3] = False
        ref.append([uid, name, hint, bool(d)])
    return s, ref


def expected(ref, r, strip):
    """links a reference resolves to: [] none, None ambiguous"""
    m = [x for x in ref if x[0] == r]
    if m:
        return m
    m = [x for x in ref if x[2] is not None and x[2] == r]
    if not r.endswith('.toron'):
        m += [x for x in ref if x[2] == r + '.toron']
    elif strip:
        m += [x for x in ref if x[2] == r[:-6]]
    if not m and len(r) >= 7:
        m = [x for x in ref if x[0].startswith(r)]
    return m


REFS = [LONG[:-1] + 'c', LONG[:-1], LONG[:7], LONG[:12] + 'x', LONG[:20], LONG + '0', LONG.upper(), LONG[:6], ' ' + LONG, LONG + ' '] + UIDS[:-1] + [h for h in HINTS if h] + ['111111', '11111111', '1111111-', '1111111-1111-', 'abcdefg-', 'abcdef', 'file2.toron', 'd/file1.toron', 'nope', '2222222', 'abcdefg.toron', '%', '_______', '1111111%']


@scenario('P18', 'references resolve to the right links', n=1500)
class Refs:
    def gen(rng, i):
        return {'links': gen_links(rng), 'refs': rng.sample(REFS, 8), 'names': [rng.choice([None, 'L', 'M', 'zz']) for _ in range(8)]}

    def check(c):
        s, ref = build(c)
        key = lambda x: (x.other_unique_id, x.name, x.other_filename_hint, bool(x.is_default))
        ensure(sorted(map(key, s.links)) == sorted(map(tuple, ref)), f'links {s.links}, expected {ref}') if hasattr(s, 'links') else None
        try:
            find = internal('toron.data_service', 'find_links_by_ref')
            Repo = internal('toron.dal1.repositories', 'LinkRepository')
        except Skip:
            find = None
        for r, name in zip(c['refs'], c['names']):
            m = expected(ref, r, False)
            if find:
                with s._managed_cursor() as cur:
                    got = find(r, Repo(cur))
                want = expected(ref, r, True)
                ensure(sorted(map(key, got)) == sorted(map(tuple, want)), f'find_links_by_ref({r!r}) gives {got}, expected {want}')
            amb = len({x[0] for x in m}) > 1
            if amb or not m:
                want = None
            elif name:
                want = [x for x in m if x[1] == name]
                want = want[0] if want else None
            elif len(m) == 1:
                want = m[0]
            else:
                want = [x for x in m if x[3]]
                want = want[0] if want else None
            try:
                with quiet():
                    g = s.get_link(r, name)
            except toron.ToronError:
                g = None
            ensure((g is None) == (want is None), f'get_link({r!r}, {name!r}) gives {g}, expected {want}')
            if want:
                ensure(key(g) == tuple(want), f'get_link({r!r}, {name!r}) gives {g}, expected {want}')
        try:
            with quiet():
                s.get_link('', None)
            raise Violation('empty reference resolved')
        except toron.ToronError:
            pass


@scenario('P18', 'editing and dropping by reference', n=600)
class Edit:
    def gen(rng, i):
        return {'links': gen_links(rng) + gen_links(rng), 'ops': [[rng.choice(['default', 'undefault', 'drop', 'rename', 'describe']), rng.choice(REFS), rng.choice(['L', 'M', 'N'])] for _ in range(5)]}

    def check(c):
        s, ref = build(c)
        for op, r, name in c['ops']:
            m = expected(ref, r, False)
            t = [x for x in m if x[1] == name]
            ok = len({x[0] for x in m}) == 1 and bool(t)
            before = dump(s)
            err = None
            try:
                with quiet():
                    if op == 'default':
                        s.edit_link(r, name, is_default=True)
                    elif op == 'undefault':
                        s.edit_link(r, name, is_default=False)
                    elif op == 'drop':
                        s.drop_link(r, name)
                    elif op == 'rename':
                        s.edit_link(r, name, name='Z')
                    else:
                        s.edit_link(r, name, description='d')
            except Exception as e:
                err = e
            clash = ok and op == 'rename' and any(x[0] == t[0][0] and x[1] == 'Z' for x in ref)
            if not ok or clash:
                ensure(err is not None, f'{op} {r!r} {name!r} accepted with {ref}')
                ensure(dump(s) == before, 'refused edit changed the store')
                continue
            ensure(err is None, f'{op} {r!r} {name!r} refused: {err!r} with {ref}')
            if op == 'default':
                for x in ref:
                    if x[0] == t[0][0]:
                        x[3] = False
                t[0][3] = True
            elif op == 'undefault':
                t[0][3] = False
            elif op == 'drop':
                ref.remove(t[0])
            elif op == 'rename':
                t[0][1] = 'Z'
            got = sorted(((l['uid'], l['name'], l['hint'], bool(l['default'])) for l in H.snap(s)['links'].values()), key=repr)
            ensure(got == sorted(map(tuple, ref), key=repr), f'after {op} {r!r} {name!r}: {got}, expected {ref}')
