"""Link references."""
from ._lib import *

LK = DM + 'Link'


class Links(Model):
    """Stored links: N of them, every field arbitrary.  The finders return, in
    order, the links whose field equals the argument (the repository's contract)."""
    def __init__(self, m):
        self.N = z3.Int('links')
        m.assume(self.N >= 0)
        self.uid, self.hint, self.nohint = fn('unique_id', 'i', 's'), fn('hint', 'i', 's'), fn('no_hint', 'i', 'b')
        self.nm, self.dflt, self.hash = fn('link_name', 'i', 's'), fn('is_default', 'i', 'b'), fn('index_hash', 'i', 's')
        self.lid = fn('link_id', 'i', 'i')
        m.distinct(self.N, self.lid)
        m.forall_in(self.N, lambda i: And(self.uid(i) != z3.StringVal(''), Implies(self.nohint(i), self.hint(i) == z3.StringVal(''))))

    def link(self, m, i):
        return m.rec(LK, id=self.lid(i), other_unique_id=self.uid(i), other_filename_hint=Opt(self.nohint(i), self.hint(i)), name=self.nm(i),
                     description=Opaque('description'), selectors=Opaque('selectors'), user_properties=Opaque('props'),
                     other_index_hash=self.hash(i), is_locally_complete=m.bool('complete'), is_default=self.dflt(i))

    def where(self, m, f):
        i = m.index()
        return PList(m, [Gen(i, self.N, f(i), [One(self.link(m, i))])])

    def m_find_by_other_unique_id(self, m, x):
        return self.where(m, lambda i: self.uid(i) == zs(x))

    def m_find_by_other_filename_hint(self, m, x):
        return self.where(m, lambda i: self.hint(i) == zs(x))

    def m_get_all(self, m):
        return self.where(m, lambda i: True)

    def any(self, m, f):
        return m.count(self.N, f) > 0


def conds(t, ref):
    exact = lambda i: t.uid(i) == ref
    ext = z3.StringVal('.toron')
    hint = lambda i: Or(t.hint(i) == ref, And(Not(z3.SuffixOf(ext, ref)), t.hint(i) == z3.Concat(ref, ext)))
    prefix = lambda i: z3.PrefixOf(ref, t.uid(i))
    return exact, hint, prefix


def members(m, t, v, cond, what):
    """v holds exactly the links i with cond(i)."""
    k = m.any_index(t.N)
    m.ensure(f'every link {what} is found', Implies(cond(k), m.exists_seg(v, lambda x: m.eq(x.fields['id'], t.lid(k)))))
    for ctx, guard, x in seg_leaves(m.segs(v)):
        if len(ctx) != 1:
            raise Unsupported('result of another form')
        c = ctx[0]
        m.ensure(f'only links {what} are found', z3.Implies(zbool(And(guard, c >= 0, c < t.N)), zbool(And(m.eq(x.fields['id'], t.lid(c)), cond(c)))))


EXT = z3.StringVal('.toron')


def by_ref(m, *given):
    ref = z3.String('ref')
    t = Links(m)
    for g in given:
        m.assume(g(ref))
    exact, hint, prefix = conds(t, ref)
    for kind, v in m.paths(DS + 'get_links_by_ref', [ref, t]):
        E = t.any(m, exact)
        H = Or(t.any(m, lambda i: t.hint(i) == ref), And(Not(z3.SuffixOf(EXT, ref)), t.any(m, lambda i: t.hint(i) == z3.Concat(ref, EXT))))
        long = z3.Length(ref) >= 7
        P = And(long, t.any(m, prefix))
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ToronError')
            a, b = m.index('a'), m.index('b')
            cond = lambda i: If(H, hint(i), prefix(i))
            m.ensure('refused only when empty, unknown or ambiguous', Or(ref == z3.StringVal(''), And(Not(E), Or(Not(Or(H, P)),
                z3.Exists([a, b], zbool(And(a >= 0, a < t.N, b >= 0, b < t.N, cond(a), cond(b), t.uid(a) != t.uid(b))))))))
            continue
        m.ensure('a reference is needed', ref != z3.StringVal(''))
        m.ensure('something is found', Or(E, H, P))
        cond = lambda i: If(E, exact(i), If(H, hint(i), And(long, prefix(i))))
        members(m, t, v, cond, 'of the first way that matches')
        a, b = m.any_index(t.N), m.any_index(t.N)
        m.ensure('one dataspace only', Implies(And(cond(a), cond(b)), t.uid(a) == t.uid(b)))


TITLE = 'exact unique id, else file name hint, else prefix of 7 or more; ambiguous and unknown references are refused'


@contract('P18', DS + 'get_links_by_ref', TITLE + ' (file names with extension)', budget=120)
def by_ref_with_extension(m):
    by_ref(m, lambda r: z3.SuffixOf(EXT, r))


@contract('P18', DS + 'get_links_by_ref', TITLE + ' (short references without extension)', budget=120)
def by_ref_short(m):
    by_ref(m, lambda r: Not(z3.SuffixOf(EXT, r)), lambda r: z3.Length(r) < 7)


@contract('P18', DS + 'get_links_by_ref', TITLE + ' (long references without extension)', budget=120)
def by_ref_long(m):
    by_ref(m, lambda r: Not(z3.SuffixOf(EXT, r)), lambda r: z3.Length(r) >= 7)


def find(m, *given):
    ref = z3.String('ref')
    t = Links(m)
    for g in given:
        m.assume(g(ref))
    exact = lambda i: t.uid(i) == ref
    has_ext = z3.SuffixOf(EXT, ref)
    bare = z3.SubString(ref, 0, z3.Length(ref) - 6)
    for kind, v in m.paths(DS + 'find_links_by_ref', [ref, t]):
        if kind == 'raise':
            m.unreachable('never refuses')
            continue
        other = lambda i: If(has_ext, t.hint(i) == bare, t.hint(i) == z3.Concat(ref, EXT))
        E = t.any(m, exact)
        H = Or(t.any(m, lambda i: t.hint(i) == ref), And(has_ext, t.any(m, lambda i: t.hint(i) == bare)),
               And(Not(has_ext), t.any(m, lambda i: t.hint(i) == z3.Concat(ref, EXT))))
        hint = lambda i: Or(t.hint(i) == ref, other(i))
        cond = lambda i: If(E, exact(i), If(H, hint(i), And(z3.Length(ref) >= 7, z3.PrefixOf(ref, t.uid(i)))))
        members(m, t, v, cond, 'of the first way that matches')


@contract('P18', DS + 'find_links_by_ref', 'links by exact unique id, else file name hint, else prefix (file names with extension)', budget=120)
def find_with_extension(m):
    find(m, lambda r: z3.SuffixOf(EXT, r))


@contract('P18', DS + 'find_links_by_ref', 'links by exact unique id, else file name hint, else prefix (other references)', budget=120)
def find_without_extension(m):
    find(m, lambda r: Not(z3.SuffixOf(EXT, r)))


@contract('P18', DS + 'get_link', 'the named link, the only link, or the default link of the dataspace; otherwise refused')
def get_one(m):
    M = z3.Int('found')
    ref, name, allow = z3.String('ref'), z3.String('name'), z3.Bool('allow_default')
    no_name = z3.Bool('no_name')
    m.assume(M >= 1)
    nm, dflt, lid = fn('link_name', 'i', 's'), fn('is_default', 'i', 'b'), fn('link_id', 'i', 'i')
    m.distinct(M, nm)
    m.distinct(M, lid)
    i, j = m.index('d'), m.index('d')
    m.assume_forall([i, j], Implies(And(i >= 0, i < j, j < M), Not(And(dflt(i), dflt(j)))))
    repo = Opaque('links')

    def by_ref(m, r, lr):
        m.ensure('the reference given is resolved', And(m.eq(r, ref)))
        return m.listof(M, lambda i: m.rec(LK, id=lid(i), other_unique_id=z3.String('uid'), other_filename_hint=None, name=nm(i), description=None,
                                           selectors=None, user_properties=None, other_index_hash=None, is_locally_complete=True, is_default=dflt(i)))
    m.contracts[DS + 'get_links_by_ref'] = by_ref
    named = And(Not(no_name), name != z3.StringVal(''))
    for kind, v in m.paths(DS + 'get_link', [ref, Opt(no_name, name), repo, allow]):
        k = m.any_index(M)
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'ToronError')
            m.ensure('refused only without a fitting link', And(Implies(named, nm(k) != name),
                                                                Implies(Not(named), And(M > 1, Implies(allow, Not(dflt(k)))))))
            continue
        got = v.fields
        m.ensure('one of the links found', m.exists_in(M, lambda i: And(got['id'] == lid(i), got['name'] == nm(i))))
        m.ensure('the named link', Implies(named, m.eq(got['name'], name)))
        m.ensure('without a name the only link or the default', Implies(Not(named), Or(M == 1, And(allow, got['is_default']))))
