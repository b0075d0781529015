"""Choosing a link or a weight group by selectors."""
from ._lib import *

ROW = Opaque('attributes')


class Candidates:
    """N candidates with distinct ids; candidate i has no selectors or the list of its selS(i) texts."""
    def __init__(self, m):
        self.N = z3.Int('candidates')
        m.assume(self.N >= 0)
        self.id, self.complete, self.hash = fn('candidate_id', 'i', 'i'), fn('is_complete', 'i', 'b'), fn('index_hash', 'i', 's')
        self.nosel, self.count, self.text = fn('no_selectors', 'i', 'b'), fn('selector_count', 'i', 'i'), fn('selector', 'i', 'i', 's')
        self.default = fn('is_default', 'i', 'b')
        m.distinct(self.N, self.id)
        m.forall_in(self.N, lambda i: self.count(i) >= 0)
        self.calls = PList(m, [], 'list')
        self.answer = z3.Int('chosen')
        m.contracts['toron.selectors:parse_selector'] = lambda mm, s: Term('selector', s)
        m.contracts['toron.selectors:get_greatest_unique_specificity'] = self.choose

    def selectors(self, m, i):
        return Opt(self.nosel(i), m.listof(self.count(i), lambda j: self.text(i, j)))

    def has_selectors(self, i):
        return And(Not(self.nosel(i)), self.count(i) > 0)

    def choose(self, m, row_dict=None, selector_dict=None, default=None):
        self.calls.segs = self.calls.segs + [One((row_dict, selector_dict, default))]
        return self.answer

    def check(self, m, row, default, usable):
        """The choice was made once: for this row, with this default, among exactly the usable candidates with their own selectors."""
        calls = [s.value for s in self.calls.segs]
        m.ensure('the choice is made once', len(calls) == 1)
        if len(calls) != 1:
            return
        r, d, dflt = calls[0]
        m.ensure('for the attributes given', r is row)
        default(dflt)
        self.candidates(m, d, usable)

    def candidates(self, m, d, usable):
        k = m.any_index(self.N)
        items = m.dict_items(d)
        m.ensure('every usable candidate with selectors takes part', Implies(And(usable(k), self.has_selectors(k)), m.exists(items, lambda kv: m.eq(kv[0], self.id(k)))))
        for ctx, guard, (key, val) in seg_leaves(items):
            if len(ctx) != 1:
                raise Unsupported('candidates of another form')
            c = ctx[0]
            here = And(guard, c >= 0, c < self.N)
            m.ensure('only usable candidates take part', z3.Implies(zbool(here), zbool(And(m.eq(key, self.id(c)), Or(usable(c), Not(self.has_selectors(c)))))))
            base = m.snapshot()
            m.assume(And(here, self.has_selectors(c)))
            j = m.any_index(self.count(c))
            m.ensure('each with all of its selectors', m.size(val) == self.count(c))
            x = m.elem(m.segs(val), j)
            m.ensure('parsed from their text', m.eq(x.term, self.text(c, j)) if isinstance(x, Term) else False)
            m.restore(base)


class LinkRepo(Model):
    pass


@contract('P05', DS + 'make_get_link_id_func', 'the current, complete links with selectors compete; a current default link is the fallback, without one translation is refused')
def choose_link(m):
    s = Candidates(m)
    repo = LinkRepo()
    ref, want = z3.String('reference'), z3.String('current_hash')

    def find(mm, ref=None, link_repo=None):
        mm.ensure('the links of the reference are looked up', And(mm.eq(ref, z3.String('reference')), link_repo is repo))
        i = mm.index()
        return PList(mm, [Gen(i, s.N, True, [One(mm.rec(
            DM + 'Link', id=s.id(i), other_unique_id=fn('uid', 'i', 's')(i), other_filename_hint=None, name=fn('nm', 'i', 's')(i), description=None, selectors=s.selectors(mm, i), user_properties=None,
            other_index_hash=s.hash(i), is_locally_complete=s.complete(i), is_default=s.default(i)))])], 'list')
    m.contracts[DS + 'find_links_by_ref'] = find
    current = lambda i: s.hash(i) == want
    fallback = lambda i: And(current(i), s.default(i))

    def run():
        f = m.call(m.func(DS + 'make_get_link_id_func'), [ref, repo, want])
        return m.call(f, [ROW])
    for kind, v in m.thunk_paths(run):
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'RuntimeError')
            m.ensure('refused only without a current default link', Not(m.count(s.N, fallback) > 0))
            continue
        m.ensure('refused without a current default link', m.count(s.N, fallback) > 0)
        m.ensure('the result is the choice', m.eq(v, s.answer))
        s.check(m, ROW, lambda d: m.ensure('the fallback is a current default link', m.count(s.N, lambda i: And(fallback(i), m.eq(d, s.id(i)))) > 0),
                lambda i: And(current(i), s.complete(i)))
