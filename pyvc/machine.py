"""Symbolic executor: state, branching, proof obligations, loops."""
import ast
import itertools
import time
import z3
from . import values as V
from .values import *
from .sums import SumTable
from .source import Program, class_member

EXC_BASES = {
    'BaseException': None, 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'AttributeError': 'Exception', 'StopIteration': 'Exception', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'FileExistsError': 'OSError',
    'UnicodeError': 'ValueError', 'UnicodeEncodeError': 'UnicodeError', 'UnicodeDecodeError': 'UnicodeError', 'MemoryError': 'Exception', 'RecursionError': 'RuntimeError', 'NameError': 'Exception', 'AssertionError': 'Exception',
    'struct.error': 'Exception', 'sqlite3.Error': 'Exception',
    'sqlite3.IntegrityError': 'sqlite3.Error', 'sqlite3.OperationalError': 'sqlite3.Error',
    'sqlite3.ProgrammingError': 'sqlite3.Error', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'NotADirectoryError': 'OSError', 'IsADirectoryError': 'OSError',
    'json.JSONDecodeError': 'ValueError', 'JSONDecodeError': 'ValueError',
    'lark.UnexpectedInput': 'Exception',
}


TRUNC = z3.Function('trunc', z3.RealSort(), z3.IntSort())


def ax_trunc(app):
    x = app.arg(0)
    w = z3.ToReal(app)
    return [z3.Implies(x >= 0, z3.And(app >= 0, w <= x, x < w + 1)),
            z3.Implies(x < 0, z3.And(app <= 0, w >= x, x > w - 1))]


OPAQUE_TEXT = ('fmt!', 'join!', 'str!', 'repr!')      # symbols for the result of formatting that is not modelled
AXIOMS = {'trunc': ax_trunc}


def int_args(f, _cache={}):
    """Int-sorted arguments of uninterpreted applications in f."""
    if not is_z3(f):
        return []
    hit = _cache.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    out, seen, todo = [], set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith('SUM!'):
                out += [a for a in x.children() if z3.is_int(a)]
            todo.extend(x.children())
    _cache[f.get_id()] = (f, out)
    return out


def ground_args(f):
    """Arguments of uninterpreted applications in f, of any sort."""
    out, seen, todo = [], set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out += x.children()
            if z3.is_eq(x) and not z3.is_bool(x.arg(0)):
                out += x.children()
            todo.extend(x.children())
    return out


def int_consts(f):
    out, seen, todo = {}, set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        todo.extend(x.children())
    return out


def apps_of(forms, name):
    out, seen, todo = {}, set(), list(forms)
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() == name:
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


def int_valued(e):
    if z3.is_int(e) or z3.is_to_real(e):
        return True
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e):
        return all(map(int_valued, e.children()))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return int_valued(e.arg(1)) and int_valued(e.arg(2))
    return False


def occurs(t, forms):
    seen, todo = set(), list(forms)
    while todo:
        x = todo.pop()
        if x.eq(t):
            return True
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def has_quant(f, _cache={}):
    k = f.get_id()
    hit = _cache.get(k)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    seen, todo, r = set(), [f], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    _cache[k] = (f, r)
    return r


_TEXT = z3.DeclareSort('Text')
_TEXT_LITS = {}
_TEXT_CACHE = {}


def _text(e):
    """(abstracted term, mentions strings, only (in)equalities); None if it
    has a quantifier."""
    k = e.get_id()
    hit = _TEXT_CACHE.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    if z3.is_quantifier(e) and not e.is_lambda():
        vs = [z3.Const(f'bound!{k}!{e.get_id()}!{j}', e.var_sort(j)) for j in range(e.num_vars())]
        x = _text(z3.substitute_vars(e.body(), *reversed(vs)))
        if x is None:
            out = None
        elif not x[1]:
            out = (e, False, x[2])
        else:
            new = [z3.Const('text!' + v.decl().name(), _TEXT) if v.sort() == z3.StringSort() else v for v in vs]
            out = ((z3.ForAll if e.is_forall() else z3.Exists)(new, x[0]), True,
                   x[2] and all(v.sort() != z3.StringSort() for v in vs))
    elif z3.is_quantifier(e) or z3.is_var(e):
        out = None
    elif z3.is_string_value(e):
        v = e.as_string()
        out = (_TEXT_LITS.setdefault(v, z3.Const(f'text!{len(_TEXT_LITS)}', _TEXT)), True, True)
    else:
        ch = e.children()
        sub = [_text(c) for c in ch]
        if any(x is None for x in sub):
            out = None
        else:
            d = e.decl()
            strs = e.sort() == z3.StringSort() or any(c.sort() == z3.StringSort() for c in ch)
            some, eq_only = strs or any(x[1] for x in sub), all(x[2] for x in sub)
            new = [x[0] for x in sub]
            kind = d.kind()
            if not some:
                r = e
            elif not strs:
                r = z3.And(*new) if kind == z3.Z3_OP_AND else z3.Or(*new) if kind == z3.Z3_OP_OR else d(*new)
            elif kind == z3.Z3_OP_EQ:
                r = new[0] == new[1]
            elif kind == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*new)
            elif kind == z3.Z3_OP_ITE:
                r = z3.If(*new)
            elif not ch:
                r = z3.Const('text!' + d.name(), _TEXT)
            else:
                if kind != z3.Z3_OP_UNINTERPRETED:
                    eq_only = False
                r = z3.Function(f'text!{d.name()}!{kind}!{len(ch)}', *[c.sort() for c in new],
                                _TEXT if e.sort() == z3.StringSort() else e.sort())(*new)
            out = (r, some, eq_only)
    _TEXT_CACHE[k] = (e, out)
    return out


def abstract_strings(forms, drop_quant=False):
    """The formulas with strings taken as an uninterpreted sort: literals are
    distinct constants, string operations uninterpreted functions.  Weaker
    than the originals, so a contradiction carries over; equivalent in
    satisfiability when only (in)equalities occur.  Returns (formulas, only
    equalities), or None without strings."""
    out, some, eq_only = [], False, True
    for f in forms:
        if drop_quant and has_quant(f):
            continue
        x = _text(f)
        if x is None:
            return None
        out.append(x[0])
        some, eq_only = some or x[1], eq_only and x[2]
    if not some:
        return None
    if len(_TEXT_LITS) > 1:
        out.append(z3.Distinct(*_TEXT_LITS.values()))
    return out, eq_only


_INSTANCES = {}


def instance(f, *pairs):
    """z3.substitute, remembered."""
    k = (f.get_id(),) + tuple(x.get_id() for p in pairs for x in p)
    hit = _INSTANCES.get(k)
    if hit is None or not hit[0].eq(f) or not all(a.eq(b) for p, q in zip(hit[1], pairs) for a, b in zip(p, q)):
        hit = _INSTANCES[k] = (f, pairs, z3.substitute(f, *pairs))
    return hit[2]


class Obligation:
    def __init__(self, name, status, seconds, backend, detail='', model=None, smt=None):
        self.name = name
        self.status = status     # 'proved' | 'failed' | 'unknown'
        self.seconds = seconds
        self.backend = backend
        self.detail = detail
        self.model = model
        self.smt = smt


class PathResult:
    def __init__(self, kind, value, exc, m):
        self.kind = kind      # 'return' | 'raise'
        self.value = value
        self.exc = exc
        self.state = None


class Decider:
    def __init__(self, prefix, work):
        self.prefix = prefix
        self.work = work
        self.taken = []


class Names:
    """Numbers for new names, a function of the history of the execution: two
    executions that took the same decisions so far draw the same names, so a
    path explored again up to its last decision repeats its queries."""
    def __init__(self):
        self.nodes, self.ids = {}, {}
        self.node, self.count = 0, 0

    def __next__(self):
        self.count += 1
        return self.ids.setdefault((self.node, self.count), len(self.ids))

    def save(self):
        return self.node, self.count

    def step(self, what, at=None):
        node, count = at or (self.node, self.count)
        self.node, self.count = self.nodes.setdefault((node, count, what), len(self.nodes) + 1), 0


class Machine:
    MAX_PATHS = 4000
    DEADLINE = None

    def __init__(self, program=None, branch_timeout=1500, prove_timeout=8000):
        self.program = program or Program()
        self.objects = []
        self.pc = []            # list of (kind, formula); kind in 'b','a'
        self.decs = []
        self.uid = Names()
        self.aux = itertools.count()      # names used only inside one query
        self.answers = {}
        self.proved = {}
        self.sums = SumTable(self)
        self.idx_stack = []     # active iteration constants
        self.idx_names = {}     # name -> const, every index constant ever made
        self.quants = []        # universally quantified facts (idxs, formula)
        self.ranges = {}        # any_index name -> its range, assumed for goals that mention it
        self.injective = []     # (n, i, t(i)): t is injective on 0..n-1
        self.reindexes = []
        self.composites = {}
        self.contracts = {}
        self.models = {}        # dotted external name -> handler
        self.branch_timeout = branch_timeout
        self.prove_timeout = prove_timeout
        self.obligations = []
        self.inlined = set()
        self.used_contracts = set()
        self.imprecise = []
        self.solver_time = 0.0
        self.queries = 0
        self.call_depth = 0
        self.globals_cache = {}
        self.yield_stack = []
        self.lemmas = []
        self.trusted = set()
        self.deadline = None
        self.axioms = dict(AXIOMS)

    # ---------------------------------------------------------------- state
    def register(self, o):
        self.objects.append(o)

    def snapshot(self):
        return ([(o, o.save()) for o in self.objects], len(self.objects), list(self.pc),
                list(self.idx_stack), list(self.yield_stack), list(self.quants), list(self.injective))

    def restore(self, s):
        objs, n, pc, idx, ys, qs, inj = s
        for o, c in objs:
            o.load(c)
        del self.objects[n:]
        self.pc = list(pc)
        self.idx_stack = list(idx)
        self.yield_stack = list(ys)
        self.quants = list(qs)
        self.injective = list(inj)

    # ---------------------------------------------------------------- fresh
    def fresh(self, name, sort):
        """Fresh symbol; inside an arbitrary iteration it is a function of
        the active iteration indices."""
        nm = f'{name}!{next(self.uid)}'
        if self.idx_stack:
            f = z3.Function(nm, *[i.sort() for i in self.idx_stack], sort)
            return f(*self.idx_stack)
        return z3.Const(nm, sort)

    def const(self, name, sort):
        return z3.Const(f'{name}', sort)

    def index(self, name='ix'):
        c = z3.Int(f'{name}!{next(self.uid)}')
        self.idx_names[c.decl().name()] = c
        return c

    def index_consts_in(self, e, exclude=None):
        out = []
        for nm in sorted(z3_consts(e)):
            c = self.idx_names.get(nm)
            if c is not None and (exclude is None or nm != exclude.decl().name()):
                out.append(c)
        return out

    def int(self, name):
        return self.fresh(name, z3.IntSort())

    def real(self, name):
        return self.fresh(name, z3.RealSort())

    def bool(self, name):
        return self.fresh(name, z3.BoolSort())

    def str(self, name):
        return self.fresh(name, z3.StringSort())

    def seq(self, name, elem, n=None, kind='list'):
        """Symbolic sequence of unknown length; elem(i) builds element i."""
        if n is None:
            n = self.int(f'{name}_len')
            self.assume(n >= 0)
        i = self.index()
        return PList(self, [Gen(i, n, True, [One(elem(i))])], kind)

    # --------------------------------------------------------------- solver
    def assume(self, f, kind='a'):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = z3.simplify(f) if kind == 'b' else f
        self.pc.append((kind, f))

    def assume_forall(self, idxs, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        self.quants.append((tuple(idxs), f))

    def axiom_instances(self, forms):
        out = []
        seen = set()
        todo = [f for f in forms if is_z3(f)]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                ax = self.axioms.get(x.decl().name())
                if ax is not None and x.num_args():
                    for f in ax(x):
                        out.append(f)
                todo.extend(x.children())
        return out

    def _check(self, extra, timeout, facts=True):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for this contract exhausted')
        t = time.time()
        forms = [zbool(f) for _, f in self.pc] + [zbool(e) for e in extra]
        fx = self.sum_facts(forms) if facts else []
        forms = forms + fx
        forms += list(self.axiom_instances(forms))
        t = time.time()
        low = abstract_strings(forms + [f for _, f in self.quants])
        if low is not None:
            lf, eq_only = low
            n = len(forms)
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*lf[:n], *lf[n + len(self.quants):])
            for (idxs, _), f in zip(self.quants, lf[n:]):
                if any(i.sort() == z3.StringSort() for i in idxs):
                    low = None
                    break
                s.add(z3.ForAll(list(idxs), f))
            if low is not None:
                r = s.check()
                if r == z3.unsat or eq_only:
                    self.solver_time += time.time() - t
                    self.queries += 1
                    return r, s
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*forms)
        for idxs, f in self.quants:
            s.add(z3.ForAll(list(idxs), f))
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def range_facts(self, forms):
        out, seen, todo = [], set(), [f for f in forms if is_z3(f)]
        while todo and self.ranges:
            for nm in sorted(z3_consts(todo.pop())):
                if nm in self.ranges and nm not in seen:
                    seen.add(nm)
                    out.append(self.ranges[nm])
                    todo.append(self.ranges[nm])
        return out

    def quick_valid(self, goal, extra=(), timeout=400, deep=True):
        """True only when pc /\\ extra |= goal (no sum facts, no quantifiers)."""
        t = time.time()
        extra = list(extra) + self.range_facts(list(extra) + [goal])
        forms = [zbool(f) for _, f in self.pc] + [zbool(f) for f in extra]
        asked = forms + [zbool(goal)] + [f for _, f in self.quants]
        key = (len(self.quants), timeout, deep, tuple(f.get_id() for f in asked))
        hit = self.answers.get(key)
        if hit is not None and all(a.eq(b) for a, b in zip(hit[0], asked)):
            return hit[1]
        # ground instances of the quantified facts at the indices in sight
        names = set()
        for f in list(extra) + [goal]:
            if is_z3(f):
                names |= z3_consts(f)
        idx = [self.idx_names[n] for n in sorted(names) if n in self.idx_names]
        for f in [f for f in list(extra) + [goal] if is_z3(f)]:
            for x in int_args(f):
                if len(idx) < 8 and not any(x.eq(y) for y in idx):
                    idx.append(x)
        for qi, f in self.quants:
            if len(qi) == 1:
                for c in idx:
                    forms.append(instance(f, (qi[0], c)))
            elif len(qi) == 2 and len(idx) <= 6:
                for c in idx:
                    for d in idx:
                        if c is not d:
                            forms.append(instance(f, (qi[0], c), (qi[1], d)))
        forms.append(zbool(Not(goal)))
        forms += list(self.axiom_instances(list(extra) + [goal]))
        r = self._ground_check(forms, timeout, deep)
        self.solver_time += time.time() - t
        self.queries += 1
        self.answers[key] = (asked, r == z3.unsat)
        return r == z3.unsat

    def _ground_check(self, forms, timeout, deep=True):
        low = abstract_strings(forms)
        if low is not None:
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*low[0])
            r = s.check()
            if r == z3.unsat or low[1] or not deep:
                return r
            timeout = min(timeout, 150)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*forms)
        return s.check()

    def sum_valid(self, goal, extra=()):
        return self.quick_valid(goal, extra, deep=False)

    def feasible(self, cond):
        if self.quick_valid(Not(cond)):
            return False
        if self.quants:
            return True         # the ground instances did not exclude it
        r, _ = self._check([cond] + self.range_facts([cond]), self.branch_timeout, facts=False)
        return r != z3.unsat

    def ground_unsat(self, extra, timeout=3000, limit=14):
        """The path condition and `extra` are contradictory already when the
        quantified facts are instantiated at the index terms in sight."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for this contract exhausted')
        t = time.time()
        g = z3.Goal()
        for f in extra:
            g.add(zbool(f))
        try:
            sub = z3.TryFor(z3.Tactic('nnf'), 1000)(g)
            extra = [f for sg in sub for f in sg]
        except z3.Z3Exception:
            return False
        base = [zbool(f) for _, f in self.pc]
        ground = [f for f in extra if not has_quant(f)] + [f for f in base if not has_quant(f)]
        facts = self.sum_facts(ground)
        terms = []

        def see(f):
            for n in sorted(z3_consts(f)):
                if n in self.idx_names and len(terms) < limit and not any(self.idx_names[n].eq(x) for x in terms):
                    terms.append(self.idx_names[n])
            for x in int_args(f):
                if len(terms) < limit and not any(x.eq(y) for y in terms):
                    terms.append(x)
        for f in extra + base:
            see(f)

        def inst(f):
            if not has_quant(f):
                return f
            if z3.is_and(f):
                return z3.And([inst(c) for c in f.children()])
            if z3.is_or(f):
                return z3.Or([inst(c) for c in f.children()])
            if z3.is_quantifier(f) and f.is_forall() and all(f.var_sort(k) == z3.IntSort() for k in range(f.num_vars())) and f.num_vars() <= 2:
                body = f.body()
                out = []
                for combo in itertools.product(terms, repeat=f.num_vars()):
                    b = z3.substitute_vars(body, *reversed(combo))
                    if not has_quant(b):
                        out.append(b)
                return z3.And(out)
            return z3.BoolVal(True)
        s = z3.Solver()
        s.set('timeout', timeout)

        def cheap(apps):
            """Facts about sums of indicators: bounds, members, a witness."""
            out = []
            for a in apps:
                ent = self.sums.by_name[a.decl().name()]
                if not self._is_indicator(ent):
                    continue
                n, args = a.arg(0), [a.arg(k) for k in range(1, a.num_args())]
                key = a.get_id()
                if key not in wit:
                    ws = [z3.Int(f'wit!{next(self.aux)}') for _ in range(2)]
                    for w in ws:
                        self.idx_names[w.decl().name()] = w
                    wit[key] = (a, ws)
                ws = wit[key][1]
                size = z3.ToReal(n)
                out += [a >= 0, z3.Implies(n >= 0, a <= size)]
                for w, c, b in ((ws[0], a > 0, 1), (ws[1], z3.And(n >= 0, a < size), 0)):
                    out.append(z3.Implies(c, z3.And(w >= 0, w < n, self.sums.body_at(ent, w, args) == b)))
                    if not any(w.eq(x) for x in terms) and len(terms) < limit + 4:
                        terms.append(w)
                for c in terms:
                    b = self.sums.body_at(ent, c, args)
                    out.append(z3.Implies(z3.And(c >= 0, c < n), z3.And(b <= a, z3.Implies(a >= size, b == 1))))
            return out
        wit = {}
        facts += cheap(self.sums.apps(ground)[:8])

        def instances():
            forms = [inst(f) for f in extra] + [inst(f) for f in base]
            for qi, f in self.quants:
                if has_quant(f) or len(qi) > 2 or any(q.sort() != z3.IntSort() for q in qi):
                    continue
                for combo in itertools.product(terms, repeat=len(qi)):
                    forms.append(z3.substitute(f, *zip(qi, combo)))
            return forms
        forms = instances()
        own = z3_consts(extra[0]) if extra else set()
        new = []
        for f in forms:
            for x in int_args(f):
                if z3.is_app(x) and x.num_args() and z3_consts(x) & own and not any(x.eq(y) for y in terms + new):
                    new.append(x)
        if new:
            terms.extend(new[:6])
            facts += cheap(self.sums.apps(ground)[:8])
            forms = instances()
        seen = {a.get_id() for a in self.sums.apps(ground)}
        forms = forms + facts
        for _ in range(2):
            more = [a for a in self.sums.apps(forms) if a.get_id() not in seen][:24]
            if not more:
                break
            seen |= {a.get_id() for a in more}
            forms = forms + cheap(more)
        forms = forms + list(self.axiom_instances(forms))
        low = abstract_strings(forms, True)
        if low is not None:
            s2 = z3.Solver()
            s2.set('timeout', timeout)
            s2.add(*low[0])
            if s2.check() == z3.unsat:
                self.solver_time += time.time() - t
                self.queries += 1
                return True
        s.add(*forms)
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r == z3.unsat

    def excluded(self, *forms):
        """Contradictory, by the ground instances of the quantified facts at
        the indices in sight (sound, incomplete, fast)."""
        return self.quick_valid(False, [zbool(f) for f in forms])

    # ------------------------------------------------------------ sum facts
    def sum_facts(self, forms, depth=2):
        facts = []
        seen_apps = {}
        done_pair = set()
        nonneg = {}
        todo_forms = list(forms)
        for _, f in self.quants:
            pass
        for _round in range(depth):
            apps = [a for a in self.sums.apps(todo_forms + facts) if a.get_id() not in seen_apps]
            if not apps:
                break
            for a in apps:
                seen_apps[a.get_id()] = a
            allapps = list(seen_apps.values())
            for a in apps:
                ent = self.sums.by_name[a.decl().name()]
                n, args = a.arg(0), [a.arg(k) for k in range(1, a.num_args())]
                facts.append(z3.Implies(n <= 0, a == 0))
                zero = z3.IntVal(0)
                facts.append(z3.Implies(n == 1, a == self.sums.body_at(ent, zero, args)))
                nc = z3.simplify(n)
                if z3.is_int_value(nc) and 1 < nc.as_long() <= 12:
                    tot = z3.RealVal(0)
                    for q in range(nc.as_long()):
                        tot = tot + self.sums.body_at(ent, z3.IntVal(q), args)
                    facts.append(a == tot)
                # nonnegativity
                i = self._skolem_idx(ent['name'])
                b = self.sums.body_at(ent, i, args)
                nnkey = (ent['name'], tuple(x.get_id() for x in args), n.get_id())
                if nnkey not in nonneg:
                    nonneg[nnkey] = self.sum_valid(b >= 0, [i >= 0, i < n])
                if nonneg[nnkey]:
                    facts.append(z3.Implies(n >= 0, a >= 0))
                elif self.sum_valid(b <= 0, [i >= 0, i < n]):
                    facts.append(z3.Implies(n >= 0, a <= 0))
                if self._is_indicator(ent):
                    facts.append(z3.Implies(n >= 0, a <= z3.ToReal(n)))
                    facts.append(z3.IsInt(a))
                    j = self._skolem_idx(ent['name'] + '!2')
                    bj = self.sums.body_at(ent, j, args)
                    if self.sum_valid(z3.Or(b != 1, bj != 1), [i >= 0, i < j, j < n]):
                        facts.append(a <= 1)
                else:
                    if int_valued(b):
                        facts.append(z3.IsInt(a))
                    if self.sum_valid(b <= 1, [i >= 0, i < n]):
                        facts.append(z3.Implies(n >= 0, a <= z3.ToReal(n)))
                        if self.sum_valid(b < 1, [i >= 0, i < n]):
                            facts.append(z3.Implies(n > 0, a < z3.ToReal(n)))
                    if self.sum_valid(b >= -1, [i >= 0, i < n]):
                        facts.append(z3.Implies(n >= 0, a >= -z3.ToReal(n)))
                        if self.sum_valid(b > -1, [i >= 0, i < n]):
                            facts.append(z3.Implies(n > 0, a > -z3.ToReal(n)))
                # zero sums
                if self.sum_valid(b == 0, [i >= 0, i < n]):
                    facts.append(a == 0)
                against_size = occurs(z3.ToReal(n), todo_forms)
                # upper bound on elements / element extraction
                for c in self._index_terms(todo_forms):
                    bc = self.sums.body_at(ent, c, args)
                    if nonneg[nnkey]:
                        facts.append(z3.Implies(z3.And(c >= 0, c < n), bc <= a))
                    if against_size and self._is_indicator(ent):
                        facts.append(z3.Implies(z3.And(c >= 0, c < n), a <= z3.ToReal(n) - 1 + bc))
                # unit unrolling from n to other applications
                for o in allapps:
                    if o is a or o.decl().name() != a.decl().name():
                        continue
                    oargs = [o.arg(k) for k in range(1, o.num_args())]
                    same = z3.And([x == y for x, y in zip(args, oargs)]) if args else z3.BoolVal(True)
                    on = o.arg(0)
                    facts.append(z3.Implies(z3.And(same, n == on + 1, on >= 0),
                                            a == o + self.sums.body_at(ent, on, args)))
                    facts.append(z3.Implies(z3.And(same, on == n + 1, n >= 0),
                                            o == a + self.sums.body_at(ent, n, args)))
                    if nonneg[nnkey]:
                        facts.append(z3.Implies(z3.And(same, n >= 0, n <= on), a <= o))
                        facts.append(z3.Implies(z3.And(same, on >= 0, on <= n), o <= a))
                        # strictly: an index in between contributes
                        for c in self._index_terms(todo_forms):
                            bc = self.sums.body_at(ent, c, args)
                            facts.append(z3.Implies(
                                z3.And(same, on >= 0, on <= c, c < n), o + bc <= a))
                # pointwise equality with sums over other bodies
                for o in allapps:
                    if o.get_id() == a.get_id():
                        continue
                    key = tuple(sorted((a.get_id(), o.get_id())))
                    if key in done_pair:
                        continue
                    done_pair.add(key)
                    oent = self.sums.by_name[o.decl().name()]
                    on, oargs = o.arg(0), [o.arg(k) for k in range(1, o.num_args())]
                    if oent is ent and not args:
                        continue
                    if not n.eq(on) and not self.sum_valid(n == on):
                        continue
                    ob = self.sums.body_at(oent, i, oargs)
                    if self.sum_valid(b == ob, [i >= 0, i < n]):
                        facts.append(a == o)
                    elif self.sum_valid(b <= ob, [i >= 0, i < n]):
                        facts.append(z3.Implies(n >= 0, a <= o))
                    elif self.sum_valid(ob <= b, [i >= 0, i < n]):
                        facts.append(z3.Implies(n >= 0, o <= a))
                # re-indexing
                for rx in self.reindexes:
                    facts.extend(rx.facts(self, a, ent, n, args))
        # a count given by several sums: not negative, and an index in sight counts
        for total, parts, idx, lo, n, p in self.composites.values():
            if parts <= set(seen_apps):
                facts.append(z3.Implies(n >= lo, total >= 0))
                i = self._skolem_idx('none')
                if self.sum_valid(z3.Not(z3.substitute(zbool(p), (idx, i))), [i >= lo, i < n]):
                    facts.append(z3.Implies(n >= lo, total == 0))
                for c in self._index_terms(todo_forms):
                    facts.append(z3.Implies(z3.And(c >= lo, c < n, z3.substitute(zbool(p), (idx, c))), total >= 1))
        return facts

    def _is_indicator(self, ent):
        b = ent['body']
        if b.decl().kind() == z3.Z3_OP_ITE:
            x, y = b.arg(1), b.arg(2)
            return z3.is_rational_value(x) and x.as_fraction() == 1 and \
                z3.is_rational_value(y) and y.as_fraction() == 0
        return False

    def _skolem_idx(self, name):
        c = z3.Int(f'sk!{name}')
        self.idx_names[c.decl().name()] = c
        return c

    def _index_terms(self, forms):
        names = set()
        for f in forms:
            if is_z3(f):
                names |= z3_consts(f)
        return [self.idx_names[n] for n in sorted(names) if n in self.idx_names]

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for k, f in self.pc[::-1]:
            if f.eq(cond):
                return True
            if z3.is_not(f) and f.arg(0).eq(cond):
                return False
            if z3.is_not(cond) and cond.arg(0).eq(f):
                return False
        if not self.decs:
            raise Unsupported('branch outside exploration')
        d = self.decs[-1]
        pos = len(d.taken)
        if pos < len(d.prefix):
            choice = d.prefix[pos]
            d.taken.append(choice)
            self.uid.step(choice)
            self.assume(cond if choice else Not(cond), 'b')
            return choice
        t = self.feasible(cond)
        f = self.feasible(Not(cond))
        if t and f:
            d.work.append(tuple(d.taken) + (False,))
            d.taken.append(True)
            self.uid.step(True)
            self.assume(cond, 'b')
            return True
        if t:
            d.taken.append(True)
            self.uid.step(True)
            self.assume(cond, 'b')
            return True
        if f:
            d.taken.append(False)
            self.uid.step(False)
            self.assume(Not(cond), 'b')
            return False
        raise Infeasible()

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (not tied to a formula)."""
        for k in range(n - 1):
            b = self.fresh('choice', z3.BoolSort())
            if self.branch(b):
                return k
        return n - 1

    def explore(self, thunk, keep=True):
        """Run thunk along every feasible path from the current state."""
        base = self.snapshot()
        npc = len(self.pc)
        work = [()]
        results = []
        history = self.uid.save()
        while work:
            prefix = work.pop()
            self.uid.step('path', history)
            if len(results) > self.MAX_PATHS:
                raise Unsupported('too many paths')
            self.restore(base)
            d = Decider(prefix, work)
            self.decs.append(d)
            depth = self.call_depth
            try:
                try:
                    v = thunk()
                    res = ('normal', v)
                except ReturnEx as r:
                    res = ('return', r.value)
                except BreakEx:
                    res = ('break', None)
                except ContinueEx:
                    res = ('continue', None)
                except PyExc as e:
                    res = ('raise', e)
                except Infeasible:
                    res = None
            finally:
                self.decs.pop()
                self.call_depth = depth
            if res is None:
                continue
            results.append((res[0], res[1], self.pc[npc:], self.snapshot() if keep else None))
        self.uid.step('explored', history)
        self.restore(base)
        return results

    # ---------------------------------------------------------- obligations
    def prove(self, name, goal, timeout=None, use=()):
        """Discharge pc |= goal; records an obligation."""
        t = time.time()
        timeout = timeout or self.prove_timeout
        goal = zbool(goal)
        use = list(use) + self.range_facts([goal] + list(use))
        asked = [zbool(f) for _, f in self.pc] + [f for _, f in self.quants] + [goal] + list(use)
        key = (name.split(' [path')[0], len(self.quants), tuple(f.get_id() for f in asked))
        if key in self.proved:
            return self.proved[key][1]      # asked in this state before: the path is explored again
        if z3.is_true(z3.simplify(goal)):
            self.obligations.append(Obligation(name, 'proved', 0.0, 'simplify'))
            self.proved[key] = (asked, True)
            return True
        done = len(self.obligations)
        try:
            return self._prove(name, goal, timeout, use, t)
        finally:
            if len(self.obligations) > done:
                self.proved[key] = (asked, self.obligations[-1].status == 'proved')

    def _prove(self, name, goal, timeout, use, t):
        neg = [z3.Not(goal)] + list(use)
        r, s = self._check(neg, min(timeout, 1500) if self.quants else timeout)
        if r == z3.unknown and self.quants and self.ground_unsat(neg):
            self.obligations.append(Obligation(name, 'proved', time.time() - t, 'z3 (ground instances)'))
            return True
        backend, size, small = 'z3', None, None
        if r != z3.unsat:
            # decide by exhibiting a counterexample in which every loop runs
            # at most `size` times and every sum is written out
            for size in (1, 2, 3):
                small = self.refute(neg, size)
                if small is None or not isinstance(small, str):
                    break
            if isinstance(small, str) and small == 'none':
                if r == z3.unknown:
                    r, s = self._check(neg, timeout)
                    if r == z3.unknown and self._cvc5(s, timeout) == 'unsat':
                        r, backend = z3.unsat, 'cvc5'
            elif small is None and r == z3.unknown:
                r, s = self._check(neg, timeout)
                if r == z3.unknown:
                    r2 = self._cvc5(s, timeout)
                    if r2 in ('unsat', 'sat'):
                        r, backend = (z3.unsat if r2 == 'unsat' else z3.sat), 'cvc5'
        model, detail = None, f'goal: {str(goal)[:1500]}'
        if r == z3.unsat:
            st, detail = 'proved', ''
        elif small is not None and not isinstance(small, str):
            st, backend = 'failed', f'z3 (counterexample with at most {size} iterations)'
            model = small
        elif small == 'none':
            st, detail = 'unknown', f'not proved, and no counterexample with at most {size} iterations; ' + detail
        elif small == 'timeout' or r == z3.unknown:
            st, detail = 'unknown', f'solver gave up ({s.reason_unknown()}); ' + detail
        else:
            st = 'failed'
            try:
                mod = s.model()
                model = {str(d): str(mod[d]) for d in mod.decls()
                         if not str(d).startswith(('SUM!', 'ix!', 'sk!'))}
            except z3.Z3Exception:
                pass
        if st == 'failed' and any(c.startswith(OPAQUE_TEXT) for f in [goal] + [x for _, x in self.pc] for c in z3_consts(f)):
            st, detail = 'unknown', 'depends on formatted text that is not modelled; ' + detail
        if st != 'proved' and self.imprecise:
            st = 'unknown'
            detail = f'tool limit: {self.imprecise[:3]}; ' + detail
        ob = Obligation(name, st, time.time() - t, backend, detail, model)
        self.obligations.append(ob)
        return st == 'proved'

    def refute(self, extra, B, timeout=4000, limit=60000):
        """A model of the path condition and `extra` in which every bound is at
        most B, sums and quantifiers being written out; 'none' if there is
        none, 'timeout', or None when the form is not covered."""
        t = time.time()
        forms = []
        try:
            for f in [f for _, f in self.pc] + list(extra):
                f = zbool(f)
                if has_quant(f):
                    g = z3.Goal()
                    g.add(f)
                    for sg in z3.TryFor(z3.Tactic('nnf'), 1000)(g):
                        forms += list(sg)
                else:
                    forms.append(f)
        except z3.Z3Exception:
            return None
        cache, bounds, budget = {}, {}, [limit]
        generic = []
        CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)

        class No(Exception):
            pass

        def bound(x):
            x = z3.simplify(x)
            if not z3.is_int_value(x):
                bounds.setdefault(x.get_id(), x)

        def limits(body, vs):
            """Terms compared with a quantified index alone."""
            out, seen, todo = [], set(), [body]
            while todo:
                x = todo.pop()
                if x.get_id() in seen or z3.is_quantifier(x):
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() in CMP and z3.is_int(x.arg(0)):
                    p, q = x.children()
                    for u, w in ((p, q), (q, p)):
                        if any(u.eq(v) for v in vs) and not any(w.eq(v) for v in vs):
                            out.append(w)
                todo.extend(x.children())
            return out

        def go(e):
            k = e.get_id()
            hit = cache.get(k)
            if hit is not None and hit[0].eq(e):
                return hit[1]
            budget[0] -= 1
            if budget[0] < 0:
                raise No
            if z3.is_quantifier(e):
                if e.is_lambda() or e.num_vars() > 3 or e.is_exists() and any(e.var_sort(i) != z3.IntSort() for i in range(e.num_vars())):
                    raise No
                vs = [z3.Const(f'rq!{next(self.aux)}', e.var_sort(i)) for i in range(e.num_vars())]
                r = (every if e.is_forall() else some)(vs, z3.substitute_vars(e.body(), *reversed(vs)))
            elif z3.is_var(e):
                raise No
            elif z3.is_app(e) and e.decl().name() in self.sums.by_name:
                ent = self.sums.by_name[e.decl().name()]
                n = go(e.arg(0))
                args = [go(e.arg(i)) for i in range(1, e.num_args())]
                bound(n)
                r = z3.RealVal(0)
                nc = z3.simplify(n)
                top = min(nc.as_long(), 8) if z3.is_int_value(nc) else B
                if z3.is_int_value(nc) and nc.as_long() > 8:
                    raise No
                for j in range(top):
                    b = go(self.sums.body_at(ent, z3.IntVal(j), args))
                    r = r + (b if z3.is_int_value(nc) else z3.If(z3.IntVal(j) < n, b, z3.RealVal(0)))
            else:
                ch = e.children()
                new = [go(c) for c in ch]
                if all(x.eq(y) for x, y in zip(ch, new)):
                    r = e
                elif z3.is_and(e):
                    r = z3.And(*new)
                elif z3.is_or(e):
                    r = z3.Or(*new)
                elif e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT):
                    r = z3.simplify(z3.substitute(e, *zip(ch, new))) if False else e.decl()(*new) if len(new) == e.decl().arity() else \
                        (z3.Sum(*new) if e.decl().kind() == z3.Z3_OP_ADD else z3.Product(*new) if e.decl().kind() == z3.Z3_OP_MUL else z3.Distinct(*new))
                else:
                    r = e.decl()(*new)
            cache[k] = (e, r)
            return r

        def some(vs, body):
            out = []
            lim = limits(body, vs)
            for combo in itertools.product(range(-1 if len(vs) == 1 else 0, B + 1), repeat=len(vs)):
                sub = list(zip(vs, [z3.IntVal(c) for c in combo]))
                for w in lim:
                    w = z3.substitute(w, *sub)
                    if not any(v.decl().name() in z3_consts(w) for v in vs):
                        bound(go(w))
                out.append(go(z3.substitute(body, *sub)))
            return z3.Or(*out)

        def every(vs, body):
            if any(v.sort() != z3.IntSort() for v in vs):
                generic.append((vs, body))
                return z3.BoolVal(True)
            if len(vs) == 1:
                generic.append((vs, body))
            out = []
            lim = limits(body, vs)
            for combo in itertools.product(range(-1 if len(vs) == 1 else 0, B + 1), repeat=len(vs)):
                sub = list(zip(vs, [z3.IntVal(c) for c in combo]))
                for w in lim:
                    w = z3.substitute(w, *sub)
                    if not any(v.decl().name() in z3_consts(w) for v in vs):
                        bound(go(w))
                out.append(go(z3.substitute(body, *sub)))
            return z3.And(*out)
        try:
            out = [go(f) for f in forms]
            for qi, f in self.quants:
                if len(qi) > 3:
                    return None
                out.append(go(every(list(qi), f)))
            # facts about arbitrary values: at the terms in sight
            for _ in range(2):
                terms = {}
                for f in out:
                    for x in ground_args(f):
                        terms.setdefault(x.sort().name(), {}).setdefault(x.get_id(), x)
                add = []
                for vs, body in generic:
                    cols = [[x for x in terms.get(v.sort().name(), {}).values() if not z3.is_int_value(x)][:40] for v in vs]
                    n = 1
                    for c in cols:
                        n *= len(c)
                    if n > 400:
                        return None
                    for combo in itertools.product(*cols):
                        add.append(go(z3.substitute(body, *zip(vs, combo))))
                out += add
        except No:
            return None
        except RecursionError:
            return None
        for x in bounds.values():
            out.append(x <= B)
        for f in list(out):
            for nm, c in int_consts(f).items():
                if nm not in self.idx_names:
                    out.append(c <= max(B, 4))
        out += list(self.axiom_instances(out))
        # only points at which the logarithm is known exactly
        for x in apps_of(out, 'log2'):
            out.append(z3.Or(*[z3.And(x.arg(0) == z3.Q(2 ** max(e, 0), 2 ** max(-e, 0)), x == e) for e in range(-3, 4)]))
        r = None
        low = abstract_strings(out)
        if low is not None:
            sv = z3.Solver()
            sv.set('timeout', timeout)
            sv.add(*low[0])
            r = sv.check()
            if r == z3.sat and not low[1]:
                r = None
        if r is None:
            sv = z3.Solver()
            sv.set('timeout', timeout)
            sv.add(*out)
            r = sv.check() if low is None else z3.unknown
            if r == z3.unknown:
                r2 = self._cvc5(sv, timeout)
                if r2 in ('sat', 'unsat'):
                    self.solver_time += time.time() - t
                    self.queries += 1
                    return {} if r2 == 'sat' else 'none'
                if low is not None:
                    r = sv.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.sat:
            mod = sv.model()
            return {str(d): str(mod[d]) for d in mod.decls() if not str(d).startswith(('ix!', 'sk!', 'text!'))}
        return 'none' if r == z3.unsat else 'timeout'

    def lemma_sum_le(self, name, n, f, g, strict=False):
        """Lemma call: pointwise f <= g on [0,n) gives SUM f <= SUM g.  The
        pointwise premise is discharged as an obligation first."""
        i = self.index('lem')
        fi, gi = real(f(i)), real(g(i))
        snap = self.snapshot()
        self.assume(z3.And(i >= 0, i < n))
        ok = self.prove(name + ': pointwise premise', fi < gi if strict else fi <= gi)
        self.restore(snap)
        if ok:
            a, b = self.sums.SUM(i, n, fi), self.sums.SUM(i, n, gi)
            self.assume(z3.Implies(n >= 0, a <= b))
            if strict:
                self.assume(z3.Implies(n > 0, a < b))

    def lemma_sum_eq(self, name, n, f, g):
        """Pointwise equal bodies have equal sums; the premise is an obligation."""
        i = self.index('lem')
        fi, gi = real(f(i)), real(g(i))
        snap = self.snapshot()
        self.assume(z3.And(i >= 0, i < n))
        ok = self.prove(name + ': pointwise premise', fi == gi)
        self.restore(snap)
        if ok:
            self.assume(self.sums.SUM(i, n, fi) == self.sums.SUM(i, n, gi))

    def fail(self, name, detail):
        """An obligation that is violated on a feasible path (goal False)."""
        return self.prove(name, False) if True else None

    def _cvc5(self, s, timeout):
        import subprocess
        import tempfile
        import os
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', f'--tlimit={timeout}', '--strings-exp', f.name],
                               capture_output=True, text=True, timeout=timeout / 1000 + 10)
            out = p.stdout.strip().splitlines()
            return out[0] if out else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def reachable(self):
        """Vacuity guard: the current path condition is satisfiable."""
        r, _ = self._check([], 4000)
        return r != z3.unsat
