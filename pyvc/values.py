"""Symbolic values used by the executor."""
from fractions import Fraction
import z3

Str = z3.StringSort()


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation)."""


class Infeasible(Exception):
    """Current path condition is unsatisfiable."""


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""
    def __init__(self, name, args=(), bases=None, val=None):
        super().__init__(name)
        self.name = name
        self.eargs = args
        self.val = val


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Mut:
    """Mutable object; registered so that state can be saved and restored."""
    def __init__(self, m):
        m.register(self)

    def save(self):
        raise NotImplementedError

    def load(self, s):
        raise NotImplementedError


class Env(Mut):
    def __init__(self, m, parent=None, module=None, name='?'):
        super().__init__(m)
        self.vars = {}
        self.parent = parent
        self.module = module
        self.name = name
        self.nonlocals = set()

    def save(self):
        return dict(self.vars)

    def load(self, s):
        self.vars = dict(s)


class Rec(Mut):
    """Instance of a class (dataclass records, exceptions, plain objects)."""
    def __init__(self, m, cls, fields=None, tag=None):
        super().__init__(m)
        self.cls = cls          # ClassRef or str
        self.fields = dict(fields or {})
        self.tag = tag

    def save(self):
        return dict(self.fields)

    def load(self, s):
        self.fields = dict(s)

    def __repr__(self):
        return f'<{clsname(self.cls)} {self.fields}>'


def clsname(c):
    return c if isinstance(c, str) else c.node.name


class PList(Mut):
    """list / set / trace: a concatenation of segments."""
    def __init__(self, m, segs=(), kind='list'):
        super().__init__(m)
        self.segs = list(segs)
        self.kind = kind

    def save(self):
        return list(self.segs)

    def load(self, s):
        self.segs = list(s)

    def __repr__(self):
        return f'{self.kind}{self.segs}'


class PDict(Mut):
    def __init__(self, m, log=(), default=None):
        super().__init__(m)
        self.log = list(log)    # segments whose values are ('set'|'acc', key, val)
        self.default = default  # factory value (callable python) or None

    def save(self):
        return list(self.log)

    def load(self, s):
        self.log = list(s)


class PIter(Mut):
    """A (possibly partly consumed) iterator over segments, maybe lazy."""
    def __init__(self, m, segs=None, thunk=None):
        super().__init__(m)
        self.segs = list(segs) if segs is not None else None
        self.thunk = thunk

    def save(self):
        return (list(self.segs) if self.segs is not None else None, self.thunk)

    def load(self, s):
        self.segs = list(s[0]) if s[0] is not None else None
        self.thunk = s[1]


class One:
    __slots__ = ('value', 'guard')

    def __init__(self, value, guard=True):
        self.value = value
        self.guard = guard

    def __repr__(self):
        return f'One({self.value}{"" if self.guard is True else " if " + str(self.guard)})'


class Gen:
    """for idx in [lo, n) if guard(idx): segs(idx)"""
    __slots__ = ('idx', 'n', 'guard', 'segs', 'lo', 'unique')

    def __init__(self, idx, n, guard, segs, lo=0, unique=False):
        self.idx = idx
        self.n = n
        self.guard = guard
        self.segs = list(segs)
        self.lo = lo
        self.unique = unique    # writes to a dict: no key twice

    def __repr__(self):
        return f'Gen({self.lo}<={self.idx}<{self.n} if {self.guard}: {self.segs})'


class Marker:
    """Unknown prefix of a container at the start of an arbitrary iteration."""
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return f'Marker{self.uid}'


class Opt:
    """None when `none` holds, else `val`."""
    __slots__ = ('none', 'val')

    def __init__(self, none, val):
        self.none = none
        self.val = val

    def __repr__(self):
        return f'Opt({self.none},{self.val})'


class Choice:
    """Merged value: list of (guard, value), guards disjoint and exhaustive."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Poison:
    """A variable whose value after a loop is not tracked."""
    def __init__(self, why, resolve=None):
        self.why = why
        self.resolve = resolve


class Func:
    def __init__(self, node, module, env=None, bound=None, cls=None, defaults=None):
        self.node = node
        self.module = module
        self.env = env
        self.bound = bound
        self.cls = cls
        self.defaults = defaults

    @property
    def qual(self):
        n = getattr(self.node, 'name', '<lambda>')
        return f'{self.module.name}:{self.cls.node.name + "." if self.cls else ""}{n}'


class ClassRef:
    def __init__(self, module, node):
        self.module = module
        self.node = node

    @property
    def qual(self):
        return f'{self.module.name}:{self.node.name}'

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.qual == self.qual

    def __hash__(self):
        return hash(self.qual)


class Builtin:
    def __init__(self, name, bound=None):
        self.name = name
        self.bound = bound

    def __repr__(self):
        return f'<builtin {self.name}>'


class ModRef:
    def __init__(self, name):
        self.name = name


class Opaque:
    """An object about which nothing is known (only identity)."""
    def __init__(self, name):
        self.name = name


class Term(Opaque):
    """A value known only through an uninterpreted term: two values of one
    kind are equal exactly when their terms are."""
    def __init__(self, kind, term, pytypes=None, truthy=None):
        super().__init__(kind)
        self.term = term
        self.pytypes = pytypes
        self.truthy = truthy

    def __repr__(self):
        return f'Term({self.name}, {self.term})'


class Model:
    """Contract object standing for a dependency (repository, cursor...).

    Subclasses define methods `m_<name>(machine, args, kwargs)`.
    """
    name = 'model'

    def call(self, m, name, args, kwargs):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported(f'{type(self).__name__}.{name}: no contract')
        return f(m, *args, **kwargs)

    def getattr(self, m, name):
        if hasattr(self, 'm_' + name):
            return Builtin('model:' + name, self)
        if hasattr(self, 'a_' + name):
            return getattr(self, 'a_' + name)(m)
        raise Unsupported(f'{type(self).__name__}.{name}: no contract')


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def subst(v, pairs, m=None):
    """Substitute z3 terms inside a value (records are copied)."""
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, m) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs, m) for x in v]
    if isinstance(v, One):
        return One(subst(v.value, pairs, m), subst(v.guard, pairs, m))
    if isinstance(v, Gen):
        inner = [p for p in pairs if not p[0].eq(v.idx)]
        return Gen(v.idx, subst(v.n, pairs, m), subst(v.guard, inner, m),
                   subst(v.segs, inner, m), subst(v.lo, pairs, m), v.unique)
    if isinstance(v, Opt):
        return Opt(subst(v.none, pairs, m), subst(v.val, pairs, m))
    if isinstance(v, Term):
        return Term(v.name, subst(v.term, pairs, m), v.pytypes, subst(v.truthy, pairs, m))
    if isinstance(v, Choice):
        return Choice([(subst(g, pairs, m), subst(x, pairs, m)) for g, x in v.alts])
    if isinstance(v, Rec):
        if not mentions(v, [p[0] for p in pairs]):
            return v
        return Rec(m, v.cls, {k: subst(x, pairs, m) for k, x in v.fields.items()}, v.tag)
    if isinstance(v, PList):
        if not mentions(v, [p[0] for p in pairs]):
            return v
        return PList(m, subst(v.segs, pairs, m), v.kind)
    if isinstance(v, PDict):
        if not mentions(v, [p[0] for p in pairs]):
            return v
        return PDict(m, subst(v.log, pairs, m), v.default)
    if isinstance(v, PIter):
        if v.segs is None or not mentions(v, [p[0] for p in pairs]):
            return v
        return PIter(m, subst(v.segs, pairs, m))
    return v


_mention_cache = {}


def z3_consts(e, cache={}):
    """Set of names of uninterpreted constants in e."""
    key = e.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    names = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(x.decl().name())
        todo.extend(x.children())
    names = frozenset(names)
    cache[key] = (e, names)
    return names


def mentions(v, consts):
    names = {c.decl().name() for c in consts}
    return bool(all_consts(v) & names)


def all_consts(v, seen=None):
    if seen is None:
        seen = set()
    if is_z3(v):
        return set(z3_consts(v))
    if isinstance(v, (tuple, list)):
        out = set()
        for x in v:
            out |= all_consts(x, seen)
        return out
    if isinstance(v, One):
        return all_consts(v.value, seen) | all_consts(v.guard, seen)
    if isinstance(v, Gen):
        return all_consts(v.n, seen) | all_consts(v.lo, seen) | ((all_consts(v.guard, seen) | all_consts(v.segs, seen)) - {v.idx.decl().name()})
    if isinstance(v, Term):
        return all_consts(v.term, seen) | all_consts(v.truthy, seen)
    if isinstance(v, Opt):
        return all_consts(v.none, seen) | all_consts(v.val, seen)
    if isinstance(v, Choice):
        out = set()
        for g, x in v.alts:
            out |= all_consts(g, seen) | all_consts(x, seen)
        return out
    if isinstance(v, Marker):
        return {f'marker!{v.uid}'}
    if isinstance(v, (Rec, PList, PDict, PIter)):
        if id(v) in seen:
            return set()
        seen.add(id(v))
        if isinstance(v, Rec):
            return all_consts(list(v.fields.values()), seen)
        if isinstance(v, PList):
            return all_consts(v.segs, seen)
        if isinstance(v, PDict):
            return all_consts(v.log, seen)
        return all_consts(v.segs or [], seen)
    return set()


def real(x):
    """Coerce to a z3 real."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(str(f))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    if z3.is_real(x):
        return x
    raise Unsupported(f'not a number: {x!r}')


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def And(*xs):
    xs = [x for x in xs if x is not True and not (is_z3(x) and z3.is_true(x))]
    if any(x is False or (is_z3(x) and z3.is_false(x)) for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False and not (is_z3(x) and z3.is_false(x))]
    if any(x is True or (is_z3(x) and z3.is_true(x)) for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    return z3.If(c, a, b)
