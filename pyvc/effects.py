"""Transaction and frame effects of the repository's functions, down to `cursor.execute`.

Every function is analysed from its own source for every input: plain data is abstracted to ANY, what is tracked exactly is
which values are storage handles (spaces, connectors, connections, cursors, repositories), which SQL text reaches the
database, and the ghost state of the connection Tx = (active, commits, dirty).  Branches on data are taken both ways,
loops are closed by a fixpoint over (Tx, handles), callees are analysed per abstract argument (summaries), context managers
are run around the body they manage.  Any storage statement may fail, be interrupted, or fail with the engine having rolled
the open transaction back; any call into unknown code (the caller's data, the standard library) may raise or be interrupted.

Nothing that could hide an effect is ignored: a handle that escapes into unknown code, or SQL text that is not known, makes
the function `Unsupported` (undecided), never verified.
"""
import ast
import builtins
import re
from dataclasses import dataclass, field, replace
from typing import Any as _A
from .source import Program, class_member, _is_overload
from .values import Unsupported

LOOP_LIMIT = 60


# ------------------------------------------------------------------ values
@dataclass(frozen=True)
class Any_:
    pass


@dataclass(frozen=True)
class Pos(Any_):
    """A positive integer."""


@dataclass(frozen=True)
class Obj(Any_):
    """A data object of a class without its own truth value."""


@dataclass(frozen=True)
class This(Any_):
    """The fixed but arbitrary record that a loop over all records of a kind is followed for."""
    kind: str = ''


@dataclass(frozen=True)
class Taint:
    """May contain a storage handle: may be passed around, never used."""


@dataclass(frozen=True)
class Const:
    v: _A
    t: str = ''


@dataclass(frozen=True)
class Text:
    alts: frozenset          # possible texts; \0 stands for an unknown part


@dataclass(frozen=True)
class Handle:
    kind: str                # connection, cursor


@dataclass(frozen=True)
class Inst:
    module: str
    cls: str
    fields: tuple = ()


@dataclass(frozen=True)
class Cls:
    module: str
    node: ast.ClassDef


@dataclass(frozen=True)
class Fn:
    module: str
    node: _A                 # FunctionDef or Lambda
    cls: _A = None           # (module, class node) where it is defined
    bound: _A = None
    closure: tuple = ()


@dataclass(frozen=True)
class Ext:
    """A function or class outside the repository: unknown, pure with respect to the database."""
    name: str


@dataclass(frozen=True)
class Mod:
    name: str


@dataclass(frozen=True)
class HMeth:
    """A method of a handle or of the DAL."""
    recv: _A
    name: str


@dataclass(frozen=True)
class Tup:
    items: tuple


@dataclass(frozen=True)
class ListOf:
    item: _A


@dataclass(frozen=True)
class Dct:
    items: tuple             # ((key, value), ...)


@dataclass(frozen=True)
class CM:
    fn: _A
    env: tuple


@dataclass(frozen=True)
class NullCM:
    value: _A


@dataclass(frozen=True)
class Suppress:
    names: tuple


@dataclass(frozen=True)
class Exc:
    name: str


@dataclass(frozen=True)
class Super:
    module: str
    node: _A
    obj: _A


@dataclass(frozen=True)
class Partial:
    fn: _A
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class Cnt:
    """collections.Counter: which keys are known to be 0 (absent here) or positive; a list or set that is only added to: one key, the size."""
    items: tuple             # ((key, '+' | '?'), ...)


@dataclass(frozen=True)
class Rows:
    """Every record of a repository, each once."""
    cls: str
    item: _A


@dataclass(frozen=True)
class OneOf:
    alts: frozenset


@dataclass(frozen=True)
class Dal:
    pass


# a statement refused by the database; a statement after which the engine has rolled the transaction back by itself (out of memory or space, I/O error, interrupt)
STORAGE = {'*Storage': {'DatabaseError', 'OperationalError', 'IntegrityError', 'DataError', 'ProgrammingError', 'NotSupportedError', 'InterfaceError', 'InternalError', 'Warning', 'OverflowError'},
           '*Aborted': {'DatabaseError', 'OperationalError', 'MemoryError', 'Warning'}}
ANY, POS, TAINT, OBJ = Any_(), Pos(), Taint(), Obj()
EMPTY = Const('$nothing yielded', 'str')
NONE = Const(None, 'NoneType')


def const(x):
    return Const(x, type(x).__name__)


def plain(v):
    """Contains no handle (and nothing through which one could be reached)."""
    if isinstance(v, (Any_, Const, Text, Exc, Ext, Mod, Cls, Cnt)):
        return True
    if isinstance(v, Rows):
        return plain(v.item)
    if isinstance(v, (Tup,)):
        return all(plain(x) for x in v.items)
    if isinstance(v, ListOf):
        return plain(v.item)
    if isinstance(v, Dct):
        return all(plain(x) for _, x in v.items)
    if isinstance(v, Inst):
        return all(plain(x) for _, x in v.fields) and v.cls not in ('DataSpace', 'DataConnector')
    if isinstance(v, Fn):
        return (v.bound is None or plain(v.bound)) and all(plain(x) for _, x in v.closure)
    if isinstance(v, Partial):
        return plain(v.fn) and all(plain(x) for x in v.args) and all(plain(x) for _, x in v.kwargs)
    if isinstance(v, (CM,)):
        return all(plain(x) for _, x in v.env)
    if isinstance(v, NullCM):
        return plain(v.value)
    if isinstance(v, Suppress):
        return True
    if isinstance(v, HMeth):
        return plain(v.recv)
    if isinstance(v, OneOf):
        return all(plain(x) for x in v.alts)
    return False


def options(v):
    return sorted(v.alts, key=repr) if isinstance(v, OneOf) else [v]


def one_of(a, b):
    u = frozenset(options(a)) | frozenset(options(b))
    if len(u) == 1:
        return next(iter(u))
    if len(u) > 5 or TAINT in u:
        return ANY if all(plain(x) for x in u) else TAINT
    return OneOf(u)


def depth(v, d=0):
    if d > 4:
        return d
    if isinstance(v, Tup):
        return max([depth(x, d + 1) for x in v.items] + [d])
    if isinstance(v, ListOf):
        return depth(v.item, d + 1)
    if isinstance(v, Dct):
        return max([depth(x, d + 1) for _, x in v.items] + [d])
    return d


def positive(v):
    return v == POS or isinstance(v, Const) and type(v.v) is int and v.v > 0


def join(a, b):
    if a == b:
        return a
    if positive(a) and positive(b):
        return POS
    if a == EMPTY or b == EMPTY:
        return b if a == EMPTY else a
    if isinstance(a, Const) and isinstance(a.v, str):
        a = Text(frozenset([a.v]))
    if isinstance(b, Const) and isinstance(b.v, str):
        b = Text(frozenset([b.v]))
    if isinstance(a, Text) and isinstance(b, Text):
        u = a.alts | b.alts
        return Text(u) if len(u) <= 12 else ANY
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return cut(Tup(tuple(join(x, y) for x, y in zip(a.items, b.items))))
    if isinstance(a, (Tup, ListOf)) and isinstance(b, (Tup, ListOf)):
        return cut(ListOf(join(elem(a), elem(b))))
    if isinstance(a, OneOf) or isinstance(b, OneOf):
        return one_of(a, b)
    if isinstance(a, Inst) and isinstance(b, Inst) and (a.module, a.cls) == (b.module, b.cls):
        fa, fb = dict(a.fields), dict(b.fields)
        if fa.keys() == fb.keys():
            return Inst(a.module, a.cls, tuple((k, join(x, fb[k])) for k, x in a.fields))
    if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.bound == b.bound:
        fa, fb = dict(a.closure), dict(b.closure)
        return Fn(a.module, a.node, a.cls, a.bound, tuple((k, join(fa[k], fb[k])) for k in sorted(fa.keys() & fb.keys())))
    if isinstance(a, Dct) and isinstance(b, Dct):
        fa, fb = dict(a.items), dict(b.items)
        if fa.keys() == fb.keys():
            return Dct(tuple((k, join(x, fb[k])) for k, x in a.items))
    if isinstance(a, Cnt) and isinstance(b, Cnt):
        fa, fb = dict(a.items), dict(b.items)
        return Cnt(tuple((k, fa[k] if fa.get(k) == fb.get(k) else '?') for k in sorted(fa.keys() | fb.keys())))
    if isinstance(a, CALLABLE) or isinstance(b, CALLABLE):
        return one_of(a, b)
    if plain(a) and plain(b):
        return ANY
    return one_of(a, b)


CALLABLE = (Fn, Partial)


def cut(v):
    if depth(v) > 4:
        return ANY if plain(v) else TAINT
    return v


def elem(v):
    """What iterating over v yields."""
    if isinstance(v, Tup):
        r = None
        for x in v.items:
            r = x if r is None else join(r, x)
        return ANY if r is None else r
    if isinstance(v, (ListOf, Rows)):
        return v.item
    if isinstance(v, (Dct, Handle)):
        return ANY              # keys; rows of a query
    if isinstance(v, OneOf):
        r = None
        for x in options(v):
            r = elem(x) if r is None else join(r, elem(x))
        return r
    return ANY if plain(v) else TAINT


def join_env(a, b):
    if a is b or a == b:
        return a
    da, db = dict(a), dict(b)
    out = {}
    for k in da.keys() | db.keys():
        if k in da and k in db:
            out[k] = join(da[k], db[k])
        else:
            out[k] = da.get(k, db.get(k))       # unbound on one side: a NameError there
    return tuple(sorted(out.items()))


# ------------------------------------------------------------------ state
@dataclass(frozen=True)
class Tx:
    active: bool = False
    commits: int = 0
    dirty: bool = False
    stale: frozenset = frozenset()      # derived data that no longer matches (see DERIVED)

    def __str__(self):
        return f'transaction {"open" if self.active else "closed"}, {self.commits} commit(s){", uncommitted changes" if self.dirty else ""}' + \
            (f', not refreshed: {", ".join(sorted(self.stale))}' if self.stale else '')


@dataclass(frozen=True)
class S:
    tx: Tx
    env: tuple
    carry: _A = None         # (kind, caller env, caller carry, value) while a context manager's body has run

    def get(self, k):
        for n, v in self.env:
            if n == k:
                return v
        return None

    def set(self, k, v):
        d = dict(self.env)
        d[k] = v
        return S(self.tx, tuple(sorted(d.items())), self.carry)

    def with_tx(self, tx):
        return S(tx, self.env, self.carry)


def ckey(c):
    return None if c is None else (c[0], ckey(c[2]))


def join_carry(a, b):
    if a is None or a == b:
        return a
    return (a[0], join_env(a[1], b[1]), join_carry(a[2], b[2]), join(a[3], b[3]))


def join_state(a, b):
    return a if a == b else S(a.tx, join_env(a.env, b.env), join_carry(a.carry, b.carry))


class Outs:
    """Joined outcomes: kind in next, break, continue, return, raise."""
    def __init__(self):
        self.d = {}

    def add(self, kind, s, val=None):
        key = (kind, val if kind == 'raise' else None, s.tx, ckey(s.carry))
        old = self.d.get(key)
        if old is None:
            self.d[key] = (s, val)
        else:
            self.d[key] = (join_state(old[0], s), val if kind != 'return' else join(old[1], val))

    def __iter__(self):
        return iter([(k[0], s, v) for k, (s, v) in self.d.items()])

    def states(self, kind='next'):
        return [s for k, s, v in self if k == kind]


# ------------------------------------------------------------------ SQL
COMMENT = re.compile(r'^\s*(--[^\n]*\n|/\*.*?\*/)', re.S)
NAME = r'["\[`]?(?:(?P<db>main|temp|temporary)["\]`]?\s*\.\s*["\[`]?)?(?P<t>[\w\0]+)'
WRITES = [re.compile(p + r'\s+' + NAME, re.I) for p in
          (r'\bINSERT\s+(?:OR\s+\w+\s+)?INTO', r'\bREPLACE\s+INTO', r'\bUPDATE(?:\s+OR\s+\w+)?', r'\bDELETE\s+FROM', r'\bALTER\s+TABLE',
           r'\bDROP\s+TABLE(?:\s+IF\s+EXISTS)?', r'\bCREATE\s+TABLE(?:\s+IF\s+NOT\s+EXISTS)?',
           r'\bCREATE\s+(?:UNIQUE\s+)?INDEX(?:\s+IF\s+NOT\s+EXISTS)?\s+\S+\s+ON')]


def sql_effects(text):
    """('read'|'write'|'begin'|'commit'|'rollback', tables)"""
    while COMMENT.match(text):
        text = COMMENT.sub('', text, 1)
    text = text.strip()
    m = re.match(r'[A-Za-z]+', text)
    if not m:
        raise Unsupported(f'SQL text is not known: {text[:60]!r}')
    w = m.group().upper()
    if ';' in text.rstrip(';\n\t ') and w not in ('CREATE',):
        raise Unsupported(f'several SQL statements: {text[:60]!r}')
    if w in ('SELECT', 'PRAGMA', 'EXPLAIN', 'VALUES', 'ANALYZE', 'VACUUM', 'ATTACH', 'DETACH'):
        if w == 'PRAGMA' and re.match(r'PRAGMA\s+(main\.)?(user_version|application_id)\s*=', text, re.I):
            return 'write', {'(header)'}
        if w in ('VACUUM',) and not re.match(r'VACUUM\s+(main\s+)?INTO', text, re.I):
            raise Unsupported('VACUUM')
        return 'read', set()
    if w == 'BEGIN':
        return 'begin', set()
    if w in ('COMMIT', 'END'):
        return 'commit', set()
    if w == 'ROLLBACK' and not re.search(r'\bTO\b', text, re.I):
        return 'rollback', set()
    if re.match(r'(CREATE\s+(TEMP|TEMPORARY)|DROP\s+TRIGGER(\s+IF\s+EXISTS)?\s+temp\.)', text, re.I):
        return 'read', set()
    if w in ('INSERT', 'REPLACE', 'UPDATE', 'DELETE', 'ALTER', 'DROP', 'CREATE', 'WITH'):
        if re.match(r'DROP\s+(INDEX|TRIGGER|VIEW)', text, re.I):
            return 'write', {'(constraints)'}
        if re.match(r'CREATE\s+(UNIQUE\s+)?INDEX', text, re.I):
            return 'write', {'(constraints)'}
        if re.match(r'CREATE\s+TRIGGER', text, re.I):
            return 'write', {'(constraints)'}
        ts = set()
        for p in WRITES:
            for x in p.finditer(text):
                if x.group('t').upper() == 'SET':
                    continue
                ts.add(x.group('t').lower() if '\0' not in x.group('t') else '?')
        if not ts:
            if w == 'WITH':
                if re.search(r'\b(INSERT|UPDATE|DELETE|REPLACE)\b', text, re.I):
                    return 'write', {'?'}
                return 'read', set()
            ts = {'?'}
        return 'write', ts
    raise Unsupported(f'SQL statement of another kind: {text[:60]!r}')


# ------------------------------------------------------------------ interpreter
class Effects:
    def __init__(self, program=None, storage_faults=True):
        self.p = program or Program()
        self.faults = storage_faults
        self.memo = {}
        self.writes = {}         # table -> statement positions (of the function being verified)
        self.stack = []
        self.inlined = set()
        self.storage_calls = 0
        self.reached = set()     # statements (vacuity guard)
        self.pure = set()        # functions outside the repository that are assumed not to touch the database

    # ---- helpers
    cat = staticmethod(lambda vs: cat(vs))
    joined = staticmethod(lambda sep, it: joined(sep, it))

    def raise_(self, outs, s, name):
        outs.add('raise', s, name)

    def maybe_raise(self, outs, s):
        """Unknown code may raise anything and may be interrupted (until the change is committed: reporting code after that is assumed not to raise)."""
        if s.tx.commits == 0:
            outs.add('raise', s, '*Exception')
            outs.add('raise', s, '*Base')

    # ---- functions
    def bind(self, fn, args, kwargs, star, dstar):
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if fn.bound is not None:
            args = [fn.bound] + args
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwdef = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for n, v in zip(pos, args):
            env[n] = v
        extra = args[len(pos):]
        if a.vararg:
            v = Tup(tuple(extra))
            if star is not None:
                v = ListOf(join(elem(v), star) if extra else star)
            env[a.vararg.arg] = v
        rest = {}
        for k, v in kwargs.items():
            if k in pos or any(k == x.arg for x in a.kwonlyargs):
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            v = ANY
            for x in list(rest.values()) + ([dstar] if dstar is not None else []):
                if not plain(x):
                    v = TAINT
            if rest and dstar is None:
                v = Dct(tuple(sorted(rest.items())))
            env[a.kwarg.arg] = v
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in env:
                continue
            d = defaults.get(n, kwdef.get(n))
            dv = None if d is None else self.default(fn, d)
            unknown = [x for x in ((star if n in pos else None), dstar) if x is not None]
            for u in unknown:
                dv = u if dv is None else join(dv, u)
            env[n] = ANY if dv is None else dv
        return env

    def default(self, fn, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        outs = Outs()
        try:
            r = self.ev(d, S(Tx(), (('$module', Mod(fn.module)),)), outs)
            return r[0][1] if r else ANY
        except Unsupported:
            return ANY

    def call_fn(self, fn, args, kwargs, star, dstar, s, outs):
        """Call a function of the repository: [(state, value)]."""
        node = fn.node
        if isinstance(node, ast.Lambda):
            env = self.bind(fn, args, kwargs, star, dstar)
        else:
            for d in node.decorator_list:
                n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', getattr(getattr(d, 'func', None), 'id', None))
                if n == 'abstractmethod':
                    raise Unsupported(f'{fn.cls[1].name}.{node.name} is abstract')
                if n in ('overload', 'property', 'setter', 'staticmethod', 'classmethod', 'cached_property', 'lru_cache'):
                    continue
                if n == 'contextmanager':
                    env = self.bind(fn, args, kwargs, star, dstar)
                    return [(s, CM(fn, tuple(sorted(env.items()))))]
                if n in ('eagerly_initialize', 'wraps', 'total_ordering'):
                    continue
                raise Unsupported(f'decorator {n}')
            env = self.bind(fn, args, kwargs, star, dstar)
        env = self.frame(fn, env)
        within, self.refreshing = self.refreshing, self.refreshing or getattr(node, 'name', '') == 'refresh_proportions'
        try:
            return self.call_body(fn, node, env, s, outs)
        finally:
            self.refreshing = within

    def call_body(self, fn, node, env, s, outs):
        key = (fn.module, node, fn.bound, env, s.tx, self.mode, self.refreshing)
        if key in self.memo:
            res, writes = self.memo[key]
        else:
            if any(k == key for k in self.stack):
                # recursion: assume no effect, checked below
                self.recursive = True
                self.maybe_raise(outs, s)
                return [(s, ANY)]
            if len(self.stack) > 80:
                raise Unsupported('calls nested too deeply')
            self.inlined.add(f'{fn.module}:{fn.cls[1].name + "." if fn.cls else ""}{getattr(node, "name", "<lambda>")}')
            saved, self.writes = self.writes, {}
            srec, self.recursive = getattr(self, 'recursive', False), False
            self.stack.append(key)
            try:
                o = self.run_body(fn, S(s.tx, env))
            finally:
                self.stack.pop()
            res = Outs()
            for k, st, v in o:
                if k in ('next', 'return'):
                    res.add('return', S(st.tx, ()), v if k == 'return' else NONE)
                elif k == 'raise':
                    res.add('raise', S(st.tx, ()), v)
            if self.recursive and any(st.tx != s.tx for _, st, _ in res):
                raise Unsupported('recursion with effects')
            self.recursive = srec
            writes, self.writes = self.writes, saved
            if not self.recursive:
                self.memo[key] = (res, writes)
        for t, w in writes.items():
            self.writes.setdefault(t, set()).update(w)
        vals = []
        for k, st, v in res:
            if k == 'raise':
                outs.add('raise', s.with_tx(st.tx), v)
            else:
                vals.append((s.with_tx(st.tx), v))
        return vals

    def frame(self, fn, env):
        d = dict(fn.closure)
        d.update(env)
        d['$module'] = Mod(fn.module)
        if fn.cls:
            d['$class'] = Cls(fn.cls[0], fn.cls[1])
        return tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def run_body(self, fn, s):
        """Outcomes of the body (generators: run to the end, yields are collected)."""
        node = fn.node
        if isinstance(node, ast.Lambda):
            outs = Outs()
            for st, v in self.ev(node.body, s, outs):
                outs.add('return', st, v)
            return outs
        if is_generator(node):
            s = s.set('$yield', Const('generator', 'str')).set('$yielded', EMPTY)
            got = Outs()
            for k, st, v in self.block(node.body, s):
                if k in ('next', 'return'):
                    if st.tx != s.tx:
                        raise Unsupported('a lazily evaluated function with transaction effects')
                    y = st.get('$yielded')
                    got.add('return', st, ListOf(ANY if y == EMPTY else y))
                else:
                    got.add(k, st, v)
            return got
        return self.block(node.body, s)

    # ---- statements
    def block(self, body, s):
        outs = Outs()
        cur = [s]
        for st in body:
            nxt = Outs()
            for x in cur:
                for k, y, v in self.stmt(st, x):
                    (nxt if k == 'next' else outs).add(k, y, v)
            cur = nxt.states()
            if not cur:
                return outs
        for x in cur:
            outs.add('next', x)
        return outs

    def stmt(self, st, s):
        outs = Outs()
        self.reached.add(id(st))
        f = getattr(self, 's_' + type(st).__name__, None)
        if f is None:
            raise Unsupported(f'statement {type(st).__name__}')
        try:
            f(st, s, outs)
        except Unsupported as x:
            if ' @ ' not in str(x):
                raise Unsupported(f'{x} @ {s.get("$module").name}:{st.lineno}')
            raise
        return outs

    def s_Pass(self, st, s, outs):
        outs.add('next', s)

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, st, s, outs):
        for a in st.names:
            s = s.set(a.asname or a.name, self.glob(s, a.name, st) or ANY)
        outs.add('next', s)

    def s_Import(self, st, s, outs):
        for a in st.names:
            s = s.set(a.asname or a.name.split('.')[0], Mod(a.name))
        outs.add('next', s)

    def s_Expr(self, st, s, outs):
        for x, v in self.ev(st.value, s, outs):
            outs.add('next', x)

    def s_Return(self, st, s, outs):
        if st.value is None:
            outs.add('return', s, NONE)
            return
        for x, v in self.ev(st.value, s, outs):
            outs.add('return', x, v)

    def s_Break(self, st, s, outs):
        outs.add('break', s)

    def s_Continue(self, st, s, outs):
        outs.add('continue', s)

    def s_Assert(self, st, s, outs):
        for x, v in self.ev(st.test, s, outs):
            outs.add('next', x)
            outs.add('raise', x, 'AssertionError')

    def s_Delete(self, st, s, outs):
        outs.add('next', s)

    def s_FunctionDef(self, st, s, outs):
        mod = s.get('$module').name
        used = {n.id for n in ast.walk(st) if isinstance(n, ast.Name)}
        for n, v in s.env:
            if isinstance(v, Cnt) and n in used:
                s = s.set(n, ANY)
        closure = tuple((k, v) for k, v in s.env if not k.startswith('$yield'))
        outs.add('next', s.set(st.name, Fn(mod, st, None, None, closure)))

    def s_ClassDef(self, st, s, outs):
        outs.add('next', s.set(st.name, ANY))

    def s_Assign(self, st, s, outs):
        if self.empty(st.value, s) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            outs.add('next', s.set(st.targets[0].id, Cnt((('$n', '0'),))))
            return
        for x, v in self.ev(st.value, s, outs):
            if isinstance(v, Cnt) and not isinstance(st.value, ast.Call):
                x, v = self.forget_counters(x, v, None), ANY
            ys = [x]
            for t in st.targets:
                ys = [z for y in ys for z in self.assign(t, v, y, outs)]
            for y in ys:
                outs.add('next', y)

    def empty(self, e, s):
        """[], list() or set()"""
        return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'set') and s.get(e.func.id) is None and not e.args and not e.keywords

    def s_AnnAssign(self, st, s, outs):
        if st.value is not None and self.empty(st.value, s) and isinstance(st.target, ast.Name):
            outs.add('next', s.set(st.target.id, Cnt((('$n', '0'),))))
            return
        if st.value is None:
            outs.add('next', s)
            return
        for x, v in self.ev(st.value, s, outs):
            for y in self.assign(st.target, v, x, outs):
                outs.add('next', y)

    def s_AugAssign(self, st, s, outs):
        for x, v in self.ev(st.value, s, outs):
            if isinstance(st.target, ast.Name):
                old = x.get(st.target.id)
                nv = ANY if old is None or (plain(old) and plain(v)) else TAINT
                if isinstance(st.op, ast.Add) and isinstance(old, (Tup, ListOf)) and isinstance(v, (Tup, ListOf)):
                    nv = cut(ListOf(join(elem(old), elem(v))))
                elif isinstance(st.op, ast.Add) and texts(old) and texts(v):
                    nv = cat([old, v])
                elif old is not None:
                    nv = arith(st.op, old, v) or nv
                if isinstance(old, Cnt):
                    x = self.forget_counters(x, old, None)
                outs.add('next', x.set(st.target.id, nv))
            else:
                if not plain(v):
                    raise Unsupported('handle stored')
                t = st.target
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(x.get(t.value.id), Cnt):
                    for y, k in self.ev(t.slice, x, outs):
                        c = y.get(t.value.id)
                        if not isinstance(c, Cnt):
                            outs.add('next', y)
                            continue
                        d = dict(c.items)
                        if not isinstance(k, Const):
                            outs.add('next', y.set(t.value.id, ANY))
                            continue
                        up = isinstance(st.op, ast.Add) and isinstance(v, Const) and isinstance(v.v, int) and v.v > 0
                        d[k.v] = '+' if up else '?'
                        outs.add('next', y.set(t.value.id, Cnt(tuple(sorted(d.items())))))
                    continue
                self.maybe_raise(outs, x)
                outs.add('next', x)

    def assign(self, t, v, s, outs):
        if isinstance(t, ast.Name):
            return [s.set(t.id, v)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, s, outs)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if isinstance(v, Tup) and len(v.items) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                vals = v.items
            else:
                vals = [ListOf(elem(v)) if isinstance(e, ast.Starred) else elem(v) for e in t.elts]
                self.maybe_raise(outs, s)
            ss = [s]
            for e, x in zip(t.elts, vals):
                ss = [z for y in ss for z in self.assign(e, x, y, outs)]
            return ss
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(s.get(t.value.id), Cnt):
            return [s.set(t.value.id, ANY)]
        if isinstance(t, ast.Subscript):
            rs = []
            for x, o in self.ev(t.value, s, outs):
                for y, k in self.ev(t.slice, x, outs):
                    self.maybe_raise(outs, y)
                    if not plain(v):
                        if isinstance(t.value, ast.Name) and isinstance(o, (Any_, Dct, ListOf, Tup, Taint)):
                            y = y.set(t.value.id, TAINT)
                        else:
                            raise Unsupported('handle stored in a container')
                    elif isinstance(o, Dct) and isinstance(t.value, ast.Name):
                        d = dict(o.items)
                        if isinstance(k, Const):
                            d[k.v] = join(d[k.v], v) if k.v in d else v
                            y = y.set(t.value.id, Dct(tuple(sorted(d.items(), key=repr))))
                        else:
                            y = y.set(t.value.id, ANY if plain(o) else TAINT)
                    rs.append(y)
            return rs
        if isinstance(t, ast.Attribute):
            rs = []
            for x, o in self.ev(t.value, s, outs):
                if isinstance(o, Inst) and isinstance(t.value, ast.Name):
                    d = dict(o.fields)
                    d[t.attr] = v
                    if not plain(v) or t.attr in dict(o.fields):
                        x = x.set(t.value.id, Inst(o.module, o.cls, tuple(sorted(d.items()))))
                elif not plain(v):
                    raise Unsupported('handle stored in an attribute')
                rs.append(x)
            return rs
        raise Unsupported(f'assignment to {type(t).__name__}')

    def test(self, e, s, outs):
        """[(state, bool)]: both where unknown."""
        if isinstance(e, ast.BoolOp):
            cur = [(s, isinstance(e.op, ast.And))]
            for sub in e.values:
                nxt = []
                for x, b in cur:
                    if b == isinstance(e.op, ast.And):
                        nxt += self.test(sub, x, outs)
                    else:
                        nxt.append((x, b))
                cur = dedupe(nxt)
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.test(e.operand, s, outs)]
        r = []
        for x, v in self.ev(e, s, outs):
            r += [(x, b) for b in self.truth(v)]
        return dedupe(r)

    def truth(self, v):
        if isinstance(v, OneOf):
            return sorted({b for x in v.alts for b in self.truth(x)})
        if isinstance(v, Const):
            return [bool(v.v)]
        if isinstance(v, (Pos, Obj)):
            return [True]
        if isinstance(v, Cnt):
            return [True] if any(x == '+' for _, x in v.items) else [True, False] if any(x == '?' for _, x in v.items) else [False]
        if isinstance(v, (Fn,)):
            return [True]
        if isinstance(v, (Handle, Fn, Ext, Cls, Mod, Dal, HMeth, Exc)):
            return [True]
        if isinstance(v, Inst):
            return [True]
        if isinstance(v, Tup):
            return [bool(v.items)]
        return [True, False]

    def s_If(self, st, s, outs):
        for x, b in self.test(st.test, s, outs):
            for k, y, v in self.block(st.body if b else st.orelse, x):
                outs.add(k, y, v)

    def loop(self, heads, step, orelse, outs):
        """heads: entry states.  step(state) -> (exit states, outcomes of the body)"""
        seen = {}
        todo = []

        def enter(x):
            k = (x.tx, ckey(x.carry))
            if k not in seen:
                seen[k] = x
                todo.append(k)
            else:
                j = join_state(seen[k], x)
                if j != seen[k]:
                    seen[k] = j
                    if k not in todo:
                        todo.append(k)
        for x in heads:
            enter(x)
        n = 0
        exits, breaks, rest = None, None, None
        while todo:
            n += 1
            if n > LOOP_LIMIT:
                raise Unsupported('loop does not stabilise')
            k = todo.pop(0)
            ex, body = step(seen[k])
            for kind, y, v in body:
                if kind in ('next', 'continue'):
                    enter(y)
        # final pass from the stable heads
        exits, breaks = Outs(), Outs()
        for x in seen.values():
            ex, body = step(x)
            for y in ex:
                exits.add('next', y)
            for kind, y, v in body:
                if kind == 'break':
                    breaks.add('next', y)
                elif kind not in ('next', 'continue'):
                    outs.add(kind, y, v)
        for x in exits.states():
            if orelse:
                for kind, y, v in self.block(orelse, x):
                    outs.add(kind, y, v)
            else:
                outs.add('next', x)
        for x in breaks.states():
            outs.add('next', x)

    def s_For(self, st, s, outs):
        for x, it in self.ev(st.iter, s, outs):
            if isinstance(it, Tup) and len(it.items) <= 40:
                self.unrolled(st, it.items, x, outs)
                continue

            if isinstance(it, Rows):
                self.each(st, it, x, outs)
                continue

            def step(h, it=it):
                o = Outs()
                if isinstance(it, Handle):
                    self.fault(h, o)
                elif not isinstance(it, Dct):
                    self.maybe_raise(o, h)
                for y in self.assign(st.target, elem(it), h, o):
                    for k, z, v in self.block(st.body, y):
                        o.add(k, z, v)
                return [h], o
            self.loop([x], step, st.orelse, outs)

    def each(self, st, it, s, outs):
        """A loop over all records: iterations for other records, the one for a fixed arbitrary record, others again."""
        def body(h):
            o = Outs()
            self.maybe_raise(o, h)
            for y in self.assign(st.target, This(it.cls) if self.mode == 'this' and plain(it.item) else it.item, h, o):
                for k, z, v in self.block(st.body, y):
                    o.add(k, z, v)
            return o

        ends = Outs()
        cur = [s]
        for phase in ('before', 'this', 'after'):
            if phase == 'this':
                saved, self.mode = self.mode, 'this'
                o = Outs()
                try:
                    for x in cur:
                        for k, y, v in body(x):
                            o.add('next' if k == 'continue' else 'break' if k == 'break' else k, y, v)
                finally:
                    self.mode = saved
                nxt = Outs()
                for k, y, v in o:
                    if k == 'next':
                        nxt.add('next', y)
                    elif k == 'break':
                        ends.add('next', y)
                    else:
                        outs.add(k, y, v)
                cur = nxt.states()
            else:
                # a break before the record's iteration leaves the loop as it is then; `loop` merges it with the normal exit, so keep them apart
                brk = []
                o = Outs()
                saved, self.mode = self.mode, 'other'
                try:
                    self.loop(cur, lambda h: ([h], self.split_break(body(h), brk)), None, o)
                finally:
                    self.mode = saved
                nxt = Outs()
                for k, y, v in o:
                    if k == 'next':
                        nxt.add('next', y)
                    else:
                        outs.add(k, y, v)
                for y in brk:
                    ends.add('next', y)
                cur = nxt.states()
        for x in cur:
            for k, z, w in (self.block(st.orelse, x) if st.orelse else [('next', x, None)]):
                outs.add(k, z, w)
        for x in ends.states():
            outs.add('next', x)

    def split_break(self, o, brk):
        r = Outs()
        for k, y, v in o:
            if k == 'break':
                brk.append(y)
            else:
                r.add(k, y, v)
        return r

    def unrolled(self, st, items, s, outs):
        cur = [s]
        done = Outs()
        for v in items:
            nxt = Outs()
            for x in cur:
                for y in self.assign(st.target, v, x, outs):
                    for k, z, w in self.block(st.body, y):
                        if k in ('next', 'continue'):
                            nxt.add('next', z)
                        elif k == 'break':
                            done.add('next', z)
                        else:
                            outs.add(k, z, w)
            cur = nxt.states()
        for x in cur:
            for k, z, w in (self.block(st.orelse, x) if st.orelse else [('next', x, None)]):
                outs.add(k, z, w)
        for x in done.states():
            outs.add('next', x)

    def s_While(self, st, s, outs):
        def step(h):
            o = Outs()
            ex = []
            for y, b in self.test(st.test, h, o):
                if not b:
                    ex.append(y)
                else:
                    for k, z, v in self.block(st.body, y):
                        o.add(k, z, v)
            return ex, o
        self.loop([s], step, st.orelse, outs)

    # ---- exceptions
    def s_Raise(self, st, s, outs):
        if st.exc is None:
            e = s.get('$exc')
            outs.add('raise', s, e.name if e is not None else 'RuntimeError')
            return
        e = st.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                for x, v in self.ev(a, s, Outs()):
                    pass
            name = e.func
        else:
            name = e
        if isinstance(name, ast.Name):
            v = s.get(name.id)
            if isinstance(v, Exc):
                outs.add('raise', s, v.name)
                return
            outs.add('raise', s, name.id if v is None else '*Exception')
        elif isinstance(name, ast.Attribute):
            outs.add('raise', s, name.attr)
        else:
            outs.add('raise', s, '*Exception')

    def exc_bases(self, name, mod, seen=()):
        if name in ('*Exception',):
            return {'Exception', 'BaseException'}
        if name == '*Base':
            return {'BaseException'}
        if name in STORAGE:
            return {'Error', 'Exception', 'BaseException'}
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return {c.__name__ for c in b.__mro__}
        r = self.p.resolve(mod, name)
        if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef) and name not in seen:
            out = {name}
            for base in r[2].bases:
                if isinstance(base, ast.Name):
                    out |= self.exc_bases(base.id, r[1].name, seen + (name,))
            return out
        return {name, 'Exception', 'BaseException'}

    def matches(self, exc, h, s):
        """Possible results of matching exception `exc` against the handler's class name."""
        mod = s.get('$module').name
        bases = self.exc_bases(exc, mod)
        if h in bases:
            return [True]
        if exc in STORAGE:
            return [True, False] if h in STORAGE[exc] else [False]
        if exc == '*Base':
            return [True, False] if h in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit') else [False]
        if exc == '*Exception':
            hb = self.exc_bases(h, mod)
            return [True, False] if 'Exception' in hb else [False]
        if exc in self.exc_bases(h, mod):
            return [True, False]
        return [False]

    def handler_names(self, t):
        if t is None:
            return ['BaseException']
        if isinstance(t, ast.Tuple):
            return [n for e in t.elts for n in self.handler_names(e)]
        if isinstance(t, ast.Name):
            return [t.id]
        if isinstance(t, ast.Attribute):
            return [t.attr]
        raise Unsupported('except clause')

    def s_Try(self, st, s, outs):
        inner = Outs()
        for k, x, v in self.block(st.body, s):
            if k == 'next':
                for k2, y, w in (self.block(st.orelse, x) if st.orelse else [('next', x, None)]):
                    inner.add(k2, y, w)
            elif k == 'raise':
                self.handle(st.handlers, x, v, inner)
            else:
                inner.add(k, x, v)
        if not st.finalbody:
            for k, x, v in inner:
                outs.add(k, x, v)
            return
        for k, x, v in inner:
            for k2, y, w in self.block(st.finalbody, x):
                if k2 == 'next':
                    outs.add(k, y, v)
                else:
                    outs.add(k2, y, w)

    def handle(self, handlers, x, exc, outs):
        cur = True
        for h in handlers:
            hit = set()
            for n in self.handler_names(h.type):
                hit |= set(self.matches(exc, n, x))
            if True in hit:
                old = x.get('$exc')
                y = x.set('$exc', Exc(exc))
                if h.name:
                    y = y.set(h.name, Exc(exc))
                for k, z, v in self.block(h.body, y):
                    if old is not None:
                        z = z.set('$exc', old)
                    outs.add(k, z, v)
                if hit == {True}:
                    return
        outs.add('raise', x, exc)

    # ---- context managers
    def s_With(self, st, s, outs):
        self.with_items(st.items, 0, st.body, s, outs)

    def with_items(self, items, k, body, s, outs):
        if k == len(items):
            for kk, x, v in self.block(body, s):
                outs.add(kk, x, v)
            return
        it = items[k]
        for x, cm in self.ev(it.context_expr, s, outs):
            self.with_cm(cm, it.optional_vars, lambda y: self.rest(items, k + 1, body, y), x, outs)

    def rest(self, items, k, body, y):
        o = Outs()
        self.with_items(items, k, body, y, o)
        return o

    def with_cm(self, cm, target, body, s, outs):
        if isinstance(cm, OneOf):
            for x in options(cm):
                self.with_cm(x, target, body, s, outs)
            return
        def enter(x, v):
            o = Outs()
            ys = [x] if target is None else self.assign(target, v, x, o)
            for y in ys:
                for k, z, w in body(y):
                    o.add(k, z, w)
            return o
        if isinstance(cm, NullCM):
            for k, x, v in enter(s, cm.value):
                outs.add(k, x, v)
            return
        if isinstance(cm, Suppress):
            for k, x, v in enter(s, NONE):
                if k == 'raise':
                    hit = set()
                    for n in cm.names:
                        hit |= set(self.matches(v, n, x))
                    if True in hit:
                        outs.add('next', x)
                    if hit != {True}:
                        outs.add('raise', x, v)
                else:
                    outs.add(k, x, v)
            return
        if isinstance(cm, CM):
            self.run_cm(cm, enter, s, outs)
            return
        if plain(cm):
            for k, x, v in enter(s, ANY):
                outs.add(k, x, v)
            return
        raise Unsupported(f'context manager {cm!r}')

    def run_cm(self, cm, enter, s, outs):
        fn = cm.fn
        self.inlined.add(f'{fn.module}:{fn.cls[1].name + "." if fn.cls else ""}{fn.node.name}')
        env = dict(self.frame(fn, dict(cm.env)))
        env['$yield'] = Const(('cm', len(self.stack)), 'cm')
        gen = S(s.tx, tuple(sorted(env.items(), key=lambda kv: kv[0])), ('start', s.env, s.carry, ANY))

        def hook(g, value):
            """The generator is at its yield in state g: run the body of the with statement."""
            if g.carry[0] != 'start':
                raise Unsupported('a context manager that yields again')
            o = Outs()
            caller = S(g.tx, g.carry[1], g.carry[2])
            for k, x, v in enter(caller, value):
                kind = 'next' if k == 'raise' else k
                back = S(x.tx, g.env, (kind, x.env, x.carry, v if k == 'return' else NONE))
                if k == 'raise':
                    o.add('raise', back, v)
                else:
                    o.add('next', back)
            return o
        self.hooks = getattr(self, 'hooks', [])
        self.hooks.append(hook)
        try:
            res = self.block(fn.node.body, gen)
        finally:
            self.hooks.pop()
        for k, g, v in res:
            ckind, cenv, ccarry, cval = g.carry
            back = S(g.tx, cenv, ccarry)
            if k == 'raise':
                outs.add('raise', back, v)
            elif k in ('next', 'return'):
                if ckind == 'start':
                    outs.add('raise', back, 'RuntimeError')
                else:
                    outs.add(ckind, back, cval if ckind == 'return' else None)
            else:
                raise Unsupported('context manager leaves strangely')

    # ---- expressions: [(state, value)]
    def ev(self, e, s, outs):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported(f'expression {type(e).__name__}')
        r = f(e, s, outs)
        return merge(r)

    def evs(self, es, s, outs):
        cur = [(s, ())]
        for e in es:
            cur = [(y, vs + (v,)) for x, vs in cur for y, v in self.ev(e, x, outs)]
        return cur

    def e_Constant(self, e, s, outs):
        return [(s, const(e.value))]

    def e_Name(self, e, s, outs):
        v = s.get(e.id)
        if v is None:
            v = self.glob(s, e.id)
        return [(s, ANY if v is None else v)]

    def glob(self, s, name, imp=None):
        mod = s.get('$module').name
        if imp is not None:
            base = imp.module or ''
            if imp.level:
                m = self.p.module(mod)
                parts = mod.split('.')
                if not m.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (imp.level - 1)]
                base = '.'.join(parts + ([base] if base else []))
            return self.from_module(base, name)
        return self.from_module(mod, name, own=True)

    def from_module(self, mod, name, own=False):
        r = self.p.resolve(mod, name)
        if r is None:
            if self.p.module(mod + '.' + name):
                return Mod(mod + '.' + name)
            return Ext('builtins.' + name)
        if r[0] == 'def':
            if isinstance(r[2], ast.ClassDef):
                return Cls(r[1].name, r[2])
            return Fn(r[1].name, r[2])
        if r[0] == 'modref':
            return Mod(r[1])
        if r[0] == 'expr':
            key = ('glob', r[1].name, name)
            if key not in self.memo:
                self.memo[key] = ANY
                try:
                    v = self.ev(r[2], S(Tx(), (('$module', Mod(r[1].name)),)), Outs())
                    self.memo[key] = v[0][1] if len(v) == 1 else ANY
                except Unsupported:
                    pass
            return self.memo[key]
        return Ext(r[1])

    def e_Attribute(self, e, s, outs):
        r = []
        for x, o in self.ev(e.value, s, outs):
            r += self.attr(o, e.attr, x, outs)
        return r

    def find_class(self, module, cls):
        m = self.p.module(module)
        return m.defs.get(cls)

    def mro(self, module, node, seen=()):
        out = [(module, node)]
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            name = b.id if isinstance(b, ast.Name) else None
            if name is None:
                continue
            r = self.p.resolve(module, name)
            if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef) and r[2] is not node:
                out += self.mro(r[1].name, r[2])
        return out

    def member(self, module, node, name):
        for m, c in self.mro(module, node):
            f = class_member(c, name)
            if f is not None:
                return m, c, f
        return None

    def has_field(self, module, node, name):
        """A data attribute: only ever assigned plain data outside __init__ (see assign)."""
        for m, c in self.mro(module, node):
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return True
        return False

    def attr(self, o, name, s, outs):
        if isinstance(o, OneOf):
            return [r for x in options(o) if x != NONE for r in self.attr(x, name, s, outs)]
        if isinstance(o, Inst):
            d = dict(o.fields)
            if name in d:
                return [(s, d[name])]
            node = self.find_class(o.module, o.cls)
            mem = self.member(o.module, node, name)
            if mem:
                m, c, f = mem
                decs = [getattr(x, 'id', getattr(x, 'attr', None)) for x in f.decorator_list]
                if 'staticmethod' in decs:
                    return [(s, Fn(m, f, (m, c)))]
                if 'classmethod' in decs:
                    return [(s, Fn(m, f, (m, c), Cls(o.module, node)))]
                fn = Fn(m, f, (m, c), o)
                if 'property' in decs:
                    return self.call_fn(fn, [], {}, None, None, s, outs)
                return [(s, fn)]
            if name == '__class__':
                return [(s, Cls(o.module, node))]
            if self.has_field(o.module, node, name):
                return [(s, ANY)]
            raise Unsupported(f'{o.cls}.{name} is not defined in the class')
        if isinstance(o, Super):
            mr = self.mro(o.module, o.node)[1:]
            for m, c in mr:
                f = class_member(c, name)
                if f is not None:
                    return [(s, Fn(m, f, (m, c), o.obj))]
            return [(s, Ext('super.' + name))]
        if isinstance(o, Dal):
            if name == 'optimizations':
                v = self.from_module('toron.dal1.optimizations', 'optimizations')
                return [(s, v)]
            if name in ('backend', 'reserved_identifiers'):
                return [(s, ANY)]
            v = self.from_module('toron.dal1', name)
            if not isinstance(v, Cls):
                raise Unsupported(f'DataAccessLayer.{name}')
            return [(s, v)]
        if isinstance(o, Handle):
            if o.kind == 'cursor' and name == 'connection':
                return [(s, Handle('connection'))]
            if o.kind == 'connection' and name == 'in_transaction':
                return [(s, const(s.tx.active))]
            if name in ('rowcount', 'lastrowid', 'description', 'total_changes', 'row_factory'):
                return [(s, ANY)]
            return [(s, HMeth(o, name))]
        if isinstance(o, Mod):
            if o.name.startswith('toron'):
                return [(s, self.from_module(o.name, name))]
            if o.name == 'sqlite3' and name == 'sqlite_version_info':
                return [(s, Ext('sqlite3.sqlite_version_info'))]
            return [(s, Ext(f'{o.name}.{name}'))]
        if isinstance(o, Ext):
            return [(s, Ext(f'{o.name}.{name}'))]
        if isinstance(o, Cls):
            mem = self.member(o.module, o.node, name)
            if mem:
                m, c, f = mem
                decs = [getattr(x, 'id', getattr(x, 'attr', None)) for x in f.decorator_list]
                return [(s, Fn(m, f, (m, c), o if 'classmethod' in decs else None))]
            return [(s, ANY)]
        if isinstance(o, Dct) and not hasattr(dict, name):
            outs.add('raise', s, 'AttributeError')
            return []
        if isinstance(o, (Cnt, Rows)):
            return [(s, HMeth(o, name))]
        if isinstance(o, (Dct, Tup, ListOf, Text, Const, Fn, Partial)):
            return [(s, HMeth(o, name))]
        if isinstance(o, Exc) or isinstance(o, Any_):
            return [(s, ANY)]
        raise Unsupported(f'attribute {name} of {o!r}')

    def e_Subscript(self, e, s, outs):
        r = []
        for x, o in self.ev(e.value, s, outs):
            for y, k in (self.ev(e.slice, x, outs) if not isinstance(e.slice, ast.Slice) else [(x, NONE)]):
                if isinstance(o, Cnt):
                    c = '?' if '$n' in dict(o.items) or not isinstance(k, Const) else dict(o.items).get(k.v, '0')
                    r.append((y, const(0) if c == '0' else POS if c == '+' else ANY))
                    continue
                if isinstance(o, (Ext, Cls, Mod)):
                    r.append((y, o if isinstance(o, Cls) else ANY))
                    continue
                if isinstance(e.slice, ast.Slice):
                    v = ListOf(elem(o)) if isinstance(o, (Tup, ListOf)) else ANY if plain(o) else TAINT
                elif isinstance(o, Tup) and isinstance(k, Const) and isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items):
                    r.append((y, o.items[k.v]))
                    continue
                elif isinstance(o, Dct):
                    d = dict(o.items)
                    if isinstance(k, Const) and k.v in d:
                        r.append((y, d[k.v]))
                        continue
                    v = None
                    for x2 in d.values():
                        v = x2 if v is None else join(v, x2)
                    v = ANY if v is None else v
                elif isinstance(o, (Tup, ListOf)):
                    v = elem(o)
                else:
                    v = ANY if plain(o) else TAINT
                self.maybe_raise(outs, y)
                r.append((y, v))
        return r

    def e_Slice(self, e, s, outs):
        return [(s, ANY)]

    def e_Tuple(self, e, s, outs):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = []
            for x, vs in self.evs([y.value if isinstance(y, ast.Starred) else y for y in e.elts], s, outs):
                v = None
                for y, w in zip(e.elts, vs):
                    w = elem(w) if isinstance(y, ast.Starred) else w
                    v = w if v is None else join(v, w)
                r.append((x, cut(ListOf(v))))
            return r
        return [(x, cut(Tup(vs))) for x, vs in self.evs(e.elts, s, outs)]

    def e_List(self, e, s, outs):
        if not e.elts:
            return [(s, ANY)]
        return self.e_Tuple(e, s, outs)

    def e_Set(self, e, s, outs):
        return [(x, cut(ListOf(elem(v)))) for x, v in self.e_Tuple(e, s, outs)]

    def e_Starred(self, e, s, outs):
        return self.ev(e.value, s, outs)

    def e_Dict(self, e, s, outs):
        if any(k is None for k in e.keys):
            r = []
            for x, vs in self.evs([v for v in e.values], s, outs):
                r.append((x, ANY if all(plain(v) for v in vs) else TAINT))
            return r
        r = []
        for x, vs in self.evs(list(e.keys) + list(e.values), s, outs):
            ks, ws = vs[:len(e.keys)], vs[len(e.keys):]
            if all(isinstance(k, Const) for k in ks):
                r.append((x, cut(Dct(tuple(sorted(dict(zip([k.v for k in ks], ws)).items(), key=repr))))))
            else:
                r.append((x, ANY if all(plain(v) for v in vs) else TAINT))
        return r

    def e_JoinedStr(self, e, s, outs):
        cur = [(s, ())]
        for part in e.values:
            if isinstance(part, ast.Constant):
                cur = [(x, vs + (const(part.value),)) for x, vs in cur]
            else:
                cur = [(y, vs + (v if part.conversion == -1 and part.format_spec is None else ANY,)) for x, vs in cur for y, v in self.ev(part.value, x, outs)]
        return [(x, self.cat(vs)) for x, vs in cur]

    def e_FormattedValue(self, e, s, outs):
        return [(x, ANY) for x, v in self.ev(e.value, s, outs)]

    def e_BinOp(self, e, s, outs):
        r = []
        for x, (a, b) in self.evs([e.left, e.right], s, outs):
            if isinstance(e.op, ast.Add) and (texts(a) or texts(b)):
                r.append((x, self.cat([a, b])))
            elif isinstance(e.op, ast.Add) and isinstance(a, (Tup, ListOf)) and isinstance(b, (Tup, ListOf)):
                r.append((x, cut(Tup(a.items + b.items)) if isinstance(a, Tup) and isinstance(b, Tup) else cut(ListOf(join(elem(a), elem(b))))))
            else:
                self.maybe_raise(outs, x)
                r.append((x, arith(e.op, a, b) or (ANY if plain(a) and plain(b) else TAINT)))
        return r

    def e_UnaryOp(self, e, s, outs):
        if isinstance(e.op, ast.Not):
            return [(x, const(not b)) for x, b in self.test(e.operand, s, outs)]
        return [(x, const(-v.v) if isinstance(v, Const) and isinstance(v.v, int) and isinstance(e.op, ast.USub) else ANY) for x, v in self.ev(e.operand, s, outs)]

    def e_BoolOp(self, e, s, outs):
        cur = [(s, None)]
        done = []
        for k, sub in enumerate(e.values):
            nxt = []
            for x, _ in cur:
                for y, v in self.ev(sub, x, outs):
                    last = k == len(e.values) - 1
                    if last:
                        done.append((y, v))
                        continue
                    for b in self.truth(v):
                        if b == isinstance(e.op, ast.And):
                            nxt.append((y, None))
                        else:
                            done.append((y, v))
            cur = merge(nxt) if nxt else []
        return done

    def e_Compare(self, e, s, outs):
        r = []
        for x, vs in self.evs([e.left] + e.comparators, s, outs):
            v = ANY
            if len(e.ops) == 1:
                a, b = vs
                op = e.ops[0]
                if isinstance(a, Ext) and a.name == 'sqlite3.sqlite_version_info' and isinstance(b, Tup) and all(isinstance(i, Const) for i in b.items):
                    import sqlite3, operator
                    f = {ast.Lt: operator.lt, ast.GtE: operator.ge, ast.Gt: operator.gt, ast.LtE: operator.le}.get(type(op))
                    if f:
                        v = const(f(sqlite3.sqlite_version_info, tuple(i.v for i in b.items)))
                elif isinstance(a, Const) and isinstance(b, Const):
                    same = a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
                    if isinstance(op, (ast.Is, ast.Eq)):
                        v = const(same if isinstance(op, ast.Is) else a.v == b.v)
                    elif isinstance(op, (ast.IsNot, ast.NotEq)):
                        v = const(not same if isinstance(op, ast.IsNot) else a.v != b.v)
                    else:
                        v = compare(op, a, b) or v
                elif compare(op, a, b):
                    v = compare(op, a, b)
                elif isinstance(op, (ast.Is, ast.IsNot)) and NONE in (a, b):
                    o = b if a == NONE else a
                    if isinstance(o, (Pos, Obj, Handle, Inst, Fn, Dal, Text, Tup, ListOf, Dct, Cls, Ext, HMeth, Exc)):
                        v = const(isinstance(op, ast.IsNot))
            if v is ANY and not all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
                self.maybe_raise(outs, x)
            r.append((x, v))
        return r

    def e_IfExp(self, e, s, outs):
        r = []
        for x, b in self.test(e.test, s, outs):
            r += self.ev(e.body if b else e.orelse, x, outs)
        return r

    def e_NamedExpr(self, e, s, outs):
        return [(x.set(e.target.id, v), v) for x, v in self.ev(e.value, s, outs)]

    def e_Lambda(self, e, s, outs):
        return [(s, Fn(s.get('$module').name, e, None, None, tuple((k, v) for k, v in s.env if not k.startswith('$yield'))))]

    def e_Await(self, e, s, outs):
        raise Unsupported('await')

    def e_Yield(self, e, s, outs):
        r = []
        mode = s.get('$yield')
        for x, v in (self.ev(e.value, s, outs) if e.value is not None else [(s, NONE)]):
            if isinstance(mode, Const) and mode.t == 'cm':
                hook = self.hooks[-1]
                # while the body runs, the enclosing context managers' hooks are the outer ones
                self.hooks.pop()
                try:
                    o = hook(x, v)
                finally:
                    self.hooks.append(hook)
                for k, y, w in o:
                    if k == 'raise':
                        outs.add('raise', y, w)
                    else:
                        r.append((y, NONE))
            else:
                old = x.get('$yielded')
                y = x.set('$yielded', v if old == ANY and plain(v) is False else join(old, v) if old is not None else v)
                outs.add('raise', x, '*Base')       # the generator may be closed here
                r.append((y, ANY))
        return r

    def e_YieldFrom(self, e, s, outs):
        r = []
        for x, v in self.ev(e.value, s, outs):
            self.maybe_raise(outs, x)
            r.append((x.set('$yielded', join(x.get('$yielded') or ANY, elem(v))), ANY))
        return r

    def comp(self, e, parts, s, outs):
        """Generator expressions are evaluated here: they must not have transaction effects."""
        result = Outs()
        val = [None]

        def rec(k, x):
            if k == len(e.generators):
                rs = []
                for y, vs in self.evs(parts, x, outs):
                    v = vs[-1]
                    val[0] = v if val[0] is None else join(val[0], v)
                    rs.append(y)
                return rs
            g = e.generators[k]
            res = []
            for y, it in self.ev(g.iter, x, outs):
                def step(h, it=it):
                    o = Outs()
                    self.maybe_raise(o, h)
                    for z in self.assign(g.target, elem(it), h, o):
                        todo = [z]
                        for c in g.ifs:
                            nxt = []
                            for w in todo:
                                for q, b in self.test(c, w, o):
                                    if b:
                                        nxt.append(q)
                                    else:
                                        o.add('next', q)
                            todo = nxt
                        for w in todo:
                            for q in rec(k + 1, w):
                                o.add('next', q)
                    return [h], o
                o2 = Outs()
                self.loop([y], step, None, o2)
                for kk, z, v in o2:
                    if kk == 'next':
                        res.append(z)
                    else:
                        outs.add(kk, z, v)
            return res
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs and len(parts) == 1 and isinstance(g.target, ast.Name) and isinstance(parts[0], ast.Name) and parts[0].id == g.target.id:
            o2 = Outs()
            r = self.ev(g.iter, s, o2)
            if all(isinstance(v, Rows) for _, v in r):      # a copy of all records
                for kk, z, v in o2:
                    outs.add(kk, z, v)
                return [(x, v) for x, v in r]
        back = merge([(S(x.tx, s.env, x.carry), ANY) for x in rec(0, s)])
        v = ANY if val[0] is None else val[0]
        return [(x, v) for x, _ in back]

    def e_ListComp(self, e, s, outs):
        return [(x, v if isinstance(v, Rows) else cut(ListOf(v))) for x, v in self.comp(e, [e.elt], s, outs)]

    def e_GeneratorExp(self, e, s, outs):
        r = self.e_ListComp(e, s, outs)
        if any(x.tx != s.tx for x, _ in r):
            raise Unsupported('a generator expression with transaction effects')
        return r

    e_SetComp = e_ListComp

    def e_DictComp(self, e, s, outs):
        return [(x, ANY if plain(v) else TAINT) for x, v in self.comp(e, [e.key, e.value], s, outs)]

    # ---- calls
    def e_Call(self, e, s, outs):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and s.get('super') is None:
            c = s.get('$class')
            first = s.get('self') or s.get('cls')
            return [(s, Super(c.module, c.node, first))]
        r = []
        for x, f in self.ev(e.func, s, outs):
            pos = [a for a in e.args if not isinstance(a, ast.Starred)]
            stars = [a.value for a in e.args if isinstance(a, ast.Starred)]
            named = [k for k in e.keywords if k.arg is not None]
            dstars = [k.value for k in e.keywords if k.arg is None]
            for y, vs in self.evs(pos + stars + [k.value for k in named] + dstars, x, outs):
                a = list(vs[:len(pos)])
                st = vs[len(pos):len(pos) + len(stars)]
                kw = dict(zip([k.arg for k in named], vs[len(pos) + len(stars):]))
                ds = vs[len(pos) + len(stars) + len(named):]
                star = None
                if len(st) == 1 and isinstance(st[0], Tup) and isinstance(e.args[-1], ast.Starred):
                    a += list(st[0].items)
                else:
                    for v in st:
                        star = elem(v) if star is None else join(star, elem(v))
                dstar = None
                for v in ds:
                    if isinstance(v, Dct):
                        kw.update(dict(v.items))
                        continue
                    w = ANY if plain(v) else TAINT
                    dstar = w if dstar is None else join(dstar, w)
                r += self.call(f, a, kw, star, dstar, y, outs, e)
        return r

    def call(self, f, args, kwargs, star, dstar, s, outs, e=None):
        if isinstance(f, OneOf):
            return merge([r for x in options(f) if x != NONE for r in self.call(x, args, kwargs, star, dstar, s, outs, e)])
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + args, {**dict(f.kwargs), **kwargs}, star, dstar, s, outs, e)
        if isinstance(f, Fn):
            name = getattr(f.node, 'name', None)
            if f.cls and f.cls[1].name == 'DataConnector' and name in ('acquire_connection', 'acquire_cursor', 'release_connection', 'release_cursor', 'save_to_file', 'from_file', 'attach_to_file'):
                if name.startswith('acquire'):
                    outs.add('raise', s, '*Storage')
                return [(s, {'acquire_connection': Handle('connection'), 'acquire_cursor': Handle('cursor')}.get(name, NONE))]
            for k, v in enumerate(args):
                if not self.only_reads(f, k + (f.bound is not None and not isinstance(f.bound, Mod))):
                    s = self.forget_counters(s, v, e)
            for k, v in kwargs.items():
                if not self.only_reads(f, k):
                    s = self.forget_counters(s, v, e)
            r = self.call_fn(f, args, kwargs, star, dstar, s, outs)
            if isinstance(f.bound, Inst) and (name == 'get_all' or name == 'find_distinct_other_index_ids' and len(args) < 3 and kwargs.get('include_undefined', const(True)) == const(True)):
                r = [(x, Rows(f.bound.cls, elem(v))) for x, v in r]
            if name == 'refresh_proportions' and isinstance(f.bound, Inst):
                # its own contract (P04): every mapping of the link and source id gets its proportion
                if (kwargs.get('other_index_id') or (args[1] if len(args) > 1 else ANY)) == This(f.bound.cls):
                    r = [(x.with_tx(replace(x.tx, stale=x.tx.stale - {'proportions'})), v) for x, v in r]
            return r
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, star, dstar, s, outs)
        if isinstance(f, HMeth):
            return self.handle_call(f, args, kwargs, star, s, outs, e)
        if isinstance(f, Ext):
            return self.external(f.name, args, kwargs, star, dstar, s, outs)
        if isinstance(f, Any_):
            return self.unknown('a value', args, kwargs, star, dstar, s, outs)
        raise Unsupported(f'call of {f!r}')

    def only_reads(self, f, which):
        """Parameter number or name `which` is only subscripted, tested or measured in the function."""
        if not isinstance(f.node, ast.FunctionDef) or is_generator(f.node):
            return False
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if isinstance(which, int):
            if which >= len(names):
                return False
            which = names[which]
        ok = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                ok.add(id(n.value))
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                ok.add(id(n.test))
            if isinstance(n, ast.BoolOp):
                ok |= {id(v) for v in n.values}
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                ok.add(id(n.operand))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'bool', 'sum', 'sorted', 'any', 'all'):
                ok |= {id(v) for v in n.args}
        return all(id(n) in ok for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == which)

    def forget_counters(self, s, v, e):
        """A counter that another function may change."""
        if isinstance(v, Cnt):
            for n, w in s.env:
                if isinstance(w, Cnt):
                    s = s.set(n, ANY)
        return s

    def callbacks(self, vals, s, outs):
        """Functions handed to unknown code may be called any number of times with any data."""
        for v in vals:
            if isinstance(v, (Fn, Partial)) and not plain(v):
                fns = [v]
            elif isinstance(v, HMeth) and not plain(v.recv):
                raise Unsupported('a storage method is handed to unknown code')
            else:
                continue

            def step(h, v=v):
                o = Outs()
                for y, w in self.call(v, [], {}, ANY, None, h, o):
                    if not plain(w):
                        raise Unsupported('a callback returns a handle')
                    o.add('next', y)
                return [h], o
            o2 = Outs()
            self.loop([s], step, None, o2)
            for k, y, w in o2:
                if k == 'next':
                    if y.tx != s.tx:
                        raise Unsupported('a callback with transaction effects')
                else:
                    outs.add(k, y, w)

    def unknown(self, what, args, kwargs, star, dstar, s, outs, ok=False):
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        self.callbacks(vals, s, outs)
        bad = [v for v in vals if not plain(v) and not isinstance(v, (Fn, Partial))]
        bad += [v for v in vals if isinstance(v, Tup) and False]
        if bad and not ok:
            raise Unsupported(f'a storage handle is handed to {what}: {bad!r}'[:300])
        self.maybe_raise(outs, s)
        return [(s, ANY)]

    def external(self, name, args, kwargs, star, dstar, s, outs):
        short = name.split('.')[-1]
        if name in ('contextlib.nullcontext',):
            return [(s, NullCM(args[0] if args else NONE))]
        if name == 'contextlib.suppress':
            return [(s, Suppress(tuple(v.name.split('.')[-1] if isinstance(v, Ext) else v.node.name if isinstance(v, Cls) else 'Exception' for v in args)))]
        if name == 'contextlib.closing':
            return [(s, NullCM(args[0]))]
        if name in ('typing.cast', 'typing_extensions.cast', 'toron._typing.cast'):
            return [(s, args[1])]
        if name == 'builtins.isinstance' or name == 'builtins.issubclass':
            return [(s, ANY)]
        if name == 'builtins.hasattr':
            if isinstance(args[0], Dct) and isinstance(args[1], Const):
                return [(s, const(hasattr(dict, args[1].v)))]
            return [(s, ANY)]
        if name in ('builtins.id', 'builtins.repr', 'builtins.type', 'builtins.print', 'builtins.callable'):
            return [(s, ANY)]
        if name == 'builtins.getattr':
            o, n = args[0], args[1]
            if isinstance(n, Const):
                return self.attr(o, n.v, s, outs)
            if plain(o):
                return [(s, ANY)]
            raise Unsupported('getattr')
        if name == 'builtins.next':
            v = elem(args[0])
            if isinstance(args[0], Handle):
                self.fault(s, outs)
            if len(args) > 1:
                v = join(v, args[1])
            self.maybe_raise(outs, s)
            return [(s, v)]
        if name in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset') and len(args) == 1 and star is None and isinstance(args[0], Rows) \
                and not any(isinstance(v, Fn) and not plain(v) for v in kwargs.values()):
            self.maybe_raise(outs, s)
            return [(s, args[0])]
        if name in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.reversed', 'builtins.sorted', 'builtins.set', 'itertools.chain', 'builtins.filter'):
            self.callbacks(list(args) + list(kwargs.values()), s, outs)
            seqs = [a for a in args if not isinstance(a, (Fn, Partial))]
            if name == 'builtins.filter':
                seqs = args[1:]
            if isinstance(seqs[0] if seqs else None, Tup) and name in ('builtins.list', 'builtins.tuple', 'builtins.iter') and star is None:
                return [(s, seqs[0])]
            self.maybe_raise(outs, s)
            v = None
            for a in seqs + ([star] if star is not None else []):
                w = elem(a)
                v = w if v is None else join(v, w)
            return [(s, cut(ListOf(v)) if v is not None and v != ANY else ANY)]
        if name in ('builtins.zip',):
            self.maybe_raise(outs, s)
            if star is None and args:
                return [(s, cut(ListOf(Tup(tuple(elem(a) for a in args)))))]
            return [(s, ANY if star is None or plain(star) else TAINT)]
        if name in ('builtins.enumerate',):
            self.maybe_raise(outs, s)
            return [(s, cut(ListOf(Tup((ANY, elem(args[0]))))))]
        if name in ('builtins.map',) and args:
            outs2 = self.callbacks(args[:1], s, outs)
            self.maybe_raise(outs, s)
            if not all(plain(a) for a in args[1:]):
                raise Unsupported('map over handles')
            return [(s, ANY)]
        if name == 'collections.Counter' and not args and not kwargs and star is None and dstar is None:
            return [(s, Cnt(()))]
        if name in ('builtins.len', 'builtins.bool') and len(args) == 1 and isinstance(args[0], Cnt):
            t = self.truth(args[0])
            return [(s, ANY if len(t) == 2 else (POS if name == 'builtins.len' else const(True)) if t[0] else const(0) if name == 'builtins.len' else const(False))]
        if name == 'functools.partial':
            return [(s, Partial(args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))]
        if name.startswith('logging') or '.getLogger' in name or 'applogger' in name or name in ('warnings.warn', 'textwrap.indent'):
            return [(s, ANY)]
        if name in ('textwrap.dedent', 'builtins.str') and len(args) == 1 and texts(args[0]):
            return [(s, args[0])]
        if name.startswith('sqlite3.connect'):
            raise Unsupported('a second connection')
        if name.startswith('super.'):
            return [(s, ANY)]
        if short and short[0].isupper() and hasattr(builtins, short) and isinstance(getattr(builtins, short), type) and issubclass(getattr(builtins, short), BaseException):
            return [(s, Exc(short))]
        self.pure.add(name)
        return self.unknown(name, args, kwargs, star, dstar, s, outs)

    def construct(self, f, args, kwargs, star, dstar, s, outs):
        vals = list(args) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]
        names = self.exc_bases(f.node.name, f.module)
        if 'Exception' in names and len(names) > 3 and any(getattr(b, 'id', '') in ('Exception', 'ValueError', 'UserWarning', 'RuntimeError', 'Warning') for b in f.node.bases):
            return [(s, Exc(f.node.name))]
        if all(plain(v) for v in vals):
            # a data object: its own code cannot reach storage
            self.maybe_raise(outs, s)
            own = any(self.member(f.module, f.node, x) for x in ('__bool__', '__len__', '__new__')) or len(self.mro(f.module, f.node)) != 1 or \
                any(getattr(b, 'id', getattr(b, 'attr', '')) not in ('object',) for b in f.node.bases)
            return [(s, ANY if own else OBJ)]
        mem = self.member(f.module, f.node, '__init__')
        obj = Inst(f.module, f.node.name)
        if mem is None:
            raise Unsupported(f'a handle is stored in {f.node.name}')
        m, c, init = mem
        fn = Fn(m, init, (m, c), obj)
        env = self.frame(fn, self.bind(fn, args, kwargs, star, dstar))
        self.inlined.add(f'{m}:{c.name}.__init__')
        me = init.args.args[0].arg
        r = []
        for k, x, v in self.block(init.body, S(s.tx, env)):
            if k == 'raise':
                outs.add('raise', s.with_tx(x.tx), v)
            else:
                r.append((s.with_tx(x.tx), x.get(me)))
        return r

    def handle_call(self, f, args, kwargs, star, s, outs, e):
        o, name = f.recv, f.name
        if isinstance(o, (Text, Const)):
            if name in ('strip', 'lstrip', 'rstrip'):
                return [(s, o)]
            if name == 'join':
                if args:
                    return [(s, self.joined(o, args[0]))]
            return self.unknown('str.' + name, args, kwargs, star, None, s, outs)
        if isinstance(o, Dct):
            d = dict(o.items)
            if name == 'get' and args and isinstance(args[0], Const):
                if args[0].v in d:
                    return [(s, d[args[0].v])]
                return [(s, args[1] if len(args) > 1 else NONE)]
            if name in ('values',):
                return [(s, Tup(tuple(d.values())))]
            if name == 'items':
                return [(s, Tup(tuple(Tup((const(k), v)) for k, v in d.items())))]
            if name == 'update' and plain(o) and all(plain(v) for v in args):
                return [(s, NONE)]
            return self.unknown('dict.' + name, args, kwargs, star, None, s, outs, ok=False) if plain(o) else [(s, TAINT)]
        if isinstance(o, (Tup, ListOf)):
            if name in ('append', 'add', 'extend', 'insert', 'update') and not all(plain(v) for v in args):
                if e is not None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                    v = ListOf(join(elem(o), elem(args[-1]) if name in ('extend', 'update') else args[-1]))
                    return [(s.set(e.func.value.id, cut(v)), NONE)]
                raise Unsupported('handle stored in a list')
            if name in ('append', 'add', 'extend', 'insert', 'update'):
                if e is not None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                    v = ListOf(join(elem(o), elem(args[-1]) if name in ('extend', 'update') else args[-1])) if args else o
                    return [(s.set(e.func.value.id, cut(v)), NONE)]
            self.maybe_raise(outs, s)
            if name in ('pop', '__getitem__', '__next__'):
                return [(s, elem(o))]
            if name == 'copy':
                return [(s, o)]
            return [(s, ANY if plain(o) else ListOf(elem(o)))]
        if isinstance(o, Cnt) and '$n' in dict(o.items):
            if e is not None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and isinstance(s.get(e.func.value.id), Cnt):
                n = e.func.value.id
                if name in ('append', 'add', 'insert'):
                    return [(s.set(n, Cnt((('$n', '+'),)) if all(plain(v) for v in args) else ListOf(args[-1])), NONE)]
                if name in ('extend', 'update') and all(plain(v) for v in args):
                    if dict(o.items)['$n'] == '0':
                        s = s.set(n, Cnt((('$n', '?'),)))
                    self.maybe_raise(outs, s)
                    return [(s, NONE)]
        if isinstance(o, Cnt) and name == 'get' and args and isinstance(args[0], Const) and '$n' not in dict(o.items):
            c = dict(o.items).get(args[0].v, '0')
            return [(s, POS if c == '+' else ANY if c == '?' else args[1] if len(args) > 1 else NONE)]
        if isinstance(o, Cnt) and name == 'total' and '$n' not in dict(o.items):
            t = self.truth(o)
            return [(s, ANY if len(t) == 2 else POS if t[0] else const(0))]
        if isinstance(o, Cnt):
            return self.unknown('Counter.' + name, args, kwargs, star, None, self.forget_counters(s, o, e) if name not in ('keys', 'values', 'items', 'get', 'total', 'copy', 'index', 'count', 'issubset', 'issuperset', 'union', 'intersection', 'difference') else s, outs)
        if isinstance(o, Rows):
            return self.unknown('rows.' + name, args, kwargs, star, None, s, outs)
        if isinstance(o, Fn):
            return [(s, ANY)]
        if isinstance(o, Handle):
            if name == 'close':
                return [(s, NONE)]
            if o.kind == 'connection':
                if name == 'cursor':
                    return [(s, Handle('cursor'))]
                if name in ('commit', 'rollback'):
                    return self.sql(name, set(), s, outs, e, implicit=True)
                if name in ('create_function', 'create_collation', 'create_aggregate', 'set_trace_callback', 'set_authorizer', 'interrupt'):
                    return [(s, NONE)]
            if name in ('fetchone', 'fetchall', 'fetchmany', '__next__', '__iter__'):
                self.fault(s, outs)
                return [(s, ANY)]
            if name in ('execute', 'executemany', 'executescript'):
                if not args or not texts(args[0]):
                    raise Unsupported('SQL text that is not known')
                for v in args[1:]:
                    if not plain(v):
                        raise Unsupported(f'SQL parameters {v!r}'[:200])
                r = []
                for t in alts(args[0]):
                    if name == 'executescript':
                        raise Unsupported('executescript')
                    kind, tables = sql_effects(t)
                    r += self.sql(kind, tables, s, outs, e, name == 'executemany', False, t.strip(), [p for v in args[1:] if isinstance(v, Tup) for p in v.items])
                return [(x, Handle('cursor')) for x, _ in r]
        raise Unsupported(f'{name} of {o!r}')

    def fault(self, s, outs):
        self.storage_calls += 1
        if self.faults:
            outs.add('raise', s, '*Storage')
            outs.add('raise', s, '*Base')
            if s.tx.active:
                outs.add('raise', s.with_tx(Tx(False, s.tx.commits)), '*Aborted')
        else:
            outs.add('raise', s, '*Storage')

    def sql(self, kind, tables, s, outs, e, many=False, implicit=False, text='', params=()):
        tx = s.tx
        if kind == 'rollback':
            if not tx.active:
                if implicit:
                    return [(s, NONE)]
                outs.add('raise', s, 'OperationalError')
                return []
            return [(s.with_tx(Tx(False, tx.commits)), NONE)]
        if kind == 'commit' and not tx.active:
            if implicit:
                return [(s, NONE)]
            outs.add('raise', s, 'OperationalError')
            return []
        if kind == 'begin' and tx.active:
            outs.add('raise', s, 'OperationalError')
            return []
        self.fault(s, outs)
        if kind == 'read':
            return [(s, NONE)]
        if kind == 'begin':
            return [(s.with_tx(Tx(True, tx.commits, False, tx.stale)), NONE)]
        if kind == 'commit':
            return [(s.with_tx(Tx(False, min(2, tx.commits + tx.dirty), False, tx.stale)), NONE)]
        mod = s.get('$module').name
        for t in tables:
            self.writes.setdefault(t, set()).add(f'{mod}:{getattr(e, "lineno", "?")}')
        stale = self.derived(tx.stale, text, tables, params)
        if tx.active:
            return [(s.with_tx(Tx(True, tx.commits, True, stale)), NONE)]
        return [(s.with_tx(Tx(False, min(2, tx.commits + (2 if many else 1)), False, stale)), NONE)]

    def derived(self, stale, text, tables, params):
        verb = text.split()[0].upper() if text else ''
        for t in tables:
            for d, (sources, clears) in self.DERIVED.items():
                if (verb, t) in sources and not (self.refreshing and d == 'proportions'):
                    stale = stale | {d}
                for v, u, key, each in clears:
                    if (v, u) == (verb, t) and (key is None or any(p == const(key) for p in params)) and (not each or self.mode == 'this'):
                        stale = stale - {d}
        return stale

    # derived data: (statements after which it is out of date, statements that bring it up to date).  A clearing statement is
    # (verb, table, required parameter, whether it must run for every record: then only the iteration for an arbitrary but
    # fixed record of a loop over all records counts)
    DERIVED = {
        'index hash': ({('INSERT', 'label_index'), ('DELETE', 'label_index')},
                       [('INSERT', 'property', 'index_hash', False), ('UPDATE', 'property', 'index_hash', False), ('REPLACE', 'property', 'index_hash', False)]),
        'granularity': ({('INSERT', 'label_index'), ('DELETE', 'label_index'), ('UPDATE', 'label_index')},
                        [('UPDATE', 'label_structure', None, True), ('DELETE', 'label_structure', None, True)]),
        # cleared by refresh_proportions (see `call`) for every source id of the link
        'proportions': ({('INSERT', 'mapping'), ('DELETE', 'mapping'), ('UPDATE', 'mapping')}, []),
        'link hash and completeness': ({('INSERT', 'mapping'), ('DELETE', 'mapping')}, [('UPDATE', 'link', None, False)]),
    }
    mode = None
    refreshing = False

    # ---- vacuity guard
    def unreached(self):
        out = []
        for q in sorted(self.inlined):
            r = self.p.find(q)
            if r is None:
                continue

            def walk(body):
                for st in body:
                    if id(st) not in self.reached:
                        out.append(f'{q}:{st.lineno}')
                        continue
                    for b in ('body', 'orelse', 'finalbody'):
                        if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                            walk(getattr(st, b, []))
                    for h in getattr(st, 'handlers', []):
                        walk(h.body)
            walk(r[1].body)
        return out

    # ---- entry
    def space(self):
        return Inst('toron.space', 'DataSpace', (('_connector', Inst('toron.dal1.data_connector', 'DataConnector')), ('_dal', Dal()), ('_path_hint', ANY)))

    def method(self, obj, name, overrides=None):
        """Outcomes of obj.name(anything)."""
        node = self.find_class(obj.module, obj.cls)
        m, c, f = self.member(obj.module, node, name)
        fn = Fn(m, f, (m, c), obj)
        self.writes = {}
        a = f.args
        kw = {x.arg: (overrides or {}).get(x.arg, ANY) for x in a.args[1:] + a.kwonlyargs}
        env = self.bind(fn, [], kw, None, None)
        if a.vararg:
            env[a.vararg.arg] = ANY
        if a.kwarg:
            env[a.kwarg.arg] = ANY
        self.inlined.add(f'{m}:{c.name}.{name}')
        key = ('entry', f)
        self.stack.append(key)
        try:
            return self.run_body(fn, S(Tx(), self.frame(fn, env))), dict(self.writes)
        finally:
            self.stack.pop()

    def function(self, module, name, given=None):
        """Outcomes of module.name(anything); parameters that are handles are recognised by their annotation or name."""
        node = self.p.find(f'{module}:{name}')[1]
        fn = Fn(module, node)
        kind = lambda a: Handle('cursor') if a.arg in ('cursor', 'cur') else Handle('connection') if a.arg in ('connection', 'con', 'conn') else ANY
        env = self.bind(fn, [], {**{a.arg: kind(a) for a in node.args.args + node.args.kwonlyargs}, **(given or {})}, None, None)
        self.inlined.add(f'{module}:{name}')
        self.writes = {}
        return self.run_body(fn, S(Tx(), self.frame(fn, env))), dict(self.writes)


def arith(op, a, b):
    """Integer addition, as far as the sign goes."""
    if isinstance(op, ast.Add) and (positive(a) and (positive(b) or b == const(0)) or a == const(0) and positive(b)):
        return POS
    if isinstance(op, (ast.BitOr,)) and all(isinstance(x, Const) and isinstance(x.v, bool) for x in (a, b)):
        return const(a.v or b.v)
    return None


def compare(op, a, b):
    """Comparisons of a number known to be positive, or of two known numbers."""
    import operator
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}.get(type(op))
    num = lambda x: isinstance(x, Const) and isinstance(x.v, (int, float))
    if num(a) and num(b) and f:
        return const(f(a.v, b.v))
    if a == POS and num(b):
        if b.v <= 0:
            return {ast.Gt: const(True), ast.NotEq: const(True), ast.GtE: const(True), ast.Eq: const(False), ast.Lt: const(False), ast.LtE: const(False)}.get(type(op))
        if b.v == 1:
            return {ast.GtE: const(True), ast.Lt: const(False)}.get(type(op))
    if b == POS and num(a):
        flip = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(op))
        return compare(flip(), b, a) if flip else None
    return None


def texts(v):
    return isinstance(v, Text) or isinstance(v, Const) and isinstance(v.v, str)


def alts(v):
    return [v.v] if isinstance(v, Const) else sorted(v.alts)


def cat(vs):
    out = ['']
    for v in vs:
        ts = alts(v) if texts(v) else [str(v.v)] if isinstance(v, Const) and isinstance(v.v, int) else ['\0']
        if len(out) * len(ts) > 16:
            ts = ['\0']
        out = [a + t for a in out for t in ts]
    return const(out[0]) if len(out) == 1 else Text(frozenset(out))


def joined(sep, it):
    return ANY


def merge(r):
    """Join results that have the same (Tx, carry)."""
    if len(r) <= 1:
        return r
    d = {}
    for s, v in r:
        k = (s.tx, ckey(s.carry))
        if k in d:
            d[k] = (join_state(d[k][0], s), v if d[k][1] is None else d[k][1] if v is None else join(d[k][1], v))
        else:
            d[k] = (s, v)
    return list(d.values())


def dedupe(r):
    d = {}
    for s, b in r:
        k = (s.tx, ckey(s.carry), b)
        d[k] = (join_state(d[k][0], s), b) if k in d else (s, b)
    return list(d.values())


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False
