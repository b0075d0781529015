"""Interpreter for the verified Python subset."""
import ast
import z3
from fractions import Fraction
from . import values as V
from .values import *
from .machine import Machine, EXC_BASES
from .evalx import Eval, UNDEF
from .libx import Lib
from .source import class_member


def undecided(v):
    """Values that are one of several."""
    if isinstance(v, tuple):
        return any(undecided(x) for x in v)
    if isinstance(v, Rec):
        return any(undecided(x) for x in v.fields.values())
    return isinstance(v, Choice)


def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bytes, float, bool)) or a is None:
        return a == b
    if isinstance(a, One):
        return same(a.value, b.value) and same(a.guard, b.guard)
    if isinstance(a, Gen):
        return a.idx.eq(b.idx) and same(a.n, b.n) and same(a.lo, b.lo) and \
            same(a.guard, b.guard) and same(a.segs, b.segs)
    if isinstance(a, Opt):
        return same(a.none, b.none) and same(a.val, b.val)
    if isinstance(a, Marker):
        return a.uid == b.uid
    if isinstance(a, Term):
        return a.name == b.name and same(a.term, b.term)
    if isinstance(a, Builtin):
        return a.name == b.name and a.bound is b.bound
    if isinstance(a, Func):
        return a.node is b.node and a.env is b.env and a.bound is b.bound
    if isinstance(a, ClassRef):
        return a == b
    if isinstance(a, ModRef):
        return a.name == b.name
    return False


class Interp(Eval, Lib, Machine):

    # =================================================================== calls
    def run(self, qual, args=(), kwargs=None, self_obj=None):
        """Explore every path of a repository function.  Returns results
        [(kind, value, pc, state)]; inside a result use `at(result)`."""
        found = self.program.find(qual)
        if not found:
            raise Unsupported(f'function not found: {qual}')
        mod, node = found
        cls = None
        path = qual.split(':')[1].split('.')
        if len(path) > 1:
            cm, cn = self.program.find(qual.rsplit('.', 1)[0])
            cls = ClassRef(cm, cn)
        fn = Func(node, mod, None, self_obj, cls)
        self.inlined.add(qual)

        def thunk():
            v = self.call_func(fn, list(args), dict(kwargs or {}), top=True)
            if isinstance(v, PIter) and v.segs is None:
                self.force(v)
            return v
        return self.explore(thunk)

    def at(self, result):
        kind, value, pc, state = result
        self.restore(state)
        return value

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, ClassRef):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Rec) and isinstance(f.cls, ClassRef):
            meth = self.find_method(f.cls, '__call__')
            if meth:
                return self.call_func(Func(meth[1], meth[0].module, None, f, meth[0]), args, kwargs)
        if isinstance(f, Model):
            return f.call(self, '__call__', args, kwargs)
        if callable(f):
            return f(self, *args, **kwargs)
        raise Unsupported(f'call of {f!r}')

    def call_func(self, f, args, kwargs, top=False):
        node = f.node
        q = f.qual
        if not top and q in self.contracts:
            self.used_contracts.add(q)
            a = ([f.bound] if f.bound is not None else []) + list(args)
            return self.contracts[q](self, *a, **kwargs)
        if self.call_depth > 40:
            raise Unsupported(f'call depth: {q}')
        if isinstance(node, ast.Lambda):
            env = Env(self, f.env, f.module, '<lambda>')
            self.bind(node.args, env, f, args, kwargs)
            self.call_depth += 1
            try:
                return self.eval(node.body, env)
            finally:
                self.call_depth -= 1
        for d in node.decorator_list:
            nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
            if nm in ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'overload',
                      'contextmanager', 'v_args', 'setter', 'eagerly_initialize'):
                continue
            if isinstance(d, ast.Call):
                continue
            raise Unsupported(f'decorator {nm} on {q}')
        self.inlined.add(q)
        env = Env(self, f.env, f.module, q)
        self.bind(node.args, env, f, args, kwargs)
        if is_generator(node):
            if any((d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)) == 'contextmanager' for d in node.decorator_list):
                return ('cm', lambda m, inner: m.run_context(node, env, inner))
            it = PIter(self)
            it.thunk = lambda: self.run_generator(node, env)
            return it
        self.call_depth += 1
        try:
            self.exec_block(node.body, env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.call_depth -= 1

    def run_context(self, node, env, inner):
        """`with` over a @contextmanager function: its body runs with the
        with-block inlined at its yield; an exception of the block is raised
        there, and a return/break/continue leaves after the body has finished."""
        hook = CMHook(inner, list(self.yield_stack))
        saved = self.yield_stack
        self.yield_stack = saved + [hook]
        self.call_depth += 1
        try:
            self.exec_block(node.body, env)
        except ReturnEx:
            pass
        finally:
            self.call_depth -= 1
            self.yield_stack = saved
        if not hook.entered:
            raise PyExc('RuntimeError', ("generator didn't yield",))
        if hook.ctl is not None:
            raise hook.ctl

    def run_generator(self, node, env):
        """Execute a generator body to completion; returns its output list."""
        out = PList(self, [], 'trace')
        self.call_depth += 1
        self.yield_stack.append(out)
        try:
            self.exec_block(node.body, env)
        except ReturnEx:
            pass
        finally:
            self.call_depth -= 1
            if self.yield_stack:
                self.yield_stack.pop()
        return out.segs

    def force(self, it):
        if it.segs is None:
            if it.thunk is None:
                raise Unsupported('iterator without source')
            t = it.thunk
            it.thunk = None
            it.segs = list(t())
        return it.segs

    def bind(self, a, env, f, args, kwargs):
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        kwargs = dict(kwargs)
        ndef = len(a.defaults)
        for k, p in enumerate(params):
            if k < len(args):
                if p in kwargs:
                    raise PyExc('TypeError', (f'multiple values for {p}',))
                env.vars[p] = args[k]
            elif p in kwargs:
                env.vars[p] = kwargs.pop(p)
            else:
                di = k - (len(params) - ndef)
                if di < 0:
                    raise PyExc('TypeError', (f'missing argument {p}',))
                env.vars[p] = self.eval(a.defaults[di], Env(self, f.env, f.module))
        if len(args) > len(params):
            if not a.vararg:
                raise PyExc('TypeError', ('too many arguments',))
            env.vars[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg:
            env.vars[a.vararg.arg] = ()
        for k, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                env.vars[p.arg] = kwargs.pop(p.arg)
            elif a.kw_defaults[k] is not None:
                env.vars[p.arg] = self.eval(a.kw_defaults[k], Env(self, f.env, f.module))
            else:
                raise PyExc('TypeError', (f'missing keyword {p.arg}',))
        if a.kwarg:
            env.vars[a.kwarg.arg] = PDict(self, [One(('set', k, v)) for k, v in kwargs.items()])
        elif kwargs:
            raise PyExc('TypeError', (f'unexpected keyword {list(kwargs)}',))

    # ============================================================== statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} at line {st.lineno}')
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = ModRef(a.name)

    def x_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.external(f'{st.module}.{a.name}')

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        cur = self.eval(_load(st.target), env)
        v = self.eval(st.value, env)
        if isinstance(cur, PList) and isinstance(st.op, ast.Add):
            cur.segs = cur.segs + self.iter_segs(v)
            return
        if isinstance(cur, PList) and cur.kind == 'set' and isinstance(st.op, ast.BitOr):
            cur.segs = cur.segs + self.iter_segs(v)
            return
        self.assign(st.target, self.binop(st.op, cur, v), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, None if stars else len(t.elts))
            if stars:
                k = stars[0]
                nafter = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyExc('ValueError', ('not enough values to unpack',))
                mid = vals[k:len(vals) - nafter]
                vals = list(vals[:k]) + [PList(self, [One(x) for x in mid])] + list(vals[len(vals) - nafter:])
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def unpack(self, v, n):
        if isinstance(v, Choice):
            v = self.pick(v)
        if isinstance(v, Poison):
            v = self.resolve_poison(v)
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, (PList, PIter)):
            segs = self.iter_segs(v)
            if all(isinstance(s, One) and s.guard is True for s in segs):
                vals = [s.value for s in segs]
            elif n is not None and len(segs) == 1 and isinstance(segs[0], Gen) \
                    and segs[0].guard is True:
                if self.branch(self.length(segs) == n):
                    vals = [self.elem(segs, k) for k in range(n)]
                else:
                    raise PyExc('ValueError', ('unpack',))
            else:
                raise Unsupported('unpack of symbolic sequence')
        elif isinstance(v, Model) and hasattr(v, 'unpack'):
            vals = v.unpack(self, n)
        elif isinstance(v, str):
            vals = list(v)
        elif v is None:
            raise PyExc('TypeError', ('cannot unpack NoneType',))
        else:
            raise Unsupported(f'unpack of {v!r}')
        if n is not None and len(vals) != n:
            raise PyExc('ValueError', ('unpack',))
        return vals

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc('AssertionError')

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, st, env):
        env.vars[st.name] = Func(st, env.module, env)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = self.current_exc[-1] if self.current_exc else None
            if cur is None:
                raise PyExc('RuntimeError', ('No active exception to reraise',))
            raise cur
        v = self.eval(st.exc, env)
        raise self.to_exc(v)

    current_exc = []

    def to_exc(self, v):
        if isinstance(v, Builtin) and v.name.startswith('exc:'):
            return PyExc(v.name[4:], ())
        if isinstance(v, ClassRef):
            return PyExc(v.node.name, (), val=v)
        if isinstance(v, Rec) and v.tag == 'exc':
            return PyExc(clsname(v.cls), v.fields.get('args', ()), val=v)
        if isinstance(v, PyExc):
            return v
        raise Unsupported(f'raise of {v!r}')

    def exc_is(self, name, handler):
        """name of raised exception; handler: Builtin exc / ClassRef / tuple"""
        if isinstance(handler, tuple):
            return any(self.exc_is(name, h) for h in handler)
        if isinstance(handler, Builtin) and handler.name.startswith('exc:'):
            target = handler.name[4:]
        elif isinstance(handler, ClassRef):
            target = handler.node.name
        elif isinstance(handler, str):
            target = handler
        else:
            raise Unsupported(f'except {handler!r}')
        n = name
        seen = 0
        while n is not None and seen < 20:
            if n == target or n.split('.')[-1] == target.split('.')[-1]:
                return True
            n = self.exc_base(n)
            seen += 1
        return False

    def exc_base(self, n):
        if n in EXC_BASES:
            return EXC_BASES[n]
        if '.' not in n:
            for m in list(self.program.modules.values()):
                d = m.defs.get(n)
                if isinstance(d, ast.ClassDef) and d.bases:
                    b = d.bases[0]
                    return b.id if isinstance(b, ast.Name) else b.attr
        return 'Exception'

    def x_Try(self, st, env):
        def inner():
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_is(e.name, self.eval(h.type, env))
                    if ok:
                        if h.name:
                            env.vars[h.name] = e.val if e.val is not None and isinstance(e.val, Rec) \
                                else Rec(self, e.name, {'args': tuple(e.eargs)}, 'exc')
                        self.current_exc = self.current_exc + [e]
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.current_exc = self.current_exc[:-1]
                        return
                raise
            else:
                self.exec_block(st.orelse, env)
        if not st.finalbody:
            return inner()
        try:
            inner()
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        self.with_items(st.items, 0, st.body, env)

    def with_items(self, items, k, body, env):
        if k == len(items):
            self.exec_block(body, env)
            return
        it = items[k]
        cm = self.eval(it.context_expr, env)

        def inner(value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, env)
            self.with_items(items, k + 1, body, env)
        self.with_cm(cm, inner)

    def with_cm(self, cm, inner):
        if isinstance(cm, Model):
            v = cm.call(self, '__enter__', [], {})
            try:
                inner(v)
            except PyExc as e:
                if cm.call(self, '__exit__', [e.name, e, None], {}):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                cm.call(self, '__exit__', [None, None, None], {})
                raise
            cm.call(self, '__exit__', [None, None, None], {})
            return
        if isinstance(cm, tuple) and cm and cm[0] == 'cm':
            return cm[1](self, inner)
        if isinstance(cm, PIter) and cm.thunk is not None:
            # generator based context manager: run with the with-body inlined
            # at its (single) yield.
            raise Unsupported('generator-based context manager')
        raise Unsupported(f'context manager {cm!r}')

    # ================================================================== loops
    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        segs = self.iter_segs(it, consume=True)

        def body(v):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                pass
        try:
            self.run_segs(segs, body)
        except BreakEx:
            return
        self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        class Done(Exception):
            pass
        flag = {}

        def one(i):
            if not self.truth(self.eval(st.test, env)):
                raise PyExc('$whiledone')
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                pass
        # try plain unrolling first: conditions decided without branching
        for _ in range(64):
            c = self.truth_term(self.eval(st.test, env))
            c = z3.simplify(c) if is_z3(c) else c
            if c is True or (is_z3(c) and z3.is_true(c)):
                pass
            elif c is False or (is_z3(c) and z3.is_false(c)):
                self.exec_block(st.orelse, env)
                return
            else:
                break
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                return
        else:
            raise Unsupported('while loop')
        seg = Gen(self.index(), None, True, [])
        try:
            self.run_gen(seg, None, one=one)
        except BreakEx:
            return
        except PyExc as e:
            if e.name != '$whiledone':
                raise
        self.exec_block(st.orelse, env)

    def run_segs(self, segs, body):
        for seg in list(segs):
            if isinstance(seg, Marker):
                raise Unsupported('iteration over a loop-carried container')
            if isinstance(seg, One):
                if self.branch(seg.guard):
                    body(seg.value)
            else:
                n, lo = seg.n, seg.lo
                if is_z3(n):
                    n = z3.simplify(n)
                    if z3.is_int_value(n):
                        n = n.as_long()
                if is_z3(lo):
                    lo = z3.simplify(lo)
                    if z3.is_int_value(lo):
                        lo = lo.as_long()
                if isinstance(n, int) and isinstance(lo, int) and n - lo <= 12:
                    for k in range(lo, n):
                        pair = [(seg.idx, z3.IntVal(k))]
                        if self.branch(subst(seg.guard, pair, self)):
                            self.run_segs(subst(seg.segs, pair, self), body)
                    continue
                self.run_gen(seg, body)

    def run_gen(self, seg, body, one=None):
        outer, markers = list(self.dict_reads), self.own_markers
        lists, self.list_reads = self.list_reads, []
        self.own_markers = set()
        try:
            return self.run_gen1(seg, body, one)
        finally:
            known = {id(r[3]) for r in outer}
            self.dict_reads = outer + [r for r in self.dict_reads if id(r[3]) not in known and r[1] not in self.own_markers]
            self.own_markers = markers
            self.list_reads = lists

    own_markers = set()

    def run_gen1(self, seg, body, one=None):
        """Summarise `for idx in [lo,n): ...` (rule: see DESIGN.md)."""
        lo = seg.lo if is_z3(seg.lo) else z3.IntVal(seg.lo)
        n = seg.n
        i = self.index()
        if one is None:
            def one(ix):
                pair = [(seg.idx, ix)]
                if not self.branch(subst(seg.guard, pair, self)):
                    return
                self.run_segs(subst(seg.segs, pair, self), body)
        base = self.snapshot()
        base_objs = [o for o, _ in base[0]]
        base_state = {id(o): s for o, s in base[0]}
        rng = z3.And(lo <= i, i < n) if n is not None else (lo <= i)
        changed = {}     # (id(obj), key) -> info
        sorts = {}
        for _attempt in range(12):
            self.restore(base)
            self.idx_stack.append(i)
            self.assume(rng)
            hav = {}
            self.dict_reads = []
            self.list_reads = []
            for ck, info in changed.items():
                hav[ck] = self.havoc_cell(info, sorts.get(ck))
            start = {id(o): o.save() for o in base_objs}
            pc0 = len(self.pc)
            q0 = len(self.quants)
            paths = self.explore(lambda: one(i))
            new = False
            for kind, val, pc, state in paths:
                st = {id(o): s for o, s in state[0]}
                for o in base_objs:
                    for key, before, after in cell_diff(o, start[id(o)], st[id(o)]):
                        ck = (id(o), key)
                        if ck not in changed:
                            changed[ck] = {'obj': o, 'key': key,
                                           'init': cell_get(o, base_state[id(o)], key)}
                            new = True
                        s = num_sort(after)
                        if s is not None and sorts.get(ck) != s:
                            if sorts.get(ck) is None or s == 'real':
                                if s == 'real' and sorts.get(ck) not in (None, 'real') \
                                        or sorts.get(ck) is None and num_sort(changed[ck]['init']) != s:
                                    new = True
                                sorts[ck] = s
            if not new:
                break
        else:
            self.restore(base)
            raise Unsupported('loop does not stabilise')
        self.restore(base)

        # ---------------------------------------------------- classification
        P = []
        for kind, val, pc, state in paths:
            st = {id(o): s for o, s in state[0]}
            B = And(*[f for k, f in pc if k == 'b'])
            A = []
            acc = []
            for k, f in pc:
                if k == 'b':
                    acc.append(f)
                else:
                    A.append(Implies(And(*acc), f))
            Q = [(qi, Implies(B, f)) for qi, f in state[5][q0:]]
            P.append({'kind': kind, 'val': val, 'B': B, 'A': A, 'Q': Q, 'st': st})
        normal = [p for p in P if p['kind'] in ('normal', 'continue')]
        exits = [p for p in P if p['kind'] not in ('normal', 'continue')]

        hnames = {}
        for ck, h in hav.items():
            for nm in h['names']:
                hnames[nm] = ck
        dict_hv = {}
        for d, uid, key, hv in self.dict_reads:
            for nm in all_consts(hv):
                dict_hv.setdefault(nm, (d, key, hv))
        resolved = {}     # ck -> closed(k)
        subs = []         # list of (hconst, closed term at i)

        def dehavoc(v, at):
            if not subs:
                return v
            return subst(v, [(h, coerce(c(at), h)) for h, c in subs], self)

        def unresolved(v):
            return {x for x in all_consts(v)
                    if (x in hnames and hnames[x] not in resolved) or x in dict_hv or x in untracked
                    or x.startswith(('marker!', 'dhv!')) or (x.startswith('lm!') and x not in known_reads)}

        untracked = set()
        known_reads = set()
        pending = dict(changed)
        progress = True
        while pending and progress:
            progress = False
            for ck in list(pending):
                info = pending[ck]
                c = self.classify(ck, info, hav[ck], normal, i, lo, dehavoc, unresolved, start)
                if c is not None:
                    resolved[ck] = c
                    if 'marker' in hav[ck] and isinstance(info['obj'], PList):
                        for uid, mb, pred in self.list_reads:
                            if uid == hav[ck]['marker'].uid:
                                k = self.index()      # the bound index must differ from i
                                prev = [Gen(k, g.n, subst(g.guard, [(i, k)], self), subst(g.segs, [(i, k)], self), g.lo)
                                        if isinstance(g, Gen) and g.idx.eq(i) else g for g in c(i)]
                                now = self.exists(prev, lambda v: dehavoc(pred(v), i))
                                if not unresolved(now):
                                    known_reads.add(mb.decl().name())
                                    subs.append((mb, lambda at, now=now: subst(now, [(i, at)], self)))
                    hc = hav[ck]['const']
                    if hc is not None:
                        if coerce(c(i), hc) is not None:
                            subs.append((hc, c))
                        else:
                            untracked |= {hc.decl().name()}
                    del pending[ck]
                    progress = True
        for ck, info in pending.items():
            resolved[ck] = self.havoc_after(info, hav[ck], sorts.get(ck))
        bad = {nm for nm, ck in hnames.items() if ck in pending} | set(dict_hv) | untracked
        bad |= {mb.decl().name() for _, mb, _ in self.list_reads} - known_reads

        def clean(f, at):
            f = dehavoc(f, at)
            if all_consts(f) & bad:
                return None
            return f

        # ------------------------------------------------------------- exits
        def facts_upto(hi, include_noexit=True, at_exit=None):
            r = And(lo <= i, i < hi) if hi is not None else (lo <= i)
            for p in P:
                if p in exits:
                    continue
                for a in p['A']:
                    a = clean(a, i)
                    if a is not None and a is not True:
                        self.assume_forall([i], Implies(r, a))
                for qi, f in p['Q']:
                    f = clean(f, i)
                    if f is not None:
                        self.assume_forall((i,) + tuple(qi), Implies(r, f))
            if include_noexit and exits:
                E = []
                for p in exits:
                    b = clean(p['B'], i)
                    if b is None:
                        self.imprecise.append('loop exit condition depends on untracked state')
                        continue
                    E.append(b)
                self.assume_forall([i], Implies(r, Not(Or(*E))))
                B = [clean(p['B'], i) for p in normal]
                if all(b is not None for b in B) and not any(b is True for b in B):
                    self.assume_forall([i], Implies(r, Or(*B)))

        def set_cells(hi):
            for ck, info in changed.items():
                val = resolved[ck](hi)
                cell_set(info['obj'], info['key'], val)

        if n is not None:
            self.assume_fact_n(lo, n)
        nopt = (1 if n is not None else 0) + len(exits)
        if nopt == 0:
            raise Infeasible()
        pick = self.loop_outcome(nopt, n, i, lo, [clean(p['B'], i) for p in exits])
        if n is not None and pick == 0:
            facts_upto(n)
            if n is not None:
                hi = z3.If(n >= lo, n, lo) if not self.quick_valid(n >= lo) else n
            set_cells(hi)
            return
        p = exits[pick - (1 if n is not None else 0)]
        j = self.fresh('exit', z3.IntSort())
        if z3.is_const(j):
            self.idx_names[j.decl().name()] = j
        self.assume(z3.And(lo <= j, j < n) if n is not None else (lo <= j))
        facts_upto(j)

        def at_j(v):
            v = dehavoc(v, i)
            return subst(v, [(i, j)], self)
        b = at_j(p['B'])
        if all_consts(b) & bad:
            self.imprecise.append('loop exit depends on untracked state')
        else:
            self.assume(b, 'b')
        for a in p['A']:
            self.assume(at_j(a))
        for qi, f in p['Q']:
            self.assume_forall(qi, at_j(f))
        if not self.feasible(True):
            raise Infeasible()
        base_ids = {id(o) for o in base_objs}
        memo = {}
        for ck, info in changed.items():
            o = info['obj']
            after = cell_get(o, p['st'][id(o)], info['key'])
            if after is UNDEF:
                cell_set(o, info['key'], UNDEF)
                continue
            if isinstance(o, (PList, PDict)):
                pre = resolved[ck](j)
                add = [s for s in after if not isinstance(s, Marker)]
                if any(isinstance(s, Marker) for s in after[:1]):
                    add = self.adopt(at_j(add), base_ids, memo)
                    if isinstance(o, PDict):
                        add = self.dict_delta(add, dict_hv) or []
                    cell_set(o, None, list(pre) + add)
                else:
                    cell_set(o, None, self.adopt(at_j(after), base_ids, memo))
                continue
            v = self.adopt(at_j(after), base_ids, memo)
            if all_consts(v) & bad:
                v = Poison('value at loop exit depends on untracked state')
            cell_set(o, info['key'], v)
        if p['kind'] == 'break':
            raise BreakEx()
        if p['kind'] == 'return':
            raise ReturnEx(self.adopt(at_j(p['val']), base_ids, memo))
        if p['kind'] == 'raise':
            e = p['val']
            args = self.adopt(at_j(tuple(e.eargs)), base_ids, memo)
            raise PyExc(e.name, args, val=self.adopt(at_j(e.val), base_ids, memo))
        raise Unsupported(p['kind'])

    def loop_outcome(self, nopt, n, i, lo, exits):
        """0: the loop completes (n known), else the number of the exit taken.
        Inside an arbitrary iteration of another loop completion is decided by
        a formula, so that facts about every outer iteration can use it."""
        if nopt == 1:
            return 0
        if n is None or not self.idx_stack or any(b is None for b in exits):
            return self.choose(nopt)
        leaves = self.exists([Gen(i, n, Or(*exits), [One(None)], lo)], lambda v: True)
        if self.branch(Not(leaves)):
            return 0
        return 1 + (self.choose(len(exits)) if len(exits) > 1 else 0)

    def assume_fact_n(self, lo, n):
        pass

    def adopt(self, v, base_ids, memo):
        """Re-register objects created during a nested exploration."""
        if isinstance(v, Mut):
            if id(v) in base_ids:
                return v
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, Rec):
                c = Rec(self, v.cls, {}, v.tag)
                memo[id(v)] = c
                c.fields = {k: self.adopt(x, base_ids, memo) for k, x in v.fields.items()}
            elif isinstance(v, PList):
                c = PList(self, [], v.kind)
                memo[id(v)] = c
                c.segs = self.adopt(v.segs, base_ids, memo)
            elif isinstance(v, PDict):
                c = PDict(self, [], v.default)
                memo[id(v)] = c
                c.log = self.adopt(v.log, base_ids, memo)
            elif isinstance(v, PIter):
                c = PIter(self, None, v.thunk)
                memo[id(v)] = c
                if v.segs is not None:
                    c.segs = self.adopt(v.segs, base_ids, memo)
            elif isinstance(v, Env):
                self.register(v)
                memo[id(v)] = v
                return v
            else:
                return v
            return c
        if isinstance(v, tuple):
            return tuple(self.adopt(x, base_ids, memo) for x in v)
        if isinstance(v, list):
            return [self.adopt(x, base_ids, memo) for x in v]
        if isinstance(v, One):
            return One(self.adopt(v.value, base_ids, memo), v.guard)
        if isinstance(v, Gen):
            return Gen(v.idx, v.n, v.guard, self.adopt(v.segs, base_ids, memo), v.lo, v.unique)
        if isinstance(v, Opt):
            return Opt(v.none, self.adopt(v.val, base_ids, memo))
        if isinstance(v, Choice):
            return Choice([(g, self.adopt(x, base_ids, memo)) for g, x in v.alts])
        if isinstance(v, Func) and v.bound is not None:
            return Func(v.node, v.module, v.env, self.adopt(v.bound, base_ids, memo), v.cls, v.defaults)
        return v

    def havoc_cell(self, info, sort):
        o, key, init = info['obj'], info['key'], info['init']
        uid = next(self.uid)
        if isinstance(o, (PList, PDict)):
            mk = Marker(uid)
            self.own_markers.add(uid)
            cell_set(o, None, [mk])
            return {'names': set(), 'const': None, 'marker': mk}
        if isinstance(o, PIter):
            raise Unsupported('iterator advanced inside a loop')
        s = sort or num_sort(init)
        if s == 'real':
            c = z3.Real(f'hv!{uid}')
        elif s == 'int':
            c = z3.Int(f'hv!{uid}')
        elif s == 'bool':
            c = z3.Bool(f'hv!{uid}')
        elif s == 'str':
            c = z3.String(f'hv!{uid}')
        else:
            cell_set(o, key, Poison(f'loop-carried value of {key}'))
            return {'names': set(), 'const': None}
        # the loop-carried value is a function of the enclosing indices too
        cell_set(o, key, c)
        return {'names': {c.decl().name()}, 'const': c}

    def havoc_after(self, info, h, sort):
        o, key = info['obj'], info['key']

        def after(hi):
            # any later use of the value is refused (Unsupported), never guessed
            if isinstance(o, (PList, PDict)):
                return [Marker(next(self.uid))]
            return Poison(f'value of {key} after a loop is not summarised')
        return after

    def own_index(self, g):
        """The same Gen with a bound index of its own: what one container
        holds may be another container that grew in the same loop."""
        k = self.index()
        return Gen(k, g.n, g.guard, subst(g.segs, [(g.idx, k)], self), g.lo, g.unique)

    def classify(self, ck, info, h, normal, i, lo, dehavoc, unresolved, start):
        o, key, init = info['obj'], info['key'], info['init']

        def merged_guard(p):
            b = dehavoc(p['B'], i)
            return None if unresolved(b) else b

        if isinstance(o, PList):
            out = []
            adds = []
            for p in normal:
                after = p['st'][id(o)]
                if not after or not (isinstance(after[0], Marker) and after[0].uid == h['marker'].uid):
                    return None
                add = after[1:]
                if not add:
                    adds.append((merged_guard(p), []))
                    continue
                add = dehavoc(add, i)
                if unresolved(add):
                    return None
                adds.append((merged_guard(p), add))
            if adds and adds[0][1] and all(same(a, adds[0][1]) for _, a in adds):
                adds = [(True, adds[0][1])]      # every iteration adds the same
            if any(g is None and add for g, add in adds):
                return None
            merged = self.merge_adds(adds)
            some = [(g, add) for g, add in adds if add]
            if merged is None and 1 < len(some) < len(adds) and all(g is not None for g, _ in adds):
                # some paths append nothing, the others the same number: the element is there unless one of the former is taken
                one = self.merge_adds(some)
                if one is not None and not any(undecided(x.value) for x in one):
                    adds = [(Not(Or(*[g for g, add in adds if not add])), one)]
            for g, add in ([(True, merged)] if merged is not None else adds):
                for a in add:
                    if isinstance(a, One):
                        out.append(One(a.value, And(g, a.guard)))
                    else:
                        out.append(Gen(a.idx, a.n, And(g, a.guard), a.segs, a.lo))

            def closed(hi):
                if not out:
                    return list(init)
                return list(init) + [self.own_index(Gen(i, hi, True, list(out), lo_val(lo)))]
            return closed
        if isinstance(o, PDict):
            out = []
            for p in normal:
                after = p['st'][id(o)]
                if not after or not (isinstance(after[0], Marker) and after[0].uid == h['marker'].uid):
                    return None
                add = after[1:]
                if not add:
                    continue
                g = merged_guard(p)
                if g is None:
                    return None
                add = dehavoc(add, i)
                add = self.dict_delta(add, {nm: (d, k2, hv) for d, u, k2, hv in self.dict_reads
                                            for nm in all_consts(hv)})
                if add is None or unresolved(add):
                    return None
                for a in add:
                    if isinstance(a, One):
                        out.append(One(a.value, And(g, a.guard)))
                    else:
                        out.append(Gen(a.idx, a.n, And(g, a.guard), a.segs, a.lo))

            def closed(hi):
                if not out:
                    return list(init)
                return list(init) + [self.own_index(Gen(i, hi, True, list(out), lo_val(lo)))]
            return closed
        # scalar cells
        c = h['const']
        vals = []
        for p in normal:
            v = cell_get(o, p['st'][id(o)], key)
            vals.append(v)
        if c is not None and (z3.is_real(c) or z3.is_int(c)):
            deltas = []
            ok = True
            for p, v in zip(normal, vals):
                if not (is_z3(v) or isinstance(v, (int, float))) or isinstance(v, bool):
                    ok = False
                    break
                d = z3.simplify((real(v) - real(c)) if z3.is_real(c) else (v - c), som=True)
                d = z3.simplify(d)
                d = dehavoc(d, i)
                if unresolved(d):
                    ok = False
                    break
                g = True if z3.is_rational_value(d) and d.as_fraction() == 0 or \
                    z3.is_int_value(d) and d.as_long() == 0 else merged_guard(p)
                if g is None:
                    ok = False
                    break
                deltas.append((g, d))
            if ok and deltas and all(z3.is_rational_value(d) and d.as_fraction() == 0 or z3.is_int_value(d) and d.as_long() == 0 for _, d in deltas):
                return lambda hi: init
            if ok and not (is_z3(init) and z3.is_arith(init) or isinstance(init, (int, float, Fraction)) and not isinstance(init, bool)):
                ok = False
            if ok:
                isint = z3.is_int(c)
                tot = z3.RealVal(0)
                if len(deltas) == 1:
                    tot = real(deltas[0][1])
                else:
                    # if all paths add the same amount no guard is needed
                    if all(d.eq(deltas[0][1]) for _, d in deltas):
                        tot = real(deltas[0][1])
                    else:
                        for g, d in deltas:
                            if z3.is_rational_value(d) and d.as_fraction() == 0 or \
                                    z3.is_int_value(d) and d.as_long() == 0:
                                continue
                            tot = tot + If(g, real(d), z3.RealVal(0))

                def closed(hi):
                    s = self.SUMR(i, lo, hi, tot)
                    if isint:
                        s = z3.simplify(s)
                        r = to_int_exact(s)
                        return z3.simplify(init + r)
                    return z3.simplify(real(init) + s)
                return closed
        # set-to-the-same-value or leave
        setters = []
        ok = c is not None
        if ok:
            v0 = None
            for p, v in zip(normal, vals):
                if same(v, c):
                    continue
                if v0 is None:
                    v0 = v
                elif not same(v, v0):
                    ok = False
                    break
                g = merged_guard(p)
                if g is None or all_consts(v) & {i.decl().name()} or unresolved(v):
                    ok = False
                    break
                setters.append(g)
            if ok and setters:
                g = Or(*setters)

                def closed(hi):
                    if g is True:
                        cnt = hi > lo
                    else:
                        cnt = self.SUMR(i, lo, hi, If(g, z3.RealVal(1), z3.RealVal(0))) > 0
                    return self.ite(cnt, v0, init)
                return closed
        # overwritten by the same function of the index in every iteration: the carried value is that of the iteration before
        if c is not None and vals and isinstance(o, (Rec, Env)) and all(same(v, vals[0]) for v in vals) \
                and not isinstance(vals[0], Poison) and vals[0] is not UNDEF:
            v0 = dehavoc(vals[0], i)
            if coerce(v0, c) is not None and coerce(init, c) is not None and not unresolved(v0) and c.decl().name() not in all_consts(v0):
                return lambda hi: self.ite(hi > lo, coerce(subst(v0, [(i, hi - 1)], self), c), coerce(init, c))
        # temporaries: always overwritten
        if vals and all(v is not UNDEF and not (all_consts(dehavoc(v, i)) and unresolved(dehavoc(v, i)))
                        and not isinstance(v, Poison) for v in vals):
            alts = []
            for p, v in zip(normal, vals):
                g = merged_guard(p)
                if g is None:
                    return None
                alts.append((g, dehavoc(v, i)))

            def closed(hi):
                def resolve():
                    if self.branch(hi > lo):
                        return self.pick(Choice([(subst(g, [(i, hi - 1)], self), subst(v, [(i, hi - 1)], self))
                                                 for g, v in alts]))
                    if init is UNDEF:
                        raise PyExc('NameError', ('unbound local',))
                    return init
                return Poison('last iteration value', resolve)
            return closed
        if info['init'] is UNDEF:
            return lambda hi: Poison(f'{key} after loop')
        return None

    def merge_adds(self, adds):
        """Every path appends the same number of elements: merge their values."""
        if not adds or any(len(a) != len(adds[0][1]) for _, a in adds):
            return None
        if any(not isinstance(x, One) or x.guard is not True for _, a in adds for x in a):
            return None
        out = list(adds[-1][1])
        for g, a in reversed(adds[:-1]):
            out = [One(self.ite(g, x.value, y.value)) for x, y in zip(a, out)]
        return out

    def dict_delta(self, add, dict_hv):
        out = []
        for a in add:
            if isinstance(a, Gen):
                inner = self.dict_delta(a.segs, dict_hv)
                if inner is None:
                    return None
                out.append(Gen(a.idx, a.n, a.guard, inner, a.lo))
                continue
            op, k, v = a.value
            hits = [dict_hv[nm] for nm in all_consts(v) if nm in dict_hv]
            if op == 'acc' or not hits:
                out.append(a)
                continue
            d, k2, hv = hits[0]
            if not same(k, k2) or any(h[2] is not hv for h in hits):
                return None
            dl = self.delta(v, hv)
            if dl is None or all_consts(dl) & set(dict_hv):
                return None
            out.append(One(('acc', k, dl), a.guard))
        return out

    def delta(self, v, h):
        if isinstance(v, tuple) and isinstance(h, tuple) and len(v) == len(h):
            ds = [self.delta(x, y) for x, y in zip(v, h)]
            return None if any(d is None for d in ds) else tuple(ds)
        if is_z3(h) and (is_z3(v) or isinstance(v, (int, float))):
            if z3.is_int(h) and (isinstance(v, int) or z3.is_int(v)):
                return z3.simplify(v - h)
            return z3.simplify(real(v) - real(h), som=True)
        return None

    def SUMR(self, idx, lo, hi, body):
        lo_ = z3.simplify(lo) if is_z3(lo) else z3.IntVal(lo)
        s = self.sums.SUM(idx, hi, body)
        if z3.is_int_value(lo_) and lo_.as_long() == 0:
            return s
        return z3.simplify(s - self.sums.SUM(idx, lo_, body))


def coerce(v, like):
    """v as a term of the sort of `like`, or None."""
    if z3.is_real(like):
        if isinstance(v, bool) or not (isinstance(v, (int, float, Fraction)) or is_z3(v) and
                                       (z3.is_int(v) or z3.is_real(v))):
            return None
        return real(v)
    if z3.is_int(like):
        if isinstance(v, int):
            return z3.IntVal(int(v))
        return v if is_z3(v) and z3.is_int(v) else None
    if z3.is_bool(like):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return v if is_z3(v) and z3.is_bool(v) else None
    if z3.is_string(like):
        if isinstance(v, str):
            return z3.StringVal(v)
        return v if is_z3(v) and z3.is_string(v) else None
    return None


def lo_val(lo):
    lo = z3.simplify(lo)
    return lo.as_long() if z3.is_int_value(lo) else lo


def to_int_exact(s):
    """An integer-valued real term as an int term."""
    s = z3.simplify(s)
    if z3.is_rational_value(s) and s.denominator_as_long() == 1:
        return z3.IntVal(s.numerator_as_long())
    if s.decl().kind() == z3.Z3_OP_TO_REAL:
        return s.arg(0)
    return z3.ToInt(s)


def num_sort(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    if is_z3(v):
        if z3.is_bool(v):
            return 'bool'
        if z3.is_int(v):
            return 'int'
        if z3.is_real(v):
            return 'real'
        if z3.is_string(v):
            return 'str'
    return None


class CMHook:
    def __init__(self, inner, outer):
        self.inner, self.outer, self.entered, self.ctl = inner, outer, False, None


def cell_diff(o, a, b):
    if isinstance(o, (Env, Rec)):
        for k in set(a) | set(b):
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            if not same(x, y):
                yield k, x, y
    elif isinstance(o, PIter):
        if not (same(a[0], b[0]) and a[1] is b[1]):
            yield None, a, b
    else:
        if not same(a, b):
            yield None, a, b


def cell_get(o, state, key):
    if isinstance(o, (Env, Rec)):
        return state.get(key, UNDEF)
    return state


def cell_set(o, key, val):
    if isinstance(o, Env):
        if val is UNDEF:
            o.vars.pop(key, None)
        else:
            o.vars[key] = val
    elif isinstance(o, Rec):
        o.fields[key] = val
    else:
        o.load(val)


def is_generator(node):
    for n in walk_scope(node.body):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _load(t):
    import copy
    c = copy.copy(t)
    c.ctx = ast.Load()
    return c
