"""Contracts of builtins and standard-library functions (trusted)."""
import ast
import string
import z3
from .values import *
from .evalx import *
from .evalx import Eval, SuperModel
from .machine import TRUNC

EMPTY = z3.StringVal('')


class Lib:
    """Mixin: call_builtin and the methods of built-in types."""

    def call_builtin(self, f, args, kwargs):
        n = f.name
        if n.startswith('meth:'):
            return self.call_type_method(f.bound, n[5:], args, kwargs)
        if n.startswith('model:'):
            return f.bound.call(self, n[6:], args, kwargs)
        if n.startswith('exc:'):
            return Rec(self, n[4:], {'args': tuple(args)}, 'exc')
        if n.startswith('ext:'):
            n = n[4:]
            if n in self.models:
                return self.models[n](self, *args, **kwargs)
            h = getattr(self, 'lib_' + n.replace('.', '_'), None)
            if h is None:
                raise Unsupported(f'no contract for {n}')
            self.trusted.add(n)
            return h(*args, **kwargs)
        if n == 'cast':
            return args[1]
        if '.' in n:
            t, meth = n.split('.', 1)
            h = getattr(self, f'cls_{t}_{meth}', None)
            if h is None:
                # unbound method call: str.lower(x)
                return self.call_type_method(self.pick(args[0]), meth, list(args[1:]), kwargs)
            return h(*args, **kwargs)
        h = getattr(self, 'b_' + n, None)
        if h is None:
            raise Unsupported(f'builtin {n}')
        return h(*args, **kwargs)

    # --------------------------------------------------------------- builtins
    def b_len(self, v):
        v = self.pick(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if is_string(v):
            return z3.Length(v)
        if isinstance(v, PList):
            if 'set' in v.kind:
                return self.length(self.enum_set(v))
            return self.length(v.segs)
        if isinstance(v, PDict):
            return self.length(self.dict_items(v))
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__len__')
            if meth:
                return self.call_method(v, meth, [], {})
        if isinstance(v, Model) and hasattr(v, 'm___len__'):
            return v.m___len__(self)
        raise PyExc('TypeError', ('object has no len()',))

    def b_sum(self, v, start=0):
        segs = self.iter_segs(v, True)
        if self.all_ones(segs):
            tot = start
            for s in segs:
                tot = self.binop(ast.Add(), tot, s.value)
            return tot
        sample = self.sample_value(segs)
        r = self.seg_sum(segs, lambda x: x)
        r = simp(r + real(start))
        if sample is not None and is_intlike(sample) and is_intlike(start):
            return to_int_exact(r)
        return r

    def b_min(self, *args, key=None, default=None, **kw):
        return self.extreme(args, key, default, True)

    def b_max(self, *args, key=None, default=None, **kw):
        return self.extreme(args, key, default, False)

    def extreme(self, args, key, default, ismin):
        segs = [One(a) for a in args] if len(args) > 1 else self.iter_segs(args[0], True)

        def k(v):
            return self.call(key, [v]) if key is not None else v
        if self.all_ones(segs):
            if not segs:
                if default is not None:
                    return default
                raise PyExc('ValueError', ('empty sequence',))
            best, bk = segs[0].value, k(segs[0].value)
            for s in segs[1:]:
                kk = k(s.value)
                c = self.lt(kk, bk) if ismin else self.lt(bk, kk)
                if key is None and is_num(best) and is_num(s.value):
                    best = self.ite(c, s.value, best)
                    bk = best
                elif self.branch(simp(c)):
                    best, bk = s.value, kk
            return best
        g = self.single_gen(segs)
        if g is not None:
            if not self.branch(zi(g.n) > zi(g.lo)):
                if default is not None:
                    return default
                raise PyExc('ValueError', ('empty sequence',))
            j = self.fresh('ext', z3.IntSort())
            if z3.is_const(j):
                self.idx_names[j.decl().name()] = j
            self.assume(z3.And(zi(g.lo) <= j, j < zi(g.n)))
            best = subst(g.segs[0].value, [(g.idx, j)], self)
            i = self.index()
            other = subst(g.segs[0].value, [(g.idx, i)], self)
            # first extreme element
            le = self.lt(k(best), k(other), False) if ismin else self.lt(k(other), k(best), False)
            ltt = self.lt(k(best), k(other)) if ismin else self.lt(k(other), k(best))
            self.assume_forall([i], Implies(And(zi(g.lo) <= i, i < zi(g.n)), le))
            self.assume_forall([i], Implies(And(zi(g.lo) <= i, i < j), ltt))
            return best
        raise Unsupported('min/max of irregular sequence')

    def b_abs(self, x):
        x = self.pick(x)
        if not is_z3(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)

    def b_any(self, v):
        segs = self.iter_segs(v, True)
        return simp(self.exists(segs, self.truth_term))

    def b_all(self, v):
        segs = self.iter_segs(v, True)
        return simp(Not(self.exists(segs, lambda x: Not(self.truth_term(x)))))

    def b_iter(self, v):
        v = self.pick(v)
        if isinstance(v, PIter):
            return v
        if isinstance(v, Model) and hasattr(v, 'm___next__'):
            return v
        return PIter(self, self.iter_segs(v, True))

    def b_next(self, it, *default):
        it = self.pick(it)
        if isinstance(it, Model):
            return it.call(self, '__next__', [], {})
        if not isinstance(it, PIter):
            raise PyExc('TypeError', ('not an iterator',))
        segs = self.force(it)
        try:
            v, rest = self.first_of(segs)
        except PyExc as e:
            if e.name == 'StopIteration':
                it.segs = []
                if default:
                    return default[0]
            raise
        it.segs = rest
        return v

    def b_list(self, v=None):
        return PList(self, [] if v is None else self.iter_segs(v, True), 'list')

    def b_tuple(self, v=None):
        if v is None:
            return ()
        v = self.pick(v)
        if isinstance(v, tuple):
            return v
        segs = self.iter_segs(v, True)
        if self.all_ones(segs):
            return tuple(s.value for s in segs)
        return PList(self, segs, 'tuple')

    def b_set(self, v=None):
        return PList(self, [] if v is None else self.iter_segs(v, True), 'set')

    def b_frozenset(self, v=None):
        return PList(self, [] if v is None else self.iter_segs(v, True), 'frozenset')

    def b_dict(self, v=None, **kw):
        log = []
        if v is not None:
            v = self.pick(v)
            if isinstance(v, PDict):
                if any('acc' in seg_ops([s]) for s in v.log) and not kw:
                    c = PDict(self, list(v.log), v.default)
                    c.strict = True        # a plain dict: no default for missing keys
                    return c
                log = [map_seg(s, lambda kv: ('set', kv[0], kv[1])) for s in self.dict_items(v)]
            else:
                log = [map_seg(s, lambda kv: ('set',) + tuple(self.unpack(kv, 2)))
                       for s in self.iter_segs(v, True)]
        log += [One(('set', k, x)) for k, x in kw.items()]
        return PDict(self, log)

    def b_isinstance(self, v, c):
        return self.isinstance_(v, c)

    def b_callable(self, v):
        return bool(self.typenames(self.pick(v)) & {'function'})

    def b_type(self, v):
        return self.type_of(self.pick(v))

    def b_repr(self, v):
        return self.repr_of(v)

    def b_str(self, v=''):
        return self.to_str(self.pick(v))

    def b_int(self, v=0, base=None):
        v = self.pick(v)
        if isinstance(v, (int, float, Fraction)):
            return int(v)
        if is_z3(v) and z3.is_int(v):
            return v
        if is_z3(v) and z3.is_bool(v):
            return zi(v)
        if is_z3(v) and z3.is_real(v):
            if v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return TRUNC(z3.simplify(v))
        if isinstance(v, str) and base is None:
            try:
                return int(v)
            except ValueError:
                raise PyExc('ValueError', ('invalid literal',))
        if isinstance(v, str):
            try:
                return int(v, base)
            except ValueError:
                raise PyExc('ValueError', ('invalid literal',))
        if is_string(v):
            ok = self.branch(z3.Function(f'int_ok_{base or 10}', Str, z3.BoolSort())(v))
            if not ok:
                raise PyExc('ValueError', ('invalid literal',))
            return z3.Function(f'int_of_{base or 10}', Str, z3.IntSort())(v)
        if v is None:
            raise PyExc('TypeError', ('int()',))
        raise Unsupported(f'int({v!r})')

    def b_float(self, v=0.0):
        v = self.pick(v)
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
        if isinstance(v, float):
            return v
        if is_num(v):
            return real(v)
        if is_string(v):
            s = zs(v)
            if not self.branch(z3.Function('float_ok', Str, z3.BoolSort())(s)):
                raise PyExc('ValueError', ('could not convert string to float',))
            return z3.Function('float_of', Str, z3.RealSort())(s)
        if isinstance(v, Term) and is_z3(v.term):      # a value of any type that float() may take
            if not self.branch(z3.Function(f'float_ok_{v.name}', v.term.sort(), z3.BoolSort())(v.term)):
                raise PyExc('ValueError' if self.branch(z3.Function(f'float_value_error_{v.name}', v.term.sort(), z3.BoolSort())(v.term)) else 'TypeError', ('float()',))
            return z3.Function(f'float_of_{v.name}', v.term.sort(), z3.RealSort())(v.term)
        raise PyExc('TypeError', ('float()',))

    def b_bool(self, v=False):
        return simp(self.truth_term(v))

    def b_bytes(self, v=b''):
        if isinstance(v, Term):
            return Term(v.name + ' as bytes', v.term)
        v = self.pick(v)
        if isinstance(v, bytes):
            return v
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__bytes__')
            if meth:
                return self.call_method(v, meth, [], {})
        segs = self.iter_segs(v, True)
        return PList(self, segs, 'bytes')

    def b_hash(self, v):
        v = self.pick(v)
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__hash__')
            if meth:
                return self.call_method(v, meth, [], {})
        return ('hash', v)

    def b_print(self, *a, **k):
        return None

    def b_slice(self, *a):
        return Builtin('slice', (None, *a, None) if len(a) == 1 else (*a, None)[:3])

    def b_range(self, a, b=None, c=1):
        lo, hi = (0, a) if b is None else (a, b)
        lo, hi, c = self.pick(lo), self.pick(hi), self.pick(c)
        l, h, s = as_int_const(lo), as_int_const(hi), as_int_const(c)
        if l is not None and h is not None and s is not None:
            r = range(l, h, s)
            if len(r) > 4096:
                raise Unsupported('large range')
            return PList(self, [One(x) for x in r], 'list')
        i = self.index()
        if s == 1:
            if l == 0:
                n = zi(hi)
                return PList(self, [Gen(i, n, True, [One(i)])], 'list')
            return PList(self, [Gen(i, zi(hi), True, [One(i)], lo)], 'list')
        if s == -1:
            # lo, lo-1, ..., hi+1
            n = simp(zi(lo) - zi(hi))
            return PList(self, [Gen(i, n, True, [One(simp(zi(lo) - i))])], 'list')
        raise Unsupported('range step')

    def b_enumerate(self, v, start=0):
        segs = self.iter_segs(v, True)
        out = []
        base = start
        for s in segs:
            if isinstance(s, One) and s.guard is True:
                out.append(One((base, s.value)))
                base = base + 1 if isinstance(base, int) else simp(base + 1)
            elif isinstance(s, Gen) and self.single_gen([s]) is not None:
                pos = simp(zi(base) + s.idx - zi(s.lo))
                out.append(Gen(s.idx, s.n, True, [One((pos, s.segs[0].value))], s.lo))
                base = simp(zi(base) + self.length([s]))
            else:
                raise Unsupported('enumerate over irregular sequence')
        return PIter(self, out)

    def b_reversed(self, v):
        segs = self.iter_segs(v, True)
        return PIter(self, self.reverse(segs))

    def reverse(self, segs):
        out = []
        for s in reversed(segs):
            if isinstance(s, One):
                out.append(s)
            else:
                j = simp(zi(s.lo) + zi(s.n) - 1 - s.idx)
                out.append(Gen(s.idx, s.n, subst(s.guard, [(s.idx, j)], self),
                               self.reverse(subst(s.segs, [(s.idx, j)], self)), s.lo))
        return out

    def b_zip(self, *its):
        lists = [self.iter_segs(i, True) for i in its]
        if not lists:
            return PIter(self, [])
        if all(self.all_ones(l) for l in lists):
            return PIter(self, [One(tuple(s.value for s in t)) for t in zip(*lists)])
        return PIter(self, self.zip_segs(lists))

    def zip_segs(self, lists):
        out = []
        lists = [list(l) for l in lists]
        while True:
            if any(not l for l in lists):
                return out
            heads = [l[0] for l in lists]
            if all(isinstance(h, One) and h.guard is True for h in heads):
                out.append(One(tuple(h.value for h in heads)))
                lists = [l[1:] for l in lists]
                continue
            gens = [self.single_gen(l) if len(l) == 1 else None for l in lists]
            infinite = [isinstance(h, Repeat) for h in heads]
            if all(g is not None for g in gens):
                i = self.index()
                lens = [simp(zi(g.n) - zi(g.lo)) for g in gens]
                n = lens[0]
                for x in lens[1:]:
                    if x.eq(n) or self.quick_valid(n <= x):
                        continue
                    if self.quick_valid(x <= n):
                        n = x
                    else:
                        n = z3.If(n <= x, n, x)
                vals = tuple(subst(g.segs[0].value, [(g.idx, simp(i + zi(g.lo)))], self) for g in gens)
                out.append(Gen(i, n, True, [One(vals)]))
                return out
            # concrete list against symbolic: unroll
            if any(self.all_ones(l) for l in lists):
                done = False
                vals = []
                for q, l in enumerate(lists):
                    if isinstance(l[0], One) and l[0].guard is True:
                        vals.append(l[0].value)
                        lists[q] = l[1:]
                        continue
                    try:
                        v, rest = self.first_of(l)
                    except PyExc as e:
                        if e.name == 'StopIteration':
                            return out
                        raise
                    vals.append(v)
                    lists[q] = rest
                out.append(One(tuple(vals)))
                continue
            # same filter structure on every list
            raise Unsupported('zip over irregular sequences')

    def b_map(self, f, *its):
        def body(*vals):
            return self.call(f, list(vals))
        if len(its) == 1:
            out = PList(self, [], 'list')

            def one(v):
                out.segs = out.segs + [One(self.call(f, [v]))]
            it = PIter(self)

            def thunk():
                self.run_segs(self.iter_segs(its[0], True), one)
                return out.segs
            it.thunk = thunk
            return it
        z = self.b_zip(*its)
        return self.b_map(lambda m, t: self.call(f, list(t)), z)

    def b_filter(self, f, it):
        out = PList(self, [], 'list')

        def one(v):
            t = self.truth(self.call(f, [v])) if f is not None else self.truth(v)
            if t:
                out.segs = out.segs + [One(v)]
        self.run_segs(self.iter_segs(it, True), one)
        return PIter(self, out.segs)

    def b_getattr(self, o, name, *default):
        nm = as_str_const(name)
        if nm is None:
            raise Unsupported('dynamic attribute')
        try:
            return self.getattr(o, nm)
        except PyExc as e:
            if e.name == 'AttributeError' and default:
                return default[0]
            raise

    def b_hasattr(self, o, name):
        try:
            self.b_getattr(o, name)
            return True
        except PyExc as e:
            if e.name == 'AttributeError':
                return False
            raise

    def b_round(self, x, nd=None):
        x = self.pick(x)
        if not is_z3(x):
            return round(x, nd) if nd is not None else round(x)
        f = z3.Function(f'round_{nd}', z3.RealSort(), z3.RealSort())
        return f(real(x))

    def b_ord(self, c):
        return ord(c)

    def b_sorted(self, v, key=None, reverse=False):
        segs = self.iter_segs(v, True)
        return PList(self, self.sort_segs(segs, key, reverse), 'list')

    def sort_segs(self, segs, key, reverse):
        if reverse not in (True, False):
            raise Unsupported('symbolic reverse flag')

        def k(x):
            return self.call(key, [x]) if key is not None else x
        if self.all_ones(segs):
            vals = [s.value for s in segs]
            if len(vals) <= 1:
                return segs
            # insertion sort with branching (stable)
            out = []
            for x in vals:
                kx = k(x)
                pos = len(out)
                while pos > 0:
                    kp = out[pos - 1][0]
                    c = self.lt(kp, kx) if reverse else self.lt(kx, kp)
                    if self.branch(simp(c)):
                        pos -= 1
                    else:
                        break
                out.insert(pos, (kx, x))
            return [One(x) for _, x in out]
        g = self.single_gen(segs)
        if g is None:
            if all(isinstance(s, One) for s in segs):
                vals = []
                for s in segs:
                    if self.branch(s.guard):
                        vals.append(One(s.value))
                return self.sort_segs(vals, key, reverse)
            g = self.flatten_gen(segs)
        plain = k

        def k(x):
            # the key of a generic element: a branch in it says nothing about other elements
            rs = self.explore(lambda: plain(x), keep=False)
            if not rs or any(r[0] != 'normal' for r in rs):
                raise Unsupported('sort key that may raise')
            v = rs[-1][1]
            for _, w, pc, _ in reversed(rs[:-1]):
                v = self.ite(And(*[f for _, f in pc]), w, v)
            return v
        n = simp(zi(g.n) - zi(g.lo))
        if not self.quick_valid(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        outer = list(self.idx_stack)
        perm = z3.Function(f'perm!{next(self.uid)}', *[z3.IntSort()] * (len(outer) + 1), z3.IntSort())
        inv = z3.Function(f'pinv!{next(self.uid)}', *[z3.IntSort()] * (len(outer) + 1), z3.IntSort())
        a, b = self.index(), self.index()

        def P(x):
            return perm(*outer, x)
        self.assume_forall([a], Implies(And(a >= 0, a < n), And(P(a) >= 0, P(a) < n, inv(*outer, P(a)) == a)))
        self.assume_forall([a], Implies(And(a >= 0, a < n),
                                        And(inv(*outer, a) >= 0, inv(*outer, a) < n, P(inv(*outer, a)) == a)))

        def val(x):
            return subst(g.segs[0].value, [(g.idx, simp(x + zi(g.lo)))], self)
        ka, kb = k(val(P(a))), k(val(P(b)))
        if isinstance(ka, tuple) and len(ka) > 1:
            c, d = self.index(), self.index()
            if self.excluded(And(c >= 0, c < d, d < n), self.eq(k(val(c))[0], k(val(d))[0])):      # decided by the first component
                ka, kb = ka[0], kb[0]
        le = self.lt(kb, ka, False) if reverse else self.lt(ka, kb, False)
        self.assume_forall([a, b], Implies(And(a >= 0, a < b, b < n), le))
        stable = Implies(self.eq(ka, kb), P(a) < P(b))
        self.assume_forall([a, b], Implies(And(a >= 0, a < b, b < n), stable))
        if not outer or True:
            self.reindexes.append(PermReindex(perm, n, outer))
        self.sorts.append({'perm': perm, 'inv': inv, 'n': n, 'outer': outer, 'gen': g})
        i = self.index()
        return [Gen(i, n, True, [One(val(P(i)))])]

    sorts = []

    def flatten_gen(self, segs):
        """Order-preserving enumeration of an irregular sequence as one Gen."""
        raise Unsupported('sorting an irregular sequence')

    # ------------------------------------------------------- library contracts
    def lib_math_modf(self, x):
        x = self.pick(x)
        x = real(x)
        if z3.is_rational_value(x):
            fr = x.as_fraction()
            w = int(fr)
            return (fr - w, Fraction(w))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return (z3.RealVal(0), x)
        whole = self.trunc(x)
        return (x - whole, whole)

    def trunc(self, x):
        return z3.ToReal(TRUNC(z3.simplify(x)))

    def lib_math_copysign(self, a, b):
        m = self.b_abs(a)
        if not is_z3(b) and not is_z3(m):
            import math
            return Fraction(m) if b >= 0 else -Fraction(m)
        return z3.If(real(b) >= 0, real(m), -real(m))

    def lib_math_log2(self, x):
        x = real(self.pick(x))
        if self.branch(x <= 0):
            raise PyExc('ValueError', ('math domain error',))
        f = z3.Function('log2', z3.RealSort(), z3.RealSort())
        return f(x)

    def lib_json_loads(self, x):
        return Term('json value', zs(x))

    def lib_math_isfinite(self, x):
        return True

    def lib_math_isnan(self, x):
        return False

    def lib_math_isinf(self, x):
        return False

    def lib_itertools_chain(self, *its):
        if any(isinstance(i, tuple) and len(i) == 2 and i[0] == '*segs' for i in its):
            return self.lib_itertools_chain_from_iterable(PIter(self, its[0][1]))
        out = []
        for i in its:
            out.extend(self.iter_segs(i, True))
        return PIter(self, out)

    def lib_itertools_chain_from_iterable(self, it):
        out = PList(self, [], 'list')

        def one(v):
            out.segs = out.segs + list(self.iter_segs(v, True))
        self.run_segs(self.iter_segs(it, True), one)
        return PIter(self, out.segs)

    def lib_itertools_islice(self, it, *a):
        it = self.pick(it)
        lo, hi, step = (None, a[0], None) if len(a) == 1 else (a + (None,))[:3]
        if lo is None and step is None:
            if not isinstance(it, PIter):
                it = PIter(self, self.iter_segs(it))
            segs = self.force(it)
            if hi is None:
                it.segs = []
                return PIter(self, segs)
            head, rest = self.take(segs, self.pick(hi))
            it.segs = rest
            return PIter(self, head)
        return PIter(self, self.slice(PList(self, self.iter_segs(it, True)), lo, hi, step).segs)

    def take(self, segs, c):
        """(first c elements, rest); branches where needed."""
        segs = list(segs)
        head = []
        k = as_int_const(c)
        while segs:
            s = segs[0]
            if isinstance(s, One):
                if k is None:
                    if not self.branch(zi(c) > len(head)):
                        return head, segs
                elif len(head) >= k:
                    return head, segs
                if self.branch(s.guard):
                    head.append(One(s.value))
                segs = segs[1:]
                continue
            break
        if not segs:
            return head, segs
        c = simp(zi(c) - len(head))
        g = self.single_gen(segs)
        if g is not None:
            ln = simp(zi(g.n) - zi(g.lo))
            if self.branch(c <= 0):
                return head, segs
            if self.branch(c <= ln):
                mid = simp(zi(g.lo) + c)
                return (head + [Gen(g.idx, mid, True, g.segs, g.lo)],
                        [Gen(g.idx, g.n, True, g.segs, mid)])
            return head + segs, []
        raise Unsupported('islice of irregular sequence')

    def lib_itertools_repeat(self, v, n=None):
        it = PIter(self, [])
        k = as_int_const(n) if n is not None else None
        if k is not None:
            return PIter(self, [One(v)] * k)
        if n is None:
            i = self.index()
            it.segs = None
            it.thunk = None
            it.forever = v
            return it
        i = self.index()
        return PIter(self, [Gen(i, n, True, [One(v)])])

    def lib_itertools_count(self, start=0, step=1):
        raise Unsupported('itertools.count')

    def lib_itertools_compress(self, data, sel):
        z = self.b_zip(data, sel)
        out = PList(self, [], 'list')

        def one(t):
            if self.truth(t[1]):
                out.segs = out.segs + [One(t[0])]
        self.run_segs(z.segs, one)
        return PIter(self, out.segs)

    def lib_itertools_zip_longest(self, *its, fillvalue=None):
        # grouper idiom: several references to one iterator
        if len(its) > 1 and all(i is its[0] for i in its) and isinstance(its[0], PIter):
            segs = self.iter_segs(its[0], True)
            w = len(its)
            if self.all_ones(segs):
                vals = [s.value for s in segs]
                out = []
                for p in range(0, len(vals), w):
                    ch = vals[p:p + w]
                    ch += [fillvalue] * (w - len(ch))
                    out.append(One(tuple(ch)))
                return PIter(self, out)
            g = self.single_gen(segs)
            if g is None:
                raise Unsupported('grouping an irregular sequence')
            n = simp(zi(g.n) - zi(g.lo))
            words = simp((n + (w - 1)) / w)
            i = self.index()
            vals = []
            for k in range(w):
                pos = simp(i * w + k)
                v = subst(g.segs[0].value, [(g.idx, simp(pos + zi(g.lo)))], self)
                vals.append(self.ite(pos < n, v, fillvalue))
            return PIter(self, [Gen(i, words, True, [One(tuple(vals))])])
        lists = [self.iter_segs(i, True) for i in its]
        if all(self.all_ones(l) for l in lists):
            m = max([len(l) for l in lists] or [0])
            return PIter(self, [One(tuple(l[k].value if k < len(l) else fillvalue for l in lists))
                                for k in range(m)])
        gens = [self.single_gen(l) if l else None for l in lists]
        if all(g is not None for g in gens):
            i = self.index()
            lens = [self.length([g]) for g in gens]
            n = zi(lens[0])
            for x in lens[1:]:
                n = z3.If(n >= x, n, zi(x))
            n = simp(n)
            same = all(zi(ln).eq(zi(lens[0])) for ln in lens)
            vals = tuple(self.ite(True if same else i < zi(ln), subst(g.segs[0].value, [(g.idx, simp(i + zi(g.lo)))], self),
                                  fillvalue) for g, ln in zip(gens, lens))
            if same:
                return PIter(self, [Gen(i, zi(lens[0]), True, [One(vals)])])
            return PIter(self, [Gen(i, n, True, [One(vals)])])
        raise Unsupported('zip_longest over irregular sequences')

    def lib_itertools_groupby(self, it, key=None):
        segs = self.iter_segs(it, True)
        if self.all_ones(segs):
            groups = []
            for s in segs:
                k = self.call(key, [s.value]) if key is not None else s.value
                if groups and self.branch(simp(zbool(self.eq(groups[-1][0], k)))):
                    groups[-1][1].append(One(s.value))
                else:
                    groups.append((k, [One(s.value)]))
            return PIter(self, [One((k, PIter(self, g))) for k, g in groups])
        raise Unsupported('groupby over symbolic sequence')

    def lib_itertools_combinations(self, it, r):
        import itertools
        segs = self.iter_segs(it, True)
        if not self.all_ones(segs):
            raise Unsupported('combinations of symbolic sequence')
        return PIter(self, [One(t) for t in itertools.combinations([s.value for s in segs], r)])

    def lib_itertools_product(self, *its, repeat=1):
        import itertools
        lists = [self.iter_segs(i, True) for i in its] * repeat
        if not all(self.all_ones(l) for l in lists):
            raise Unsupported('product of symbolic sequence')
        return PIter(self, [One(t) for t in itertools.product(*[[s.value for s in l] for l in lists])])

    def lib_collections_defaultdict(self, factory=None, *a):
        d = PDict(self, [])
        if isinstance(factory, Builtin) and factory.name == 'float':
            d.default = lambda m: z3.RealVal(0)
        elif isinstance(factory, Builtin) and factory.name == 'int':
            d.default = lambda m: z3.IntVal(0)
        elif factory is None:
            d.default = None
        else:
            d.default = lambda m: m.call(factory, [])
        return d

    def lib_collections_Counter(self, *a, **kw):
        d = PDict(self, [One(('set', k, v)) for k, v in kw.items()])
        d.default = lambda m: z3.IntVal(0)
        if a:
            for s in self.iter_segs(a[0], True):
                d.log.append(map_seg(s, lambda v: ('acc', v, 1)))
        return d

    def lib_collections_OrderedDict(self, *a, **kw):
        return self.b_dict(*a, **kw)

    def lib_collections_deque(self, v=(), maxlen=None):
        segs = self.iter_segs(v, True)
        if as_int_const(maxlen) == 0:
            return PList(self, [], 'list')
        if maxlen is None:
            return PList(self, segs, 'list')
        raise Unsupported('bounded deque')

    def lib_operator_itemgetter(self, *ks):
        if len(ks) == 1:
            return lambda m, x: m.getitem(x, ks[0])
        return lambda m, x: tuple(m.getitem(x, k) for k in ks)

    def lib_dataclasses_replace(self, o, **kw):
        o = self.pick(o)
        r = Rec(self, o.cls, dict(o.fields), o.tag)
        for k, v in kw.items():
            if k not in r.fields:
                raise PyExc('TypeError', (k,))
            r.fields[k] = v
        meth = self.find_method(o.cls, '__post_init__')
        if meth:
            self.call_method(r, meth, [], {})
        return r

    def lib_dataclasses_astuple(self, o):
        return tuple(self.pick(o).fields.values())

    def lib_copy_copy(self, o):
        return self.clone(self.pick(o))

    def clone(self, o):
        if isinstance(o, PList):
            return PList(self, list(o.segs), o.kind)
        if isinstance(o, PDict):
            return PDict(self, list(o.log), o.default)
        if isinstance(o, Rec):
            return Rec(self, o.cls, dict(o.fields), o.tag)
        return o

    def lib_array_array(self, typecode, v=()):
        if typecode not in ('q', 'l', 'Q', 'L'):
            raise Unsupported('array of another type')
        return PList(self, self.iter_segs(v, True), 'list')     # 64-bit ids

    def lib_contextlib_nullcontext(self, value=None):
        return ('cm', lambda m, inner: inner(value))

    def lib_contextlib_closing(self, thing):
        def block(m, inner):
            try:
                inner(thing)
            finally:
                m.call(m.getattr(thing, 'close'), [])
        return ('cm', block)

    def lib_logging_getLogger(self, *a):
        return LoggerModel()

    def lib_warnings_warn(self, *a, **k):
        return None

    def lib_textwrap_dedent(self, s):
        return s

    # ----------------------------------------------------------- type methods
    def cls_dict_fromkeys(self, it, v=None):
        segs = self.iter_segs(it, True)
        return PDict(self, [map_seg(s, lambda k: ('set', k, v)) for s in segs])

    def cls_int_from_bytes(self, b, byteorder='big', signed=False):
        b = self.pick(b)
        if isinstance(b, bytes):
            return int.from_bytes(b, byteorder, signed=signed)
        raise Unsupported('int.from_bytes')

    def call_type_method(self, o, name, args, kwargs):
        if is_string(o):
            h = getattr(self, 's_' + name, None)
        elif isinstance(o, PDict):
            h = getattr(self, 'd_' + name, None)
        elif isinstance(o, PList) and o.kind in ('set', 'frozenset'):
            h = getattr(self, 'set_' + name, None)
        elif isinstance(o, PList) and o.kind == 'bytes' or isinstance(o, bytes):
            h = getattr(self, 'by_' + name, None)
        elif isinstance(o, PList):
            h = getattr(self, 'l_' + name, None)
        elif isinstance(o, tuple):
            h = getattr(self, 't_' + name, None)
        elif isinstance(o, PIter):
            if name == '__next__':
                return self.b_next(o)
            if name in ('close',):
                o.segs = []
                o.thunk = None
                return None
            h = None
        elif is_num(o):
            h = getattr(self, 'n_' + name, None)
        else:
            h = None
        if h is None:
            raise Unsupported(f'method {name} of {type(o).__name__}')
        return h(o, *args, **kwargs)

    # numbers
    def n_to_bytes(self, o, length=1, byteorder='big', signed=False):
        n = as_int_const(length)
        k = as_int_const(o)
        if k is not None:
            try:
                return k.to_bytes(n, byteorder, signed=bool(signed))
            except OverflowError:
                raise PyExc('OverflowError')
        lo, hi = (0, 1 << (8 * n)) if not signed else (-(1 << (8 * n - 1)), 1 << (8 * n - 1))
        if not self.branch(z3.And(zi(o) >= lo, zi(o) < hi)):
            raise PyExc('OverflowError', ('int too big to convert',))
        v = zi(o)
        parts = [simp((v / (1 << (8 * (n - 1 - k)))) % 256) if n > 1 else v for k in range(n)]
        if byteorder != 'big':
            parts.reverse()
        r = PList(self, [One(p) for p in parts], 'bytes')
        r.intval = v
        return r

    def n_is_integer(self, o):
        if not is_z3(o):
            return float(o).is_integer()
        if z3.is_int(o):
            return True
        return z3.IsInt(o)

    # bytes
    def by_join(self, o, it):
        out = []
        for s in self.iter_segs(it, True):
            out.extend(self.bytes_segs(s))
        return PList(self, out, 'bytes')

    def bytes_segs(self, s):
        if isinstance(s, One):
            v = s.value
            inner = [One(b) for b in v] if isinstance(v, bytes) else list(v.segs)
            if s.guard is True:
                return inner
            return [One(x.value, And(s.guard, x.guard)) if isinstance(x, One)
                    else Gen(x.idx, x.n, And(s.guard, x.guard), x.segs, x.lo) for x in inner]
        inner = []
        for x in s.segs:
            inner.extend(self.bytes_segs(x))
        return [Gen(s.idx, s.n, s.guard, inner, s.lo)]

    def by_rstrip(self, o, ch=None):
        if isinstance(o, bytes):
            return o.rstrip(ch)
        if ch != b'\x00':
            raise Unsupported('rstrip')
        segs = o.segs
        if self.all_ones(segs):
            k = len(segs)
            while k > 0:
                if self.branch(simp(zbool(self.eq(segs[k - 1].value, 0)))):
                    k -= 1
                else:
                    break
            return PList(self, segs[:k], 'bytes')
        g = self.single_gen(segs)
        if g is None:
            raise Unsupported('rstrip of irregular bytes')
        m = self.int('stripped')
        if z3.is_const(m):
            self.idx_names[m.decl().name()] = m
        n = simp(zi(g.n) - zi(g.lo))
        self.assume(And(m >= 0, Or(m <= n, And(n < 0, m == 0))))
        i = self.index()
        val = lambda x: subst(g.segs[0].value, [(g.idx, simp(x + zi(g.lo)))], self)
        self.assume_forall([i], Implies(And(m <= i, i < n), val(i) == 0))
        self.assume(Implies(m > 0, val(m - 1) != 0))
        self.strips.append((m, n, val))
        return PList(self, [Gen(g.idx, simp(m + zi(g.lo)), True, g.segs, g.lo)], 'bytes')

    strips = []

    def by_decode(self, o, *a):
        if isinstance(o, bytes):
            return o.decode(*a)
        raise Unsupported('bytes.decode')

    # tuples
    def t_index(self, o, v):
        return self.l_index(PList(self, [One(x) for x in o], 'tuple'), v)

    def t_count(self, o, v):
        return self.l_count(PList(self, [One(x) for x in o], 'tuple'), v)

    # lists
    def l_append(self, o, v):
        o.segs = o.segs + [One(v)]

    def l_extend(self, o, it):
        o.segs = o.segs + list(self.iter_segs(it, True))

    def l_insert(self, o, k, v):
        kc = as_int_const(k)
        if kc == 0:
            o.segs = [One(v)] + o.segs
            return
        if self.all_ones(o.segs):
            n = len(o.segs)
            if kc is not None:
                segs = list(o.segs)
                segs.insert(kc, One(v))
                o.segs = segs
                return
            # branch on the position (python clamps)
            for p in range(n):
                c = zi(k) == p if p > 0 else z3.Or(zi(k) == 0, zi(k) <= -n)
                neg = zi(k) == p - n if p > 0 else False
                if self.branch(simp(Or(c, neg))):
                    segs = list(o.segs)
                    segs.insert(p, One(v))
                    o.segs = segs
                    return
            o.segs = o.segs + [One(v)]
            return
        g = self.single_gen(o.segs)
        if g is not None:
            n = simp(zi(g.n) - zi(g.lo))
            kk = zi(k)
            if not self.quick_valid(kk >= 0):
                kk = z3.If(kk < 0, z3.If(n + kk < 0, z3.IntVal(0), n + kk), kk)
            if not self.quick_valid(kk <= n):
                kk = z3.If(kk > n, n, kk)
            mid = simp(kk + zi(g.lo))
            o.segs = [Gen(g.idx, mid, True, g.segs, g.lo), One(v), Gen(g.idx, g.n, True, g.segs, mid)]
            return
        if self.regular(o.segs) is not None:
            segs = list(o.segs)
            n = zi(self.length(segs))
            kk = zi(k)
            kk = z3.If(kk < 0, z3.If(n + kk < 0, z3.IntVal(0), n + kk), z3.If(kk > n, n, kk))
            o.segs = self.by_position(simp(n + 1), lambda i: self.ite(i == kk, v, self.elem(segs, z3.If(i < kk, i, i - 1))))
            return
        raise Unsupported('list.insert')

    def l_pop(self, o, k=None):
        kc = -1 if k is None else as_int_const(k)
        segs = list(o.segs)
        if kc == 0:
            try:
                v, rest = self.first_of(segs)
            except PyExc as e:
                raise PyExc('IndexError', ('pop from empty list',))
            o.segs = list(rest)
            return v
        if kc is not None and self.all_ones(segs):
            try:
                v = segs.pop(kc)
            except IndexError:
                raise PyExc('IndexError', ('pop',))
            o.segs = segs
            return v.value
        if kc == -1 and segs and isinstance(segs[-1], One) and segs[-1].guard is True:
            v = segs.pop()
            o.segs = segs
            return v.value
        if kc == -1 and self.single_gen(segs) is not None:
            g = segs[0]
            if self.branch(zi(g.n) > zi(g.lo)):
                last = simp(zi(g.n) - 1)
                o.segs = [Gen(g.idx, last, True, g.segs, g.lo)]
                return subst(g.segs[0].value, [(g.idx, last)], self)
            raise PyExc('IndexError', ('pop from empty list',))
        if k is not None and self.all_ones(segs):
            for p in range(len(segs)):
                if self.branch(simp(z3.Or(zi(k) == p, zi(k) == p - len(segs)))):
                    v = segs.pop(p)
                    o.segs = segs
                    return v.value
            raise PyExc('IndexError', ('pop',))
        if self.regular(segs) is not None:
            n = zi(self.length(segs))
            kk = zi(k if k is not None else -1)
            if not self.quick_valid(kk >= 0):
                kk = simp(z3.If(kk < 0, kk + n, kk))
            if not self.branch(And(kk >= 0, kk < n)):
                raise PyExc('IndexError', ('pop',))
            out = self.elem(segs, kk)
            o.segs = self.by_position(simp(n - 1), lambda i: self.elem(segs, z3.If(i < kk, i, i + 1)))
            return out
        raise Unsupported('list.pop')

    def l_remove(self, o, v):
        segs = list(o.segs)
        if self.all_ones(segs):
            for p, s in enumerate(segs):
                if self.branch(simp(zbool(self.eq(s.value, v)))):
                    del segs[p]
                    o.segs = segs
                    return
            raise PyExc('ValueError', ('list.remove(x): x not in list',))
        g = self.single_gen(segs)
        if g is not None:
            c = self.exists(segs, lambda x: self.eq(x, v))
            if self.branch(c):
                j = self.fresh('rm', z3.IntSort())
                if z3.is_const(j):
                    self.idx_names[j.decl().name()] = j
                val = g.segs[0].value
                self.assume(And(zi(g.lo) <= j, j < zi(g.n)))
                self.assume(subst(self.eq(val, v), [(g.idx, j)], self))
                self.assume_forall([g.idx], Implies(And(zi(g.lo) <= g.idx, g.idx < j), Not(self.eq(val, v))))
                o.segs = [Gen(g.idx, j, True, g.segs, g.lo), Gen(g.idx, g.n, True, g.segs, simp(j + 1))]
                return
            raise PyExc('ValueError', ('list.remove(x): x not in list',))
        raise Unsupported('list.remove')

    def l_index(self, o, v, *a):
        segs = o.segs
        if self.all_ones(segs):
            for p, s in enumerate(segs):
                if self.branch(simp(zbool(self.eq(s.value, v)))):
                    return p
            raise PyExc('ValueError', ('not in list',))
        g = self.single_gen(segs)
        if g is not None:
            if self.branch(self.exists(segs, lambda x: self.eq(x, v))):
                j = self.fresh('pos', z3.IntSort())
                if z3.is_const(j):
                    self.idx_names[j.decl().name()] = j
                val = g.segs[0].value
                self.assume(And(zi(g.lo) <= j, j < zi(g.n)))
                self.assume(subst(self.eq(val, v), [(g.idx, j)], self))
                self.assume_forall([g.idx], Implies(And(zi(g.lo) <= g.idx, g.idx < j), Not(self.eq(val, v))))
                return simp(j - zi(g.lo))
            raise PyExc('ValueError', ('not in list',))
        raise Unsupported('list.index')

    def l_count(self, o, v):
        r = self.seg_sum(o.segs, lambda x: If(self.eq(x, v), z3.RealVal(1), z3.RealVal(0)))
        return to_int_exact(r)

    def l_sort(self, o, key=None, reverse=False):
        o.segs = self.sort_segs(list(o.segs), key, reverse)

    def l_reverse(self, o):
        o.segs = self.reverse(o.segs)

    def l_copy(self, o):
        return PList(self, list(o.segs), o.kind)

    def l_clear(self, o):
        o.segs = []

    l_appendleft = lambda self, o, v: self.l_insert(o, 0, v)
    l_popleft = lambda self, o: self.l_pop(o, 0)

    # sets
    def set_add(self, o, v):
        o.segs = o.segs + [One(v)]

    def set_update(self, o, *its):
        for it in its:
            it = self.pick(it)
            o.segs = o.segs + list(it.segs if isinstance(it, PList) else self.iter_segs(it, True))

    def set_union(self, o, *its):
        r = PList(self, list(o.segs), o.kind)
        self.set_update(r, *its)
        return r

    def set_intersection(self, o, *its):
        return self.set_op('intersection', o, [self.aslist(i) for i in its])

    def set_difference(self, o, *its):
        return self.set_op('difference', o, [self.aslist(i) for i in its])

    def set_symmetric_difference(self, o, it):
        return self.set_op('symmetric_difference', o, [self.aslist(it)])

    def aslist(self, i):
        i = self.pick(i)
        return i if isinstance(i, PList) else PList(self, self.iter_segs(i, True), 'list')

    def set_difference_update(self, o, *its):
        o.segs = self.set_difference(o, *its).segs

    def set_intersection_update(self, o, *its):
        o.segs = self.set_intersection(o, *its).segs

    def set_discard(self, o, v):
        o.segs = [filter_seg(s, lambda x: Not(self.eq(x, v))) for s in o.segs]

    def set_remove(self, o, v):
        if not self.branch(simp(zbool(self.exists(o.segs, lambda x: self.eq(x, v))))):
            raise PyExc('KeyError', (v,))
        self.set_discard(o, v)

    def set_issubset(self, o, it):
        segs = self.aslist(it).segs
        return self.forall(o.segs, lambda v: self.exists(segs, lambda w: self.eq(v, w)))

    def set_issuperset(self, o, it):
        segs = self.aslist(it).segs
        return self.forall(segs, lambda v: self.exists(o.segs, lambda w: self.eq(v, w)))

    def set_isdisjoint(self, o, it):
        segs = self.aslist(it).segs
        return Not(self.exists(o.segs, lambda v: self.exists(segs, lambda w: self.eq(v, w))))

    def set_copy(self, o):
        return PList(self, list(o.segs), o.kind)

    def set_pop(self, o):
        v, rest = self.first_of(self.enum_set(o))
        o.segs = list(rest)
        return v

    def set_clear(self, o):
        o.segs = []

    # dicts
    def d_get(self, o, k, default=None):
        saved = o.default
        if not any(isinstance(s, Marker) for s in o.log) and all(set(seg_ops([s])) == {'set'} for s in o.log):
            o.default = None
            try:
                return self.dict_get(o, k, lambda: default)
            finally:
                o.default = saved
        if saved is not None and is_z3(default if not isinstance(default, (int, float)) else real(default)) \
                and self.quick_valid(real(default) == real(saved(self))):
            return self.dict_get(o, k, lambda: default)
        if saved is None and isinstance(default, (int, float)) and any(isinstance(s, Marker) for s in o.log):
            # d[k] = d.get(k, 0) + x : behaves as an accumulating dict
            o.default = (lambda m: z3.RealVal(0)) if isinstance(default, float) or not self.acc_int \
                else (lambda m: z3.IntVal(0))
            if default != 0:
                raise Unsupported('dict.get with non-zero default in loop')
            return self.dict_get(o, k, lambda: default)
        return self.dict_get(o, k, lambda: default)

    acc_int = False

    def d_items(self, o):
        return PList(self, self.dict_items(o), 'list')

    def d_keys(self, o):
        r = PList(self, [map_seg(s, lambda kv: kv[0]) for s in self.dict_items(o)], 'set')
        r.distinct = True
        return r

    def d_values(self, o):
        return PList(self, [map_seg(s, lambda kv: kv[1]) for s in self.dict_items(o)], 'list')

    def d_copy(self, o):
        return PDict(self, list(o.log), o.default)

    def d_update(self, o, v=None, **kw):
        r = self.b_dict(v, **kw)
        o.log = o.log + r.log

    def d_setdefault(self, o, k, v=None):
        if any(isinstance(s, Marker) for s in o.log):
            raise Unsupported('setdefault in summarised loop')
        has = self.dict_has(o, k)
        if self.branch(simp(zbool(has))):
            return self.dict_get(o, k, lambda: v)
        o.log = o.log + [One(('set', k, v))]
        return v

    def d_pop(self, o, k, *default):
        if not self.all_ones(o.log):
            raise Unsupported('dict.pop')
        items = self.dict_items(o)
        for p, s in enumerate(items):
            if self.branch(simp(zbool(self.eq(s.value[0], k)))):
                o.log = [One(('set',) + t.value) for q, t in enumerate(items) if q != p]
                return s.value[1]
        if default:
            return default[0]
        raise PyExc('KeyError', (k,))

    def d_clear(self, o):
        o.log = []

    # strings
    def sbin(self, o, args, f):
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
            return f(o, *args)
        return None

    def s_startswith(self, o, p):
        p = self.pick(p)
        if isinstance(p, tuple):
            return Or(*[self.s_startswith(o, x) for x in p])
        if isinstance(o, str) and isinstance(p, str):
            return o.startswith(p)
        return z3.PrefixOf(zs(p), zs(o))

    def s_endswith(self, o, p):
        p = self.pick(p)
        if isinstance(p, tuple):
            return Or(*[self.s_endswith(o, x) for x in p])
        if isinstance(o, str) and isinstance(p, str):
            return o.endswith(p)
        return z3.SuffixOf(zs(p), zs(o))

    def s_upper(self, o):
        return o.upper() if isinstance(o, str) else z3.Function('str_upper', Str, Str)(o)

    def s_lower(self, o):
        return o.lower() if isinstance(o, str) else z3.Function('str_lower', Str, Str)(o)

    def s_casefold(self, o):
        return o.casefold() if isinstance(o, str) else z3.Function('str_casefold', Str, Str)(o)

    def s_strip(self, o, *a):
        if isinstance(o, str):
            return o.strip(*a)
        return z3.Function('str_strip' + ('_' + repr(a[0]) if a else ''), Str, Str)(o)

    def s_rstrip(self, o, *a):
        if isinstance(o, str):
            return o.rstrip(*a)
        return z3.Function('str_rstrip' + ('_' + repr(a[0]) if a else ''), Str, Str)(o)

    def s_lstrip(self, o, *a):
        if isinstance(o, str):
            return o.lstrip(*a)
        return z3.Function('str_lstrip' + ('_' + repr(a[0]) if a else ''), Str, Str)(o)

    def s_title(self, o):
        return o.title() if isinstance(o, str) else z3.Function('str_title', Str, Str)(o)

    def s_replace(self, o, a, b, count=-1):
        if count != -1:
            raise Unsupported('str.replace with a count')
        if isinstance(o, str) and isinstance(a, str) and isinstance(b, str):
            return o.replace(a, b)
        return replace_all(zs(o), zs(a), zs(b))

    def s_find(self, o, x, lo=0):
        if isinstance(o, str) and isinstance(x, str):
            return o.find(x, lo)
        return z3.IndexOf(zs(o), zs(x), zi(lo))

    def s_join(self, o, it):
        segs = self.iter_segs(it, True)
        if self.all_ones(segs):
            out = ''
            for k, s in enumerate(segs):
                v = s.value
                if not is_string(v):
                    raise PyExc('TypeError', ('sequence item: expected str',))
                if k:
                    out = self.binop(ast.Add(), out, o)
                out = self.binop(ast.Add(), out, v)
            return out
        return z3.String(f'join!{next(self.uid)}')

    def s_format(self, o, *a, **k):
        if isinstance(o, str):
            auto, parts = iter(range(len(a))), []
            try:
                fields = list(string.Formatter().parse(o))
            except ValueError:
                raise PyExc('ValueError', ('format string',))
            for text, name, spec, conv in fields:
                parts.append(text)
                if name is None:
                    continue
                key = next(auto, None) if name == '' else int(name) if name.isdigit() else name
                if conv or '{' in spec or key is None or (key not in k if isinstance(key, str) else key >= len(a)):
                    break
                parts.append(self.format_of(k[key] if isinstance(key, str) else a[key], spec))
            else:
                return self.concat(parts)
        return z3.String(f'fmt!{next(self.uid)}')

    def s_isidentifier(self, o):
        return o.isidentifier() if isinstance(o, str) else z3.Function('isidentifier', Str, z3.BoolSort())(o)

    def s_isdigit(self, o):
        return o.isdigit() if isinstance(o, str) else z3.Function('isdigit', Str, z3.BoolSort())(o)

    def s_isspace(self, o):
        return o.isspace() if isinstance(o, str) else z3.Function('isspace', Str, z3.BoolSort())(o)

    def s_split(self, o, *a):
        if not a and is_z3(o):
            # the words of a text, uninterpreted
            n = z3.Function('str_word_count', z3.StringSort(), z3.IntSort())(o)
            self.assume(n >= 0)
            i = self.index()
            return PList(self, [Gen(i, n, True, [One(z3.Function('str_word', z3.StringSort(), z3.IntSort(), z3.StringSort())(o, i))])], 'list')
        if isinstance(o, str):
            return PList(self, [One(x) for x in o.split(*a)])
        raise Unsupported('str.split')

    def s_partition(self, o, sep):
        if isinstance(o, str) and isinstance(sep, str):
            return o.partition(sep)
        s, p = zs(o), zs(sep)
        k = z3.IndexOf(s, p, 0)
        if self.branch(z3.Contains(s, p)):
            return (z3.SubString(s, 0, k), p, z3.SubString(s, k + z3.Length(p), z3.Length(s)))
        return (s, '', '')

    def s_encode(self, o, *a, **k):
        if isinstance(o, str):
            try:
                return o.encode(*a, **k)
            except UnicodeError:
                raise PyExc('UnicodeError')
        if not a or str(a[0]).lower().replace('-', '') == 'utf8':
            if (a[1] if len(a) > 1 else k.get('errors', 'strict')) == 'strict' and self.branch(z3.Function('has_surrogate', Str, z3.BoolSort())(o)):
                raise PyExc('UnicodeEncodeError')
        return EncodedStr(o)

    def s_count(self, o, x):
        if isinstance(o, str) and isinstance(x, str):
            return o.count(x)
        raise Unsupported('str.count')

    def s_ljust(self, o, *a):
        return z3.String(f'fmt!{next(self.uid)}')

    s_rjust = s_ljust
    s_center = s_ljust


class EncodedStr(Model):
    """bytes of a symbolic string; identified with the string itself."""
    pytypes = ('bytes',)

    def __init__(self, s):
        self.s = s


class LoggerModel(Model):
    name = 'logger'

    def call(self, m, name, args, kwargs):
        return None

    def getattr(self, m, name):
        return lambda m, *a, **k: None


class Repeat:
    pass


def replace_all(s, a, b):
    """str.replace_all through the SMT-LIB operator."""
    ctx = s.ctx_ref()
    if hasattr(z3, 'Z3_mk_seq_replace_all'):
        return z3.SeqRef(z3.Z3_mk_seq_replace_all(ctx, s.as_ast(), a.as_ast(), b.as_ast()), s.ctx)
    f = z3.Function('str_replace_all', Str, Str, Str, Str)
    return f(s, a, b)
