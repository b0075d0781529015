"""Expressions, built-in types and library contracts of the verified subset."""
import ast
import builtins
import re
import z3
from .values import *
from .source import class_member
from .machine import EXC_BASES, int_args

UNDEF = object()

ORD = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

BUILTINS = {
    'len', 'sum', 'min', 'max', 'abs', 'sorted', 'reversed', 'any', 'all', 'zip', 'enumerate',
    'range', 'iter', 'next', 'list', 'tuple', 'set', 'frozenset', 'dict', 'isinstance', 'int',
    'float', 'str', 'bool', 'bytes', 'repr', 'callable', 'hash', 'type', 'print', 'map', 'filter',
    'getattr', 'hasattr', 'super', 'object', 'open', 'round', 'id', 'ord', 'chr', 'divmod', 'slice',
}

TYPE_NAMES = {'list', 'tuple', 'set', 'frozenset', 'dict', 'int', 'float', 'str', 'bool', 'bytes',
              'object', 'type', 'slice'}

ABC = {
    'Iterable': {'list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'bytes', 'iterator'},
    'Sequence': {'list', 'tuple', 'str', 'bytes'},
    'Collection': {'list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'bytes'},
    'Mapping': {'dict'}, 'Iterator': {'iterator'}, 'Callable': {'function'},
    'Generator': {'iterator'}, 'Hashable': {'int', 'str', 'float', 'bool', 'NoneType', 'tuple'},
}


def simp(x):
    return z3.simplify(x) if is_z3(x) else x


def as_int_const(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if is_z3(x) and z3.is_int(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return None


def as_str_const(x):
    if isinstance(x, str):
        return x
    if is_z3(x) and z3.is_string(x):
        x = z3.simplify(x)
        if z3.is_string_value(x):
            return zstr_value(x)
    return None


def zstr_value(x):
    import re
    s = x.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def zs(x):
    if isinstance(x, str):
        return z3.StringVal(x)
    return x


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or \
        (is_z3(x) and (z3.is_int(x) or z3.is_real(x) or z3.is_bool(x)))


def is_string(x):
    return isinstance(x, str) or (is_z3(x) and z3.is_string(x))


def is_bv(x):
    return is_z3(x) and z3.is_bv(x)


BVW = 192


class Eval:
    """Mixin with the expression semantics."""

    # ---------------------------------------------------------------- helpers
    def pick(self, v):
        """Resolve merged values by branching."""
        while True:
            if isinstance(v, Opt):
                if self.branch(v.none):
                    return None
                v = v.val
            elif isinstance(v, Choice):
                for g, x in v.alts[:-1]:
                    if self.branch(g):
                        v = x
                        break
                else:
                    g, x = v.alts[-1]
                    v = x
            elif isinstance(v, Poison):
                v = self.resolve_poison(v)
            elif v is UNDEF:
                raise PyExc('NameError', ('unbound',))
            else:
                return v

    def resolve_poison(self, v):
        if isinstance(v, Poison):
            if v.resolve is None:
                raise Unsupported(v.why)
            return v.resolve()
        return v

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        c = simp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if same_value(a, b):
            return a
        if is_num(a) and is_num(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return z3.If(c, z3.BoolVal(a), z3.BoolVal(b))
            if is_z3(a) and z3.is_bool(a) and (isinstance(b, bool) or z3.is_bool(b) if is_z3(b) else isinstance(b, bool)):
                return z3.If(c, a, zbool(b))
            if is_z3(b) and z3.is_bool(b) and isinstance(a, bool):
                return z3.If(c, zbool(a), b)
            ai = isinstance(a, int) or (is_z3(a) and z3.is_int(a))
            bi = isinstance(b, int) or (is_z3(b) and z3.is_int(b))
            if ai and bi:
                return z3.If(c, zi(a), zi(b))
            return z3.If(c, real(a), real(b))
        if is_string(a) and is_string(b):
            return z3.If(c, zs(a), zs(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and set(a.fields) == set(b.fields):
            return Rec(self, a.cls, {k: self.ite(c, x, b.fields[k]) for k, x in a.fields.items()}, a.tag)
        if a is None and isinstance(b, Opt):
            return Opt(Or(c, b.none), b.val)
        if b is None and isinstance(a, Opt):
            return Opt(Or(Not(c), a.none), a.val)
        if isinstance(a, Opt) and not isinstance(b, (Opt, Choice)) and b is not None:
            return Opt(And(c, a.none), self.ite(c, a.val, b))
        if isinstance(b, Opt) and not isinstance(a, (Opt, Choice)) and a is not None:
            return Opt(And(Not(c), b.none), self.ite(c, a, b.val))
        if isinstance(a, Opt) and isinstance(b, Opt):
            return Opt(If(c, a.none, b.none) if is_z3(a.none) and is_z3(b.none) else
                       Or(And(c, a.none), And(Not(c), b.none)), self.ite(c, a.val, b.val))
        if a is None and b is not None:
            return Opt(c, b)
        if b is None and a is not None:
            return Opt(z3.Not(c), a)
        return Choice([(c, a), (z3.Not(c), b)])

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def truth_term(self, v):
        v0 = v
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, Fraction)):
            return bool(v)
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v) or z3.is_real(v):
                return v != 0
            if z3.is_string(v):
                return v != z3.StringVal('')
            if z3.is_bv(v):
                return v != 0
            raise Unsupported('truth')
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Opt):
            return And(Not(v.none), self.truth_term(v.val))
        if isinstance(v, Choice):
            return Or(*[And(g, self.truth_term(x)) for g, x in v.alts])
        if isinstance(v, Poison):
            return self.truth_term(self.resolve_poison(v))
        if isinstance(v, PList):
            return self.nonempty(v.segs)
        if isinstance(v, PDict):
            return self.nonempty(v.log)
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__bool__')
            if meth:
                return self.truth_term(self.call_method(v, meth, [], {}))
            meth = self.find_method(v.cls, '__len__')
            if meth:
                return self.truth_term(self.call_method(v, meth, [], {}))
            return True
        if isinstance(v, Model):
            if hasattr(v, 'truth'):
                return v.truth(self)
            return True
        if isinstance(v, (Func, Builtin, ClassRef, PIter, Opaque, Rec, ModRef)):
            if isinstance(v, Opaque):
                t = getattr(v, 'truthy', None)
                if t is not None:
                    return t
                raise Unsupported(f'truth of opaque {v.name}')
            return True
        if callable(v):
            return True
        raise Unsupported(f'truth of {v0!r}')

    def nonempty(self, segs):
        segs = self.flat_ones(segs)
        parts = []
        for s in segs:
            if isinstance(s, Marker):
                raise Unsupported('emptiness of loop-carried container')
            if isinstance(s, One):
                if s.guard is True:
                    return True
                parts.append(s.guard)
            else:
                c = self.length([s])
                parts.append(c > 0)
        return Or(*parts)

    def flat_ones(self, segs):
        return segs

    def length(self, segs):
        """Number of elements as an int or z3 Int term."""
        tot = 0
        rtot = None
        for s in segs:
            if isinstance(s, Marker):
                raise Unsupported('length of loop-carried container')
            if isinstance(s, One):
                if s.guard is True:
                    tot += 1
                else:
                    t = z3.If(s.guard, z3.IntVal(1), z3.IntVal(0))
                    rtot = t if rtot is None else rtot + t
            else:
                inner = self.length(s.segs)
                body = If(s.guard, real(inner), z3.RealVal(0))
                r = self.gen_sum(s, body)
                t = to_int_exact(r)
                rtot = t if rtot is None else rtot + t
        if rtot is None:
            return tot
        return simp(rtot + tot) if tot else simp(rtot)

    def gen_sum(self, s, body):
        """sum over lo<=idx<n of body; n<lo counts as empty."""
        lo = s.lo if is_z3(s.lo) else z3.IntVal(s.lo)
        n = s.n if is_z3(s.n) else z3.IntVal(s.n)
        if not (z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0):
            if not self.quick_valid(n >= lo):
                n = z3.If(n >= lo, n, lo)
        elif not self.quick_valid(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return self.SUMR(s.idx, lo, n, body)

    def seg_sum(self, segs, f):
        """sum of f(value) over all elements (real)."""
        tot = z3.RealVal(0)
        for s in segs:
            if isinstance(s, Marker):
                raise Unsupported('sum over loop-carried container')
            if isinstance(s, One):
                tot = tot + If(s.guard, real(f(s.value)), z3.RealVal(0))
            else:
                inner = self.seg_sum(s.segs, f)
                tot = tot + self.gen_sum(s, If(s.guard, inner, z3.RealVal(0)))
        return simp(tot)

    def list_read(self, marker, pred):
        """Membership in what earlier iterations put into a container: a
        symbol, replaced when the loop is summarised."""
        if marker.uid not in self.own_markers:
            raise Unsupported('membership in loop-carried container')
        c = z3.Bool(f'lm!{next(self.uid)}')
        self.list_reads.append((marker.uid, c, pred))
        return c

    list_reads = []

    def indicator(self, total, idx, lo, n, p):
        """A count of the indices lo <= idx < n with p; remembered when its
        normal form is a combination of several sums."""
        apps = self.sums.apps([total])
        if (len(apps) > 1 or (apps and not is_app_of(total, apps))) and not isinstance(p, bool):
            self.composites[total.get_id()] = (total, {a.get_id() for a in apps}, idx, lo, n, p)
        return total

    def exists(self, segs, pred):
        """Bool: some element satisfies pred (pred -> bool/z3 Bool)."""
        parts = []
        for s in segs:
            if isinstance(s, Marker):
                parts.append(self.list_read(s, pred))
                continue
            if isinstance(s, One):
                parts.append(And(s.guard, pred(s.value)))
            else:
                p = And(s.guard, self.exists(s.segs, pred))
                p = simp(p)
                if p is False or (is_z3(p) and z3.is_false(p)):
                    continue
                parts.append(self.indicator(self.gen_sum(s, If(p, z3.RealVal(1), z3.RealVal(0))), s.idx, s.lo, s.n, p) > 0)
        return Or(*parts)

    def forall(self, segs, pred):
        return Not(self.exists(segs, lambda v: Not(pred(v))))

    def single_gen(self, segs):
        """Gen with one unguarded element per index, or None."""
        segs = [s for s in segs]
        if len(segs) != 1 or not isinstance(segs[0], Gen):
            return None
        g = segs[0]
        if g.guard is not True or len(g.segs) != 1 or not isinstance(g.segs[0], One) \
                or g.segs[0].guard is not True:
            return None
        return g

    def all_ones(self, segs):
        return all(isinstance(s, One) and s.guard is True for s in segs)

    def elem(self, segs, k):
        """k-th element (caller established 0<=k<length)."""
        g = self.single_gen(segs)
        if g is not None:
            return subst(g.segs[0].value, [(g.idx, simp(zi(k) + zi(g.lo)))], self)
        kc = as_int_const(k)
        if kc is not None and all(isinstance(s, One) for s in segs[:kc + 1]) and \
                all(s.guard is True for s in segs[:kc + 1]) and kc < len(segs):
            return segs[kc].value
        if self.all_ones(segs):
            out = segs[-1].value
            for j in range(len(segs) - 2, -1, -1):
                out = self.ite(zi(k) == j, segs[j].value, out)
            return out
        # leading ones then one gen
        if kc is not None:
            lead = 0
            for s in segs:
                if isinstance(s, One) and s.guard is True:
                    lead += 1
                else:
                    break
            if kc >= lead and self.single_gen(segs[lead:]) is not None:
                return self.elem(segs[lead:], kc - lead)
            # guarded leading ones: decide by branching
            if isinstance(segs[0], One):
                if self.branch(segs[0].guard):
                    if kc == 0:
                        return segs[0].value
                    return self.elem(segs[1:], kc - 1)
                return self.elem(segs[1:], kc)
            if kc == 0:
                return self.first_of(segs)[0]
        if len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].guard is True and self.all_ones(segs[0].segs):
            # the same number of elements for each index
            g, w = segs[0], len(segs[0].segs)
            at, r = simp(zi(k) / w + zi(g.lo)), simp(zi(k) % w)
            vals = [subst(o.value, [(g.idx, at)], self) for o in g.segs]
            out = vals[-1]
            for j in range(w - 2, -1, -1):
                out = self.ite(r == j, vals[j], out)
            return out
        parts = self.regular(segs)
        if parts is not None:
            out, start = None, []
            at = z3.IntVal(0)
            for s, ln in parts:
                start.append((s, at))
                at = simp(at + ln)
            for s, at in reversed(start):
                v = s.value if isinstance(s, One) else subst(s.segs[0].value, [(s.idx, simp(zi(k) - at + zi(s.lo)))], self)
                out = v if out is None else self.ite(zi(k) >= at_next, out, v)
                at_next = at
            return out
        raise Unsupported('element of irregular sequence')

    def regular(self, segs):
        """[(segment, length)] when every segment has a plain known length."""
        out = []
        for s in segs:
            if isinstance(s, One) and s.guard is True:
                out.append((s, z3.IntVal(1)))
            elif self.single_gen([s]) is not None:
                ln = simp(zi(s.n) - zi(s.lo))
                if not self.quick_valid(ln >= 0):
                    ln = z3.If(ln >= 0, ln, z3.IntVal(0))
                out.append((s, ln))
            else:
                return None
        return out or None

    def by_position(self, n, f):
        i = self.index()
        return [Gen(i, n, True, [One(f(i))])]

    def first_of(self, segs):
        """(first element, remaining segs); branches on presence; raises
        PyExc('StopIteration') when empty."""
        segs = list(segs)
        while segs:
            s = segs[0]
            if isinstance(s, Marker):
                raise Unsupported('first of loop-carried container')
            if isinstance(s, One):
                if self.branch(s.guard):
                    return s.value, segs[1:]
                segs = segs[1:]
                continue
            lo, n = s.lo, s.n
            if s.guard is True and len(s.segs) == 1 and isinstance(s.segs[0], One) \
                    and s.segs[0].guard is True:
                if self.branch(zi(n) > zi(lo)):
                    v = subst(s.segs[0].value, [(s.idx, zi(lo))], self)
                    return v, [Gen(s.idx, n, True, s.segs, simp(zi(lo) + 1))] + segs[1:]
                segs = segs[1:]
                continue
            # filtered: first index whose inner sequence is non-empty
            inner = And(s.guard, self.nonempty(s.segs))
            cnt = self.gen_sum(s, If(inner, z3.RealVal(1), z3.RealVal(0)))
            if self.branch(cnt > 0):
                j = self.index('first') if not self.idx_stack else self.fresh('first', z3.IntSort())
                self.assume(And(zi(lo) <= j, j < zi(n)))
                self.assume(subst(inner, [(s.idx, j)], self))
                self.assume_forall([s.idx], Implies(And(zi(lo) <= s.idx, s.idx < j), Not(inner)))
                isegs = subst(s.segs, [(s.idx, j)], self)
                v, rest = self.first_of(isegs)
                return v, list(rest) + [Gen(s.idx, n, s.guard, s.segs, simp(j + 1))] + segs[1:]
            segs = segs[1:]
        raise PyExc('StopIteration')

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v, consume=False):
        v = self.pick(v)
        if isinstance(v, tuple):
            return [One(x) for x in v]
        if isinstance(v, PList):
            if v.kind == 'set':
                return self.enum_set(v)
            if v.kind == 'iter':
                s = v.segs
                if consume:
                    v.segs = []
                return s
            return list(v.segs)
        if isinstance(v, PIter):
            segs = list(self.force(v))
            if consume:
                v.segs = []
            return segs
        if isinstance(v, PDict):
            return [map_seg(s, lambda kv: kv[0]) for s in self.dict_items(v)]
        if isinstance(v, str):
            return [One(c) for c in v]
        if isinstance(v, bytes):
            return [One(c) for c in v]
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__iter__')
            if meth:
                return self.iter_segs(self.call_method(v, meth, [], {}), True)
            raise PyExc('TypeError', ('not iterable',))
        if isinstance(v, Model):
            if hasattr(v, 'iter_segs'):
                return v.iter_segs(self)
            if hasattr(v, 'm___iter__'):
                return self.iter_segs(v.m___iter__(self), True)
        if v is None or is_num(v):
            raise PyExc('TypeError', ('not iterable',))
        if is_z3(v) and z3.is_string(v):
            i = self.index()
            return [Gen(i, z3.Length(v), True, [One(z3.SubString(v, i, 1))])]
        raise Unsupported(f'iteration over {v!r}')

    def enum_set(self, v):
        """Elements of a set without repetition, order unspecified."""
        segs = v.segs
        if getattr(v, 'distinct', False):
            return list(segs)
        if all(isinstance(s, One) for s in segs):
            out = []
            for s in segs:
                g = s.guard
                dup = False
                for t in out:
                    e = self.eq(t.value, s.value)
                    e = simp(e)
                    if e is True or (is_z3(e) and z3.is_true(e)):
                        if t.guard is True:
                            dup = True
                            break
                        g = And(g, Not(t.guard))
                    elif e is False or (is_z3(e) and z3.is_false(e)):
                        pass
                    else:
                        g = And(g, Not(And(t.guard, e)))
                if dup or g is False:
                    continue
                out.append(One(s.value, simp(g)))
            return out
        key = id(v), tuple(id(s) for s in segs)
        hit = self.enum_cache.get(key)
        if hit is not None and hit[0] is v and len(hit[1]) == len(segs) and \
                all(a is b for a, b in zip(hit[1], segs)):
            return hit[2]
        out = self.distinct_enum(segs)
        self.enum_cache[key] = (v, list(segs), out)
        return out

    enum_cache = {}

    def distinct_enum(self, segs):
        """Fresh enumeration ed(0..D-1) of the distinct elements of segs."""
        sample = self.sample_value(segs)
        if sample is None:
            return []
        shape = sample if isinstance(sample, tuple) else (sample,)
        if not all(is_num(x) or is_string(x) for x in shape):
            raise Unsupported('set of structured values')
        uid = next(self.uid)
        outer = list(self.idx_stack)
        sorts = [sort_of(x) for x in shape]
        D = self.int('distinct')
        self.assume(D >= 0)
        fs = [z3.Function(f'ed!{uid}_{k}', *[z3.IntSort()] * (len(outer) + 1), s)
              for k, s in enumerate(sorts)]

        def ed(j):
            t = tuple(f(*outer, j) for f in fs)
            return t if isinstance(sample, tuple) else t[0]
        j = self.index('ed')
        j2 = self.index('ed')
        # injective
        self.assume_forall([j, j2], Implies(And(j >= 0, j < j2, j2 < D), Not(self.eq(ed(j), ed(j2)))))
        # every element is enumerated, everything enumerated is an element
        def cover(segs, ctx, guard):
            for s in segs:
                if isinstance(s, One):
                    pos = z3.Function(f'edpos!{next(self.uid)}',
                                      *[z3.IntSort()] * (len(outer) + len(ctx)), z3.IntSort()) \
                        if outer or ctx else None
                    p = pos(*outer, *ctx) if pos is not None else self.int('edpos')
                    f = Implies(And(guard, s.guard),
                                And(p >= 0, p < D, self.eq(ed(p), s.value)))
                    if ctx:
                        self.assume_forall(ctx, f)
                    else:
                        self.assume(f)
                elif isinstance(s, Gen):
                    cover(s.segs, ctx + [s.idx],
                          And(guard, s.guard, zi(s.lo) <= s.idx, s.idx < zi(s.n)))
                else:
                    raise Unsupported('set iteration over loop-carried prefix')
        cover(segs, [], True)
        leaves = seg_leaves(segs)
        alts = []
        for ctx, guard, v in leaves:
            wit = [z3.Function(f'edwit!{next(self.uid)}', *[z3.IntSort()] * (len(outer) + 1), z3.IntSort()) for _ in ctx]
            pairs = [(c, w(*outer, j)) for c, w in zip(ctx, wit)]
            f = And(guard, self.eq(v, ed(j)))
            alts.append(subst(f, pairs, self) if pairs else f)
        some = Or(*alts)
        self.assume_forall([j], Implies(And(j >= 0, j < D), some))
        for c in (z3.IntVal(0), z3.IntVal(1)):       # ground instances: one element, two elements
            self.assume(Implies(c < D, subst(some, [(j, c)], self)) if is_z3(some) else Implies(c < D, some))
        self.assume(Implies(D > 1, Not(self.eq(ed(z3.IntVal(0)), ed(z3.IntVal(1))))))
        if len(segs) == 1 and self.single_gen(segs) is not None:
            g = segs[0]
            self.reindexes.append(DistinctReindex(self, g, ed, D, fs, outer))
            self.assume(D <= If(zi(g.n) >= zi(g.lo), zi(g.n) - zi(g.lo), z3.IntVal(0)))
        if self.pairwise_distinct(leaves):
            self.reindexes.append(ConcatReindex(list(segs), D, fs, outer, isinstance(sample, tuple)))
            self.assume(D == zi(self.length(segs)))
        i = self.index('ed')
        return [Gen(i, D, True, [One(ed(i))])]

    def pairwise_distinct(self, leaves):
        """The elements of the leaves are provably pairwise different."""
        if len(leaves) > 4:
            return False

        def copy(leaf):
            ctx, guard, v = leaf
            new = [self.index('pd') for _ in ctx]
            pairs = list(zip(ctx, new))
            return new, (subst(guard, pairs, self) if pairs else guard), (subst(v, pairs, self) if pairs else v)
        for p, x in enumerate(leaves):
            for q, y in enumerate(leaves):
                if q < p:
                    continue
                if p == q and not x[0]:
                    continue
                c1, g1, v1 = copy(x)
                c2, g2, v2 = copy(y)
                diff = Or(*[a != b for a, b in zip(c1, c2)]) if p == q else True
                if not self.excluded(And(g1, g2, diff), self.eq(v1, v2)):
                    return False
        return True

    def sample_value(self, segs):
        for s in segs:
            if isinstance(s, One):
                return s.value
            if isinstance(s, Gen):
                v = self.sample_value(s.segs)
                if v is not None:
                    return v
        return None

    # ----------------------------------------------------------------- dicts
    def dict_items(self, d):
        """Segments of (key, value) in insertion order with distinct keys."""
        log = d.log
        if all(isinstance(s, One) and s.guard is True for s in log):
            out = []
            for s in log:
                op, k, v = s.value
                for t in range(len(out)):
                    e = simp(self.eq(out[t][0], k))
                    if e is True or (is_z3(e) and z3.is_true(e)):
                        out[t] = (out[t][0], self.dict_apply(op, out[t][1], v))
                        break
                    if e is False or (is_z3(e) and z3.is_false(e)):
                        continue
                    if self.branch(e):
                        out[t] = (out[t][0], self.dict_apply(op, out[t][1], v))
                        break
                else:
                    if op == 'acc':
                        v = self.dict_apply(op, d.default(self) if d.default else 0, v)
                    out.append((k, v))
            return [One(kv) for kv in out]
        if getattr(d, 'distinct', False) or self.distinct_keys(log):
            return [map_seg(s, lambda okv: (okv[1], okv[2])) for s in log]
        ck = ('dict',) + tuple(id(s) for s in log)
        hit = self.enum_cache.get(ck)
        if hit is not None and len(hit[1]) == len(log) and all(a is b for a, b in zip(hit[1], log)):
            return list(hit[2])
        out = self.dict_items_general(d, log)
        self.enum_cache[ck] = (d, list(log), list(out))
        return out

    def dict_items_general(self, d, log):
        # general: enumerate the distinct keys, look each one up
        keys = [map_seg(s, lambda okv: okv[1]) for s in log]
        if all(isinstance(s, One) for s in keys):
            ksegs = self.enum_set(PList(self, keys, 'set'))
            return [map_seg(s, lambda k: (k, self.dict_lookup(d, k))) for s in ksegs]
        ksegs = self.distinct_enum(keys)
        if ksegs and any('set' in seg_ops([s]) for s in log):
            g = ksegs[0]
            return [Gen(g.idx, g.n, True, [One((g.segs[0].value, self.dict_lookup_at(d, g.segs[0].value, g.idx, g.n)))])]
        return [map_seg(s, lambda k: (k, self.dict_lookup(d, k))) for s in ksegs]

    def dict_lookup_at(self, d, k, idx, n):
        """Value of the present key k(idx), for every idx in [0, n): the value
        of the last write, located by a Skolem function."""
        outer = list(self.idx_stack)
        out = None
        for s in d.log:
            if isinstance(s, Marker):
                raise Unsupported('lookup in loop-carried dict')
            if isinstance(s, One):
                op, k2, v = s.value
                c = simp(And(s.guard, self.eq(k2, k)))
            else:
                if len(s.segs) != 1 or not isinstance(s.segs[0], One):
                    raise Unsupported('lookup in nested dict segments')
                o = s.segs[0]
                op, k2, v = o.value
                last = z3.Function(f'last!{next(self.uid)}', *[z3.IntSort()] * (len(outer) + 1), z3.IntSort())(*outer, idx)
                hit = And(s.guard, o.guard, self.eq(k2, k))
                c = self.exists([s], lambda okv: self.eq(okv[1], k))
                rng = And(idx >= 0, idx < n, c)
                self.assume_forall([idx], Implies(rng, And(zi(s.lo) <= last, last < zi(s.n), subst(hit, [(s.idx, last)], self))))
                self.assume_forall([idx, s.idx], Implies(And(rng, last < s.idx, s.idx < zi(s.n)), Not(hit)))
                v = subst(v, [(s.idx, last)], self)
            if op != 'set':
                raise Unsupported('mixed dict updates')
            out = v if out is None else self.ite(c, v, out)
        return out

    def distinct_keys(self, log):
        """Keys provably pairwise distinct (single Gen)."""
        if len(log) != 1 or not isinstance(log[0], Gen):
            return False
        g = log[0]
        if g.unique:
            return True
        if len(g.segs) != 1 or not isinstance(g.segs[0], One):
            return False
        op, k, v = g.segs[0].value
        if not (is_z3(k) or isinstance(k, tuple)):
            return False
        if is_z3(k) and m_zero(g.lo) and any(n.eq(zi(g.n)) and z3.substitute(t, (i, g.idx)).eq(k) for n, i, t, _ in self.injective):
            return True
        a, b = self.index('dk'), self.index('dk')
        ka, kb = subst(k, [(g.idx, a)], self), subst(k, [(g.idx, b)], self)
        ga = And(zi(g.lo) <= a, a < b, b < zi(g.n),
                 subst(And(g.guard, g.segs[0].guard), [(g.idx, a)], self),
                 subst(And(g.guard, g.segs[0].guard), [(g.idx, b)], self))
        return self.excluded(ga, self.eq(ka, kb))

    def dict_apply(self, op, old, v):
        if op == 'set':
            return v
        return self.add_values(old, v)

    def add_values(self, a, b):
        if isinstance(a, tuple):
            return tuple(self.add_values(x, y) for x, y in zip(a, b))
        return self.binop(ast.Add(), a, b)

    def dict_has(self, d, k):
        if any(isinstance(s, Marker) for s in d.log):
            # unknown prefix: membership is tracked as a havoc'd fact
            raise Unsupported('membership in loop-carried dict')
        if any(self.write_at(s, k) is not None for s in d.log):
            return True
        return self.exists(d.log, lambda okv: self.eq(okv[1], k))

    def write_at(self, s, k):
        """The iteration of a Gen of writes that is seen to write key k, or None."""
        if not isinstance(s, Gen) or len(s.segs) != 1 or not isinstance(s.segs[0], One):
            return None
        k2 = s.segs[0].value[1]
        if isinstance(k, Term) and isinstance(k2, Term) and k.name == k2.name:
            k, k2 = k.term, k2.term
        if isinstance(k, str):
            k = z3.StringVal(k)
        if not (is_z3(k) and is_z3(k2)) or not k.sort().eq(k2.sort()) or s.idx.decl().name() not in z3_consts(k2):
            return None
        for t in int_args(k):
            if z3.substitute(k2, (s.idx, t)).eq(k):
                there = And(zi(s.lo) <= t, t < zi(s.n), subst(And(s.guard, s.segs[0].guard), [(s.idx, t)], self))
                return t if there is True or (is_z3(there) and self.quick_valid(there)) else None
        for n, i, f, place in self.injective:
            if place is not None and z3.substitute(f, (i, s.idx)).eq(k2) and place.domain(0).eq(k.sort()):
                t = place(k)
                there = And(zi(s.lo) <= t, t < zi(s.n), z3.substitute(k2, (s.idx, t)) == k, subst(And(s.guard, s.segs[0].guard), [(s.idx, t)], self))
                if self.quick_valid(there):
                    return t
        return None

    def dict_get(self, d, k, missing):
        """Value for key k by branching on where it was last written."""
        log = d.log
        pend = []
        for pos in range(len(log) - 1, -1, -1):
            s = log[pos]
            if isinstance(s, Marker):
                hv = self.marker_read(d, s, k)
                return self.apply_pend(hv, pend)
            if isinstance(s, One):
                op, k2, v = s.value
                c = simp(And(s.guard, self.eq(k2, k)))
                if c is False or (is_z3(c) and z3.is_false(c)):
                    continue
                if self.branch(c):
                    if op == 'set':
                        return self.apply_pend(v, pend)
                    pend.append(v)
                continue
            ops = set(seg_ops(s.segs))
            at = self.write_at(s, k) if ops == {'set'} and self.distinct_keys([s]) else None
            if at is not None:
                v, k2 = subst(s.segs[0].value[2], [(s.idx, at)], self), subst(s.segs[0].value[1], [(s.idx, at)], self)
                kz = z3.StringVal(k) if isinstance(k, str) else k
                if is_z3(k2) and is_z3(kz) and not k2.eq(kz) and (is_z3(v) or isinstance(v, Term)):
                    v = subst(v, [(k2, kz)], self)      # the keys are equal
                return self.apply_pend(v, pend)
            ex = self.exists([s], lambda okv: self.eq(okv[1], k))
            if ops == {'set'}:
                if self.branch(ex):
                    v = self.last_match(s, k)
                    return self.apply_pend(v, pend)
            elif ops == {'acc'}:
                if d.default is None:
                    raise Unsupported('accumulation without default')
                sample = self.sample_value(s.segs)[2]
                if isinstance(sample, tuple):
                    raise Unsupported('tuple accumulation read')
                if self.branch(ex):
                    tot = self.seg_sum([s], lambda okv: If(self.eq(okv[1], k), real(okv[2]), z3.RealVal(0)))
                    if sort_of(sample) == z3.IntSort():
                        tot = to_int_exact(tot)
                    pend.append(tot)
            else:
                raise Unsupported('mixed dict updates')
        if pend:
            base = d.default(self) if d.default else 0
            return self.apply_pend(base, pend)
        return missing()

    def dict_lookup(self, d, k):
        """Value for a key known to be present, without branching."""
        log = d.log
        if all(set(seg_ops([s])) == {'acc'} for s in log):
            base = d.default(self) if d.default else 0
            sample = self.sample_value(log)[2]

            def tot(pos, sample):
                def f(okv):
                    x = okv[2]
                    for q in pos:
                        x = x[q]
                    return If(self.eq(okv[1], k), real(x), z3.RealVal(0))
                t = self.seg_sum(log, f)
                return to_int_exact(t) if sort_of(sample) == z3.IntSort() else t

            def build(sample, base, pos):
                if isinstance(sample, tuple):
                    return tuple(build(s, b, pos + [q]) for q, (s, b) in enumerate(zip(sample, base)))
                return self.binop(ast.Add(), base, tot(pos, sample))
            return build(sample, base, [])
        if all(isinstance(s, One) or set(seg_ops([s])) == {'acc'} for s in log):
            cur = d.default(self) if d.default else 0
            for s in log:
                if isinstance(s, One):
                    op, k2, v = s.value
                    c = simp(And(s.guard, self.eq(k2, k)))
                    new = v if op == 'set' else self.binop(ast.Add(), cur, v)
                    cur = self.ite(c, new, cur)
                else:
                    sample = self.sample_value([s])[2]
                    if not is_num(sample):
                        raise Unsupported('tuple accumulation read')
                    t = self.seg_sum([s], lambda okv: If(self.eq(okv[1], k), real(okv[2]), z3.RealVal(0)))
                    cur = self.binop(ast.Add(), cur, to_int_exact(t) if sort_of(sample) == z3.IntSort() else t)
            return cur
        raise Unsupported('lookup in dict with overwritten symbolic keys')

    def apply_pend(self, v, pend):
        for p in reversed(pend):
            v = self.add_values(v, p)
        return v

    def last_match(self, s, k):
        if len(s.segs) != 1 or not isinstance(s.segs[0], One):
            raise Unsupported('lookup in nested dict segments')
        o = s.segs[0]
        op, k2, v = o.value
        j = self.fresh('last', z3.IntSort())
        if z3.is_const(j):
            self.idx_names[j.decl().name()] = j
        m = And(s.guard, o.guard, self.eq(k2, k))
        self.assume(And(zi(s.lo) <= j, j < zi(s.n)))
        self.assume(subst(m, [(s.idx, j)], self))
        self.assume_forall([s.idx], Implies(And(j < s.idx, s.idx < zi(s.n)), Not(m)))
        return subst(v, [(s.idx, j)], self)

    def marker_read(self, d, marker, k):
        for dd, uid, k2, hv in self.dict_reads:
            if dd is d and uid == marker.uid and same_value(k, k2):
                return hv
        if d.default is None:
            raise Unsupported('read of loop-carried dict')
        proto = d.default(self)

        def hvof(p):
            if isinstance(p, tuple):
                return tuple(hvof(x) for x in p)
            if isinstance(p, int):
                return z3.Int(f'dhv!{next(self.uid)}')
            if isinstance(p, float) or is_num(p):
                return z3.Real(f'dhv!{next(self.uid)}')
            raise Unsupported('loop-carried dict values')
        hv = hvof(proto)
        self.dict_reads.append((d, marker.uid, k, hv))
        return hv

    dict_reads = []

    # ----------------------------------------------------------- comparison
    def eq(self, a, b):
        if a is b and not isinstance(a, (float,)):
            return True
        if isinstance(a, Poison):
            a = self.resolve_poison(a)
        if isinstance(b, Poison):
            b = self.resolve_poison(b)
        if isinstance(a, Choice):
            return Or(*[And(g, self.eq(x, b)) for g, x in a.alts])
        if isinstance(b, Choice):
            return Or(*[And(g, self.eq(a, x)) for g, x in b.alts])
        if isinstance(a, Opt):
            if isinstance(b, Opt):
                return Or(And(a.none, b.none), And(Not(a.none), Not(b.none), self.eq(a.val, b.val)))
            if b is None:
                return a.none
            return And(Not(a.none), self.eq(a.val, b))
        if isinstance(b, Opt):
            return self.eq(b, a)
        if a is None or b is None:
            return a is b
        if is_bv(a) or is_bv(b):
            return simp(tobv(a) == tobv(b))
        if is_num(a) and is_num(b):
            if not is_z3(a) and not is_z3(b):
                return a == b
            x, y = num_pair(a, b)
            if x.eq(y):
                return True
            return x == y
        if is_string(a) and is_string(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x, y = zs(a), zs(b)
            if x.eq(y):
                return True
            return x == y
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Rec) and isinstance(b, Rec):
            if isinstance(a.cls, ClassRef):
                meth = self.find_method(a.cls, '__eq__')
                if meth:
                    r = self.call_method(a, meth, [b], {})
                    if isinstance(r, Builtin) and r.name == 'NotImplemented':
                        return False
                    return self.truth_term(r)
            if clsname(a.cls) != clsname(b.cls):
                return False
            if isinstance(a.cls, ClassRef) and not is_dataclass(a.cls.node):
                return a is b
            return And(*[self.eq(a.fields[k], b.fields.get(k)) for k in a.fields])
        if isinstance(a, Rec) and isinstance(a.cls, ClassRef):
            meth = self.find_method(a.cls, '__eq__')
            if meth:
                r = self.call_method(a, meth, [b], {})
                if isinstance(r, Builtin) and r.name == 'NotImplemented':
                    return False
                return self.truth_term(r)
            return False
        if isinstance(b, Rec):
            return self.eq(b, a)
        la = isinstance(a, (PList, tuple))
        lb = isinstance(b, (PList, tuple))
        if la and lb:
            ka = a.kind if isinstance(a, PList) else 'tuple'
            kb = b.kind if isinstance(b, PList) else 'tuple'
            if 'set' in (ka, kb) or 'frozenset' in (ka, kb):
                if not ({ka, kb} <= {'set', 'frozenset'}):
                    return False
                return self.set_eq(a, b)
            if ka != kb:
                return False
            sa = a.segs if isinstance(a, PList) else [One(x) for x in a]
            sb = b.segs if isinstance(b, PList) else [One(x) for x in b]
            return self.seq_eq(sa, sb)
        if isinstance(a, PDict) and isinstance(b, PDict):
            ia, ib = self.dict_items(a), self.dict_items(b)
            if self.all_ones(ia) and self.all_ones(ib):
                if len(ia) != len(ib):
                    return False
                return And(*[Or(*[And(self.eq(x.value[0], y.value[0]), self.eq(x.value[1], y.value[1]))
                                  for y in ib]) for x in ia])
            raise Unsupported('symbolic dict equality')
        if isinstance(a, (Builtin, ClassRef, Func, ModRef)) or isinstance(b, (Builtin, ClassRef, Func, ModRef)):
            return same_value(a, b)
        if type_group(a) != type_group(b):
            return False
        if isinstance(a, Term) and isinstance(b, Term):
            if a.name != b.name:
                raise Unsupported(f'equality of {a!r} and {b!r}')
            return True if same_value(a.term, b.term) else a.term == b.term
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            t = getattr(a, 'term', None)
            u = getattr(b, 'term', None)
            if t is not None and u is not None:
                return t == u
            return a is b
        if isinstance(a, Model) or isinstance(b, Model):
            return a is b
        raise Unsupported(f'equality of {a!r} and {b!r}')

    def seq_eq(self, sa, sb):
        from .interp import same
        if same(sa, sb):
            return True
        if self.all_ones(sa) and self.all_ones(sb):
            if len(sa) != len(sb):
                return False
            return And(*[self.eq(x.value, y.value) for x, y in zip(sa, sb)])
        ga, gb = self.single_gen(sa), self.single_gen(sb)
        if ga is not None and gb is not None:
            i = self.index()
            x = subst(ga.segs[0].value, [(ga.idx, simp(i + zi(ga.lo)))], self)
            y = subst(gb.segs[0].value, [(gb.idx, simp(i + zi(gb.lo)))], self)
            la, lb = simp(zi(ga.n) - zi(ga.lo)), simp(zi(gb.n) - zi(gb.lo))
            g = Gen(i, la, True, [])
            ne = Not(self.eq(x, y))
            return And(la == lb, self.indicator(self.gen_sum(g, If(ne, z3.RealVal(1), z3.RealVal(0))), i, 0, la, ne) <= 0)
        if ga is not None and self.all_ones(sb):
            n = len(sb)
            parts = [simp(zi(ga.n) - zi(ga.lo)) == n]
            for k in range(n):
                parts.append(self.eq(self.elem(sa, k), sb[k].value))
            return And(*parts)
        if gb is not None and self.all_ones(sa):
            return self.seq_eq(sb, sa)
        raise Unsupported('symbolic sequence equality')

    def set_eq(self, a, b):
        sa = self.iter_segs(a) if not isinstance(a, PList) else a.segs
        sb = self.iter_segs(b) if not isinstance(b, PList) else b.segs
        return And(self.forall(sa, lambda v: self.exists(sb, lambda w: self.eq(v, w))),
                   self.forall(sb, lambda v: self.exists(sa, lambda w: self.eq(v, w))))

    def lt(self, a, b, strict=True):
        """a < b (strict) or a <= b."""
        a, b = self.pick(a), self.pick(b)
        if is_bv(a) or is_bv(b):
            return z3.ULT(tobv(a), tobv(b)) if strict else z3.ULE(tobv(a), tobv(b))
        a, b = [If(x, z3.IntVal(1), z3.IntVal(0)) if is_z3(x) and z3.is_bool(x) else x for x in (a, b)]
        if is_num(a) and is_num(b):
            if not is_z3(a) and not is_z3(b):
                return a < b if strict else a <= b
            x, y = num_pair(a, b)
            return x < y if strict else x <= y
        if is_string(a) and is_string(b):
            if isinstance(a, str) and isinstance(b, str):
                return a < b if strict else a <= b
            return zs(a) < zs(b) if strict else zs(a) <= zs(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if not a or not b:
                return (len(a) < len(b)) if strict else (len(a) <= len(b))
            return Or(self.lt(a[0], b[0]),
                      And(self.eq(a[0], b[0]), self.lt(a[1:], b[1:], strict)))
        if isinstance(a, Rec) and isinstance(a.cls, ClassRef):
            for nm, flip in (('__lt__' if strict else '__le__', False),):
                meth = self.find_method(a.cls, nm)
                if meth:
                    return self.truth_term(self.call_method(a, meth, [b], {}))
        if isinstance(a, (PList,)) and isinstance(b, PList) and 'set' in a.kind and 'set' in b.kind:
            sub = self.forall(a.segs, lambda v: self.exists(b.segs, lambda w: self.eq(v, w)))
            if strict:
                return And(sub, Not(self.set_eq(a, b)))
            return sub
        if isinstance(a, PList) and isinstance(b, PList) and self.all_ones(a.segs) and self.all_ones(b.segs):
            return self.lt(tuple(s.value for s in a.segs), tuple(s.value for s in b.segs), strict)
        if type_group(a) != type_group(b):
            raise PyExc('TypeError', ('unorderable',))
        raise Unsupported(f'order of {a!r} and {b!r}')

    def contains(self, c, x):
        c = self.pick(c)
        if isinstance(c, tuple):
            return Or(*[self.eq(y, x) for y in c])
        if isinstance(c, PList):
            return self.exists(c.segs, lambda y: self.eq(y, x))
        if isinstance(c, PDict):
            return self.dict_has(c, x)
        if isinstance(c, PIter):
            segs = self.force(c)
            r = self.exists(segs, lambda y: self.eq(y, x))
            c.segs = None
            c.thunk = None
            return r
        if is_string(c):
            x = self.pick(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not is_string(x):
                raise PyExc('TypeError', ('in <string>',))
            return z3.Contains(zs(c), zs(x))
        if isinstance(c, bytes) and isinstance(x, (int, bytes)):
            return x in c
        if isinstance(c, Model) and hasattr(c, 'm___contains__'):
            return c.m___contains__(self, x)
        if isinstance(c, Rec) and isinstance(c.cls, ClassRef):
            meth = self.find_method(c.cls, '__contains__')
            if meth:
                return self.truth_term(self.call_method(c, meth, [x], {}))
            if self.find_method(c.cls, '__iter__'):
                return self.exists(self.iter_segs(c), lambda y: self.eq(y, x))
        raise Unsupported(f'membership in {c!r}')

    # --------------------------------------------------------------- binop
    def binop(self, op, a, b):
        a, b = self.pick(a), self.pick(b)
        t = type(op)
        if is_bv(a) or is_bv(b):
            return self.bvop(t, a, b)
        if is_num(a) and is_num(b):
            return self.numop(t, a, b)
        if t is ast.Add:
            if is_string(a) and is_string(b):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return z3.Concat(zs(a), zs(b))
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
                ka = a.kind if isinstance(a, PList) else 'tuple'
                kb = b.kind if isinstance(b, PList) else 'tuple'
                if ka != kb:
                    raise PyExc('TypeError', ('concatenate',))
                return PList(self, self.iter_segs(a) + self.iter_segs(b), ka)
        if t is ast.Mult and (isinstance(a, (PList, tuple, str)) or isinstance(b, (PList, tuple, str))):
            if isinstance(b, (PList, tuple, str)):
                a, b = b, a
            n = as_int_const(b)
            if n is not None:
                if isinstance(a, (tuple, str)):
                    return a * n
                return PList(self, a.segs * max(n, 0), a.kind)
            if isinstance(a, (PList, tuple)):
                segs = self.iter_segs(a)
                i = self.index()
                return PList(self, [Gen(i, b, True, segs)],
                             a.kind if isinstance(a, PList) else 'tuple')
        if t is ast.Mod and is_string(a):
            return self.percent(a, b)
        if isinstance(a, PList) and 'set' in a.kind and isinstance(b, PList) and 'set' in b.kind:
            return self.set_op({ast.BitOr: 'union', ast.BitAnd: 'intersection',
                                ast.Sub: 'difference', ast.BitXor: 'symmetric_difference'}[t], a, [b])
        if t is ast.BitOr and isinstance(a, PDict) and isinstance(b, PDict):
            return PDict(self, a.log + b.log, a.default)
        names = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.BitOr: 'or', ast.BitAnd: 'and',
                 ast.BitXor: 'xor', ast.Div: 'truediv'}
        if isinstance(a, Rec) and isinstance(a.cls, ClassRef) and t in names:
            meth = self.find_method(a.cls, f'__{names[t]}__')
            if meth:
                return self.call_method(a, meth, [b], {})
        if isinstance(a, Model) and hasattr(a, 'binop'):
            return a.binop(self, t, b)
        if isinstance(b, Model) and hasattr(b, 'rbinop'):
            return b.rbinop(self, t, a)
        if type_group(a) != type_group(b):
            raise PyExc('TypeError', ('unsupported operand',))
        raise Unsupported(f'{t.__name__} of {a!r} and {b!r}')

    def set_op(self, name, a, others):
        segs = list(a.segs)
        for o in others:
            osegs = self.iter_segs(o) if not (isinstance(o, PList)) else o.segs
            if name == 'union':
                segs = segs + list(osegs)
            elif name in ('intersection', 'difference'):
                def keep(s, osegs=osegs):
                    def g(v):
                        e = self.exists(osegs, lambda w: self.eq(v, w))
                        return e if name == 'intersection' else Not(e)
                    return filter_seg(s, g)
                segs = [keep(s) for s in segs]
            else:
                asegs = segs
                segs = [filter_seg(s, lambda v: Not(self.exists(osegs, lambda w: self.eq(v, w)))) for s in asegs] + \
                       [filter_seg(s, lambda v: Not(self.exists(asegs, lambda w: self.eq(v, w)))) for s in osegs]
        return PList(self, segs, a.kind)

    def numop(self, t, a, b):
        if not is_z3(a) and not is_z3(b):
            try:
                if t is ast.Add:
                    return a + b
                if t is ast.Sub:
                    return a - b
                if t is ast.Mult:
                    return a * b
                if t is ast.Div:
                    if isinstance(a, float) or isinstance(b, float):
                        if b == 0:
                            raise PyExc('ZeroDivisionError')
                        return Fraction(a) / Fraction(b)
                    if b == 0:
                        raise PyExc('ZeroDivisionError')
                    return Fraction(a, b)
                if t is ast.FloorDiv:
                    return a // b
                if t is ast.Mod:
                    return a % b
                if t is ast.Pow:
                    return a ** b
                if t is ast.LShift:
                    return a << b
                if t is ast.RShift:
                    return a >> b
                if t is ast.BitAnd:
                    return a & b
                if t is ast.BitOr:
                    return a | b
                if t is ast.BitXor:
                    return a ^ b
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError')
        isint = is_intlike(a) and is_intlike(b)
        x, y = num_pair(a, b)
        if t is ast.Add:
            return simp1(x + y)
        if t is ast.Sub:
            return simp1(x - y)
        if t is ast.Mult:
            return simp1(x * y)
        if t is ast.Div:
            if self.branch(y == 0):
                raise PyExc('ZeroDivisionError')
            return real(x) / real(y)
        if t in (ast.FloorDiv, ast.Mod):
            if not isint:
                raise Unsupported('float floor division')
            if self.branch(y == 0):
                raise PyExc('ZeroDivisionError')
            if not self.quick_valid(y > 0):
                raise Unsupported('floor division by a possibly negative number')
            return simp1(x / y) if t is ast.FloorDiv else simp1(x % y)
        if t in (ast.LShift, ast.RShift):
            k = as_int_const(b)
            if k is None:
                if not isint or not self.quick_valid(z3.And(y >= 0, y < 16)):
                    raise Unsupported('symbolic shift')
                shifted = [x * (1 << j) if t is ast.LShift else x / (1 << j) for j in range(16)]
                r = shifted[15]
                for j in range(14, -1, -1):
                    r = z3.If(y == j, shifted[j], r)
                return simp1(r)
            if k < 0:
                raise PyExc('ValueError', ('negative shift count',))
            d = binary_digits(x) if isint else None
            if d is not None:
                return from_digits({j + k if t is ast.LShift else j - k: c for j, c in d.items() if t is ast.LShift or j >= k})
            return simp1(x * (1 << k)) if t is ast.LShift else simp1(x / (1 << k))
        if t is ast.BitAnd:
            for p, q in ((a, b), (b, a)):
                k = as_int_const(q)
                d = binary_digits(zi(p)) if k is not None and k >= 0 else None
                if d is not None:
                    return from_digits({j: c for j, c in d.items() if k >> j & 1})
                if k is not None and k >= 0 and (k & (k + 1)) == 0:
                    return simp1(zi(p) % (k + 1))
            if is_z3(a) and z3.is_bool(a) and is_z3(b) and z3.is_bool(b):
                return z3.And(a, b)
        if t is ast.BitOr:
            if all((is_z3(v) and z3.is_bool(v)) or isinstance(v, bool) for v in (a, b)):
                return Or(zbool(a), zbool(b))
            d, e = (binary_digits(x), binary_digits(y)) if isint else (None, None)
            if d is not None and e is not None:
                return from_digits({j: Or(d.get(j, False), e.get(j, False)) for j in {*d, *e}})
            for p, q in ((x, y), (y, x)):
                # p multiple of 2**k, 0 <= q < 2**k
                for k in (1, 2, 4, 8, 16):
                    if self.quick_valid(z3.And(p % (1 << k) == 0, q >= 0, q < (1 << k))):
                        return simp1(p + q)
            if isint and self.quick_valid(z3.And(x >= 0, x < 256, y >= 0, y < 256)):
                return z3.Sum([z3.If(z3.Or((x / (1 << k)) % 2 == 1, (y / (1 << k)) % 2 == 1), z3.IntVal(1 << k), z3.IntVal(0)) for k in range(8)])
        if t is ast.Pow:
            k = as_int_const(b)
            if k is not None and 0 <= k <= 8:
                r = z3.RealVal(1) if not isint else z3.IntVal(1)
                for _ in range(k):
                    r = r * x
                return r
            base = as_int_const(a)
            if base == 2:
                f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
                return f(zi(b))
        raise Unsupported(f'{t.__name__} on symbolic numbers')

    def bvop(self, t, a, b):
        x, y = tobv(a), tobv(b)
        if t is ast.Add:
            self.bv_guard(z3.BVAddNoOverflow(x, y, False), 'add')
            return x + y
        if t is ast.Mult:
            self.bv_guard(z3.BVMulNoOverflow(x, y, False), 'mul')
            return x * y
        if t is ast.Sub:
            self.bv_guard(z3.BVSubNoUnderflow(x, y, False), 'sub')
            return x - y
        if t is ast.BitAnd:
            return x & y
        if t is ast.BitOr:
            return x | y
        if t is ast.BitXor:
            return x ^ y
        if t is ast.RShift:
            return z3.LShR(x, y)
        if t is ast.LShift:
            k = as_int_const(b)
            if k is None:
                raise Unsupported('bv shift')
            self.bv_guard(z3.LShR(x << k, k) == x, 'shl')
            return x << k
        if t is ast.Mod:
            return z3.URem(x, y)
        if t is ast.FloorDiv:
            return z3.UDiv(x, y)
        raise Unsupported(f'bitvector {t.__name__}')

    def bv_guard(self, cond, what):
        """Python integers do not wrap: the width chosen must be large enough."""
        if self.bv_hi:
            s = z3.Solver()
            s.set('timeout', 3000)
            for _, f in self.pc:
                s.add(zbool(f))
            s.add(z3.Not(cond))
            if s.check() != z3.unsat:
                raise Unsupported(f'bitvector {what} may exceed the modelled width')

    bv_hi = True

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value if e.value is not Ellipsis else None

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, name, env):
        x = env
        while x is not None:
            if name in x.vars:
                v = x.vars[name]
                if isinstance(v, Poison):
                    v = self.resolve_poison(v)
                if v is UNDEF:
                    raise PyExc('UnboundLocalError', (name,))
                return v
            x = x.parent
        return self.global_name(env.module, name)

    def global_name(self, module, name):
        key = (module.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        r = self.program.resolve(module.name, name)
        if r is None:
            if name in EXC_BASES:
                return Builtin('exc:' + name)
            if name in BUILTINS:
                return Builtin(name)
            if name == 'NotImplemented':
                return Builtin('NotImplemented')
            if name == '__name__':
                return module.name
            raise PyExc('UnboundLocalError', (name,)) if self.is_local_name(name, module) \
                else Unsupported(f'name {name}')
        if r[0] == 'def':
            _, m, node = r
            v = ClassRef(m, node) if isinstance(node, ast.ClassDef) else Func(node, m)
        elif r[0] == 'modref':
            v = ModRef(r[1])
        elif r[0] == 'ext':
            v = self.external(r[1])
        else:
            _, m, expr = r
            nobj = len(self.objects)
            try:
                v = self.eval(expr, Env(self, None, m, m.name))
            except Unsupported:
                return Opaque(f'{m.name}.{name}')
            if isinstance(v, Mut):
                return v       # fresh object per reference: never mutated by code
        self.globals_cache[key] = v
        return v

    def is_local_name(self, name, module):
        return not hasattr(builtins, name)

    def external(self, dotted):
        if dotted in self.models:
            return self.models[dotted]
        base = dotted.split('.')[-1]
        if dotted.startswith(('toron._typing', 'typing', 'collections.abc')):
            if base in ABC:
                return Builtin('abc:' + base)
            if base == 'cast':
                return Builtin('cast')
            return Opaque(base)
        if dotted in EXC_BASES:
            return Builtin('exc:' + dotted)
        if base in EXC_BASES and dotted.startswith(('sqlite3', 'json', 'lark', 'struct')):
            return Builtin('exc:' + base)
        return Builtin('ext:' + dotted)

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred(e.elts, env, 'tuple')
        return tuple(self.eval(x, env) for x in e.elts)

    def starred(self, elts, env, kind):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, env), True))
            else:
                segs.append(One(self.eval(x, env)))
        if kind == 'tuple' and self.all_ones(segs):
            return tuple(s.value for s in segs)
        return PList(self, segs, kind)

    def e_List(self, e, env):
        return self.starred(e.elts, env, 'list')

    def e_Set(self, e, env):
        return self.starred(e.elts, env, 'set')

    def e_Dict(self, e, env):
        log = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.pick(self.eval(v, env))
                log.extend([map_seg(s, lambda kv: ('set', kv[0], kv[1])) for s in self.dict_items(d)])
            else:
                kk = self.eval(k, env)
                log.append(One(('set', kk, self.eval(v, env))))
        return PDict(self, log)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return simp(Not(self.truth_term(v)))
        v = self.pick(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, Fraction)):
                return -v
            return simp1(-(real(v) if z3.is_bool(v) else v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported('unary operator')

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], env)
        for nxt in e.values[1:]:
            t = self.truth_term(v)
            ts = simp(t)
            if isinstance(ts, bool) or z3.is_true(ts) or z3.is_false(ts):
                b = ts if isinstance(ts, bool) else z3.is_true(ts)
                if b != isand:
                    return v
                v = self.eval(nxt, env)
                continue
            if self.branch(ts) != isand:
                return v
            v = self.eval(nxt, env)
        return v

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            res = And(res, c)
            if res is False:
                return False
            if len(e.ops) > 1 and is_z3(res) and op is not e.ops[-1]:
                if not self.branch(res):
                    return False
                res = True
            left = right
        return simp(res)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.LtE):
            return self.lt(a, b, False)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.GtE):
            return self.lt(b, a, False)
        raise Unsupported('comparison')

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt) or \
                isinstance(a, Choice) or isinstance(b, Choice):
            return self.eq(a, b) if (a is None or b is None) else self.is_(self.pick(a), self.pick(b))
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            o, k = (b, a) if isinstance(a, bool) else (a, b)
            if is_z3(o) and z3.is_bool(o):
                return o == k
            return False
        if isinstance(a, (Builtin, ClassRef)):
            return same_value(a, b)
        return a is b

    def e_Lambda(self, e, env):
        return Func(e, env.module, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.eval(p.value, env)
            spec = None
            if p.format_spec is not None:
                spec = self.eval(p.format_spec, env)
            if p.conversion == 114:
                parts.append(self.repr_of(v))
            else:
                parts.append(self.format_of(v, spec))
        out = ''
        for x in parts:
            if isinstance(out, str) and isinstance(x, str):
                out = out + x
            else:
                out = x if out == '' and isinstance(out, str) else out if isinstance(x, str) and x == '' else z3.Concat(zs(out), zs(x))
        return out

    def e_FormattedValue(self, e, env):
        return self.format_of(self.eval(e.value, env), None)

    def repr_of(self, v):
        if isinstance(v, (str, int)) :
            return repr(v)
        if is_z3(v):
            f = z3.Function(f'repr_{v.sort()}', v.sort(), Str)
            return f(v)
        return z3.String(f'repr!{next(self.uid)}')

    def concat(self, parts):
        out = ''
        for x in parts:
            if isinstance(out, str) and isinstance(x, str):
                out = out + x
            else:
                out = x if isinstance(out, str) and out == '' else out if isinstance(x, str) and x == '' else z3.Concat(zs(out), zs(x))
        return out

    def percent(self, a, b):
        """Old-style formatting with plain %s, %d, %x, %X."""
        args = list(b) if isinstance(b, tuple) else [b]
        parts = []
        if not isinstance(a, str):
            return self.str('fmt')
        for k, x in enumerate(re.split(r'%(0?\d*[sdxX%])', a)):
            if k % 2 == 0 or x == '%':
                if k % 2 == 0 and '%' in x:
                    return self.str('fmt')
                parts.append(x)
                continue
            if not args:
                raise PyExc('TypeError', ('not enough arguments for format string',))
            v = args.pop(0)
            if x == 's':
                parts.append(self.format_of(v, None))
            elif is_intlike(v) and not isinstance(v, bool):
                parts.append(self.format_of(v, None if x == 'd' else x))
            else:
                return self.str('fmt')
        return self.concat(parts)

    def format_of(self, v, spec):
        if spec == '':
            spec = None
        if isinstance(v, (Opt, Choice, Poison)):
            return z3.String(f'fmt!{next(self.uid)}')
        if isinstance(v, (int, str)) and not isinstance(v, bool) and (spec is None or isinstance(spec, str)):
            return format(v, spec or '')
        if spec is None:
            return self.to_str(v)
        if is_z3(v) and isinstance(spec, str):
            f = z3.Function(f'format_{v.sort()}_{spec}', v.sort(), Str)
            return f(v)
        return z3.String(f'fmt!{next(self.uid)}')

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if is_z3(v):
            if z3.is_string(v):
                return v
            if z3.is_int(v):
                return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v)))
            f = z3.Function(f'str_{v.sort()}', v.sort(), Str)
            return f(v)
        if isinstance(v, (bool, int)) or v is None:
            return str(v)
        if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
            meth = self.find_method(v.cls, '__str__')
            if meth:
                return self.call_method(v, meth, [], {})
        if isinstance(v, Model) and hasattr(v, 'to_str'):
            return v.to_str(self)
        return z3.String(f'str!{next(self.uid)}')

    # -------------------------------------------------------- comprehensions
    def comp(self, e, env, emit):
        cenv = Env(self, env, env.module, '<comp>')

        def level(k):
            if k == len(e.generators):
                emit(cenv)
                return
            g = e.generators[k]
            segs = self.iter_segs(self.eval(g.iter, env if k == 0 else cenv), True)

            def body(v):
                self.assign(g.target, v, cenv)
                for c in g.ifs:
                    if not self.truth(self.eval(c, cenv)):
                        return
                level(k + 1)
            self.run_segs(segs, body)
        level(0)

    def e_ListComp(self, e, env, kind='list'):
        out = PList(self, [], kind)

        def emit(cenv):
            v = self.eval(e.elt, cenv)
            out.segs = out.segs + [One(v)]
        self.comp(e, env, emit)
        return out

    def e_SetComp(self, e, env):
        return self.e_ListComp(e, env, 'set')

    def e_GeneratorExp(self, e, env):
        it = PIter(self)
        # the outermost iterable is evaluated now, the rest on demand
        first = self.eval(e.generators[0].iter, env)
        hold = Env(self, env, env.module, '<genexp>')
        hold.vars['.0'] = first
        e2 = ast.GeneratorExp(elt=e.elt, generators=[ast.comprehension(
            target=e.generators[0].target, iter=ast.Name(id='.0', ctx=ast.Load()),
            ifs=e.generators[0].ifs, is_async=0)] + e.generators[1:])
        it.thunk = lambda: self.e_ListComp(e2, hold).segs
        return it

    def e_DictComp(self, e, env):
        out = PDict(self, [])

        def emit(cenv):
            k = self.eval(e.key, cenv)
            v = self.eval(e.value, cenv)
            out.log = out.log + [One(('set', k, v))]
        self.comp(e, env, emit)
        return out

    # ------------------------------------------------------------ attribute
    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.getattr(o, e.attr)

    def find_method(self, cref, name):
        """(ClassRef, node) following single inheritance by name."""
        seen = 0
        todo = [cref]
        while todo and seen < 20:
            c = todo.pop(0)
            seen += 1
            n = class_member(c.node, name)
            if n is not None:
                return (c, n)
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                if isinstance(base, ast.Name):
                    r = self.program.resolve(c.module.name, base.id)
                    if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                        todo.append(ClassRef(r[1], r[2]))
        return None

    def mro_names(self, cref):
        out = []
        todo = [cref]
        while todo and len(out) < 30:
            c = todo.pop(0)
            out.append(c.node.name)
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                if isinstance(base, ast.Name):
                    r = self.program.resolve(c.module.name, base.id)
                    if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                        todo.append(ClassRef(r[1], r[2]))
                    else:
                        out.append(base.id)
                elif isinstance(base, ast.Attribute):
                    out.append(base.attr)
        return out

    def class_attr(self, cref, name):
        todo = [cref]
        n = 0
        while todo and n < 20:
            c = todo.pop(0)
            n += 1
            for st in c.node.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    return (c, st.value)
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) \
                        and st.target.id == name and st.value is not None:
                    return (c, st.value)
            for b in c.node.bases:
                base = b.value if isinstance(b, ast.Subscript) else b
                if isinstance(base, ast.Name):
                    r = self.program.resolve(c.module.name, base.id)
                    if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                        todo.append(ClassRef(r[1], r[2]))
        return None

    def call_method(self, obj, meth, args, kwargs):
        c, node = meth
        if decorated(node, 'staticmethod'):
            return self.call_func(Func(node, c.module, None, None, c), args, kwargs)
        if decorated(node, 'classmethod'):
            b = obj.cls if isinstance(obj, Rec) else obj
            return self.call_func(Func(node, c.module, None, b, c), args, kwargs)
        return self.call_func(Func(node, c.module, None, obj, c), args, kwargs)

    def getattr(self, o, name):
        o = self.pick(o)
        if isinstance(o, Rec):
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Poison):
                    v = self.resolve_poison(v)
                return v
            if name == '__class__':
                return o.cls if isinstance(o.cls, ClassRef) else Builtin('class:' + clsname(o.cls))
            if name == '__dict__':
                return PDict(self, [One(('set', k, v)) for k, v in o.fields.items()])
            if isinstance(o.cls, ClassRef):
                meth = self.find_method(o.cls, name)
                if meth:
                    c, node = meth
                    if decorated(node, 'property'):
                        return self.call_method(o, meth, [], {})
                    if decorated(node, 'staticmethod'):
                        return Func(node, c.module, None, None, c)
                    if decorated(node, 'classmethod'):
                        return Func(node, c.module, None, o.cls, c)
                    return Func(node, c.module, None, o, c)
                ca = self.class_attr(o.cls, name)
                if ca:
                    return self.eval(ca[1], Env(self, None, ca[0].module))
                if '_replace' == name:
                    pass
            if o.tag == 'exc' and name == '__class__':
                return Builtin('exc:' + clsname(o.cls))
            raise PyExc('AttributeError', (name,))
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, ModRef):
            if o.name.startswith('toron'):
                m = self.program.module(o.name)
                if m is not None:
                    return self.global_name(m, name)
            dotted = f'{o.name}.{name}'
            return self.external(dotted)
        if isinstance(o, ClassRef):
            if name == '__name__' or name == '__qualname__':
                return o.node.name
            meth = self.find_method(o, name)
            if meth:
                c, node = meth
                if decorated(node, 'classmethod'):
                    return Func(node, c.module, None, o, c)
                return Func(node, c.module, None, None, c)
            ca = self.class_attr(o, name)
            if ca:
                return self.eval(ca[1], Env(self, None, ca[0].module))
            raise PyExc('AttributeError', (name,))
        if isinstance(o, Builtin) and o.name == 'slice' and o.bound is not None:
            if name in ('start', 'stop', 'step'):
                return o.bound[('start', 'stop', 'step').index(name)]
            if name == 'indices':
                return lambda m, n: m.slice_indices(n, *o.bound)
        if isinstance(o, Builtin):
            if o.name.startswith('ext:'):
                return self.external(o.name[4:] + '.' + name)
            if o.name in ('str', 'dict', 'bytes', 'int', 'set'):
                return Builtin(f'{o.name}.{name}')
            if name in ('__name__', '__qualname__'):
                return o.name.split(':')[-1]
            return Builtin('ext:' + o.name + '.' + name)
        if name == '__class__':
            return self.type_of(o)
        if isinstance(o, (PList, PDict, PIter, tuple, bytes, Fraction, int, float)) or is_string(o) or is_num(o):
            return Builtin('meth:' + name, o)
        if o is None:
            raise PyExc('AttributeError', (f'NoneType.{name}',))
        if isinstance(o, Func):
            if name == '__name__':
                return o.node.name
        if isinstance(o, Opaque):
            if name.startswith('__'):
                return Opaque(o.name + '.' + name)
        raise Unsupported(f'attribute {name} of {o!r}')

    def type_of(self, o):
        if isinstance(o, Rec):
            return o.cls if isinstance(o.cls, ClassRef) else Builtin('class:' + o.cls)
        t = sorted(self.typenames(o))
        return Builtin('type:' + t[0])

    def setattr(self, o, name, v):
        o = self.pick(o)
        if isinstance(o, Rec):
            if isinstance(o.cls, ClassRef) and frozen_dataclass(o.cls.node):
                raise PyExc('FrozenInstanceError', (name,))
            o.fields[name] = v
            return
        if isinstance(o, Model):
            f = getattr(o, 'set_' + name, None)
            if f is not None:
                f(self, v)
                return
        if isinstance(o, Opaque):
            return
        raise Unsupported(f'set attribute {name} of {o!r}')

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.pick(self.eval(e.slice.lower, env)) if e.slice.lower else None
            hi = self.pick(self.eval(e.slice.upper, env)) if e.slice.upper else None
            st = self.pick(self.eval(e.slice.step, env)) if e.slice.step else None
            return self.slice(self.pick(o), lo, hi, st)
        k = self.eval(e.slice, env)
        return self.getitem(o, k)

    def slice(self, o, lo, hi, st):
        if isinstance(o, (str, bytes, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, Rec) and isinstance(o.cls, ClassRef):
            meth = self.find_method(o.cls, '__getitem__')
            if meth:
                return self.call_method(o, meth, [Builtin('slice', (lo, hi, st))], {})
        if isinstance(o, PList) and self.all_ones(o.segs) and \
                all(x is None or as_int_const(x) is not None for x in (lo, hi, st)):
            c = [x if x is None else as_int_const(x) for x in (lo, hi, st)]
            segs = o.segs[c[0]:c[1]:c[2]]
            return tuple(s.value for s in segs) if o.kind == 'tuple' else PList(self, segs, o.kind)
        if isinstance(o, tuple):
            return self.slice(PList(self, [One(x) for x in o], 'tuple'), lo, hi, st)
        if is_string(o):
            s = zs(o)
            if st is not None:
                raise Unsupported('string step')
            n = z3.Length(s)

            # str.substr is "" for a length of 0 or less and for a start out of
            # range, and stops at the end of the string
            def norm(x, d, low):
                if x is None:
                    return d
                c = as_int_const(x)
                if c is not None and c < 0:
                    return z3.If(n + c >= 0, n + c, z3.IntVal(0)) if low else n + c
                if c is None and not self.quick_valid(zi(x) >= 0):
                    raise Unsupported('string slice bound sign')
                return zi(x)
            a, b = norm(lo, z3.IntVal(0), True), norm(hi, n, False)
            a, b = simp(a), simp(b)
            return z3.SubString(s, a, simp(b - a))
        if isinstance(o, PList):
            segs = o.segs
            if len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].guard is True and len(segs[0].segs) > 1 and self.all_ones(segs[0].segs):
                n = simp((zi(segs[0].n) - zi(segs[0].lo)) * len(segs[0].segs))
                i = self.index()
                segs = [Gen(i, n, True, [One(self.elem(segs, i))])]
            g = self.single_gen(segs)
            k = 1 if st is None else as_int_const(st)
            if k == 0:
                raise PyExc('ValueError', ('slice step cannot be zero',))
            if g is not None and k is not None:
                ln = simp(zi(g.n) - zi(g.lo))
                if not self.quick_valid(ln >= 0):
                    ln = z3.If(ln >= 0, ln, z3.IntVal(0))
                a, b, k = self.slice_indices(ln, lo, hi, k)
                if k == 1:
                    return PList(self, [Gen(g.idx, simp(zi(g.lo) + b), True, g.segs, simp(zi(g.lo) + a))], o.kind)
                i = self.index()
                n = (b - a + (k - 1)) / k if k > 0 else (a - b + (-k - 1)) / -k
                n = simp(z3.If(n >= 0, n, z3.IntVal(0)))
                v = subst(g.segs[0].value, [(g.idx, simp(a + k * i + zi(g.lo)))], self)
                return PList(self, [Gen(i, n, True, [One(v)])], o.kind)
            # leading ones: constant bounds
            a, b = as_int_const(lo) if lo is not None else 0, as_int_const(hi) if hi is not None else None
            if a is not None and a >= 0 and st is None and (hi is None or (b is not None and b >= 0)):
                lead = 0
                for s in o.segs:
                    if isinstance(s, One) and s.guard is True:
                        lead += 1
                    else:
                        break
                if (b is not None and b <= lead):
                    segs = o.segs[a:b]
                    return tuple(s.value for s in segs) if o.kind == 'tuple' else PList(self, segs, o.kind)
                if hi is None and a <= lead:
                    return PList(self, o.segs[a:], o.kind)
        raise Unsupported(f'slice of {o!r}')

    def slice_indices(self, ln, lo, hi, k):
        """slice(lo, hi, k).indices(ln), for a known step."""
        k = 1 if k is None else as_int_const(k)
        if k is None:
            raise Unsupported('symbolic slice step')
        if k == 0:
            raise PyExc('ValueError', ('slice step cannot be zero',))
        ln = zi(ln)
        low, high = (z3.IntVal(0), ln) if k > 0 else (z3.IntVal(-1), simp(ln - 1))

        def norm(x, d):
            if x is None:
                return d
            c = as_int_const(x)
            if c is not None and c >= 0 or self.quick_valid(zi(x) >= 0):
                return zi(x) if self.quick_valid(zi(x) <= high) else z3.If(zi(x) <= high, zi(x), high)
            neg = z3.If(ln + x >= low, ln + x, low)
            if c is not None or self.quick_valid(zi(x) < 0):
                return neg
            return z3.If(zi(x) < 0, neg, z3.If(zi(x) <= high, zi(x), high))
        return (norm(lo, low), norm(hi, high), k) if k > 0 else (norm(lo, high), norm(hi, low), k)

    def getitem(self, o, k):
        o = self.pick(o)
        if isinstance(o, PDict):
            def missing():
                if o.default is not None and not getattr(o, 'strict', False):
                    v = o.default(self)
                    if isinstance(v, Mut):
                        o.log = o.log + [One(('set', k, v))]
                    return v
                raise PyExc('KeyError', (k,))
            return self.dict_get(o, k, missing)
        if isinstance(o, Model):
            if hasattr(o, 'm___getitem__'):
                return o.m___getitem__(self, k)
        if isinstance(o, Rec) and isinstance(o.cls, ClassRef):
            meth = self.find_method(o.cls, '__getitem__')
            if meth:
                return self.call_method(o, meth, [k], {})
        k = self.pick(k)
        if isinstance(k, Builtin) and k.name == 'slice':
            return self.slice(o, *k.bound)
        if is_string(o):
            if isinstance(o, str) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyExc('IndexError')
            s = zs(o)
            n = z3.Length(s)
            kk = zi(k)
            kk = z3.If(kk < 0, n + kk, kk)
            if self.branch(simp(z3.And(kk >= 0, kk < n))):
                return z3.SubString(s, simp(kk), 1)
            raise PyExc('IndexError')
        if isinstance(o, bytes) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyExc('IndexError')
        if isinstance(o, (tuple, PList)):
            segs = [One(x) for x in o] if isinstance(o, tuple) else o.segs
            if isinstance(o, tuple) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyExc('IndexError')
            if not is_num(k):
                raise PyExc('TypeError', ('list indices must be integers',))
            kc = as_int_const(k)
            lead = 0
            for s in segs:
                if isinstance(s, One) and s.guard is True:
                    lead += 1
                else:
                    break
            if kc is not None and 0 <= kc < lead:
                return segs[kc].value
            if kc is not None and kc < 0 and self.all_ones(segs) and -kc <= lead:
                return segs[kc].value
            if kc is not None and kc < 0:
                trail = 0
                for s in reversed(segs):
                    if isinstance(s, One) and s.guard is True:
                        trail += 1
                    else:
                        break
                if -kc <= trail:
                    return segs[kc].value
            n = self.length(segs)
            kk = zi(k)
            if kc is not None:
                kk = zi(n) + kc if kc < 0 else kk
            elif not self.quick_valid(kk >= 0):
                kk = z3.If(kk < 0, zi(n) + kk, kk)
            kk = simp(kk)
            if self.branch(simp(z3.And(kk >= 0, kk < zi(n)))):
                return self.elem(segs, kk)
            raise PyExc('IndexError')
        if isinstance(o, Builtin) or isinstance(o, Opaque) or isinstance(o, ClassRef):
            return o     # typing subscripts
        if o is None or is_num(o):
            raise PyExc('TypeError', ('not subscriptable',))
        raise Unsupported(f'subscript of {o!r}')

    def setitem(self, o, k, v):
        o = self.pick(o)
        if isinstance(o, PDict):
            o.log = o.log + [One(('set', k, v))]
            return
        if isinstance(o, Model) and hasattr(o, 'm___setitem__'):
            o.m___setitem__(self, k, v)
            return
        if isinstance(o, PList) and self.all_ones(o.segs):
            kc = as_int_const(k)
            if kc is not None:
                segs = list(o.segs)
                try:
                    segs[kc] = One(v)
                except IndexError:
                    raise PyExc('IndexError')
                o.segs = segs
                return
            o.segs = [One(self.ite(zi(k) == j, v, s.value)) for j, s in enumerate(o.segs)]
            return
        if isinstance(o, PList):
            g = self.single_gen(o.segs)
            if g is not None:
                j = simp(zi(k) + zi(g.lo))
                if self.branch(z3.And(zi(k) >= 0, j < zi(g.n))):
                    o.segs = [Gen(g.idx, g.n, True,
                                  [One(self.ite(g.idx == j, v, g.segs[0].value))], g.lo)]
                    return
                raise PyExc('IndexError')
        raise Unsupported(f'item assignment on {o!r}')

    # ------------------------------------------------------------ yield, call
    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        if not self.yield_stack:
            raise Unsupported('yield outside generator')
        out = self.yield_stack[-1]
        if hasattr(out, 'inner'):
            if out.entered:
                raise PyExc('RuntimeError', ("generator didn't stop",))
            out.entered = True
            mine, self.yield_stack = self.yield_stack, list(out.outer)
            try:
                out.inner(v)
            except (ReturnEx, BreakEx, ContinueEx) as e:
                out.ctl = e
            finally:
                self.yield_stack = mine
            return None
        out.segs = out.segs + [One(v)]
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        segs = self.iter_segs(v, True)
        out = self.yield_stack[-1]
        out.segs = out.segs + list(segs)
        return None

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.pick(self.eval(a.value, env))
                segs = self.iter_segs(v, True)
                if not self.all_ones(segs):
                    args.append(('*segs', segs))
                    continue
                args.extend(s.value for s in segs)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.pick(self.eval(k.value, env))
                items = self.dict_items(d)
                if not self.all_ones(items):
                    raise Unsupported('symbolic ** argument')
                for s in items:
                    kk = as_str_const(s.value[0])
                    if kk is None:
                        raise Unsupported('symbolic ** key')
                    kwargs[kk] = s.value[1]
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        f = self.pick(f)
        if isinstance(f, Func) and any(is_star(a) for a in args):
            return self.call_star(f, args, kwargs)
        if isinstance(f, Builtin) and f.name.startswith('model:') and sum(map(is_star, args)) == 1 and is_star(args[-1]):
            # a contract sees the extra arguments as one list
            kwargs = dict(kwargs, star=PList(self, args.pop()[1], 'tuple'))
        if isinstance(f, Builtin) and f.name == 'zip' and len(args) == 1 and is_star(args[0]):
            return self.transpose(args[0][1])
        if any(is_star(a) for a in args) and not isinstance(f, ClassRef):
            if not (isinstance(f, Builtin) and f.name.endswith('.chain')):
                raise Unsupported('symbolic * arguments')
        if isinstance(f, Builtin) and f.name == 'super':
            return self.super_obj(env)
        return self.call(f, args, kwargs)

    def transpose(self, segs):
        """zip(*segs) of rows that are tuples of one length."""
        g = self.single_gen(segs)
        if g is None or not isinstance(g.segs[0].value, tuple):
            raise Unsupported('symbolic * arguments')
        if not self.branch(zi(g.n) > zi(g.lo)):
            return PIter(self, [])
        return PIter(self, [One(PList(self, [Gen(g.idx, g.n, g.guard, [One(x)], g.lo)], 'tuple')) for x in g.segs[0].value])

    def call_star(self, f, args, kwargs):
        """f(*symbolic) : only when the extra arguments land in *args."""
        a = f.node.args
        npos = len(a.posonlyargs + a.args) - (1 if f.bound is not None else 0)
        lead = []
        segs = []
        for x in args:
            if is_star(x):
                segs.extend(x[1])
            elif segs or len(lead) >= npos:
                segs.append(One(x))
            else:
                lead.append(x)
        if len(lead) < npos or a.vararg is None:
            raise Unsupported('symbolic * arguments')
        env = Env(self, f.env, f.module, f.qual)
        self.bind(a, env, f, lead, kwargs)
        env.vars[a.vararg.arg] = PList(self, segs, 'tuple')
        self.inlined.add(f.qual)
        if q_is_gen(f.node):
            it = PIter(self)
            it.thunk = lambda: self.run_generator(f.node, env)
            return it
        self.call_depth += 1
        try:
            self.exec_block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.call_depth -= 1

    def super_obj(self, env):
        e = env
        while e is not None and 'self' not in e.vars:
            e = e.parent
        if e is None:
            raise Unsupported('super()')
        obj = e.vars['self']
        cls = obj.cls
        # class in which the running method is defined
        q = e.name.split(':')[-1].split('.')
        for nm in (q[0],):
            r = self.program.resolve(e.module.name, nm)
        node = r[2]
        return SuperModel(self, obj, ClassRef(r[1], node))

    def instantiate(self, cref, args, kwargs):
        q = cref.qual
        if q in self.contracts:
            self.used_contracts.add(q)
            return self.contracts[q](self, *args, **kwargs)
        names = self.mro_names(cref)
        if any(n in EXC_BASES for n in names):
            return Rec(self, cref, {'args': tuple(args)}, 'exc')
        rec = Rec(self, cref, {})
        if is_dataclass(cref.node):
            fields = dataclass_fields(self, cref)
            pos = list(args)
            for name, default, factory, m in fields:
                if pos:
                    rec.fields[name] = pos.pop(0)
                elif name in kwargs:
                    rec.fields[name] = kwargs.pop(name)
                elif default is not None:
                    rec.fields[name] = self.eval(default, Env(self, None, m))
                elif factory is not None:
                    rec.fields[name] = self.call(self.eval(factory, Env(self, None, m)), [])
                else:
                    raise PyExc('TypeError', (f'missing field {name}',))
            if pos or kwargs:
                raise PyExc('TypeError', ('too many fields',))
            meth = self.find_method(cref, '__post_init__')
            if meth:
                self.call_method(rec, meth, [], {})
            return rec
        meth = self.find_method(cref, '__init__')
        if meth:
            f = Func(meth[1], meth[0].module, None, rec, meth[0])
            if any(is_star(a) for a in args):
                self.call_star(f, args, kwargs)
            else:
                self.call_func(f, args, kwargs)
        elif args or kwargs:
            raise PyExc('TypeError', ('takes no arguments',))
        return rec

    # ------------------------------------------------------------- types
    def typenames(self, v):
        if v is None:
            return {'NoneType'}
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return {'bool', 'int'}
        if isinstance(v, int) or (is_z3(v) and (z3.is_int(v) or z3.is_bv(v))):
            return {'int'}
        if isinstance(v, (float, Fraction)) or (is_z3(v) and z3.is_real(v)):
            return {'float'}
        if is_string(v):
            return {'str'}
        if isinstance(v, bytes):
            return {'bytes'}
        if isinstance(v, tuple):
            return {'tuple'}
        if isinstance(v, PList):
            if v.kind in ('trace', 'iter'):
                return {'iterator'}
            return {v.kind}
        if isinstance(v, PDict):
            return {'dict'}
        if isinstance(v, PIter):
            return {'iterator'}
        if isinstance(v, Func):
            return {'function'}
        if isinstance(v, Builtin) and v.name == 'slice' and v.bound is not None:
            return {'slice'}
        if isinstance(v, Builtin):
            return {'type', 'function'} if v.name in TYPE_NAMES else {'function'}
        if isinstance(v, ClassRef):
            return {'type', 'function'}
        if isinstance(v, Rec):
            return set(self.mro_names(v.cls)) if isinstance(v.cls, ClassRef) else {v.cls}
        if isinstance(v, Model):
            return set(getattr(v, 'pytypes', ()))
        if isinstance(v, (Opaque, Model)):
            t = getattr(v, 'pytypes', None)
            if t is not None:
                return set(t)
        raise Unsupported(f'type of {v!r}')

    def isinstance_(self, v, c):
        v = self.pick(v)
        if isinstance(c, tuple):
            return Or(*[self.isinstance_(v, x) for x in c])
        names = self.typenames(v)
        if isinstance(c, Builtin):
            n = c.name
            if n.startswith('abc:'):
                n = n[4:]
                if names & ABC.get(n, set()) or n in names:
                    return True
                if isinstance(v, Rec) and isinstance(v.cls, ClassRef):
                    if n == 'Iterable':
                        return self.find_method(v.cls, '__iter__') is not None or \
                            'Sequence' in names
                    if n == 'Callable':
                        return self.find_method(v.cls, '__call__') is not None
                return False
            if n == 'object':
                return True
            if n.startswith('exc:'):
                return any(self.exc_is(x, n[4:]) for x in names if x in EXC_BASES) or n[4:] in names
            if n.startswith('ext:'):
                n = n[4:].split('.')[-1]
            if n.startswith(('type:', 'class:')):
                n = n.split(':')[1]
            return n in names
        if isinstance(c, ClassRef):
            return c.node.name in names
        if isinstance(c, Opaque):
            return c.name.split('.')[-1] in names
        raise Unsupported(f'isinstance with {c!r}')


class SuperModel(Model):
    def __init__(self, m, obj, cref):
        self.obj = obj
        self.cref = cref

    def getattr(self, m, name):
        for b in self.cref.node.bases:
            base = b.value if isinstance(b, ast.Subscript) else b
            if isinstance(base, ast.Name):
                r = m.program.resolve(self.cref.module.name, base.id)
                if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                    meth = m.find_method(ClassRef(r[1], r[2]), name)
                    if meth:
                        return Func(meth[1], meth[0].module, None, self.obj, meth[0])
        if name == '__init__':
            return lambda m, *a, **k: None
        raise Unsupported(f'super().{name}')


class DistinctReindex:
    """Facts about sums over the distinct keys of a sequence.

    Group-by lemma (proved in lemmas.py):  sum_j sum_i [key(i)=ed(j)] X(i) = sum_i X(i).
    """
    def __init__(self, m, gen, ed, D, fs, outer):
        self.gen = gen
        self.ed = ed
        self.D = D
        self.fs = fs
        self.outer = outer

    def facts(self, m, a, ent, n, args):
        out = []
        st = m.sums
        if not (n.eq(self.D) or m.quick_valid(n == self.D)):
            return out
        body = ent['body']
        var = ent['var']
        # body == inner SUM application F2(n2, args2) whose outer args include var
        if not z3.is_app(body) or body.decl().name() not in st.by_name:
            return out
        inner = st.by_name[body.decl().name()]
        if ent['outer']:
            body = z3.substitute(body, *zip(ent['outer'], args))
        n2 = body.arg(0)
        oargs = [body.arg(k) for k in range(1, body.num_args())]
        lo = simp(zi(self.gen.lo))
        if not (z3.is_int_value(lo) and lo.as_long() == 0):
            return out
        if var.decl().name() in z3_consts(n2) or not (n2.eq(zi(self.gen.n)) or m.quick_valid(n2 == zi(self.gen.n))):
            return out
        key = self.gen.segs[0].value
        keyt = key if isinstance(key, tuple) else (key,)
        i = m.index()
        want = [f(*self.outer, var) for f in self.fs]
        keyi = [z3.substitute(zany(k), (self.gen.idx, i)) for k in keyt]
        b = st.body_at(inner, i, oargs)
        if b.decl().kind() != z3.Z3_OP_ITE:
            return out
        conds = list(b.arg(0).children()) if z3.is_and(b.arg(0)) else [b.arg(0)]
        found = set()
        rest = []
        for c in conds:
            hit = False
            if z3.is_eq(c):
                for k in range(len(want)):
                    p, q = c.children()
                    if (p.eq(want[k]) and q.eq(keyi[k])) or (q.eq(want[k]) and p.eq(keyi[k])):
                        found.add(k)
                        hit = True
            if not hit:
                rest.append(c)
        if len(found) != len(want):
            return out
        X = z3.If(z3.And(*rest) if len(rest) > 1 else rest[0], b.arg(1), z3.RealVal(0)) if rest else b.arg(1)
        X = z3.substitute(X, *[(w, k) for w, k in zip(want, keyi)])
        if var.decl().name() in z3_consts(X):
            return out
        idx = m.index()
        X = z3.substitute(X, (i, idx))
        out.append(a == st.SUM(idx, zi(self.gen.n), X))
        return out


class ConcatReindex:
    """ed enumerates segments of pairwise different elements:
    sum_j F(ed(j)) = sum of F over the segments."""
    def __init__(self, segs, D, fs, outer, tup):
        self.segs = segs
        self.D = D
        self.fs = fs
        self.outer = outer
        self.tup = tup

    def facts(self, m, a, ent, n, args):
        if not (n.eq(self.D) or m.quick_valid(n == self.D)):
            return []
        var = ent['var']
        body = z3.substitute(ent['body'], *zip(ent['outer'], args)) if ent['outer'] else ent['body']
        apps = [f(*self.outer, var) for f in self.fs]
        tmps = [z3.Const(f'cat!tmp{k}', x.sort()) for k, x in enumerate(apps)]
        b2 = z3.substitute(body, *zip(apps, tmps))
        if b2.eq(body) or var.decl().name() in z3_consts(b2):
            return []

        def F(v):
            v = v if self.tup else (v,)
            return z3.substitute(b2, *[(t, zany(x)) for t, x in zip(tmps, v)])
        return [a == m.seg_sum(self.segs, F)]


def seg_leaves(segs, ctx=(), guard=True):
    """[(index constants, guard, value)] of every element."""
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append((list(ctx), And(guard, s.guard), s.value))
        elif isinstance(s, Gen):
            out += seg_leaves(s.segs, list(ctx) + [s.idx], And(guard, s.guard, zi(s.lo) <= s.idx, s.idx < zi(s.n)))
        else:
            raise Unsupported('loop-carried prefix')
    return out


def m_zero(x):
    return x == 0 if isinstance(x, int) else z3.is_int_value(x) and x.as_long() == 0


class PermReindex:
    """perm is a bijection of [0,n): sum_k g(perm k) = sum_i g(i)."""
    def __init__(self, perm, n, outer):
        self.perm = perm
        self.n = n
        self.outer = outer

    def facts(self, m, a, ent, n, args):
        if not (n.eq(self.n) or m.quick_valid(n == self.n)):
            return []
        var = ent['var']
        outer_args = [z3.substitute(o, *zip(ent['outer'], args)) if ent['outer'] else o for o in []]
        body = z3.substitute(ent['body'], *zip(ent['outer'], args)) if ent['outer'] else ent['body']
        app = self.perm(*self.outer, var)
        tmp = z3.Int('perm!tmp')
        b2 = z3.substitute(body, (app, tmp))
        if b2.eq(body) or var.decl().name() in z3_consts(b2):
            return []
        idx = m.index()
        return [a == m.sums.SUM(idx, n, z3.substitute(b2, (tmp, idx)))]


# ------------------------------------------------------------------ utilities
def map_seg(s, f):
    if isinstance(s, One):
        return One(f(s.value), s.guard)
    if isinstance(s, Gen):
        return Gen(s.idx, s.n, s.guard, [map_seg(x, f) for x in s.segs], s.lo)
    return s


def filter_seg(s, g):
    if isinstance(s, One):
        return One(s.value, simp(And(s.guard, g(s.value))))
    if isinstance(s, Gen):
        return Gen(s.idx, s.n, s.guard, [filter_seg(x, g) for x in s.segs], s.lo)
    return s


def seg_ops(segs):
    for s in segs:
        if isinstance(s, One):
            yield s.value[0]
        elif isinstance(s, Gen):
            yield from seg_ops(s.segs)
        else:
            yield 'marker'


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zany(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return real(x)
    if isinstance(x, str):
        return z3.StringVal(x)
    return x


def sort_of(x):
    return zany(x).sort()


def is_intlike(x):
    return isinstance(x, int) or (is_z3(x) and (z3.is_int(x) or z3.is_bool(x)))


def num_pair(a, b):
    if is_intlike(a) and is_intlike(b):
        if is_z3(a) and z3.is_bool(a) and is_z3(b) and z3.is_bool(b):
            return a, b
        return zi(a), zi(b)
    return real(a), real(b)


def simp1(x):
    """Cheap normalisation of numerals only."""
    if z3.is_app(x) and all(z3.is_int_value(c) or z3.is_rational_value(c) for c in x.children()):
        return z3.simplify(x)
    return x


def tobv(x):
    if isinstance(x, int):
        if x < 0:
            raise Unsupported('negative bitvector constant')
        return z3.BitVecVal(x, BVW)
    if is_bv(x):
        return x
    raise Unsupported('bitvector operand')


def to_int_exact(s):
    s = z3.simplify(s)
    if z3.is_rational_value(s) and s.denominator_as_long() == 1:
        return z3.IntVal(s.numerator_as_long())
    if s.decl().kind() == z3.Z3_OP_TO_REAL:
        return s.arg(0)
    return z3.ToInt(s)


def same_value(a, b):
    from .interp import same
    return same(a, b)


def type_group(v):
    if v is None:
        return 'None'
    if is_num(v):
        return 'num'
    if is_string(v):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, PList):
        return v.kind
    if isinstance(v, PDict):
        return 'dict'
    return type(v).__name__


def decorated(node, name):
    for d in getattr(node, 'decorator_list', []):
        n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
        if n == name:
            return True
    return False


def is_dataclass(node):
    for d in node.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        n = c.attr if isinstance(c, ast.Attribute) else getattr(c, 'id', None)
        if n == 'dataclass':
            return True
    return any(isinstance(b, ast.Name) and b.id == 'NamedTuple' for b in node.bases)


def frozen_dataclass(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value:
                    return True
    return False


def dataclass_fields(m, cref):
    out = []
    for st in cref.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            default, factory = None, None
            v = st.value
            if isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', None)) == 'field':
                init = True
                for k in v.keywords:
                    if k.arg == 'default':
                        default = k.value
                    elif k.arg == 'default_factory':
                        factory = k.value
                    elif k.arg == 'init' and isinstance(k.value, ast.Constant) and not k.value.value:
                        init = False
                if not init:
                    continue
            elif v is not None:
                default = v
            out.append((st.target.id, default, factory, cref.module))
    return out


def q_is_gen(node):
    from .interp import is_generator
    return is_generator(node)


def is_star(a):
    return isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*segs'


def is_app_of(total, apps):
    return any(total.eq(a) for a in apps)


def binary_digits(x):
    """{position: condition} when x is a sum of distinct powers of two, each
    present under a condition; None when x has another form."""
    if isinstance(x, int):
        return {j: True for j in range(x.bit_length()) if x >> j & 1} if x >= 0 else None
    if z3.is_int_value(x):
        return binary_digits(x.as_long())
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        a, b = binary_digits(a), binary_digits(b)
        if a is None or b is None:
            return None
        return {j: Or(And(c, a.get(j, False)), And(z3.Not(c), b.get(j, False))) for j in {*a, *b}}
    if z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2:
        k, y = x.children()
        if not z3.is_int_value(k) or k.as_long() <= 0 or k.as_long() & (k.as_long() - 1):
            return None
        d = binary_digits(y)
        return None if d is None else {j + k.as_long().bit_length() - 1: c for j, c in d.items()}
    if z3.is_app_of(x, z3.Z3_OP_ADD):
        out = {}
        for y in x.children():
            d = binary_digits(y)
            if d is None or set(d) & set(out):
                return None
            out.update(d)
        return out
    return None


def from_digits(d):
    parts = [z3.If(zbool(c), z3.IntVal(1 << j), z3.IntVal(0)) for j, c in sorted(d.items()) if c is not False]
    return simp1(z3.Sum(parts)) if parts else 0
