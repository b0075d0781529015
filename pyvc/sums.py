"""Big sums over symbolic ranges, kept in a normal form.

SUM(idx, n, body) is rewritten to a linear combination of uninterpreted
functions F_M(n, outer...) -- one per canonical monomial M(idx) -- so that two
loops that accumulate the same quantity in different ways get the same term.
Facts used at proof time (all are instances of the definition of a finite sum,
proved by induction in lemmas.py):
  F(0)=0;  n2==n1+1 -> F(n2)=F(n1)+M(n1);
  (forall i<n. M(i)>=0) -> F(n)>=0, F monotone, M(j)<=F(n);
  (forall i<n. M1(i)==M2(i)) -> F1(n)==F2(n);
  re-indexing by a permutation / order-preserving enumeration of a filter.
"""
import z3
from .values import real, is_z3, And, Or, Not, If, z3_consts


class SumTable:
    def __init__(self, m):
        self.m = m
        self.by_key = {}     # key -> entry
        self.by_name = {}    # decl name -> entry
        self.reindex = []    # (rname, m_term, n_term, guard_idx, guard)
        self.cmp_cache = {}
        self.done = {}       # (index, bound, body) -> sum

    # -- construction -------------------------------------------------------
    def SUM(self, idx, n, body):
        body = z3.simplify(real(body), som=False)
        n = z3.IntVal(n) if isinstance(n, int) else n
        known = (idx.get_id(), n.get_id(), body.get_id())
        if known in self.done:
            return self.done[known][0]
        mono = {}
        self._norm(idx, body, [], z3.RealVal(1), mono)
        total = z3.RealVal(0)
        for key in sorted(mono):
            coeff, guards, atoms = mono[key]
            if not guards and not atoms:
                total = total + coeff * z3.ToReal(n)
                continue
            total = total + coeff * self._F(idx, n, guards, atoms)
        total = z3.simplify(total)
        self.done[known] = (total, idx, n, body)        # the terms are kept, so that their ids stay theirs
        return total

    def COUNT(self, idx, n, cond):
        return self.SUM(idx, n, z3.If(cond, z3.RealVal(1), z3.RealVal(0)) if is_z3(cond)
                        else (1 if cond else 0))

    def _dep(self, e, idx):
        return idx.decl().name() in z3_consts(e)

    def _norm(self, idx, e, guards, coeff, out):
        """add coeff * prod(guards) * e to out"""
        if not self._dep(e, idx):
            self._emit(idx, guards, [], coeff * e, out)
            return
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            for c in e.children():
                self._norm(idx, c, guards, coeff, out)
            return
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            self._norm(idx, ch[0], guards, coeff, out)
            for c in ch[1:]:
                self._norm(idx, c, guards, -coeff, out)
            return
        if k == z3.Z3_OP_UMINUS:
            self._norm(idx, e.arg(0), guards, -coeff, out)
            return
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            if not self._dep(b, idx):
                self._norm(idx, a, guards, coeff / b, out)
                return
        if k == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if not self._dep(c, idx):
                self._norm(idx, a, guards, coeff * z3.If(c, z3.RealVal(1), z3.RealVal(0)), out)
                self._norm(idx, b, guards, coeff * z3.If(c, z3.RealVal(0), z3.RealVal(1)), out)
                return
            p = self._free_literal(c, idx)
            if p is not None:
                for val, one in ((z3.BoolVal(True), z3.If(p, z3.RealVal(1), z3.RealVal(0))), (z3.BoolVal(False), z3.If(p, z3.RealVal(0), z3.RealVal(1)))):
                    self._norm(idx, z3.simplify(z3.If(z3.substitute(c, (p, val)), a, b)), guards, coeff * one, out)
                return
            c, a, b = self._canon_ite(c, a, b)
            # [c]a + b - [c]b
            self._norm(idx, b, guards, coeff, out)
            self._norm(idx, a, self._addg(guards, c), coeff, out)
            self._norm(idx, b, self._addg(guards, c), -coeff, out)
            return
        if k == z3.Z3_OP_TO_REAL:
            inner = e.arg(0)
            ik = inner.decl().kind()
            if ik in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
                self._norm(idx, push_toreal(inner), guards, coeff, out)
                return
        if k == z3.Z3_OP_MUL:
            free, dep = [], []
            for c in factors(e):
                (dep if self._dep(c, idx) else free).append(c)
            for f in free:
                coeff = coeff * f
            if len(dep) == 1:
                self._norm(idx, dep[0], guards, coeff, out)
                return
            # distribute over an additive / ite factor, hoist divisions
            for pos, d in enumerate(dep):
                dk = d.decl().kind()
                rest = dep[:pos] + dep[pos + 1:]
                if dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                    for j, c in enumerate(d.children()):
                        t = prod(rest + [c])
                        sign = -coeff if (dk == z3.Z3_OP_SUB and j) else coeff
                        self._norm(idx, t, guards, sign, out)
                    return
                if dk == z3.Z3_OP_UMINUS:
                    self._norm(idx, prod(rest + [d.arg(0)]), guards, -coeff, out)
                    return
                if dk == z3.Z3_OP_DIV and not self._dep(d.arg(1), idx):
                    self._norm(idx, prod(rest + [d.arg(0)]), guards, coeff / d.arg(1), out)
                    return
                if dk == z3.Z3_OP_ITE:
                    c, a, b = d.children()
                    self._norm(idx, z3.If(c, prod(rest + [a]), prod(rest + [b])), guards, coeff, out)
                    return
            self._emit(idx, guards, dep, coeff, out)
            return
        self._emit(idx, guards, [e], coeff, out)

    def _free_literal(self, c, idx):
        """A part of a condition that does not depend on the index."""
        if not self._dep(c, idx):
            return None if z3.is_true(c) or z3.is_false(c) else c
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            for x in c.children():
                p = self._free_literal(x, idx)
                if p is not None:
                    return p.arg(0) if z3.is_not(p) else p
        return None

    def _canon_ite(self, c, a, b):
        c = z3.simplify(c)
        if z3.is_not(c):
            return c.arg(0), b, a
        if z3.is_or(c) and c.num_args() <= 3:
            return z3.And(*[x.arg(0) if z3.is_not(x) else z3.Not(x) for x in c.children()]), b, a
        return c, a, b

    def _addg(self, guards, c):
        parts = list(c.children()) if z3.is_and(c) else [c]
        out = list(guards)
        for p in map(oriented, parts):
            if not any(p.eq(g) for g in out):
                out.append(p)
        return out

    def _emit(self, idx, guards, atoms, coeff, out):
        atoms = [a for a in atoms]
        gs = sorted(guards, key=lambda g: g.sexpr())
        ats = sorted(atoms, key=lambda g: g.sexpr())
        # [g] and [not g] together are zero
        for g in gs:
            if any(z3.is_not(h) and h.arg(0).eq(g) for h in gs):
                return
        # negative guard: [c and not d] = [c] - [c and d]
        for p, g in enumerate(gs):
            if z3.is_not(g):
                rest = gs[:p] + gs[p + 1:]
                self._emit(idx, rest, atoms, coeff, out)
                self._emit(idx, self._addg(rest, g.arg(0)), atoms, -coeff, out)
                return
        key = '|'.join([g.sexpr() for g in gs]) + '##' + '*'.join(a.sexpr() for a in ats)
        if key in out:
            c0 = out[key][0]
            out[key] = (z3.simplify(c0 + coeff), gs, ats)
        else:
            out[key] = (coeff, gs, ats)

    def _F(self, idx, n, guards, atoms):
        body = prod(atoms) if atoms else z3.RealVal(1)
        if guards:
            body = z3.If(z3.And(*guards) if len(guards) > 1 else guards[0], body, z3.RealVal(0))
        # parameters: the maximal subterms that mention other indices only
        var = z3.Int('ix!canon')
        sub = [(idx, var)]
        args = []
        for k, o in enumerate(self._params(body, idx)):
            c = z3.Const(f'oa!{k}!{o.sort()}', o.sort())
            sub.append((o, c))
            args.append(o)
        cbody = z3.substitute(body, *sub)
        key = cbody.sexpr()
        ent = self.by_key.get(key)
        if ent is None:
            name = f'SUM!{len(self.by_key)}'
            F = z3.Function(name, z3.IntSort(), *[a.sort() for a in args], z3.RealSort())
            ent = {'name': name, 'F': F, 'body': cbody, 'var': var,
                   'outer': [s[1] for s in sub[1:]], 'key': key}
            self.by_key[key] = ent
            self.by_name[name] = ent
        return ent['F'](n, *args)

    def _params(self, body, idx):
        out = []
        names = self.m.idx_names
        inm = idx.decl().name()

        def walk(e):
            cs = z3_consts(e)
            if inm in cs:
                for c in e.children():
                    walk(c)
            elif any(n in names for n in cs):
                if not any(o.eq(e) for o in out):
                    out.append(e)
        walk(body)
        return out

    def body_at(self, ent, i, args):
        return z3.substitute(ent['body'], (ent['var'], i), *zip(ent['outer'], args))

    # -- facts ---------------------------------------------------------------
    def apps(self, exprs):
        found = {}
        seen = set()
        todo = list(exprs)
        while todo:
            x = todo.pop()
            if not is_z3(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                nm = x.decl().name()
                if nm in self.by_name:
                    found[x.get_id()] = x
                todo.extend(x.children())
        return list(found.values())


def push_toreal(e):
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = push_toreal(ch[0])
        for c in ch[1:]:
            r = r + push_toreal(c)
        return r
    if k == z3.Z3_OP_SUB:
        r = push_toreal(ch[0])
        for c in ch[1:]:
            r = r - push_toreal(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -push_toreal(ch[0])
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], push_toreal(ch[1]), push_toreal(ch[2]))
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    return z3.ToReal(e)


def oriented(g):
    if z3.is_not(g):
        return z3.Not(oriented(g.arg(0)))
    if z3.is_eq(g) and g.arg(1).sexpr() < g.arg(0).sexpr():
        return g.arg(1) == g.arg(0)
    return g


def factors(e):
    if e.decl().kind() == z3.Z3_OP_MUL:
        return [f for c in e.children() for f in factors(c)]
    return [e]


def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r
