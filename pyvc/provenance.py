"""Where SQL text comes from: every statement handed to the database is made of constants of the source and of what
format_identifier returned.

A text value is a set of alternatives; in an alternative \\1 stands for safe text (quoted identifiers with constants between
them), \\0 for text of unknown origin.  A statement with \\0 in it is a violation: data that was not quoted would be parsed as SQL.
"""
import ast
import re
from .effects import *
from .effects import Any_, EMPTY, Fn, join, cut, ANY, NONE, TAINT, Const, const, Handle, HMeth, ListOf, Outs, S, Text, Tup, Tx, alts, elem, plain, positive, texts, Effects
from .values import Unsupported
from dataclasses import dataclass

SAFE = Text(frozenset({'\1'}))


@dataclass(frozen=True)
class Num(Any_):
    """An integer: its text is digits."""


NUM = Num()
INTS = {'builtins.int', 'builtins.len', 'int.from_bytes', 'builtins.int.from_bytes', 'builtins.sum', 'builtins.round'}


class Provenance(Effects):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.statements = {}     # (module, function, line) -> set of statement texts

    def call(self, f, args, kwargs, star, dstar, s, outs, e=None):
        node = getattr(f, 'node', None)
        if getattr(node, 'name', None) == 'format_identifier' and f.module.startswith('toron'):
            self.maybe_raise(outs, s)
            return [(s, SAFE)]
        return super().call(f, args, kwargs, star, dstar, s, outs, e)

    def empty(self, e, s):
        return False

    def e_List(self, e, s, outs):
        return [(s, ListOf(EMPTY))] if not e.elts else super().e_List(e, s, outs)

    def e_BinOp(self, e, s, outs):
        if isinstance(e.op, ast.Mult):
            o = Outs()
            r = []
            for x, (a, b) in self.evs([e.left, e.right], s, o):
                v = next((v for v in (a, b) if texts(v)), None)
                if v is not None and not any('\0' in t for t in alts(v)):
                    r.append((x, SAFE))
                elif any(isinstance(q, (Tup, ListOf)) for q in (a, b)):
                    r.append((x, ListOf(elem(a if isinstance(a, (Tup, ListOf)) else b))))
                else:
                    r = None
                    break
            if r is not None:
                for k, x, v in o:
                    outs.add(k, x, v)
                for x, _ in r:
                    self.maybe_raise(outs, x)
                return r
        return super().e_BinOp(e, s, outs)

    def handle_call(self, f, args, kwargs, star, s, outs, e):
        o, name = f.recv, f.name
        if texts(o) and name == 'format' and star is None:
            self.maybe_raise(outs, s)
            return [(s, self.formatted(o, args, kwargs))]
        if isinstance(o, Handle) and name == 'executescript' and args and texts(args[0]):
            for t in alts(args[0]):
                self.sql('read', set(), s, outs, e, text=t)
            return [(s, Handle('cursor'))]
        if isinstance(o, (Tup, ListOf)) and name in ('append', 'add', 'insert', 'extend', 'update') and args and e is not None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            x = elem(args[-1]) if name in ('extend', 'update') else args[-1]
            v = ListOf(join(elem(o), x))
            self.maybe_raise(outs, s)
            return [(s.set(e.func.value.id, cut(v)), NONE)]
        return super().handle_call(f, args, kwargs, star, s, outs, e)

    def external(self, name, args, kwargs, star, dstar, s, outs):
        if name == 'itertools.repeat' and args and texts(args[0]):
            self.maybe_raise(outs, s)
            return [(s, ListOf(args[0]))]
        if name == 'builtins.map' and len(args) == 2 and isinstance(args[0], Fn):
            self.maybe_raise(outs, s)
            r = self.call(args[0], [elem(args[1])], {}, None, None, s, outs)
            if all(x.tx == s.tx for x, _ in r) and r:
                return [(x, ListOf(v)) for x, v in r]
        r = super().external(name, args, kwargs, star, dstar, s, outs)
        if name in INTS:
            return [(x, NUM if v == ANY else v) for x, v in r]
        return r

    def cat(self, vs):
        out = ['']
        for v in vs:
            ts = alts(v) if texts(v) else [str(v.v)] if isinstance(v, Const) and isinstance(v.v, int) else ['\1'] if isinstance(v, Num) or positive(v) else ['\0']
            if len(out) * len(ts) > 16:
                ts = ['\0' if any('\0' in t for t in ts) else '\1']
            out = [a + t for a in out for t in ts]
        return const(out[0]) if len(out) == 1 else Text(frozenset(out))

    def joined(self, sep, it):
        if texts(it):
            it = ListOf(it)
        x = elem(it)
        if x == EMPTY:
            return const('')
        if isinstance(it, (Tup, ListOf)) and (texts(x) or isinstance(x, Num)) and not any('\0' in t for v in (x, sep) if texts(v) for t in alts(v)):
            return SAFE
        return ANY

    def formatted(self, o, args, kwargs):
        out = None
        for t in alts(o):
            n = iter(range(len(args)))
            vs = []
            for k, part in enumerate(re.split(r'\{(\w*)\}', t.replace('{{', '\2').replace('}}', '\3'))):
                if k % 2 == 0:
                    if '{' in part or '}' in part:
                        return ANY
                    vs.append(const(part.replace('\2', '{').replace('\3', '}')))
                else:
                    key = next(n, None) if not part else int(part) if part.isdigit() else part
                    vs.append(kwargs.get(key, ANY) if isinstance(key, str) else args[key] if key is not None and key < len(args) else ANY)
            v = self.cat(vs)
            out = v if out is None else join(out, v)
        return out

    def sql(self, kind, tables, s, outs, e, many=False, implicit=False, text='', params=()):
        self.statements.setdefault((s.get('$module').name, getattr(e, 'lineno', 0)), set()).add(text)
        return super().sql(kind, tables, s, outs, e, many, implicit, text, params)
