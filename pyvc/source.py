"""Mechanical extraction of functions and classes from the repository's source.

Nothing is copied by hand: every run parses the files under SRC and hands the
AST of the function that runs to the symbolic executor.  What is dropped:
annotations, docstrings, decorators listed in DROPPED_DECORATORS and
``typing.overload`` stubs.
"""
import ast
import os

SRC = os.environ.get('TORON_SRC', '/repo/src')
DROPPED_DECORATORS = {'overload', 'abstractmethod'}


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.defs = {}      # name -> FunctionDef/ClassDef
        self.imports = {}   # name -> ('mod', dotted) | ('from', dotted, attr)
        self.assigns = {}   # name -> expr
        self._scan(self.tree.body)

    def _scan(self, body):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                if _is_overload(node):
                    continue
                self.defs[node.name] = node
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = '.'.join(parts + ([base] if base else []))
                for a in node.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = node.value
            elif isinstance(node, ast.AnnAssign) and node.value is not None:
                if isinstance(node.target, ast.Name):
                    self.assigns[node.target.id] = node.value
            elif isinstance(node, (ast.If, ast.Try)):
                self._scan(node.body)
                for sub in getattr(node, 'orelse', []):
                    self._scan([sub])


def _is_overload(node):
    for d in getattr(node, 'decorator_list', []):
        n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
        if n == 'overload':
            return True
    return False


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/')
        for cand in (f'{self.src}/{rel}.py', f'{self.src}/{rel}/__init__.py'):
            if os.path.exists(cand):
                m = Module(name, cand)
                self.modules[name] = m
                return m
        return None

    def resolve(self, modname, name, depth=0):
        """Resolve a global name to ('def', Module, node) | ('ext', dotted)
        | ('expr', Module, expr) | None."""
        m = self.module(modname)
        if m is None or depth > 8:
            return ('ext', f'{modname}.{name}')
        if name in m.defs:
            return ('def', m, m.defs[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return ('modref', imp[1])
            _, base, attr = imp
            if base.startswith('toron') and base != 'toron._typing':
                if self.module(base + '.' + attr):
                    return ('modref', base + '.' + attr)
                return self.resolve(base, attr, depth + 1)
            return ('ext', f'{base}.{attr}')
        if name in m.assigns:
            return ('expr', m, m.assigns[name])
        return None

    def find(self, qual):
        """'toron.data_service:disaggregate_value' or
        'toron.data_models:BaseWeightRepository.add_or_resolve'."""
        mod, _, path = qual.partition(':')
        m = self.module(mod)
        if m is None:
            return None
        parts = path.split('.')
        node = m.defs.get(parts[0])
        if node is None and parts[0] in m.imports:
            r = self.resolve(mod, parts[0])
            if r and r[0] == 'def':
                m, node = r[1], r[2]
        for p in parts[1:]:
            if not isinstance(node, ast.ClassDef):
                return None
            node = class_member(node, p)
        return (m, node) if node is not None else None


def class_body(body):
    """The statements of a class body, with `if sqlite3.sqlite_version_info OP (...)` decided for the installed SQLite."""
    for n in body:
        if isinstance(n, ast.If):
            t = version_test(n.test)
            if t is not None:
                yield from class_body(n.body if t else n.orelse)
                continue
        yield n


def version_test(t):
    import operator
    import sqlite3
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and t.left.attr == 'sqlite_version_info':
        f = {ast.Lt: operator.lt, ast.GtE: operator.ge, ast.Gt: operator.gt, ast.LtE: operator.le}.get(type(t.ops[0]))
        try:
            v = ast.literal_eval(t.comparators[0])
        except ValueError:
            return None
        return f(sqlite3.sqlite_version_info, v) if f else None
    return None


def class_member(cls, name):
    found = None
    for n in class_body(cls.body):
        if isinstance(n, ast.FunctionDef) and n.name == name and not _is_overload(n):
            if any(isinstance(d, ast.Attribute) and d.attr == 'setter'
                   for d in n.decorator_list):
                continue
            found = n
    return found
