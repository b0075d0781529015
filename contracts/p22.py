"""Names and values are never parsed as SQL: quoting of names, and where the text of every statement comes from."""
import ast
import time
from ._lib import *
from pyvc.provenance import Provenance
from pyvc.libx import replace_all
from pyvc.machine import Obligation
from .transactions import operations, SPACE

SCHEMA = 'toron.dal1.schema:'


@contract('P22', SCHEMA + 'format_identifier', 'a name is put between double quotes with every double quote in it doubled, or refused: what comes back is one quoted identifier that stands for exactly this name')
def quoting(m):
    name = z3.String('name')
    for kind, v in m.paths(SCHEMA + 'format_identifier', [name]):
        if kind == 'raise':
            m.ensure('refused with the error meant for it', v.name == 'UnicodeEncodeError')
            continue
        m.ensure('in quotes, with inner quotes doubled', m.eq(v, z3.Concat(z3.StringVal('"'), replace_all(name, z3.StringVal('"'), z3.StringVal('""')), z3.StringVal('"'))))
        m.ensure('without unpaired surrogates', Not(z3.Function('has_surrogate', z3.StringSort(), z3.BoolSort())(name)))
        m.ensure('without a NUL character', z3.Not(z3.Contains(name, z3.StringVal('\x00'))))


MODULES = ['toron.dal1.schema', 'toron.dal1.migrations', 'toron.dal1.optimizations']


@contract('P22', [SPACE + '.*'] + [x + ':*' for x in MODULES], 'every statement handed to the database consists of constants of the source and names quoted by format_identifier; everything else travels as a parameter')
def statements(m):
    E = Provenance()
    sp = E.space()
    t = time.time()
    todo = [(f'DataSpace.{n}', lambda n=n: E.method(sp, n)) for n in operations(E)]
    for mod in MODULES:
        for node in E.p.module(mod).tree.body:
            if isinstance(node, ast.FunctionDef):
                todo.append((f'{mod}.{node.name}', lambda mod=mod, n=node.name: E.function(mod, n)))
    for n, run in todo:
        try:
            run()
        except (Unsupported, RecursionError) as e:
            m.obligations.append(Obligation(f'{n}: statements', 'unknown', 0, 'effects', f'outside the verified subset: {e}'))
    sites = {}
    for (mod, line), found in sorted(E.statements.items()):
        sites.setdefault((mod, owner(E.p.module(mod).tree, line)), []).append((line, found))
    for (mod, fn), stmts in sorted(sites.items()):
        for k, (line, found) in enumerate(stmts):
            bad = sorted(x for x in found if '\0' in x)
            m.obligations.append(Obligation(f'{mod}.{fn}: statement {k + 1} is made of constants and quoted names', 'failed' if bad else 'proved', 0, 'effects',
                                            f'{mod}:{line}: unquoted data in ' + '; '.join(' '.join(x.replace(chr(0), '<data>').replace(chr(1), '<quoted>').split())[:300] for x in bad) if bad else ''))
    m.inlined |= set(E.inlined)
    m.trusted |= {'format_identifier: its own contract (p22.quoting)', 'SQL: a double-quoted identifier stands for the name with doubled quotes undoubled; a parameter is never parsed',
                  'pure: ' + ', '.join(sorted(E.pure))}
    m.queries += E.storage_calls
    m.path_count += len(E.statements)
    if m.obligations:
        m.obligations[-1].seconds = time.time() - t


def owner(tree, line):
    name = '<module>'
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            name = n.name if name == '<module>' or isinstance(n, ast.ClassDef) and name == '<module>' else f'{name}.{n.name}'
    return name
