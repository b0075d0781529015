"""Contract registry and runner."""
import ast
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import z3
from .interp import Interp
from .evalx import *
from .values import *
from .machine import TRUNC, Obligation

REGISTRY = {}     # property -> [Contract]


class Contract:
    def __init__(self, prop, targets, title, fn, bounded=None, budget=60):
        self.prop = prop
        self.targets = targets if isinstance(targets, (list, tuple)) else [targets]
        self.title = title
        self.fn = fn
        self.bounded = bounded      # None, or a sentence stating the bound
        self.budget = budget
        self.name = f'{fn.__module__.split(".")[-1]}.{fn.__name__}'


def contract(prop, targets, title, bounded=None, budget=60):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Contract(prop, targets, title, fn, bounded, budget))
        return fn
    return deco


class Spec(Interp):
    """Interp plus conveniences for writing contracts."""

    def paths(self, qual, args=(), kwargs=None, self_obj=None, raises=False):
        """Run the repository function; iterate (kind, value) in each final
        state.  Every path gets a reachability note for the vacuity guard."""
        rs = self.run(qual, args, kwargs, self_obj)
        self.path_count += len(rs)
        for k, r in enumerate(rs):
            v = self.at(r)
            self.cur_path = k
            self.path_kinds.append(r[0])
            kind = 'raise' if r[0] == 'raise' else 'return'
            yield kind, v

    path_count = 0
    cur_path = 0

    def thunk_paths(self, thunk):
        """Explore an arbitrary expression over repository code."""
        rs = self.explore(thunk)
        self.path_count += len(rs)
        for k, r in enumerate(rs):
            v = self.at(r)
            self.cur_path = k
            self.path_kinds.append(r[0])
            yield ('raise' if r[0] == 'raise' else 'return'), v

    def eq_terms(self, a, b):
        """Definitely equal in the current state."""
        e = self.eq(a, b)
        return e is True or (is_z3(e) and (z3.is_true(z3.simplify(e)) or self.quick_valid(e)))

    def exists_in(self, n, f):
        i = self.index('w')
        return z3.Exists([i], zbool(And(i >= 0, i < n, f(i))))

    def exists_seg(self, v, pred):
        return self.exists(self.segs(v), pred)

    def ensure(self, name, goal, **kw):
        return self.prove(f'{name} [path {self.cur_path}]', goal, **kw)

    def unreachable(self, name):
        """This path must not be feasible."""
        return self.prove(f'{name} [path {self.cur_path}]', False)

    def cases(self, *alts):
        """Iterate over alternative preconditions, each from the same state."""
        base = self.snapshot()
        for a in alts:
            self.restore(base)
            self.assume(a)
            yield a
        self.restore(base)

    def forall_in(self, n, f, lo=0):
        i = self.index('q')
        self.assume_forall([i], Implies(And(i >= lo, i < n), f(i)))

    def distinct(self, n, f, place=None):
        """f is injective on 0..n-1; place(f(i)) is tried as the position of a value."""
        i, j = self.index('q'), self.index('q')
        self.assume_forall([i, j], Implies(And(i >= 0, i < j, j < n), Not(self.eq(f(i), f(j)))))
        if is_z3(f(i)):
            self.injective.append((zi(n), i, f(i), place))

    def any_index(self, n, lo=0, name='k'):
        k = self.index(name)
        # assumed only for goals about k: an empty range makes nothing else vacuous
        self.ranges[k.decl().name()] = zbool(And(k >= lo, k < n))
        return k

    def given_index(self, n, lo=0, name='k'):
        """An index of a range that is not empty."""
        k = self.index(name)
        self.assume(And(k >= lo, k < n))
        return k

    def sum(self, n, f):
        i = self.index('s')
        return self.sums.SUM(i, n, real(f(i)))

    def count(self, n, f):
        i = self.index('s')
        c = f(i)
        return self.indicator(self.sums.SUM(i, n, If(c, z3.RealVal(1), z3.RealVal(0))), i, 0, n, c)

    def listof(self, n, f, kind='list'):
        i = self.index()
        return PList(self, [Gen(i, n, True, [One(f(i))])], kind)

    def iterator(self, n, f):
        i = self.index()
        return PIter(self, [Gen(i, n, True, [One(f(i))])])

    def cls(self, qual):
        m, node = self.program.find(qual)
        return ClassRef(m, node)

    def func(self, qual):
        """A repository function as a value."""
        found = self.program.find(qual)
        if not found:
            raise Unsupported(f'function not found: {qual}')
        self.inlined.add(qual)
        return Func(found[1], found[0], None, None, None)

    def new(self, qual, *args, **kwargs):
        return self.instantiate(self.cls(qual), list(args), kwargs)

    def rec(self, qual, **fields):
        c = self.cls(qual)
        names = [f[0] for f in dataclass_fields(self, c)]
        for b in c.node.bases:
            if isinstance(b, ast.Name) and not names:
                r = self.program.resolve(c.module.name, b.id)
                if r and r[0] == 'def':
                    names = [f[0] for f in dataclass_fields(self, ClassRef(r[1], r[2]))]
        if set(fields) - set(names):
            raise Unsupported(f'{qual} has no field {sorted(set(fields) - set(names))}')
        return Rec(self, c, fields)

    def segs(self, v):
        v = self.pick(v)
        if isinstance(v, PIter):
            return self.force(v)
        if isinstance(v, tuple):
            return [One(x) for x in v]
        return v.segs

    def size(self, v):
        return zi(self.length(self.segs(v)))

    def total(self, v, f):
        return self.seg_sum(self.segs(v), f)


    # ------------------------------------------------- concrete repositories
    def repo(self, qual, model=None, **fields):
        """An instance of a concrete repository class.  Methods whose contract
        is given by `model` (m_<name>) are used through that contract; every
        other method is executed from its source, found by the real MRO."""
        c = self.cls(qual)
        r = Rec(self, c, dict(fields))
        r.fields['$model'] = model
        for a in ('_cursor', '_connection', '_connector'):
            r.fields.setdefault(a, Untouchable(a))
        for attr in dir(model):
            if attr.startswith('m_'):
                meth = self.find_method(c, attr[2:])
                if meth is None:
                    continue
                q = f'{meth[0].module.name}:{meth[0].node.name}.{attr[2:]}'
                self.contracts[q] = repo_contract(attr)
        return r

    def method_paths(self, obj, name, args=(), kwargs=None):
        """Run the method that obj.name() really calls."""
        meth = self.find_method(obj.cls, name)
        if meth is None:
            raise Unsupported(f'{obj.cls.qual} has no method {name}')
        yield from self.paths(f'{meth[0].module.name}:{meth[0].node.name}.{name}', args, kwargs, obj)


def repo_contract(attr):
    def call(m, self, *a, **k):
        f = getattr(self.fields.get('$model'), attr, None)
        if f is None:
            raise Unsupported(f'{attr[2:]}: no contract for this receiver')
        return f(m, *a, **k)
    return call


class Untouchable(Model):
    """A dependency that the verified code must not reach directly."""
    def __init__(self, name):
        self.name = name

    def getattr(self, m, name):
        raise Unsupported(f'{self.name}.{name}: no contract')

    def call(self, m, name, args, kwargs):
        raise Unsupported(f'{self.name}.{name}: no contract')


def fn(name, *sorts):
    S = {'i': z3.IntSort(), 'r': z3.RealSort(), 's': z3.StringSort(), 'b': z3.BoolSort()}
    return z3.Function(name, *[S[s] if isinstance(s, str) else s for s in sorts])


def trunc(x):
    return z3.ToReal(TRUNC(x))


def load_all(path=None):
    path = path or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    for f in sorted(os.listdir(path)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])


def run_contract(c, budget=None):
    """Returns a JSON-able report."""
    t = time.time()
    m = Spec()
    m.path_kinds = []
    m.enum_cache = {}
    m.sorts = []
    m.strips = []
    m.dict_reads = []
    m.list_reads = []
    m.own_markers = set()
    m.current_exc = []
    m.deadline = t + (budget or c.budget)
    err = None
    try:
        c.fn(m)
    except Unsupported as e:
        err = f'outside the verified subset: {e}'
    except PyExc as e:
        err = f'exception outside exploration: {e.name} {e.eargs}'
    except Infeasible:
        err = 'contract precondition unsatisfiable'
    except RecursionError:
        err = 'engine recursion limit'
    except z3.Z3Exception as e:
        err = f'engine: z3 {str(e)[:300]}'
    except Exception as e:
        err = f'engine: {type(e).__name__}: {str(e)[:300]} @ ' + \
            traceback.format_exc().strip().splitlines()[-3].strip()[:200]
    obs = [{'name': o.name, 'status': o.status, 'seconds': round(o.seconds, 3),
            'backend': o.backend, 'detail': o.detail, 'model': o.model} for o in m.obligations]
    return {'contract': c.name, 'title': c.title, 'targets': c.targets, 'bounded': c.bounded,
            'obligations': obs, 'error': err, 'paths': m.path_count,
            'functions': sorted(m.inlined), 'used_contracts': sorted(m.used_contracts),
            'trusted': sorted(m.trusted), 'solver_time': round(m.solver_time, 2),
            'queries': m.queries, 'wall': round(time.time() - t, 2)}


if __name__ == '__main__':
    # python -m pyvc.spec [name-substring]
    load_all()
    want = sys.argv[1] if len(sys.argv) > 1 else ''
    verbose = '-v' in sys.argv
    from pyvc.spec import REGISTRY as R
    for prop, cs in sorted(R.items()):
        for c in cs:
            if want and want not in c.name and want != prop:
                continue
            r = run_contract(c)
            bad = [o for o in r['obligations'] if o['status'] != 'proved']
            print(f"{prop} {c.name}: {len(r['obligations']) - len(bad)}/{len(r['obligations'])} proved,"
                  f" paths {r['paths']}, {r['wall']}s solver {r['solver_time']}s"
                  + (f"  ERROR {r['error']}" if r['error'] else ''))
            for o in bad:
                print('    ', o['status'], o['name'], o['seconds'], o['detail'][:700 if verbose else 150].replace('\n', ' '))
                if verbose and o['model']:
                    print('       model', {k: v for k, v in list(o['model'].items())[:20]})
