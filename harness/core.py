"""Bounded run-time contract checking on the real code.

A scenario is a pair (gen, check): gen(rng, size) returns a JSON-able case,
check(case) runs the real code on it and raises Violation when the contract of
the property does not hold.  `check` is also what replays a recorded case.
"""
import base64, contextlib, importlib, io, json, logging, os, random, signal, sys, tempfile, time, traceback, warnings, shutil

REGISTRY = {}
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig


class Skip(Exception):
    """The scenario does not apply to this tree (an internal name moved)."""


class Trivial(Exception):
    """The generated case is outside the scope of the contract."""


def ensure(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg), sig)


def scenario(prop, name, n=100, thorough=20, cases=None):
    """Register check(case) decorated with its generator.
    n: cases in the quick tier; thorough: multiplier; cases: fixed list/callable
    enumerated first (exhaustively)."""
    def deco(cls):
        cls.prop, cls.name, cls.n, cls.mult, cls.cases = prop, name, n, thorough, cases
        REGISTRY.setdefault(prop, []).append(cls)
        return cls
    return deco


class finding:
    """Registered demonstrations of known findings: prop, sig, fn() -> True when it still fails."""
    ALL = []

    def __init__(self, prop, sig):
        self.prop, self.sig = prop, sig

    def __call__(self, f):
        self.fn = f
        finding.ALL.append(self)
        return f


def internal(module, name):
    try:
        mod = importlib.import_module(module)
        obj = mod
        for part in name.split('.'):
            obj = getattr(obj, part)
        return obj
    except (ImportError, AttributeError) as e:
        raise Skip(f'{module}.{name}: {e}')


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')


def jdefault(o):
    if isinstance(o, bytes):
        return {'__bytes__': base64.b64encode(o).decode()}
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    return repr(o)


def dumps(o):
    return json.dumps(o, default=jdefault, sort_keys=True)


def unjson(o):
    if isinstance(o, dict):
        if set(o) == {'__bytes__'}:
            return base64.b64decode(o['__bytes__'])
        return {k: unjson(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unjson(x) for x in o]
    return o


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


SCRATCH = None


def scratch():
    """A scratch directory of the running case (removed afterwards)."""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='verif-case-')
    return SCRATCH


def run_case(sc, case, timeout=120):
    """-> (status, message, sig); status in ok/trivial/violation/skip/error."""
    global SCRATCH
    case = unjson(json.loads(dumps(case)))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    try:
        sc.check(case)
        return 'ok', '', None
    except Trivial:
        return 'trivial', '', None
    except Skip as e:
        return 'skip', str(e), None
    except Violation as e:
        return 'violation', str(e), e.sig
    except CaseTimeout:
        return 'violation', f'no answer after {timeout} s', None
    except Exception as e:
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        text = traceback.format_exc()
        if last and os.path.abspath(last).startswith(VERIF + os.sep):
            return 'error', text, None
        return 'violation', f'unexpected {type(e).__name__}: {str(e)[:300]}\n' + text[-1500:], None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        if SCRATCH is not None:
            shutil.rmtree(SCRATCH, ignore_errors=True)
            SCRATCH = None


def load(prop):
    importlib.import_module('harness.' + prop.lower())


def run_shard(args):
    prop, name, seed, start, stop, deadline = args
    load(prop)
    sc = [s for s in REGISTRY[prop] if s.name == name][0]
    fixed = list(sc.cases() if callable(sc.cases) else (sc.cases or []))
    out = {'scenario': name, 'evaluations': 0, 'trivial': 0, 'hashes': [], 'samples': [],
           'violations': [], 'skips': [], 'errors': [], 'planned': stop - start}
    import hashlib
    for i in range(start, stop):
        if time.time() > deadline:
            break
        if i < len(fixed):
            case = fixed[i]
        else:
            rng = random.Random(f'{prop}/{name}/{seed}/{i}')
            try:
                case = sc.gen(rng, i - len(fixed))
            except Skip as e:
                out['skips'].append(str(e)); break
        status, msg, sig = run_case(sc, case)
        out['evaluations'] += 1
        if status == 'ok':
            d = dumps(case)
            out['hashes'].append(hashlib.md5(d.encode()).hexdigest())
            if len(out['samples']) < 1:
                out['samples'].append(d[:600])
        elif status == 'trivial':
            out['trivial'] += 1
        elif status == 'skip':
            out['skips'].append(msg); break
        elif status == 'error':
            out['errors'].append(msg[-1500:])
            if len(out['errors']) > 2:
                break
        else:
            out['violations'].append({'scenario': name, 'case': json.loads(dumps(case)), 'message': msg, 'sig': sig})
            if len(out['violations']) >= 3:
                break
    return out
