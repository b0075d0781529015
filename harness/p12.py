from harness.core import *
from harness.common import *
from harness import hist as H
import errno, sys, stat

# calls whose failure is injected: system calls on files and every call of the database library
def is_io(fn):
    mod = getattr(fn, '__module__', None) or type(getattr(fn, '__self__', None)).__module__
    name = getattr(fn, '__name__', '')
    own = type(getattr(fn, '__self__', None))
    if mod in ('posix', 'os'):
        return name in ('replace', 'rename', 'renames', 'link', 'chmod', 'fchmod', 'open', 'fsync', 'fdatasync', 'close', 'ftruncate', 'truncate', 'sendfile', 'copy_file_range')
    if mod == '_io' or mod == 'io':
        return name in ('open', 'write', 'close', 'flush')
    if own.__module__ == 'sqlite3' or any(b.__module__ == 'sqlite3' for b in own.__mro__) or mod in ('sqlite3', '_sqlite3'):
        return name in ('execute', 'executescript', 'backup', 'connect', 'commit', 'fetchone')
    return False


class Fault:
    """Raise err at the k-th injectable point of a call made below toron code (before the call, or just after it had its effect)."""
    def __init__(self, k, err, watch):
        self.k, self.err, self.watch, self.n, self.fired = k, err, watch, 0, None

    def __call__(self, frame, event, arg):
        if event not in ('c_call', 'c_return'):
            return
        f = frame
        for _ in range(4):
            if f is None:
                return
            if 'toron' in f.f_code.co_filename and f.f_code.co_filename.endswith('data_connector.py'):
                break
            f = f.f_back
        else:
            return
        if frame.f_code.co_filename.endswith(('tempfile.py', 'weakref.py')) or not is_io(arg):
            return
        if self.fired is None:
            self.watch()
        self.n += 1
        if self.n - 1 == self.k and self.fired is None:
            self.fired = f'{"before" if event == "c_call" else "after"} {getattr(arg, "__name__", arg)}'
            raise self.err


def content(path):
    if not os.path.isfile(path):
        raise sqlite3.OperationalError('no file')
    con = sqlite3.connect(path)
    try:
        tabs = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY 1")]
        return {t: sorted(map(repr, con.execute(f'SELECT * FROM "{t}"').fetchall())) for t in tabs}
    finally:
        con.close()


def space_content(s):
    con = s._connector.acquire_connection()
    try:
        tabs = [r[0] for r in sqlite3.Connection.execute(con, "SELECT name FROM sqlite_master WHERE type='table' ORDER BY 1")]
        out = {}
        cur = con.cursor()
        for t in tabs:
            cols = [r[1] for r in cur.execute(f'PRAGMA table_info("{t}")')]
            sel = ', '.join('+"%s"' % c.replace('"', '""') for c in cols)  # unary plus: no declared type, so raw values
            out[t] = sorted(map(repr, cur.execute(f'SELECT {sel} FROM "{t}"').fetchall()))
        return out
    finally:
        s._connector.release_connection(con)


def plain(rng):
    return {'cols': rng.randint(1, 3), 'n': rng.randint(0, 6), 'w': rng.random() < 0.5}


def build(c, tag='v'):
    cols = NAMES[:c['cols']]
    return make_space(cols, [[f'{tag}{i}' for _ in cols] for i in range(c['n'])], [],
                      [{'name': 'g', 'values': [float(i) for i in range(c['n'])]}] if c['w'] else None)


ERRS = ['OSError', 'OperationalError', 'KeyboardInterrupt', 'DatabaseError', 'SystemExit']


def mkerr(n):
    return {'OSError': OSError(errno.ENOSPC, 'injected'), 'OperationalError': sqlite3.OperationalError('injected'),
            'DatabaseError': sqlite3.DatabaseError('injected'), 'KeyboardInterrupt': KeyboardInterrupt('injected'), 'SystemExit': SystemExit(3)}[n]


def grid():
    out = []
    for fsync in (True, False):
        for target in ('new', 'old', 'other'):
            for err in ('OSError', 'KeyboardInterrupt', 'OperationalError', 'DatabaseError'):
                for k in range(0, 48):
                    out.append({'fsync': fsync, 'target': target, 'err': err, 'k': k, 'src': 'mem', 'sp': {'cols': 2, 'n': 3, 'w': True}})
    return out


@scenario('P12', 'an error or interruption at any point of saving', n=len(grid()) + 300, cases=grid)
class Faults:
    def gen(rng, i):
        return {'fsync': rng.random() < .5, 'target': rng.choice(['new', 'old', 'other']), 'err': rng.choice(ERRS), 'k': rng.randrange(30),
                'src': rng.choice(['mem', 'cache', 'ro', 'rw']), 'sp': plain(rng)}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        dst = os.path.join(out, 'data.toron')
        s = build(c['sp'])
        if c['src'] != 'mem':
            s.to_file(os.path.join(d, 'src.toron'))
            s = toron.read_file(os.path.join(d, 'src.toron'), cache_to_drive=True) if c['src'] == 'cache' else toron.bind_file(os.path.join(d, 'src.toron'), mode=c['src'])
        old = None
        if c['target'] == 'old':
            build(c['sp'], 'old').to_file(dst)
        elif c['target'] == 'other':
            with open(dst, 'wb') as f:
                f.write(b'not a database at all' * 50)
        if c['target'] != 'new':
            old = open(dst, 'rb').read()
        before = space_content(s)

        def state():
            if not os.path.exists(dst):
                return 'absent'
            b = open(dst, 'rb').read()
            return 'old' if b == old else 'changed'

        def complete():
            try:
                return content(dst) == before
            except sqlite3.Error:
                return False
        first = 'absent' if old is None else 'old'
        seen = []

        def watch():
            st = state()
            if not seen or seen[-1] != st:
                if st == 'changed':
                    ensure(complete(), 'the target is observed with partial content while saving')
                seen.append(st)
        err = None
        fault = Fault(c['k'], mkerr(c['err']), watch)
        try:
            with quiet():
                sys.setprofile(fault)
                try:
                    s.to_file(dst, fsync=c['fsync'])
                finally:
                    sys.setprofile(None)
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ == 'CaseTimeout':
                raise
            err = e
        if fault.fired is None:
            ensure(err is None, f'saving fails without any fault: {err!r}')
        ensure(seen in ([], [first], [first, 'changed'], ['changed']), f'target went through the states {seen}')
        st = state()
        where = f'{c["err"]} {fault.fired} -> {err!r}'
        if err is None:
            ensure(st == 'changed' and complete(), f'saving returned but the target is not the complete new file ({where})')
        else:
            ensure(st == first or (st == 'changed' and complete()), f'{where}: the target is {st} and not complete')
        ensure(os.listdir(out) in ([], ['data.toron']), f'{where}: files left behind: {sorted(os.listdir(out))}')
        ensure(space_content(s) == before, f'{where}: the dataspace in memory changed')
        ensure(not in_txn(s), f'{where}: a transaction is open')
        if fault.fired is None:
            raise Trivial()
        # a later save works
        with quiet():
            s.to_file(dst, fsync=c['fsync'])
        ensure(complete() and os.listdir(out) == ['data.toron'], 'saving again after the fault does not give the complete file')


@scenario('P12', 'refused destinations stay untouched', n=60)
class Refused:
    def gen(rng, i):
        return {'kind': ['directory', 'read-only file', 'read-only directory', 'missing directory', 'file as directory', 'non-empty directory'][i % 6], 'fsync': rng.random() < .5, 'sp': plain(rng)}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        os.chmod(d, 0o777)
        os.chmod(scratch(), 0o755)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        os.chmod(out, 0o777)
        dst = os.path.join(out, 'data.toron')
        s = build(c['sp'])
        if c['kind'] in ('directory', 'non-empty directory'):
            os.mkdir(dst)
            if c['kind'] != 'directory':
                open(os.path.join(dst, 'x'), 'w').close()
        elif c['kind'] == 'read-only file':
            build(c['sp'], 'old').to_file(dst)
            os.chmod(dst, 0o444)
        elif c['kind'] == 'read-only directory':
            os.chmod(out, 0o555)
        elif c['kind'] == 'missing directory':
            dst = os.path.join(out, 'nope', 'data.toron')
        else:
            open(os.path.join(out, 'f'), 'w').close()
            dst = os.path.join(out, 'f', 'data.toron')

        def tree():
            return sorted((p, sorted(ds), sorted((f, open(os.path.join(p, f), 'rb').read()) for f in fs)) for p, ds, fs in os.walk(out))
        before = tree()
        pid = os.fork()
        if pid == 0:  # as an unprivileged user: root may write anywhere
            code = 9
            try:
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                try:
                    s.to_file(dst, fsync=c['fsync'])
                    code = 1
                except BaseException as e:
                    code = 0 if isinstance(e, (OSError, RuntimeError, ValueError, sqlite3.Error)) else 2
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        os.chmod(out, 0o777)
        ensure(code == 0, f'saving to a {c["kind"]} {"succeeds" if code == 1 else f"ends with {code}"}')
        ensure(tree() == before, f'saving to a {c["kind"]} was refused but changed something: {[(x[0], x[1], [f[0] for f in x[2]]) for x in tree()]}')


@scenario('P12', 'killed at any point of saving', n=120)
class Killed:
    """The process disappears (no cleanup code runs) at the k-th file or database call."""
    def gen(rng, i):
        return {'fsync': rng.random() < .5, 'target': ['new', 'old'][i % 2], 'k': i // 2 % 40, 'sp': plain(rng)}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        dst = os.path.join(out, 'data.toron')
        s = build(c['sp'])
        old = None
        if c['target'] == 'old':
            build(c['sp'], 'old').to_file(dst)
            old = open(dst, 'rb').read()
        before = space_content(s)
        pid = os.fork()
        if pid == 0:
            try:
                class Die(Fault):
                    def __call__(self, frame, event, arg):
                        try:
                            Fault.__call__(self, frame, event, arg)
                        except KeyboardInterrupt:
                            os._exit(7)
                sys.setprofile(Die(c['k'], KeyboardInterrupt(), lambda: None))
                s.to_file(dst, fsync=c['fsync'])
                sys.setprofile(None)
                os._exit(0)
            finally:
                os._exit(9)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        ensure(code in (0, 7), f'child ended with {code}')
        data = open(dst, 'rb').read() if os.path.exists(dst) else None
        if data == old and code == 7:
            return
        ensure(data is not None and content(dst) == before, 'after a kill the target is neither the old nor the complete new file')
        if code == 0:
            raise Trivial()


@scenario('P12', 'saved files are complete and usable', n=150)
class Saved:
    def gen(rng, i):
        c = H.gen_history(rng, H.INDEX_OPS + ['insert_weights', 'insert_mappings2', 'insert_quantities', 'add_column'], 4)
        return {'h': c, 'fsync': rng.random() < .5, 'over': rng.choice([None, 'self', 'other']), 'umask': rng.choice([0o022, 0o077, 0o002])}

    def check(c):
        s, other = H.start(c['h'])
        for op in c['h']['ops']:
            H.apply(s, other, op)
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        dst = os.path.join(d, 'x.toron')
        if c['over']:
            (s if c['over'] == 'self' else other).to_file(dst)
        s.to_file(dst, fsync=c['fsync'])
        ensure(os.listdir(d) == ['x.toron'], f'left behind: {os.listdir(d)}')
        con = sqlite3.connect(dst)
        try:
            ensure(con.execute('PRAGMA integrity_check').fetchone()[0] == 'ok', 'integrity check')
        finally:
            con.close()
        ensure(content(dst) == space_content(s), 'saved content differs')
        ensure(os.access(dst, os.R_OK) and (stat.S_IMODE(os.stat(dst).st_mode) & 0o600) == 0o600, f'saved with mode {oct(os.stat(dst).st_mode)}')
