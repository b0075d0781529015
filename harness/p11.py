from harness.core import *
from harness.common import *
from harness import hist as H
from harness.p12 import content, space_content

KINDS = list(dict.fromkeys(H.ALL_OPS)) + H.OTHER_OPS
ITER = [k for k in KINDS if k in H.ODD]


class Boom(Exception):
    pass


class Aborted(sqlite3.OperationalError):
    """An error for which the engine rolls the whole transaction back by itself."""


class Stop(BaseException):
    """An interruption that is not an Exception (like KeyboardInterrupt)."""


def stripped(s):
    out = space_content(s)
    out['property'] = [r for r in out['property'] if "'unique_id'" not in r and 'created_date' not in r]
    return out


def replay(c, other=None):
    s, o = H.start(c)
    other = other or o
    for op in c['ops']:
        H.apply(s, other, op)
    return s, other


def failing(at, err):
    def wrap(data):
        def it():
            for i, r in enumerate(data):
                if i == at:
                    raise err
                yield r
            if at >= len(data):
                raise err
        return it()
    return wrap


def gen(rng, kinds=None):
    c = H.gen_history(rng, KINDS, rng.randint(1, 4), maps=0.8, weights=0.9, quants=0.6)
    c['op'] = H.gen_op(rng, kinds or KINDS)
    if rng.random() < 0.25:      # the same rows again, so that every one of them meets an existing record
        c['op'] = H.gen_op(rng, [k for k in kinds or KINDS if k in ('insert_index', 'insert_weights', 'insert_mappings', 'insert_mappings2', 'insert_quantities', 'insert_quantities2')])
        c['ops'].append(dict(c['op'], odd=None))
    return c


@scenario('P11', 'operations that raise leave everything as it was', n=700)
class Natural:
    def gen(rng, i):
        c = H.gen_history(rng, KINDS, rng.randint(3, 9), maps=0.8, weights=0.9, quants=0.6)
        return c

    def check(c):
        s, other = H.start(c)
        bad = 0
        for j, op in enumerate(c['ops']):
            before = space_content(s)
            err = H.apply(s, other, op)
            ensure(not in_txn(s), f'operation {j} {op} leaves a transaction open')
            if isinstance(err, Exception):
                bad += 1
                ensure(space_content(s) == before, f'operation {j} {op} raised {err!r} but changed {[t for t, v in space_content(s).items() if before.get(t) != v]}')
        if not bad:
            raise Trivial()


def outcome(c, s, other, twin, run, what, done=None, late=False):
    """run() performs the operation under a fault; -> whether it raised"""
    before = stripped(s)
    err = None
    try:
        err = run()
    except (Stop, Boom) as e:
        err = e
    if err == 'skip':
        raise Trivial()
    ensure(not in_txn(s), f'{what} in {c["op"]} leaves a transaction open ({err!r})')
    after = stripped(s)
    if err is not None:
        if late and after != before and not isinstance(done, Exception) and after == stripped(twin):
            raise Trivial()  # a single statement outside a transaction: the library reported the interruption after its commit was done
        ensure(after == before, f'{what} in {c["op"]}: raised {err!r} but changed {[t for t, v in after.items() if before.get(t) != v]}')
    else:
        e2 = done if done is not None else H.apply(twin, other, c['op'])
        ensure(not isinstance(e2, Exception), f'{what}: returns although the operation without the fault raises {e2!r}')
        want = stripped(twin)
        ensure(after == want, f'{what} in {c["op"]}: returned, but {[t for t, v in after.items() if want.get(t) != v]} is not what the operation stores')
    return err


@scenario('P11', 'the data iterator fails', n=900)
class Iterators:
    def gen(rng, i):
        c = gen(rng, ITER)
        c.update(at=rng.randrange(0, 6), err=rng.choice(['exc', 'base', 'stop']))
        return c

    def check(c):
        s, other = replay(c)
        twin, _ = replay(c, other)
        e = {'exc': Boom('iterator'), 'base': Stop('iterator'), 'stop': KeyError('iterator')}[c['err']]
        err = outcome(c, s, other, twin, lambda: H.apply(s, other, c['op'], failing(c['at'], e)), f'an iterator failing at row {c["at"]}')
        if err is None:
            raise Trivial()


def at_sql(k, err, seen):
    """Raise err when the k-th SQL statement of the operation is about to run."""
    def prof(frame, event, arg):
        if event == 'c_call' and getattr(arg, '__name__', '') in ('execute', 'executemany', 'executescript') and isinstance(getattr(arg, '__self__', None), (sqlite3.Cursor, sqlite3.Connection)):
            seen[0] += 1
            if seen[0] - 1 == k:
                seen[1] = True
                if isinstance(err, Aborted):     # what SQLite does on its own for some errors: the whole transaction is gone
                    con = arg.__self__ if isinstance(arg.__self__, sqlite3.Connection) else arg.__self__.connection
                    if con.in_transaction:
                        con.rollback()
                raise err
    return prof


def count(twin, other, op):
    seen = [0, False]
    sys.setprofile(at_sql(-1, None, seen))
    try:
        err = H.apply(twin, other, op)
    finally:
        sys.setprofile(None)
    if err == 'skip':
        raise Trivial()
    return err or 'ok', seen[0]


@scenario('P11', 'a statement fails', n=1400)
class Statements:
    def gen(rng, i):
        c = gen(rng)
        c.update(k=rng.random(), err=rng.choice(['sql', 'abort', 'base', 'exc']))
        return c

    def check(c):
        s, other = replay(c)
        twin, _ = replay(c, other)
        e = {'abort': Aborted('injected: interrupted'), 'sql': sqlite3.OperationalError('injected: disk I/O error'), 'base': Stop('injected'), 'exc': Boom('injected')}[c['err']]
        done, n = count(twin, other, c['op'])
        k = int(c['k'] * n)
        seen = [0, False]

        def run():
            sys.setprofile(at_sql(k, e, seen))
            try:
                return H.apply(s, other, c['op'])
            finally:
                sys.setprofile(None)
        outcome(c, s, other, twin, run, f'statement {k} of {n} failing with {e!r}', done)
        if not seen[1]:
            raise Trivial()


def limited(s, other, op, how, k=-2, every=40):
    """Run op while the database library itself gives up: after k+1 progress steps, or when the file would grow by more than k pages."""
    n, boundary, begun = [0], [False], [False]

    def tracer(sql):  # an interruption of BEGIN or COMMIT itself is reported after the statement took effect
        boundary[0] = sql.lstrip()[:6].upper() in ('BEGIN ', 'COMMIT', 'ROLLBA')
        begun[0] = begun[0] or boundary[0]

    def handler():
        if boundary[0]:
            return 0
        n[0] += 1
        return 1 if n[0] == k + 1 else 0
    orig = s._connector.acquire_connection

    def acquire():
        con = orig()
        if how == 'interrupt':
            con.set_progress_handler(handler, every)
            con.set_trace_callback(tracer)
        else:
            pages = con.execute('PRAGMA page_count').fetchone()[0]
            con.execute(f'PRAGMA max_page_count={pages + k}')
        return con
    s._connector.acquire_connection = acquire
    try:
        err = H.apply(s, other, op)
    finally:
        s._connector.acquire_connection = orig
        con = orig()
        con.set_progress_handler(None, 1)
        con.set_trace_callback(None)
        con.execute('PRAGMA max_page_count=1000000')
        s._connector.release_connection(con)
    return n[0], err, begun[0]


@scenario('P11', 'the storage engine fails inside a statement', n=700)
class Engine:
    def gen(rng, i):
        c = gen(rng)
        c.update(how=rng.choice(['interrupt', 'interrupt', 'interrupt', 'full']), k=rng.random(), every=rng.choice([7, 40, 200]), pages=rng.randrange(3))
        return c

    def check(c):
        s, other = replay(c)
        twin, _ = replay(c, other)
        done, begun = None, True
        if c['how'] == 'interrupt':
            n, done, begun = limited(twin, other, c['op'], 'interrupt', every=c['every'])
            if done == 'skip':
                raise Trivial()
            done = done or 'ok'
            k = int(c['k'] * n)
        else:
            k = c['pages']
        err = outcome(c, s, other, twin, lambda: limited(s, other, c['op'], c['how'], k, c['every'])[1], f'{c["how"]} {k}', done, not begun)
        if err is None:
            raise Trivial()


@scenario('P11', 'the process is killed inside an operation on a bound file', n=150)
class Killed:
    def gen(rng, i):
        c = gen(rng)
        c.update(via='bind', k=rng.random())
        return c

    def check(c):
        s, other = replay(c)
        path = s._connector._current_working_path if hasattr(s._connector, '_current_working_path') else None
        if not path:
            raise Skip('no path of the bound file')
        before = content(path)
        twin, _ = replay(c, other)
        done, n = count(twin, other, c['op'])
        k = int(c['k'] * n)
        pid = os.fork()
        if pid == 0:
            try:
                seen = [0, False]
                prof = at_sql(k, Stop(), seen)

                def die(frame, event, arg):
                    try:
                        prof(frame, event, arg)
                    except Stop:
                        os._exit(7)
                sys.setprofile(die)
                H.apply(s, other, c['op'])
                sys.setprofile(None)
                os._exit(0)
            finally:
                os._exit(9)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        ensure(code in (0, 7), f'child ended with {code}')
        with quiet():
            t = toron.bind_file(path, mode='rw')
            list(t.select_index())     # rolls back what the killed process left in the journal
        after = content(path)
        if after == before:
            return
        want = stripped(twin)
        after['property'] = [r for r in after['property'] if "'unique_id'" not in r and 'created_date' not in r]
        ensure(after == want, f'killed at statement {k} of {n} of {c["op"]}: the file holds part of the operation')
