from harness.core import *
from harness.common import *
from harness import hist as H
from harness.p12 import content, space_content
import pathlib, stat

KINDS = H.INDEX_OPS + ['insert_weights', 'insert_mappings2', 'insert_mappings', 'insert_quantities', 'insert_quantities2', 'add_column', 'add_link', 'add_group', 'add_partition',
                       'rename_column', 'delete_index', 'delete_weights', 'update_weights', 'reify', 'order', 'default_group', 'drop_group', 'drop_link', 'drop_partition', 'drop_column', 'del_unmatched', 'del_noindex', 'update_index', 'delete_mappings']
PATHS = ['data.toron', 'with space.toron', 'q?mode=ro.toron', 'a#b.toron', '100%.toron', '%41.toron', 'naïve.toron', '日本.toron', "it's.toron", 'a"b.toron', 'a;b.toron', 'a:b.toron',
         'noext', 'dotted.name.toron', '&x=1.toron', 'x+y.toron', '~t.toron', '-v.toron', '*.toron', '[x].toron', 'file:x.toron', ':memory:', 'a\\b.toron', '$HOME.toron', '{x}.toron', 'tab\tx.toron']


def history(rng, n=5):
    return H.gen_history(rng, KINDS, n)


def made(c):
    s, other = H.start(c)
    for op in c['ops']:
        H.apply(s, other, op)
    return s, other


def data(path):
    with open(path, 'rb') as f:
        return f.read()


def spell(rng):
    return {'name': rng.choice(PATHS), 'as': rng.choice(['abs', 'abs', 'rel', 'dot', 'bytes', 'pathlib', 'slashes', 'sub'])}


def path_of(c, d):
    """-> (spelled path, real absolute path)"""
    sub = os.path.join(d, 'sub dir?#')
    os.makedirs(sub, exist_ok=True)
    real = os.path.join(d, c['name'])
    k = c['as']
    if k == 'sub':
        real = os.path.join(sub, c['name'])
    if k in ('rel', 'dot'):
        os.chdir(d)
        return (c['name'] if k == 'rel' else './sub dir?#/../' + c['name']), real
    if k == 'bytes':
        return os.fsencode(real), real
    if k == 'pathlib':
        return pathlib.Path(real), real
    if k == 'slashes':
        return d + '//' + c['name'], real
    return real, real


def files(d):
    return sorted(os.path.join(p, f) for p, ds, fs in os.walk(d) for f in fs)


@scenario('P13', 'save and read back', n=250)
class RoundTrip:
    def gen(rng, i):
        return {'h': history(rng), 'path': spell(rng), 'fsync': rng.random() < .5, 'cache': rng.random() < .4, 'twice': rng.random() < .3,
                'ops': [H.gen_op(rng, KINDS + ['insert_index'] * 6) for _ in range(4)]}

    def check(c):
        s, other = made(c['h'])
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        p, real = path_of(c['path'], d)
        with quiet():
            s.to_file(p, fsync=c['fsync'])
            if c['twice']:
                s.to_file(p, fsync=c['fsync'])
        ensure(files(d) == [real], f'saving to {p!r} made {files(d)}')
        with quiet():
            t = toron.read_file(p, cache_to_drive=c['cache'])
        b = space_content(s)
        ensure(space_content(t) == b == content(real), 'content read back differs')
        ensure(t.unique_id == s.unique_id and t.index_columns == s.index_columns and t.domain == s.domain, 'identity differs')
        ensure(dump(t) == dump(s), 'content read back differs')
        raw = data(real)
        # the copy behaves as the original does from here on, and the file stays as it is
        for op in c['ops']:
            ea, eb = H.apply(s, other, op), H.apply(t, other, op)
            ensure(type(ea) == type(eb), f'{op}: original {ea!r}, copy {eb!r}')
            ensure(space_content(s) == space_content(t), f'after {op} the original and the copy that was read back differ')
        ensure(data(real) == raw and files(d) == [real], 'changing the copy touched the file')


@scenario('P13', 'bound files', n=250)
class Bound:
    def gen(rng, i):
        return {'h': history(rng, 4), 'path': spell(rng), 'mode': ['ro', 'rw', 'rwc'][i % 3], 'ops': [H.gen_op(rng, KINDS + ['insert_index'] * 6) for _ in range(4)]}

    def check(c):
        s, other = made(c['h'])
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        p, real = path_of(c['path'], d)
        with quiet():
            s.to_file(p)
            t = toron.bind_file(p, mode=c['mode'])
        raw = data(real)
        ensure(t.unique_id == s.unique_id and dump(t) == dump(s), 'bound content differs')
        os.chdir('/')  # a relative path stays bound to the file it named
        for op in c['ops']:
            if c['mode'] == 'ro':
                e = H.apply(t, other, op)
                ensure(data(real) == raw, f'{op} changed a file bound read-only')
                x = H.apply(s, other, op)
                if x is None and space_content(s) != content(real):
                    ensure(isinstance(e, Exception), f'{op} reports success on a file bound read-only')
                s = toron.read_file(real)
            else:
                ea, eb = H.apply(s, other, op), H.apply(t, other, op)
                ensure(type(ea) == type(eb), f'{op}: in memory {ea!r}, bound {eb!r}')
                ensure(content(real) == space_content(s), f'after {op} the bound file does not hold the change')
        ensure(files(d) == [real], f'binding left {files(d)}')


@scenario('P13', 'bind modes and paths', n=200)
class Modes:
    def gen(rng, i):
        return {'path': spell(rng), 'mode': rng.choice(['ro', 'rw', 'rwc', 'r', 'w', '', None, 'RW', 'memory']), 'there': rng.random() < 0.5, 'h': history(rng, 2)}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        p, real = path_of(c['path'], d)
        s = None
        if c['there']:
            s, _ = made(c['h'])
            s.to_file(p)
        raw = data(real) if c['there'] else None
        err = t = None
        try:
            with quiet():
                t = toron.bind_file(p, mode=c['mode'])
        except Exception as e:
            err = e
        want = c['mode'] in ('ro', 'rw', 'rwc') and (c['there'] or c['mode'] == 'rwc')
        ensure((err is None) == want, f'bind_file({p!r}, mode={c["mode"]!r}) with file {"present" if c["there"] else "absent"}: {err!r}')
        if c['there']:
            ensure(data(real) == raw, 'binding changed the file')
            ensure(t is None or t.unique_id == s.unique_id, 'another file was bound')
        elif err is not None:
            ensure(files(d) == [], f'a refused bind made {files(d)}')
        else:
            ensure(files(d) == [real], f'created {files(d)}')
            t.add_index_columns('A')
            t.insert_index([['x']], columns=['A'])
            u = toron.read_file(real)
            ensure(u.unique_id == t.unique_id and [tuple(r) for r in u.select_index()] == [(0, '-'), (1, 'x')], 'created file does not hold the changes')


@scenario('P13', 'files that are not dataspaces', n=80)
class Foreign:
    def gen(rng, i):
        return {'kind': ['empty', 'text', 'sqlite', 'truncated', 'wrong id', 'wrong version', 'directory', 'absent', 'header only'][i % 9], 'mode': rng.choice(['read', 'cache', 'ro', 'rw', 'rwc'])}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        p = os.path.join(d, 'f.toron')
        k = c['kind']
        s = make_space(['A'], [['x'], ['y']])
        if k == 'empty':
            open(p, 'w').close()
        elif k == 'text':
            open(p, 'w').write('A,B\n1,2\n' * 100)
        elif k == 'sqlite':
            con = sqlite3.connect(p)
            con.execute('CREATE TABLE t(a)')
            con.commit()
            con.close()
        elif k in ('truncated', 'wrong id', 'wrong version', 'header only'):
            s.to_file(p)
            b = bytearray(data(p))
            if k == 'truncated':
                b = b[:len(b) // 2]
            elif k == 'header only':
                b = b[:100]
            elif k == 'wrong id':
                b[68:72] = b'\1\2\3\4'
            else:
                b[60:64] = b'DAL9'
            open(p, 'wb').write(b)
        elif k == 'directory':
            os.mkdir(p)
        if k == 'absent' and c['mode'] == 'rwc':
            raise Trivial()
        raw = data(p) if os.path.isfile(p) else None
        err = None
        try:
            with quiet():
                if c['mode'] in ('read', 'cache'):
                    t = toron.read_file(p, cache_to_drive=c['mode'] == 'cache')
                else:
                    t = toron.bind_file(p, mode=c['mode'])
                list(t.select_index())
        except Exception as e:
            err = e
        ensure(err is not None, f'a {k} file is accepted')
        ensure((data(p) if os.path.isfile(p) else None) == raw, f'a refused {k} file was changed')
        ensure([f for f in os.listdir(d) if f != 'f.toron'] == [], f'left behind: {os.listdir(d)}')


@scenario('P13', 'write permission is needed to bind for writing', n=18)
class Permission:
    def gen(rng, i):
        return {'mode': ['rw', 'rwc', 'ro'][i % 3], 'what': ['file', 'dir'][i // 3 % 2]}

    def check(c):
        d = os.path.join(scratch(), 'd')
        os.mkdir(d)
        os.chmod(d, 0o777)
        os.chmod(scratch(), 0o755)
        p = os.path.join(d, 'f.toron')
        s = make_space(['A'], [['x'], ['y']])
        if c['what'] == 'file':
            s.to_file(p)
            os.chmod(p, 0o444)
        else:
            os.chmod(d, 0o555)
        raw = data(p) if os.path.exists(p) else None
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                try:
                    with quiet():
                        t = toron.bind_file(p, mode=c['mode'])
                    code = 1
                    with quiet():
                        list(t.select_index())
                        t.insert_index([['new']], columns=['A'])
                    code = 2
                except BaseException:
                    code = code if code == 1 else 0
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        os.chmod(d, 0o777)
        want = 1 if (c['mode'] == 'ro' and c['what'] == 'file') else 0
        ensure(code == want, f'mode {c["mode"]} without permission on the {c["what"]}: outcome {code}')
        ensure((data(p) if os.path.exists(p) else None) == raw, 'changed')
