"""File typestate of saving: what is at the destination and at the temporary name after every path, from the source.

Ghost state (Files.fs): target 'old' | 'new' | 'torn', temporary file 'absent' | 'empty' | 'partial' | 'complete'.  Every operating
system and storage call may raise before it takes effect (and os.replace may be interrupted right after it).  Anything that
writes to the destination other than by renaming a complete temporary file over it tears it.
"""
import ast
from dataclasses import dataclass, replace
from .effects import *
from .effects import Any_, ANY, NONE, Const, const, Handle, HMeth, Outs, S, Tx, texts, alts, plain
from .values import Unsupported


@dataclass(frozen=True)
class Path(Any_):
    role: str = ''           # dst, dir, tmp


@dataclass(frozen=True)
class TmpFile(Any_):
    pass


@dataclass(frozen=True)
class FsTx(Tx):
    target: str = 'old'
    tmp: str = 'absent'

    def __str__(self):
        return f'destination {self.target}, temporary file {self.tmp}'


SAME = {'os.fsdecode', 'os.fspath', 'os.fsencode', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'builtins.str', 'pathlib.Path'}
PURE = {'os.access', 'os.path.isfile', 'os.path.isdir', 'os.path.exists', 'os.path.splitext', 'os.path.basename', 'os.path.join', 'os.path.split', 'os.stat', 'os.path.getsize',
        'os.fsync', 'os.close', 'os.getcwd', 'builtins.len', 'os.path.samefile', 'os.path.islink', 'os.sync', 'os.lstat', 'stat.S_IMODE', 'os.umask', 'os.getpid'}


class Files(Effects):
    def fault2(self, s, outs):
        outs.add('raise', s, 'OSError')
        outs.add('raise', s, '*Base')

    def move(self, s, **k):
        return s.with_tx(replace(s.tx, **k))

    def attr(self, o, name, s, outs):
        if isinstance(o, TmpFile):
            if name == 'name':
                return [(s, Path('tmp'))]
            if name in ('close', 'flush', 'fileno'):
                return [(s, Ext('tmpfile.' + name))]
            raise Unsupported(f'temporary file .{name}')
        if isinstance(o, Path):
            if o.role != 'tmp' and name in ('parent',):
                return [(s, Path('dir'))]
            if name in ('strip', 'name', 'stem', 'suffix', 'endswith', 'startswith', 'rpartition'):
                return [(s, ANY)]
            raise Unsupported(f'path .{name}')
        return super().attr(o, name, s, outs)

    def external(self, name, args, kwargs, star, dstar, s, outs):
        short = name.split('.')[-1]
        a0 = args[0] if args else None
        if name in SAME and isinstance(a0, Path):
            return [(s, a0)]
        if name == 'os.path.dirname' and isinstance(a0, Path):
            return [(s, Path('dir') if a0.role in ('dst', 'tmp') else ANY)]
        if name.startswith('tmpfile.'):
            return [(s, ANY)]
        if name in PURE:
            if name not in ('os.path.splitext', 'os.path.basename', 'builtins.len', 'os.path.join', 'os.path.split'):
                self.fault2(s, outs)
            return [(s, ANY)]
        if short == 'NamedTemporaryFile':
            if kwargs.get('delete', const(True)) != const(False):
                raise Unsupported('a temporary file that deletes itself')
            if kwargs.get('dir') != Path('dir'):
                raise Unsupported('a temporary file in another directory')
            if s.tx.tmp != 'absent':
                raise Unsupported('two temporary files')
            self.fault2(s, outs)
            return [(self.move(s, tmp='empty'), TmpFile())]
        if name in ('os.unlink', 'os.remove') and isinstance(a0, Path):
            if a0.role == 'tmp':
                if s.tx.tmp == 'absent':
                    outs.add('raise', s, 'FileNotFoundError')
                    return []
                return [(self.move(s, tmp='absent'), NONE)]
            if a0.role == 'dst':
                self.fault2(s, outs)
                return [(self.move(s, target='torn'), NONE)]
        if name in ('os.replace', 'os.rename', 'shutil.move') and len(args) == 2 and all(isinstance(x, Path) for x in args):
            self.fault2(s, outs)
            if (args[0].role, args[1].role) != ('tmp', 'dst') or name == 'shutil.move':
                return [(self.move(s, target='torn'), NONE)]
            t = self.move(s, target='new' if s.tx.tmp == 'complete' and s.tx.target == 'old' else 'torn', tmp='absent')
            outs.add('raise', t, '*Base')
            return [(t, NONE)]
        if name in ('os.chmod', 'os.chown', 'os.utime') and isinstance(a0, Path):
            self.fault2(s, outs)
            return [(s, NONE)]
        if name == 'os.open' and isinstance(a0, Path):
            self.fault2(s, outs)
            return [(self.move(s, target='torn') if a0.role == 'dst' else s, ANY)]
        if name in ('builtins.open', 'io.open') and isinstance(a0, Path):
            mode = args[1] if len(args) > 1 else kwargs.get('mode', const('r'))
            self.fault2(s, outs)
            if isinstance(mode, Const) and mode.v in ('r', 'rb', 'rt'):
                return [(s, ANY)]
            return [(self.move(s, target='torn') if a0.role == 'dst' else self.move(s, tmp='partial'), ANY)]
        if any(isinstance(x, Path) for x in list(args) + list(kwargs.values())) and not name.startswith('logging') and 'applogger' not in name and name not in \
                ('contextlib.closing', 'contextlib.nullcontext', 'builtins.isinstance', 'builtins.repr'):
            if short[:1].isupper() and short.endswith('Error'):
                return super().external(name, args, kwargs, star, dstar, s, outs)
            raise Unsupported(f'a path is handed to {name}')
        return super().external(name, args, kwargs, star, dstar, s, outs)

    def call(self, f, args, kwargs, star, dstar, s, outs, e=None):
        if isinstance(f, Fn) and getattr(f.node, 'name', '') == 'get_sqlite_connection':
            p = args[0] if args else kwargs.get('path')
            self.fault2(s, outs)
            outs.add('raise', s, '*Storage')
            if isinstance(p, Path) and p.role == 'tmp':
                return [(s, Handle('tmp connection'))]
            if isinstance(p, Path) and p.role == 'dst':
                return [(self.move(s, target='torn'), Handle('tmp connection'))]
            raise Unsupported('a connection to another file')
        return super().call(f, args, kwargs, star, dstar, s, outs, e)

    def handle_call(self, f, args, kwargs, star, s, outs, e):
        o, name = f.recv, f.name
        if isinstance(o, Handle) and name == 'close':
            return [(s, NONE)]
        if isinstance(o, Handle) and name == 'backup':
            if o.kind == 'connection' and args == [Handle('tmp connection')]:
                part = self.move(s, tmp='partial')
                for kind in ('*Storage', '*Base'):
                    outs.add('raise', part, kind)
                return [(self.move(s, tmp='complete'), NONE)]
            raise Unsupported('backup')
        if isinstance(o, Handle) and name == 'execute' and args and texts(args[0]) and any(t.strip().upper().startswith('VACUUM') for t in alts(args[0])):
            t = [x.strip().upper() for x in alts(args[0])]
            target = args[1].items[0] if len(args) > 1 and getattr(args[1], 'items', None) else None
            if len(t) != 1 or not t[0].startswith(('VACUUM MAIN INTO ?', 'VACUUM INTO ?')) or not isinstance(target, Path):
                raise Unsupported('VACUUM')
            if target.role != 'tmp':
                return [(self.move(s, target='torn'), Handle('cursor'))]
            part = self.move(s, tmp='partial')
            for x in (s, part):
                for kind in ('*Storage', '*Base'):
                    outs.add('raise', x, kind)
            return [(self.move(s, tmp='complete'), Handle('cursor'))]
        return super().handle_call(f, args, kwargs, star, s, outs, e)

    def sql(self, kind, tables, s, outs, e, *a, **k):
        if kind != 'read':
            raise Unsupported('saving changes the database')
        self.fault(s, outs)
        return [(s, NONE)]

    def fault(self, s, outs):
        self.storage_calls += 1
        outs.add('raise', s, '*Storage')
        outs.add('raise', s, '*Base')

    def save(self, qual='toron.dal1.data_connector', cls='DataConnector', name='save_to_file'):
        from .effects import Inst, Fn
        obj = Inst(qual, cls)
        m, c, f = self.member(qual, self.find_class(qual, cls), name)
        fn = Fn(m, f, (m, c), obj)
        a = f.args
        kw = {x.arg: Path('dst') if x.arg == 'path' else ANY for x in a.args[1:] + a.kwonlyargs}
        env = self.bind(fn, [], kw, None, None)
        self.writes = {}
        self.inlined.add(f'{m}:{c.name}.{name}')
        return self.run_body(fn, S(FsTx(), self.frame(fn, env)))
