"""C11: session files and symbolic links"""
import contextlib
import errno
import io
import os
import pathlib
import stat
import sys
import warnings

from sx.api import Scenario

ASSUMPTIONS = [
    'POSIX: open with O_CREAT|O_EXCL fails unless nothing has that name, with O_NOFOLLOW it refuses a link, each system call is '
    'atomic; between any two system calls another process may make of the name what it likes',
    'the names in front of the last one lead to the same directory throughout']

ABSENT, REGULAR, LINK, DANGLING = range(4)
_os = {k: getattr(os, k) for k in ('open', 'lstat', 'stat', 'fdopen', 'close', 'unlink', 'remove', 'rename', 'replace', 'access',
                                   'readlink', 'symlink', 'fstat', 'fchmod', 'chmod', 'fsync', 'ftruncate')}
_path = {k: getattr(os.path, k) for k in ('islink', 'exists', 'lexists', 'isfile', 'getsize', 'realpath')}
_open = open


class File(io.BytesIO):
    """what an open descriptor stands for"""

    def __init__(self, inode, flags):
        self.inode, self.flags, self.seen = inode, flags, False
        super().__init__(inode.data if flags & os.O_ACCMODE == os.O_RDONLY else b'')

    def write(self, b):
        self.inode.touched.append('written')
        return super().write(b)

    def read(self, *a):
        self.inode.touched.append('read')
        return super().read(*a)

    def readinto(self, b):
        self.inode.touched.append('read')
        return super().readinto(b)


class Inode(object):
    def __init__(self, name, data=b'', mode=0o644):
        self.name, self.data, self.mode, self.touched = name, data, mode, []


class Disk(object):
    """one directory entry that another process keeps changing: what it is at the n-th system call is an input"""

    def __init__(self, ctx, path, own, target):
        self.ctx, self.path, self.n = ctx, path, 0
        self.own, self.target = own, target
        self.fds = {}
        self.created = []
        self.links = False

    def kind(self):
        """what the entry is now"""
        k = self.ctx.int('entry%d' % self.n, 0, 3)
        self.n += 1
        return k

    def is_(self, k, *which):
        r = self.ctx.decide(self.ctx.lor(*[k == w for w in which]))
        return r

    # ------------------------------------------------- in the encoding: a model
    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        self.mine(path)
        k = self.kind()
        trunc = flags & os.O_TRUNC

        def err(n):
            raise OSError(n, os.strerror(n), path)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            if not self.is_(k, ABSENT):
                err(errno.EEXIST)
            inode = self.create('own', mode)
        elif flags & os.O_NOFOLLOW and self.is_(k, LINK, DANGLING):
            err(errno.ELOOP)
        elif self.is_(k, REGULAR):
            inode = self.own
        elif self.is_(k, LINK):
            inode = self.target
            inode.touched.append('opened')
        elif not flags & os.O_CREAT:
            err(errno.ENOENT)
        elif self.is_(k, ABSENT):
            inode = self.create('own', mode)
        else:
            inode = self.target
            inode.touched.append('created')
        if trunc:
            inode.touched.append('truncated')
            inode.data = b''
        fd = 1000 + len(self.fds)
        self.fds[fd] = File(inode, flags)
        return fd

    def create(self, name, mode):
        i = Inode(name, b'', mode)
        self.created.append(i)
        return i

    def fdopen(self, fd, mode='r', *a, **k):
        f = self.fds[fd]
        if 'r' in mode and '+' not in mode:
            return io.BufferedReader(f)
        return f

    def builtin_open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(path, int):
            return self.fdopen(path, mode)
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[mode[0]]
        return self.fdopen((opener or self.open)(path, flags, *(() if opener else (0o666,))), mode)

    def st(self, mode, inode=None):
        return os.stat_result((stat.S_IFREG | mode if mode is not None else stat.S_IFLNK | 0o777, 1, 1, 1, 0, 0, 0, 0, 0, 0))

    def lstat(self, path, **kw):
        self.mine(path)
        k = self.kind()
        if self.is_(k, ABSENT):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.st(0o644 if self.is_(k, REGULAR) else None)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(path)
        if not follow_symlinks:
            return self.lstat(path)
        self.mine(path)
        k = self.kind()
        if self.is_(k, ABSENT, DANGLING):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self.st(0o644)

    def fstat(self, fd):
        return self.st(self.fds[fd].inode.mode & 0o777)

    def fchmod(self, fd, mode):
        self.fds[fd].inode.mode = mode

    def chmod(self, path, mode, **kw):
        if isinstance(path, int):
            return self.fchmod(path, mode)
        k = self.kind()
        if self.is_(k, LINK):
            self.target.touched.append('chmod')

    def unlink(self, path, **kw):
        if self.is_(self.kind(), ABSENT):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    def rename(self, src, dst, **kw):
        if self.is_(self.kind(), ABSENT):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)

    def close(self, fd):
        pass

    def tryst(self, f, *a):
        try:
            return f(*a)
        except OSError:
            return None

    def islink(self, path):
        s = self.tryst(self.lstat, path)
        return s is not None and stat.S_ISLNK(s.st_mode)

    def lexists(self, path):
        return self.tryst(self.lstat, path) is not None

    def exists(self, path):
        return self.tryst(self.stat, path) is not None

    isfile = exists

    def mine(self, path):
        assert os.fspath(path) == self.path, path

    def calls(self):
        m = {os.open: self.open, os.fdopen: self.fdopen, os.lstat: self.lstat, os.stat: self.stat, os.fstat: self.fstat,
             os.fchmod: self.fchmod, os.chmod: self.chmod, os.unlink: self.unlink, os.remove: self.unlink, os.rename: self.rename,
             os.replace: self.rename, os.close: self.close, os.path.islink: self.islink, os.path.lexists: self.lexists,
             os.path.exists: self.exists, os.path.isfile: self.isfile, open: self.builtin_open, io.open: self.builtin_open}
        return m


class RealDisk(object):
    """the same, on a real directory: before a system call on the name, the entry is made what the input says"""

    def __init__(self, ctx, path, own, target):
        self.ctx, self.path, self.n = ctx, path, 0
        self.dir = ctx.scratch()
        self.real = os.path.join(self.dir, 'session')
        self.to = os.path.join(self.dir, 'target')
        self.own, self.target = own, target
        self.lost = []
        self.created = []

    def become(self, k):
        for p in (self.real, self.to):
            with contextlib.suppress(OSError):
                _os['unlink'](p)
        if k == REGULAR:
            fd = _os['open'](self.real, os.O_WRONLY | os.O_CREAT, 0o644)
            os.write(fd, self.own.data)
            _os['close'](fd)
        if k in (LINK, DANGLING):
            _os['symlink'](self.to, self.real)
        if k == LINK:
            fd = _os['open'](self.to, os.O_WRONLY | os.O_CREAT, 0o644)
            os.write(fd, self.target.data)
            _os['close'](fd)
        self.was = k

    def step(self, call, path):
        """the outside's turn, then the call"""
        if isinstance(path, int) or os.fspath(path) != self.path:
            return call(path)
        self.look()
        self.become(self.ctx.int('entry%d' % self.n, 0, 3))
        self.n += 1
        before = self.was
        r = call(self.real)
        self.look()
        if before == ABSENT and os.path.lexists(self.real):
            self.created.append(Inode('own', mode=_os['lstat'](self.real).st_mode & 0o777))
        return r

    was = None

    def look(self):
        """what became of the target since"""
        if self.was is None:
            return
        try:
            with _open(self.to, 'rb') as f:
                now = f.read()
        except OSError:
            now = None
        if now != (self.target.data if self.was == LINK else None):
            self.target.touched.append('changed')

    def calls(self):
        out = {}
        for k in ('open', 'lstat', 'stat', 'unlink', 'remove', 'chmod', 'readlink', 'access'):
            out[k] = (lambda f: lambda path, *a, **kw: self.step(lambda p: f(p, *a, **kw), path))(_os[k])
        return out


@contextlib.contextmanager
def disk(ctx, path, own, target):
    if ctx.sym:
        from sx.instrument import ENVIRONMENT
        d = Disk(ctx, path, own, target)
        m = d.calls()
        saved = {k: ENVIRONMENT.get(k) for k in m}
        ENVIRONMENT.update(m)
        try:
            yield d
        finally:
            for k, v in saved.items():
                ENVIRONMENT.pop(k) if v is None else ENVIRONMENT.update({k: v})
        return
    d = RealDisk(ctx, path, own, target)
    m = d.calls()
    import builtins
    for k, f in m.items():
        setattr(os, k, f)

    def bopen(path, mode='r', *a, **kw):
        if isinstance(path, int) or os.fspath(path) != path_:
            return _open(path, mode, *a, **kw)
        return d.step(lambda p: _open(p, mode, *a, **kw), path)
    path_ = path
    builtins.open = io.open = bopen
    try:
        yield d
        d.look()
    finally:
        for k in m:
            setattr(os, k, _os[k])
        builtins.open = io.open = _open


PATH = '/tmp/sx-no-such-directory/session.pkl'


def given(ctx, how):
    return {'text': PATH, 'path': pathlib.PurePosixPath(PATH), 'default': None}[how]


def where(ctx, how):
    return ctx.dill.session.SESSION_TEMPFILE if how == 'default' else PATH


def s_write(ctx):
    """what the name stands for (nothing, a file, a link to a file, a link to nothing) at every system call: any; a path as text,
    as a path object, or the default; saving under the new or the old name"""
    d = ctx.dill
    how = ctx.choice('how', ['text', 'path', 'default'])
    f = ctx.choice('function', [d.dump_module, d.dump_session])
    m = ctx.module('zzsession', register=False, x=5)
    own, target = Inode('own', b'own'), Inode('target', b'target')
    with disk(ctx, where(ctx, how), own, target) as fs:
        r, e = ctx.attempt(f, given(ctx, how), m)
    ctx.check(not target.touched, 'what a link leads to is left alone', detail=repr(target.touched))
    ctx.check(e is None or isinstance(e, OSError), 'an error of the operating system', detail=repr(e)[:200])
    for i in fs.created:
        ctx.check(i.mode == 0o600, 'readable and writable by its owner only', detail=oct(i.mode))


def s_read(ctx):
    """as above; loading, loading as a dictionary (updating or not), under the new or the old name"""
    d = ctx.dill
    how = ctx.choice('how', ['text', 'path', 'default'])
    which = ctx.choice('function', ['load_module', 'load_session', 'load_module_asdict'])
    own, target = Inode('own', saved(ctx, 'own')), Inode('target', saved(ctx, 'target'))
    m = sys.modules['zzsession']
    with disk(ctx, where(ctx, how), own, target) as fs:
        r, e = ctx.attempt(getattr(d, which), given(ctx, how))
    x = r.get('x') if isinstance(r, dict) else m.__dict__.get('x')
    ctx.check(x != 'target' and not target.touched, 'nothing is read through a link', detail=repr(target.touched))
    ctx.check(e is None or isinstance(e, OSError), 'an error of the operating system', detail=repr(e)[:200])
    ctx.check(e is not None or x == 'own', 'what was saved')


def saved(ctx, value):
    m = ctx.module('zzsession', x=value)
    m.__loader__ = True
    buf = io.BytesIO()
    ctx.dill.dump_module(buf, module=m)
    m.__dict__.pop('x')
    return buf.getvalue()


def s_settled(ctx):
    """nobody interferes: nothing, a file longer or shorter, a link to a file or to nothing at the name, on a real directory; saving,
    then loading"""
    d = ctx.dill
    kind = ctx.pick('kind', 4)
    longer = ctx.flag('longer')
    p = os.path.join(ctx.scratch(), 's.pkl')
    t = os.path.join(ctx.scratch(), 'target')
    old = b'x' * 100000 if longer else b'x'
    m = ctx.module('zzsession', x=5)
    m.__loader__ = True
    if kind == REGULAR:
        with open(p, 'wb') as f:
            f.write(old)
    elif kind in (LINK, DANGLING):
        os.symlink(t, p)
        if kind == LINK:
            with open(t, 'wb') as f:
                f.write(old)
    mask = os.umask([0o022, 0, 0o077][ctx.pick('umask', 3)])
    try:
        r, e = ctx.attempt(d.dump_module, p, m)
    finally:
        os.umask(mask)
    if kind in (LINK, DANGLING):
        ctx.check(isinstance(e, OSError), 'refused')
        ctx.check(os.path.lexists(t) == (kind == LINK) and (kind == DANGLING or open(t, 'rb').read() == old),
                  'what a link leads to is left alone')
        if kind == LINK:
            with open(t, 'wb') as f:
                d.dump_module(f, module=m)
        r, e = ctx.attempt(d.load_module, p)
        ctx.check(isinstance(e, OSError), 'refused')
        r, e = ctx.attempt(d.load_module_asdict, p)
        ctx.check(isinstance(e, OSError), 'refused')
        return
    ctx.check(e is None, 'saves')
    if kind == ABSENT:
        ctx.check(os.stat(p).st_mode & 0o777 == 0o600, 'readable and writable by its owner only')
    m.x = 6
    ctx.expect_ok('loads', d.load_module, p)
    ctx.check(m.x == 5, 'what was saved')
    ctx.check(ctx.expect_ok('loads', d.load_module_asdict, p)['x'] == 5, 'what was saved')


def s_warning(ctx):
    """the default path, an explicit one (also the very same), a stream; each of the session functions"""
    d = ctx.dill
    which = ctx.choice('function', ['dump_module', 'dump_session', 'load_module', 'load_session', 'load_module_asdict'])
    how = ctx.choice('how', ['default', 'text', 'path', 'same', 'stream', 'by name'])
    m = ctx.module('zzsession')
    data = saved(ctx, 'own')
    own, target = Inode('own', data), Inode('target', b'')
    arg = {'default': None, 'by name': None, 'text': PATH, 'path': pathlib.PurePosixPath(PATH), 'same': d.session.SESSION_TEMPFILE,
           'stream': io.BytesIO(data) if which.startswith('load') else io.BytesIO()}[how]
    with disk(ctx, PATH if how in ('text', 'path') else d.session.SESSION_TEMPFILE, own, target):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if how == 'by name':
                ctx.attempt(getattr(d, which), filename=None)
            elif how == 'default':
                ctx.attempt(getattr(d, which))
            else:
                ctx.attempt(getattr(d, which), arg)
    n = len([x for x in w if issubclass(x.category, d.session.SecurityWarning)])
    ctx.check((n >= 1) == (arg is None), 'a warning exactly for the default path')


SCENARIOS = [
    Scenario('write', s_write, labels=['what a link leads to is left alone', 'an error of the operating system',
                                       'readable and writable by its owner only']),
    Scenario('read', s_read, labels=['nothing is read through a link', 'an error of the operating system', 'what was saved']),
    Scenario('settled', s_settled, labels=['refused', 'what a link leads to is left alone', 'saves', 'loads', 'what was saved',
                                           'readable and writable by its owner only']),
    Scenario('warning', s_warning, labels=['a warning exactly for the default path']),
]
