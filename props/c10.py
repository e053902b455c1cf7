"""C10: file handles"""
import contextlib
import io
import os
import pathlib
import sys
import tempfile

from sx.api import Scenario, patched

ASSUMPTIONS = [
    'files are regular, opened by a name that no standard stream has, with the default encoding (UTF-8) and newlines',
    'the position of a text handle is the offset in bytes (so not within a multi-byte character or a line end)',
    'positions in the model: opening truncates for w, fails for x if there is something, stands at the end for a, opening a '
    'descriptor does not truncate; O_CREAT, O_EXCL and O_TRUNC as POSIX has them']
OPENED = ['r', 'r+', 'w', 'w+', 'a', 'a+', 'x', 'x+', 'rb', 'r+b', 'wb', 'w+b', 'ab', 'a+b', 'xb', 'x+b',
          'tw', '+w', 't+r', '+xt', 'ta', 'bw']
RECORDED = {'bw': 'wb', 'r+b': 'rb+', 'w+b': 'rb+', 'a+b': 'ab+', 'x+b': 'xb+'}
MB = 1 << 20
SAVED, THERE = b'<what was in the file>', b'<what is in the file>'


def way(mode):
    """the letter that counts, wherever it stands"""
    return next(c for c in mode if c in 'rwax')


# ------------------------------------------------------------------ a model of files
class Inode(object):
    def __init__(self, content, size):
        self.content, self.size = content, size


class Handle(object):
    """an open file; positions are numbers, contents are tokens with a size"""

    def __init__(self, fs, name, mode, inode, position):
        self.fs, self.name, self.mode, self.inode, self.position = fs, name, mode, inode, position
        self.closed = False

    def flush(self):
        self.live()

    def live(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def tell(self):
        self.live()
        return self.position

    def seek(self, p, whence=0):
        self.live()
        self.position = p if whence == 0 else self.inode.size + p if whence == 2 else self.position + p
        return self.position

    def read(self, n=-1):
        self.live()
        if 'r' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        assert n == -1, 'the model only reads all'
        return self.inode.content if 'b' in self.mode else self.inode.content.decode()

    def write(self, data):
        self.live()
        if way(self.mode) == 'r' and '+' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        if isinstance(data, bytes) != ('b' in self.mode):
            raise TypeError('a bytes-like object is required, not str')
        data = data if isinstance(data, bytes) else data.encode()
        if self.fs.size_of(data) is None:
            self.inode.content, self.inode.size = b'<other>', self.fs.ctx.int('size', 0, MB)
            return
        if data or 'a' in self.mode:
            if self.fs.ctx.decide(self.inode.size == 0):
                self.inode.content, self.inode.size = data, self.fs.size_of(data)
            else:
                self.inode.content += data
                self.inode.size = self.inode.size + self.fs.size_of(data)
        self.position = self.position + self.fs.size_of(data)

    def truncate(self, n=None):
        n = self.position if n is None else n
        if not self.fs.ctx.decide(n == self.inode.size):
            self.inode.content = b'<cut>' + self.inode.content
            self.inode.size = n

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Model(object):
    """one name"""

    def __init__(self, ctx):
        self.ctx, self.name, self.inode, self.fds = ctx, '/sx/t', None, []
        self.sizes = {b'': 0}

    def size_of(self, token):
        return self.sizes.get(token)

    def exists(self, name):
        return name == self.name and self.inode is not None

    def getsize(self, name):
        self.need(name)
        return self.inode.size

    def need(self, name):
        if not self.exists(name):
            raise FileNotFoundError(2, 'No such file or directory', name)

    def os_open(self, name, flags, mode=0o777, **kw):
        if flags & os.O_CREAT and not self.exists(name):
            self.inode = Inode(b'', 0)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(17, 'File exists', name)
        self.need(name)
        if flags & os.O_TRUNC:
            self.inode.content, self.inode.size = b'', 0
        self.fds.append((name, self.inode))
        return 1000 + len(self.fds) - 1

    def open(self, name, mode='r', *a, **k):
        if isinstance(name, int):
            fd, (name, inode) = name, self.fds[name - 1000]
            return Handle(self, fd, RECORDED.get(mode, mode), inode, inode.size if 'a' in mode else 0)
        flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT, 'x': os.O_CREAT | os.O_EXCL}[way(mode)]
        fd = self.os_open(name, flags)
        h = self.open(fd, mode)
        h.name = name
        return h

    def temporary(self, mode='w+b', *a, **k):
        return Handle(self, 3, RECORDED.get(mode, mode), Inode(b'', 0), 0)

    @contextlib.contextmanager
    def use(self):
        from sx.instrument import ENVIRONMENT
        d = self.ctx.dill
        m = {io.open: self.open, os.open: self.os_open, os.fdopen: self.open, os.path.exists: self.exists,
             os.path.getsize: self.getsize, os.path.isfile: self.exists, os.path.lexists: self.exists,
             tempfile.TemporaryFile: self.temporary}
        saved = {k: ENVIRONMENT.get(k) for k in m}
        ENVIRONMENT.update(m)
        d.Pickler.dispatch[Handle] = d.Pickler.dispatch[io.TextIOWrapper]
        try:
            yield
        finally:
            d.Pickler.dispatch.pop(Handle, None)
            for k, v in saved.items():
                ENVIRONMENT.pop(k) if v is None else ENVIRONMENT.update({k: v})

    def put(self, token, size):
        self.sizes[token] = size
        if token is None:
            self.inode = None
        else:
            self.inode = Inode(token, size)

    def fill(self, f, token, size):
        self.put(token, size)
        f.inode = self.inode

    def what(self):
        return None if self.inode is None else self.inode.content

    def size(self):
        return self.inode.size


class Real(object):
    """the same on a real file"""

    def __init__(self, ctx):
        self.name = os.path.join(ctx.scratch(), 't')
        self.open = open

    def bytes(self, token, size):
        return (b'abcdefghijklmnopqrstuvw' if token is SAVED else b'ABCDEFG\nHIJKLMNOPQRS') * (size // 20 + 1)

    def put(self, token, size):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(self.name)
        if token is not None:
            with open(self.name, 'wb') as f:
                f.write(self.bytes(token, size)[:size])

    def fill(self, f, token, size):
        b = self.bytes(token, size)[:size]
        f.write(b if 'b' in f.mode else b.decode())
        f.flush()

    @contextlib.contextmanager
    def use(self):
        yield

    def what(self):
        try:
            with open(self.name, 'rb') as f:
                b = f.read()
        except FileNotFoundError:
            return None
        for t in (SAVED, THERE):
            if b and b == self.bytes(t, len(b))[:len(b)]:
                return t
        return b

    def size(self):
        return os.path.getsize(self.name)


def s_positions(ctx):
    """22 ways to open; handle, contents or file mode; sizes before and after and the position: any to 1 MiB (the position also past
    the end); the handle closed or open; the file there or gone when loading"""
    d = ctx.dill
    fs = Model(ctx) if ctx.sym else Real(ctx)
    opened = ctx.choice('opened', OPENED)
    fmode = ctx.pick('fmode', 3)
    closed = ctx.flag('closed')
    size0, size1, pos = ctx.int('size', 0, MB), ctx.int('size then', 0, MB), ctx.int('position', 0, MB)
    gone = ctx.flag('gone')
    with fs.use():
        if way(opened) in 'ra':
            fs.put(SAVED, size0)
        f = fs.open(fs.name, opened)
        if way(opened) in 'wx':
            fs.fill(f, SAVED, size0)
        f.seek(pos)
        if closed:
            f.close()
        s, e = ctx.attempt(d.dumps, f, fmode=fmode)
        ctx.check(e is None, 'saves', detail=repr(e)[:200])
        if e is not None:
            return
        mode = f.mode
        f.close()
        if gone:
            fs.put(None, 0)
        else:
            fs.put(THERE, size1)
        g, e = ctx.attempt(d.loads, s)
        if fmode == 0 and 'x' in mode and not gone:
            ctx.check(isinstance(e, d.UnpicklingError), 'nothing is created anew that exists')
            ctx.check(ctx.land(ctx.lor(fs.what() == THERE, size1 == 0), fs.size() == size1), 'existing contents stay')
            return
        ctx.check(e is None, 'loads', detail=repr(e)[:200])
        if e is not None:
            return
        ctx.on_exit(g.close)
        ctx.check(type(g) is type(f), 'a handle of this sort')
        ctx.check(g.mode == mode, 'its mode')
        ctx.check(g.closed == closed, 'closed if it was')
        at = None if closed else g.tell()
        g.close()
        anonymous = gone and 'r' in mode and fmode != 2
        ctx.check(isinstance(g.name, int) if anonymous else g.name == fs.name, 'its name')
        if anonymous:
            ctx.check(fs.what() is None, 'no file for a reading mode')
        elif fmode == 2:
            ctx.check(ctx.land(fs.size() == size0, ctx.lor(fs.what() == SAVED, size0 == 0)), 'the recorded contents')
        elif gone:
            ctx.check(fs.size() == 0, 'a new file is empty')
        elif fmode == 0 and 'w' in mode:
            ctx.check(fs.size() == 0, 'opened afresh')
        else:
            ctx.check(ctx.land(ctx.lor(fs.what() == THERE, size1 == 0), fs.size() == size1), 'existing contents stay')
        if closed:
            return
        if fmode == 0:
            ctx.check(at == (size1 if 'a' in mode and not gone else 0), 'opened afresh')
        elif fmode == 1:
            ctx.check(at == (0 if gone else ctx.ite(pos > size1, size1, pos)), 'at the recorded position, or the end')
        else:
            ctx.check(at == pos, 'at the recorded position')


CONTENTS = [b'', b'plain\ntext\n', b'dos\r\ntext\r\nlines\r\n', b'mac\rlines\r', 'z\xfc\u4e2d\U0001f600\n\xe9'.encode(), b'\x00\xff\xfe\x80\n\x00',
            b'\xef\xbb\xbfbom\n', b'no end', b'x\n' * 5000, b'\x1a\x0c\x85\n']


def s_contents(ctx):
    """real files: 10 contents (empty, line ends of all systems, beyond ASCII, not text at all, many lines), opened in 22 ways, for 3 modes;
    the handle having read or written none, some, or all; name as text, path or bytes; protocols 0-5; loaded with the file unchanged,
    cut to half, or gone"""
    d = ctx.dill
    data = ctx.choice('contents', CONTENTS)
    opened = ctx.choice('opened', OPENED)
    fmode = ctx.pick('fmode', 3)
    how = ctx.pick('how', 3)
    n = (CONTENTS.index(data) + OPENED.index(opened) + how)
    after = ['same', 'half', 'gone'][ctx.pick('after', 3)]
    path = os.path.join(ctx.scratch(), 't')
    name = [path, pathlib.PurePosixPath(path), path.encode()][n % 3]
    binary = 'b' in opened
    if not binary:
        try:
            text = data.decode()
        except UnicodeDecodeError:
            ctx.skip('no text')
    if way(opened) in 'ra':
        with open(path, 'wb') as f:
            f.write(data)
    elif os.path.exists(path):
        os.unlink(path)
    f = open(name, opened)
    ctx.on_exit(f.close)
    if way(opened) in 'wx':
        f.write(data if binary else text)
    if f.readable() and how < 2:
        f.seek(0)
        f.read([0, 2][how] if binary else [0, 1][how])
    elif way(opened) == 'r':
        f.read()
    s, e = ctx.attempt(d.dumps, f, protocol=n % 6, fmode=fmode)
    ctx.check(e is None, 'saves', detail=repr(e)[:200])
    if e is not None:
        return
    at, mode, name = f.tell(), f.mode, f.name
    with open(path, 'rb') as g:
        full = g.read()
    rest = None if not f.readable() else f.read()
    f.close()
    if after == 'half':
        with open(path, 'wb') as g:
            g.write(full[:len(full) // 2])
    elif after == 'gone':
        os.unlink(path)
    if fmode == 0 and 'x' in mode and after != 'gone':
        ctx.must_raise('nothing is created anew that exists', d.UnpicklingError, d.loads, s)
        return
    g, e = ctx.attempt(d.loads, s)
    ctx.check(e is None, 'loads', detail=repr(e)[:200])
    if e is not None:
        return
    ctx.on_exit(g.close)
    ctx.check(g.mode == mode and type(g) is type(f) and not g.closed, 'its mode')
    now = open(path, 'rb').read() if os.path.exists(path) else None
    if fmode == 2:
        ctx.check(now == full and g.tell() == at and g.name == name, 'the recorded contents')
        ctx.check(rest is None or g.read() == rest, 'reads on where it was', detail=repr((g.name, name, g.tell(), at)))
    elif fmode == 1:
        want = {'same': full, 'half': full[:len(full) // 2], 'gone': None if 'r' in mode else b''}[after]
        ctx.check(now == want, 'existing contents stay')
        if after == 'same':
            ctx.check(g.name == name and g.tell() == at and (rest is None or g.read() == rest), 'reads on where it was', detail=repr((g.name, name, g.tell(), at)))
        else:
            ctx.check(g.tell() == min(at, len(want or b'')), 'reads on where it was', detail=repr((g.name, name, g.tell(), at)))


def s_standard(ctx):
    """the three standard streams, for 3 modes and protocols 0-5, alone or twice in a list"""
    d = ctx.dill
    k = ctx.choice('stream', ['stdin', 'stdout', 'stderr'])
    path = os.path.join(ctx.scratch(), 'std')
    open(path, 'wb').close()
    fd = os.open(path, os.O_RDONLY if k == 'stdin' else os.O_WRONLY)
    raw = io.FileIO(fd, 'rb' if k == 'stdin' else 'wb')
    raw.name = '<%s>' % k
    f = io.TextIOWrapper((io.BufferedReader if k == 'stdin' else io.BufferedWriter)(raw))
    f.mode = 'r' if k == 'stdin' else 'w'
    ctx.on_exit(f.close)
    fmode, protocol = ctx.pick('fmode', 2), ctx.pick('protocol', 6)
    with patched(sys, **{'__%s__' % k: f}):
        twice = ctx.flag('twice')
        obj = [f, f] if twice else f
        g, e = ctx.attempt(lambda: d.loads(d.dumps(obj, protocol=protocol, fmode=fmode)))
    ctx.check(e is None, 'loads', detail=repr(e)[:200])
    ctx.check(e is None and (g[0] is f and g[1] is f if twice else g is f) and not f.closed, 'the standard stream')


SCENARIOS = [
    Scenario('positions', s_positions, labels=['saves', 'loads', 'nothing is created anew that exists', 'existing contents stay',
                                               'a handle of this sort', 'its mode', 'closed if it was', 'its name',
                                               'no file for a reading mode', 'the recorded contents', 'a new file is empty',
                                               'opened afresh', 'at the recorded position, or the end', 'at the recorded position']),
    Scenario('contents', s_contents, labels=['saves', 'loads', 'nothing is created anew that exists', 'its mode',
                                             'the recorded contents', 'reads on where it was', 'existing contents stay']),
    Scenario('standard', s_standard, labels=['loads', 'the standard stream']),
]
