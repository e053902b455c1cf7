"""C13: a session goes into the module it was saved from"""
import gzip
import io
import os
import pathlib
import sys
import threading

from sx.api import Scenario

ASSUMPTIONS = [
    'a stream that can be peeked at but not sought gives 256 bytes, or all there is left, and the name of the module is among them',
    'a pickle that is not a session does not begin with a module (dill cannot tell until it has loaded it)',
    'no two modules of one name and kind exist: names stand for modules']

KNOWN = set(sys.modules)
NAMES = ['zzsession', 'zz_import_module', 'zzpack.mod', 'zz' + 'n' * 148, 'zz' + 'n' * 250, 'zz' + 'n' * 4999, 'zz\xe9\u4e2d']


def imported(ctx, name, **ns):
    """a module as the import system leaves it"""
    if '.' in name:
        pack = ctx.module(name.partition('.')[0], __path__=[])
        pack.__loader__ = True
    m = ctx.module(name, **ns)
    if '.' in name:
        setattr(pack, name.partition('.')[2], m)
    return m


def plain(ctx, name, **ns):
    return ctx.module(name, register=False, **ns)


def bare(ctx, **ns):
    """the main program, with only this in it"""
    m = ctx.main
    m.__dict__.clear()
    m.__dict__.update(__name__='__main__', __doc__=None, __package__=None, __loader__=None, __spec__=None, **ns)
    return m


def make(ctx, kind, name, **ns):
    return {'main': lambda: bare(ctx, **ns), 'imported': lambda: imported(ctx, name, **ns),
            'object': lambda: plain(ctx, name, **ns)}[kind]()


def saved(ctx, m, ref=False):
    buf = io.BytesIO()
    ctx.dill.dump_module(buf, module=m, refimported=ref)
    return buf.getvalue()


def view(*mods):
    return [dict(m.__dict__) for m in mods]


def unchanged(before, mods):
    now = view(*mods)
    return all(list(a) == list(b) and all(a[k] is b[k] for k in a) for a, b in zip(before, now))


def table():
    """the table of modules, but for those really imported"""
    return {k: id(v) for k, v in list(sys.modules.items()) if k in KNOWN or k.startswith(('zz', '__')) or
            getattr(v, '__spec__', None) is None}


def s_match(ctx):
    """saved: the main program, an imported module, a module-like object; names: plain, ending in _import_module, dotted, of 150, 252 and 5001 bytes,
    not ascii; asked for: nothing, the module itself, its name, another module of any kind, another name, the namesake of the other kind;
    protocols 0-5; imported objects by reference or not; current function and its old name"""
    d = ctx.dill
    x = ctx.any('x')
    kind = ctx.choice('kind', ['main', 'imported', 'object'])
    asked = ctx.choice('asked', ['nothing', 'itself', 'by name', 'other', 'loose', 'other name', 'main', 'namesake'])
    legacy = ctx.pick('spelling', 3) if asked in ('nothing', 'itself', 'other') else 0
    wide = ctx.tier == 'thorough' or asked in ('nothing', 'other') and not legacy
    name = '__main__' if kind == 'main' else ctx.choice('name', NAMES if wide else NAMES[1:3])
    d.settings['protocol'] = ctx.pick('protocol', 6) if wide else 4
    ref = ctx.flag('refimported') if wide or asked == 'itself' else False
    m = make(ctx, kind, name, x=x, e=len, zzonly=1)
    s = saved(ctx, m, ref)
    m.x, m.y = 'changed', 'since'
    del m.zzonly
    other = imported(ctx, 'zzother', x='other')
    loose = plain(ctx, 'zzloose', x='loose')
    namesake = plain(ctx, name, x='namesake') if kind == 'imported' else imported(ctx, name, x='namesake') if kind == 'object' else \
        plain(ctx, '__main__', x='namesake')
    arg = {'nothing': None, 'itself': m, 'by name': name, 'other': other, 'loose': loose, 'other name': 'zzother', 'main': ctx.main,
           'namesake': namesake}[asked]
    mods = [m, other, loose, ctx.main, namesake]
    ok = asked in ('nothing', 'itself') or asked == 'by name' and kind != 'object' or asked == 'main' and kind == 'main'
    before, tab = view(*mods), table()
    f = io.BytesIO(s)
    if legacy == 0:
        r, e = ctx.attempt(d.load_module, f, arg)
    elif legacy == 1:
        r, e = ctx.attempt(d.load_module, f, main=arg)
    else:
        r, e = ctx.attempt(d.load_session, f, arg)
    ctx.check(table() == tab, 'the table of modules is as it was')
    if not ok:
        ctx.check(isinstance(e, ValueError), 'another module is refused', detail=repr(e)[:200])
        ctx.check(unchanged(before, mods), 'a refusal changes nothing')
        ctx.check(f.tell() == 0, 'a refusal consumes nothing')
        r, e = ctx.attempt(d.load_module, f)
        ctx.check(e is None, 'loads', detail=repr(e)[:200])
        return
    ctx.check(e is None, 'loads', detail=repr(e)[:200])
    if e is not None:
        return
    fresh = kind == 'object' and asked == 'nothing'
    new = r if fresh and legacy != 2 else m
    if legacy == 2:
        ctx.check(r is None, 'what is returned')
    elif fresh:
        ctx.check(r is not m and type(r) is type(m) and r.__name__ == name, 'what is returned')
    else:
        ctx.check(r is (None if kind == 'main' or asked == 'itself' else m), 'what is returned')
    if not (fresh and legacy == 2):
        ctx.check(ctx.same(new.x, x), 'the module is updated')
        ctx.check(new.__dict__.get('zzonly') == 1 and new.e is len, 'the module is updated')
        ctx.check(('y' in new.__dict__) == (not fresh), 'the module is updated')
    rest = [o for o in mods if o is not m]
    if fresh:
        rest = mods
    now = [b for o, b in zip(mods, before) if any(o is q for q in rest)]
    ctx.check(unchanged(now, rest), 'other modules are left alone')
    ctx.check(f.tell() == len(s), 'the stream stands after the session')


class Plain(object):
    """a stream that can only be read"""

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def readline(self):
        return self._b.readline()


class Peek(Plain):
    def peek(self, n=0):
        p = self._b.tell()
        r = self._b.read(n)
        self._b.seek(p)
        return r


class Raw(Plain):
    """one that a buffer can be put on"""
    closed = shut = False

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def readinto(self, b):
        return self._b.readinto(b)

    def close(self):
        self.shut = True


def pipe(ctx, data, buffering):
    r, w = os.pipe()
    t = threading.Thread(target=lambda: (os.write(w, data), os.close(w)))
    t.start()
    t.join()
    f = open(r, 'rb', buffering)
    ctx.on_exit(f.close)
    return f


STREAMS = ['text', 'path', 'BytesIO', 'file', 'unbuffered', 'gzip', 'read-write', 'peek', 'raw', 'pipe', 'raw pipe', 'plain']


def stream(ctx, how, data):
    p = os.path.join(ctx.scratch(), 'f')
    if how in ('text', 'path', 'file', 'unbuffered', 'read-write'):
        with open(p, 'wb') as f:
            f.write(data)
        if how == 'text':
            return p
        if how == 'path':
            return pathlib.PurePosixPath(p)
        f = open(p, 'r+b' if how == 'read-write' else 'rb', *([0] if how == 'unbuffered' else []))
    elif how == 'gzip':
        with gzip.open(p, 'wb') as f:
            f.write(data)
        f = gzip.open(p, 'rb')
    else:
        return {'BytesIO': io.BytesIO, 'peek': Peek, 'plain': Plain, 'raw': Raw, 'pipe': lambda b: pipe(ctx, b, -1),
                'raw pipe': lambda b: pipe(ctx, b, 0)}[how](data)
    ctx.on_exit(f.close)
    return f


def s_streams(ctx):
    """sessions of the three kinds read from: a path as text or object, BytesIO, files buffered, unbuffered, compressed, for reading
    and writing, objects that only read and peek, that only can be buffered, that only read, pipes; the module given or not; one to
    three sessions in a row (where the stream can be peeked at or sought)"""
    d = ctx.dill
    how = ctx.choice('stream', STREAMS)
    kind = ctx.choice('kind', ['main', 'imported', 'object'])
    given = ctx.flag('given')
    m = make(ctx, kind, 'zzsession', big='x' * 9000 if ctx.flag('big') else '')
    n = 1 if how in ('text', 'path', 'raw', 'raw pipe', 'plain') else 1 + ctx.pick('more', 3)
    data = b''
    for i in range(n):
        m.x = i
        data += saved(ctx, m)
    m.x = None
    f = stream(ctx, how, data)
    for i in range(n):
        r, e = ctx.attempt(d.load_module, f, m if given else None)
        if how in ('raw pipe', 'plain') and not given:
            from pickle import UnpicklingError
            ctx.check(isinstance(e, UnpicklingError), 'refused when it cannot be told')
            ctx.check(m.x is None, 'refused when it cannot be told')
            return
        ctx.check(e is None, 'loads', detail=repr(e)[:200])
        if e is not None:
            return
        got = r if kind == 'object' and not given else m
        ctx.check(got.x == i, 'each session in turn')
    if hasattr(f, 'read'):
        ctx.check(not getattr(f, 'closed', False) and not getattr(f, 'shut', False), 'a given stream stays open')
        ctx.check(f.read(1) == b'', 'the stream stands after the session')


def s_edge(ctx):
    """a session that starts 0 to 300 bytes before the end of the buffer of a file, all of them; alone in the rest of the file, or
    followed by more"""
    d = ctx.dill
    m = imported(ctx, 'zzsession', x=5)
    left = ctx.pick('left', 301)
    s = saved(ctx, m)
    size = io.DEFAULT_BUFFER_SIZE
    pre = b'.' * (size - left)
    f = stream(ctx, 'file', pre + s + (b'more' * 100 if ctx.flag('more') else b''))
    f.read(1)
    f.read(len(pre) - 1)
    m.x = 6
    r, e = ctx.attempt(d.load_module, f)
    ctx.check(e is None and r is m and m.x == 5, 'loads', detail=repr(e)[:200])
    ctx.check(f.tell() == len(pre + s), 'the stream stands after the session')


class Thing(object):
    pass


def s_other(ctx):
    """pickles of: numbers, text, lists, dictionaries, classes, functions, modules in a container, look-alikes of a session; nothing,
    garbage, a session cut short at any of 40 places; the module given or not; loading, and loading as a dictionary (updating or not)"""
    d = ctx.dill
    from pickle import UnpicklingError
    m = imported(ctx, 'zzsession', x=5)
    what = ctx.pick('what', 15)
    s = saved(ctx, m)
    ctx.main.Thing = Thing
    if what < 13:
        obj = [1, 'text', [1, 2], {'x': 5}, None, len, (lambda: m), [m], (m, 1), {'m': m}, ['_import_module', 'zznowhere'],
               ('dill._dill _import_module', 'zzsession'), os][what] if what != 12 else [os]
        d.settings['protocol'] = ctx.pick('protocol', 6) if ctx.tier == 'thorough' else [0, 2, 4][ctx.pick('protocol', 3)]
        data = d.dumps(obj)
    elif what == 13:
        data = [b'', b'garbage', b'\x80', b'N.', b'\x80\x04.', b'(lp0\n.'][ctx.pick('garbage', 6)]
    else:
        data = s[:len(s) * ctx.pick('cut', 40) // 40]
    given = what != 12 and ctx.flag('given')
    tab = table()
    before = view(m)
    call = ctx.pick('call', 3)
    if call == 0:
        r, e = ctx.attempt(d.load_module, io.BytesIO(data), m if given else None)
    else:
        r, e = ctx.attempt(d.load_module_asdict, io.BytesIO(data), update=call == 2)
    ctx.check(isinstance(e, (UnpicklingError, EOFError) if what >= 13 else UnpicklingError), 'what is no session is refused',
              detail=repr(e)[:200])
    if what in (0, 1, 2, 3, 4, 5, 6, 10, 11, 13):
        ctx.check(unchanged(before, [m]), 'a refusal changes nothing')
    ctx.check(table() == tab, 'the table of modules is as it was')


def s_arguments(ctx):
    """anything but a module as the module, for saving and loading; both spellings of an argument at once"""
    d = ctx.dill
    m = imported(ctx, 'zzsession', x=5)
    s = saved(ctx, m)
    bad = [5, b'zzsession', [m], m.__dict__, Thing, Thing(), 2.5, True][ctx.pick('bad', 8)]
    before = view(m)
    out = io.BytesIO()
    ctx.must_raise('a type error', TypeError, d.dump_module, out, bad)
    ctx.must_raise('a type error', TypeError, d.load_module, io.BytesIO(s), bad)
    ctx.must_raise('a type error', TypeError, d.load_module, io.BytesIO(s), m, main=m)
    ctx.must_raise('a type error', TypeError, d.dump_module, out, m, main=m)
    ctx.must_raise('a type error', TypeError, d.dump_module, out, m, refimported=True, byref=True)
    ctx.must_raise('a type error', TypeError, d.load_module_asdict, io.BytesIO(s), module=m)
    ctx.check(unchanged(before, [m]) and out.getvalue() == b'', 'a refusal changes nothing')


SCENARIOS = [
    Scenario('match', s_match, labels=['another module is refused', 'a refusal changes nothing', 'a refusal consumes nothing', 'loads',
                                       'what is returned', 'the module is updated', 'other modules are left alone',
                                       'the stream stands after the session', 'the table of modules is as it was']),
    Scenario('streams', s_streams, labels=['refused when it cannot be told', 'loads', 'each session in turn',
                                           'a given stream stays open', 'the stream stands after the session']),
    Scenario('edge', s_edge, labels=['loads', 'the stream stands after the session']),
    Scenario('other', s_other, labels=['what is no session is refused', 'a refusal changes nothing',
                                       'the table of modules is as it was']),
    Scenario('arguments', s_arguments, labels=['a type error', 'a refusal changes nothing']),
]
