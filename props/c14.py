"""C14: session calls clean up after themselves"""
import importlib.abc
import importlib.util
import io
import os
import sys

from sx.api import Scenario, patched
from props.c13 import bare, imported, plain, saved, table, unchanged, view

ASSUMPTIONS = [
    'closing a file works, and so does taking an entry out of the table of modules; between two of the listed steps nothing fails',
    'other threads leave the table of modules alone']

CTX = []


class Injected(Exception):
    pass


class Faults(object):
    """the operation of this number fails, if there are as many"""

    def __init__(self, ctx, on=True, many=4):
        self.n, self.ctx, self.on, self.hit = 0, ctx, on, None
        self.at = ctx.int('failing', 0, 400) if on else None
        self.error = ctx.choice('error', [OSError, KeyboardInterrupt, Injected, ImportError, KeyError, AttributeError,
                                          NameError, AssertionError] if ctx.tier == 'thorough' else
                                [KeyboardInterrupt, OSError, KeyError, NameError][:many]) if on else None

    def step(self, what):
        if not self.on or self.hit:
            return
        self.n += 1
        if self.ctx.decide(self.at == self.n - 1):
            self.hit = what
            raise self.error('injected')


class Stream(object):
    """a file that counts what is done with it"""

    def __init__(self, f, faults, seekable=True, peek=False):
        self._f, self._faults, self.closes = f, faults, 0
        for k in ('read', 'readline', 'write', 'flush') + (('tell', 'seek') if seekable else ()):
            setattr(self, k, self._op(k))
        if peek:
            self.peek = self._peek

    def _op(self, k):
        def op(*a):
            self._faults.step(k)
            return getattr(self._f, k)(*a)
        return op

    def _peek(self, n=0):
        self._faults.step('peek')
        p = self._f.tell()
        r = self._f.read(n)
        self._f.seek(p)
        return r

    def close(self):
        self.closes += 1
        self._f.close()


class Hook(object):
    """something whose pickling and unpickling are steps"""

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        CTX[0].step('reduce')
        return hook, (self.tag,)


def hook(tag):
    CTX[0].step('hook')
    if NESTED:
        f = NESTED.pop()
        f()
    return Hook(tag)


NESTED = []


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """imports are steps too"""

    def __init__(self, faults, **sources):
        self.faults, self.sources, self.done = faults, sources, []

    def find_spec(self, name, path=None, target=None):
        if name.replace('.', '_') in self.sources:
            self.faults.step('find ' + name)
            return importlib.util.spec_from_loader(name, self, is_package=name == 'zzpack')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        self.faults.step('import ' + m.__name__)
        exec(self.sources[m.__name__.replace('.', '_')], m.__dict__)
        self.done.append(m.__name__)


class Files(object):
    """what is opened through the operating system"""

    def __init__(self, faults):
        self.faults, self.fds, self.files = faults, [], []
        self.real = {k: getattr(os, k) for k in ('open', 'fdopen', 'lstat')}

    def open(self, *a, **k):
        self.faults.step('open')
        fd = self.real['open'](*a, **k)
        self.fds.append((fd, os.fstat(fd)[:3]))
        return fd

    def lstat(self, *a, **k):
        self.faults.step('lstat')
        return self.real['lstat'](*a, **k)

    def fdopen(self, fd, *a, **k):
        self.faults.step('fdopen')
        f = Stream(self.real['fdopen'](fd, *a, **k), self.faults, peek=False)
        self.files.append(f)
        return f

    def left_open(self):
        n = 0
        for fd, was in self.fds:
            try:
                if os.fstat(fd)[:3] == was:
                    n += 1
                    os.close(fd)
            except OSError:
                pass
        return n


def run(f, *a, **k):
    try:
        return f(*a, **k), None
    except (Exception, KeyboardInterrupt) as e:
        if type(e).__module__.startswith('sx.'):
            raise
        return None, e


def source(ctx, how, data, faults):
    if how in ('path', 'missing', 'directory', 'link'):
        p = os.path.join(ctx.scratch(), 's.pkl')
        if how == 'missing':
            return p + '.no'
        if how == 'directory':
            return ctx.scratch()
        with open(p, 'wb') as f:
            f.write(data)
        if how == 'link':
            os.symlink(p, p + '.link')
            return p + '.link'
        return p
    return Stream(io.BytesIO(data), faults, seekable=how in ('seek', 'seek and peek'), peek=how in ('peek', 'seek and peek'))


def s_load(ctx):
    """sessions of the main program, imported modules (dotted names too), module-like objects, with things that import and run code when
    loaded; from a path (also a missing one, a directory, a link), from streams to seek, to peek, or both; any one of: opening,
    looking, reading, seeking, peeking, importing, unpickling fails with any of four errors, or none does; module given or not;
    imported objects by reference or not; an entry for the object in the table beforehand or not"""
    d = ctx.dill
    how = ctx.choice('source', ['path', 'seek', 'peek', 'seek and peek', 'missing', 'directory', 'link'])
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    faulty = ctx.flag('faulty') if how not in ('missing', 'directory', 'link') else False
    ref = ctx.flag('refimported')
    quiet = Faults(ctx, False)
    CTX[:] = [quiet]
    m, data, finder = session(ctx, kind, ref, quiet)
    given = ctx.flag('given')
    if kind == 'object' and ctx.flag('entry'):
        ctx.module('__runtime__.zzsession', x='other')
    tab = table()
    faults = Faults(ctx, faulty, 4 if kind == 'object' and how in ('path', 'seek') else 2)
    CTX[:] = [faults]
    finder.faults = faults
    src = source(ctx, how, data, faults)
    files = Files(faults)
    with patched(os, open=files.open, fdopen=files.fdopen, lstat=files.lstat):
        r, e = run(d.load_module, src, m if given else None)
    if how in ('missing', 'directory', 'link'):
        ctx.check(isinstance(e, OSError), 'ends as it should')
    elif faults.hit is None:
        ctx.check(e is None, 'ends as it should', detail=repr(e)[:200])
    settle(ctx, tab, finder, files, src)


def session(ctx, kind, ref, faults, keep=False):
    finder = Finder(faults, zzneeded='def g(): return 1\nclass K: pass\nv = 7\n')
    sys.meta_path.insert(0, finder)
    ctx.on_exit(lambda: sys.meta_path.remove(finder))
    import zzneeded
    ns = dict(x=5, h=Hook('tag'), g=zzneeded.g, k=zzneeded.K, z=zzneeded.K())
    m = {'main': lambda: bare(ctx, **ns), 'imported': lambda: imported(ctx, 'zzsession', **ns),
         'dotted': lambda: imported(ctx, 'zzpack.mod', **ns), 'object': lambda: plain(ctx, 'zzsession', **ns)}[kind]()
    exec('def f(): return x', m.__dict__)
    m.me = m
    del m.__dict__['__builtins__']
    data = saved(ctx, m, ref)
    if not keep:
        del sys.modules['zzneeded']
    finder.done.clear()
    return m, data, finder


def settle(ctx, tab, finder, files, src):
    now = table()
    for k in finder.done:
        if k not in tab:
            now.pop(k, None)
    ctx.check(now == tab, 'the table of modules is as it was',
              detail=repr([k for k in set(now) | set(tab) if now.get(k) != tab.get(k)])[:300])
    ctx.check(files.left_open() == 0 and all(f._f.closed for f in files.files), 'opened files are closed')
    if isinstance(src, Stream):
        ctx.check(src.closes == 0, 'given streams are left open')


def s_asdict(ctx):
    """as above, loading as a dictionary, updating or not, the module changed since it was saved, the same, or not yet imported"""
    d = ctx.dill
    how = ctx.choice('source', ['path', 'seek', 'peek', 'seek and peek', 'missing', 'directory'])
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    faulty = ctx.flag('faulty') if how not in ('missing', 'directory') else False
    update = ctx.flag('update')
    ref = ctx.flag('refimported')
    quiet = Faults(ctx, False)
    CTX[:] = [quiet]
    m, data, finder = session(ctx, kind, ref, quiet)
    known = list(m.__dict__)
    m.x = 'changed'
    m.since = 1
    del m.g
    there = kind in ('main', 'object') or ctx.flag('there')
    if not there:
        for k in ('zzsession', 'zzpack', 'zzpack.mod'):
            sys.modules.pop(k, None)
        finder.sources.update(zzsession='x = 1\nsince = 2\n', zzpack='', zzpack_mod='x = 1\nsince = 2\n')
    tab = table()
    before = view(m)
    faults = Faults(ctx, faulty, 4 if kind == 'object' and how in ('path', 'seek') else 2)
    CTX[:] = [faults]
    finder.faults = faults
    src = source(ctx, how, data, faults)
    files = Files(faults)
    with patched(os, open=files.open, fdopen=files.fdopen, lstat=files.lstat):
        r, e = run(d.load_module_asdict, src, update=update)
    name = {'main': '__main__', 'dotted': 'zzpack.mod'}.get(kind, 'zzsession')
    ctx.check(unchanged(before, [m]), 'the module is left alone')
    if not there and 'zz' + name[2:] in finder.done:
        real = sys.modules.get(name)
        ctx.check(real is not None and (real.x, real.since) == (1, 2) and 'h' not in real.__dict__,
                  'the module is left alone')
    settle(ctx, tab, finder, files, src)
    if how in ('missing', 'directory'):
        ctx.check(isinstance(e, OSError), 'ends as it should')
        return
    if faults.hit is not None:
        return
    ctx.check(e is None, 'ends as it should', detail=repr(e)[:200])
    if e is not None:
        return
    ctx.check(type(r) is dict and r['x'] == 5 and r['__name__'] == name and type(r['h']) is Hook, 'the saved state')
    ctx.check(all(k in r for k in known), 'the saved state', detail=repr([k for k in known if k not in r]))
    ctx.check(r['f'].__globals__ is r or kind != 'object', 'the saved state')
    ctx.check(r['__session__'] == str(src), 'the saved state')
    want = kind != 'object' and update
    ctx.check(r.get('since') == (None if not want else 1 if there else 2), 'overlaid on the present one, if so asked')


def s_nested(ctx):
    """loading a session runs code that loads another one, of the same or another module, normally, as a dictionary, or that saves one;
    the inner one fails or not"""
    d = ctx.dill
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    inner = ctx.choice('inner kind', ['main', 'imported', 'dotted', 'object'])
    call = ctx.choice('inner call', ['load', 'asdict', 'asdict update', 'dump'])
    outer = ctx.choice('outer call', ['load', 'asdict', 'asdict update'])
    bad = ctx.flag('bad')
    quiet = Faults(ctx, False)
    CTX[:] = [quiet]
    m2, data2, finder = session(ctx, inner, False, quiet)
    m, data, finder = session(ctx, kind, False, quiet)
    if bad:
        data2 = data2[:-8]
    tab = table()

    def nested():
        before = view(m2)
        if call == 'load':
            ctx.attempt(d.load_module, io.BytesIO(data2))
        elif call == 'dump':
            ctx.attempt(d.dump_module, io.BytesIO(), m2)
        else:
            ctx.attempt(d.load_module_asdict, io.BytesIO(data2), update='update' in call)
    NESTED[:] = [nested]
    files = Files(quiet)
    if outer == 'load':
        r, e = run(d.load_module, io.BytesIO(data))
    else:
        r, e = run(d.load_module_asdict, io.BytesIO(data), update='update' in outer)
    NESTED.clear()
    ctx.check(e is None, 'ends as it should', detail=repr(e)[:200])
    settle(ctx, tab, finder, files, None)


def s_dump(ctx):
    """saving the same, to a path (new, existing, a directory, in no directory) or a stream; opening, writing or pickling fails at any
    one point, or none does; imported objects by reference or not"""
    d = ctx.dill
    how = ctx.choice('to', ['path', 'existing', 'directory', 'nowhere', 'stream'])
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    faulty = how in ('path', 'existing', 'stream') and ctx.flag('faulty')
    ref = ctx.flag('refimported')
    odd = ctx.pick('odd', 3) if not faulty else 0
    quiet = Faults(ctx, False)
    CTX[:] = [quiet]
    m, data, finder = session(ctx, kind, ref, quiet, True)
    if odd == 1:
        m.bad = os.scandir(ctx.scratch())
    tab = table()
    before = view(m)
    faults = Faults(ctx, faulty, 4 if kind == 'object' and how in ('path', 'seek') else 2)
    CTX[:] = [faults]
    p = os.path.join(ctx.scratch(), 'out.pkl')
    if how == 'existing':
        with open(p, 'wb') as f:
            f.write(b'x' * 10)
    to = {'path': p, 'existing': p, 'directory': ctx.scratch(), 'nowhere': os.path.join(p, 'x'),
          'stream': Stream(io.BytesIO(), faults)}[how]
    files = Files(faults)
    with patched(os, open=files.open, fdopen=files.fdopen, lstat=files.lstat):
        r, e = run(d.dump_module, to, m, ref, **({'nonsense': 1} if odd == 2 else {}))
    if how in ('directory', 'nowhere'):
        ctx.check(isinstance(e, OSError), 'ends as it should')
    elif odd:
        ctx.check(e is not None, 'ends as it should')
    elif faults.hit is None:
        ctx.check(e is None, 'ends as it should', detail=repr(e)[:200])
    ctx.check(unchanged(before, [m]), 'the module is left alone')
    settle(ctx, tab, finder, files, to)


_clean = ['the table of modules is as it was', 'opened files are closed', 'given streams are left open', 'ends as it should']
SCENARIOS = [
    Scenario('load', s_load, labels=_clean),
    Scenario('asdict', s_asdict, labels=_clean + ['the module is left alone', 'the saved state',
                                                  'overlaid on the present one, if so asked']),
    Scenario('nested', s_nested, labels=['ends as it should', 'the table of modules is as it was']),
    Scenario('dump', s_dump, labels=_clean + ['the module is left alone']),
]
