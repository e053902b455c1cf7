"""C19: the pickling trace"""
import collections
import functools
import io
import logging
import operator
import os
import sys
import threading
import types
import weakref

from sx.api import Scenario

ASSUMPTIONS = [
    'records are made by the logging module as documented; the text of a record is taken from its message, prefix and '
    'suffix',
    'bytes count when they are written to the stream or to the pending frame']

UNITS = ['', 'Ki', 'Mi', 'Gi', 'Ti', 'Pi', 'Ei']


def s_size(ctx):
    """any size from 0 to 2**63, a missing size, none; UTF-8 and ASCII streams; depth 0 to 3, opening and closing"""
    L = ctx.dill.logger
    enc = ctx.choice('encoding', ['utf-8', 'ascii', 'UTF8'])
    h = logging.StreamHandler(io.TextIOWrapper(io.BytesIO(), encoding=enc))
    f = L.TraceFormatter('%(message)s', handler=h)
    close = ctx.flag('close')
    r = logging.LogRecord('dill', 20, '', 0, '# X' if close else 'X: y', (), None)
    which = ctx.choice('which', ['size', 'none', 'missing'])
    size = None
    if which != 'missing':
        r.size = size = ctx.int('size', 0, 2 ** 63) if which == 'size' else None
    depth = ctx.choice('depth', [1, 2, 3, 0]) if enc == 'ascii' or not close else 2
    if depth:
        r.depth = depth
    ctx.expect_ok('formats', f.format, r)
    if which != 'size' or ctx.decide(size < 1):
        ctx.check(r.suffix == '', 'no size, no suffix')
    else:
        for p in range(7):
            if ctx.decide(size < 1024 ** (p + 1)):
                break
        ctx.check(ctx.eq(r.suffix, ' [' + ctx.text(size // 1024 ** p) + ' ' + UNITS[p] + 'B]'), 'the size in its unit')
    if not depth:
        ctx.check(r.prefix == '', 'no depth, no prefix')
    else:
        text = r.prefix
        ctx.check(text[-1] == ' ', 'depth is the width')
        if not r.prefix.isascii():
            ctx.check('utf' in h.stream.encoding.lower(), 'encodable')
        else:
            ctx.check(text[-2] == '-', 'depth is the width')
            text = text[:-1]
        ctx.check(len(text) == depth + 1, 'depth is the width')
        ctx.check((text[-2] in '\u2514`') == close, 'open and close differ')


# ------------------------------------------------------------------ the structure
SRC = '''
class Plain(object):
    def m(self):
        return super().m()
class Slots(object):
    __slots__ = ("a", "b")
class Named(dict):
    pass
def make(y):
    def f(x, *, k=1):
        return x + y + len(w)
    def g():
        return g
    return f, g
w = [1]
'''


def pool(ctx):
    ns = ctx.main.__dict__
    exec(compile(SRC, '<sx>', 'exec'), ns)
    main = ctx.main
    f, g = main.make(1)
    cyc = [f]
    f.z = cyc
    p = main.Plain()
    p.x = {'a': [main.Slots, p]}
    sl = main.Slots()
    sl.a = f
    NT = collections.namedtuple('NT', 'a b')
    NT.__module__ = '__main__'
    cached = functools.lru_cache(None)(main.make)
    d = {'a': {'b': f}}
    out = {
        'function': f, 'recursive': g, 'class': main.Plain, 'instance': p, 'slots': sl, 'dict': d, 'named': main.Named(a=1),
        'cycle': cyc, 'namedtuple': NT, 'tuple of names': NT(f, 2), 'lock': threading.Lock(), 'rlock': threading.RLock(),
        'partial': functools.partial(main.make, 1), 'ordered': collections.OrderedDict(a=f), 'keys': {'a': 1}.keys(),
        'items': d.items(), 'values': d.values(), 'proxy': types.MappingProxyType(d), 'property': property(main.make),
        'static': staticmethod(len), 'classmethod': classmethod(main.make), 'method': p.m, 'member': main.Slots.a,
        'module': ctx.module('zzlive', x=f), 'library': os.path, 'code': main.make.__code__, 'cell': f.__closure__[0],
        'itemgetter': operator.itemgetter(1, 2), 'attrgetter': operator.attrgetter('a.b'), 'slice': slice(1), 'range': range(3),
        'cached': cached, 'none type': type(None), 'ellipsis': ..., 'function type': types.FunctionType, 'namespace': ns,
        'stdout': sys.__stdout__, 'super': super(main.Plain, p), 'large': ['x' * 70000, f, 'y' * 70000], 'many': [f, g, main.Plain, p, {}],
        'reference': weakref.ref(main.Plain), 'weak proxy': weakref.proxy(main.Plain), 'builtin': len, 'bound builtin': [].append,
        'method descriptor': str.join, 'exception': ValueError(f), 'logger': logging.getLogger('zz'), 'number': 5, 'text': 'abc',
        'generator': (i for i in ()), 'handle': None, 'array': None, 'failing': [f, {'a': (i for i in ())}],
        'in main': None, 'percent': {'%s %d': '%'}, 'hash': ctx.module('# F1'),
    }
    return out


class Recorder(logging.Handler):
    def emit(self, record):
        self.seen(record)


class Stream(object):
    """a stream; where it stands is symbolic, if it tells"""

    def __init__(self, base, mode, n):
        self.data, self.base, self.mode, self.n, self.calls = io.BytesIO(), base, mode, n, 0
        if mode == 'no tell':
            self.tell = None
            del self.tell

    def write(self, b):
        return self.data.write(b)

    def __getattr__(self, name):
        if name == 'tell' and self.mode != 'no tell':
            return self._tell
        raise AttributeError(name)

    def _tell(self):
        self.calls += 1
        if self.mode == 'fails' or self.mode == 'fails once' and self.calls == self.n or self.mode == 'fails later' and \
                self.calls >= self.n:
            raise io.UnsupportedOperation('not seekable')
        if self.mode == 'none':
            return None
        return self.base + self.data.tell()


def s_structure(ctx):
    """57 kinds of objects, protocols 0, 2, 4 (thorough: all), by reference or not, recursing or not (quick: one of
    the two); on a stream that starts at any position"""
    d = ctx.dill
    objs = pool(ctx)
    which = ctx.choice('object', sorted(objs))
    obj = objs[which]
    proto = ctx.choice('protocol', [4, 0, 2] if ctx.tier == 'quick' else [0, 1, 2, 3, 4, 5])
    kw = dict(byref=ctx.flag('byref'), recurse=False)
    kw['recurse'] = ctx.flag('recurse') if ctx.tier != 'quick' or not kw['byref'] else False
    traced(ctx, obj, objs, which, proto, kw, 'tells', 0)


def s_streams(ctx):
    """13 of the objects on streams that cannot tell, or fail once or from then on at any of the first 12 calls"""
    objs = pool(ctx)
    which = ctx.choice('object', ['function', 'class', 'instance', 'dict', 'cycle', 'lock', 'keys', 'module', 'code', 'failing',
                                  'large', 'many', 'super'])
    mode = ctx.choice('mode', ['fails', 'no tell', 'none', 'fails once', 'fails later'])
    n = 1 + ctx.pick('n', 12) if mode in ('fails once', 'fails later') else 0
    traced(ctx, objs[which], objs, which, ctx.choice('protocol', [2, 4]), {}, mode, n)


def traced(ctx, obj, objs, which, proto, kw, mode, n):
    d = ctx.dill
    lg = logging.getLogger('dill')
    if which == 'handle':
        obj = open(os.path.join(ctx.scratch(), 'h'), 'w')
        ctx.on_exit(obj.close)
    elif which == 'array':
        import numpy
        obj = [numpy.zeros(2), numpy.dtype('f8'), numpy.sin, numpy.zeros(2).view(type('Arr', (numpy.ndarray,), {}))]
    elif which == 'in main':
        obj = ctx.main
    lg.handlers[:] = []
    ctx.attempt(d.dump, obj, io.BytesIO(), proto, **kw)     # classes cache their slot names when they are first reduced
    plain = Stream(0, 'tells', 0)
    _, e0 = ctx.attempt(d.dump, obj, plain, proto, **kw)
    st = Stream(ctx.int('base', 0), mode, n)
    p = d.Pickler(st, proto, **kw)

    def pos():
        f = p.framer.current_frame
        return st.data.tell() + (f.tell() if f is not None else 0)
    saves, opened = [], []

    def save(o, *a, **k):
        mine = [pos(), []]
        saves.append(mine)
        try:
            r = original(o, *a, **k)
        finally:
            saves.pop()
        for size, known in mine[1]:
            if known:
                ctx.check(ctx.eq(size, pos() - mine[0]), 'the bytes it took')
        return r
    original = p.save
    p.save = save

    def seen(r):
        ctx.check(hasattr(r, 'depth'), 'has a depth')
        if r.msg.startswith('#'):
            ctx.check(bool(opened), 'closes what is open')
            name, depth = opened.pop()
            ctx.check(r.msg[2:] == name and r.depth == depth, 'closes what is open')
            known = getattr(r, 'size', None) is not None
            saves[-1][1].append((getattr(r, 'size', None), known))
            if mode == 'tells':
                ctx.check(known, 'has a size')
            elif mode in ('fails', 'no tell', 'none'):
                ctx.check(not known, 'no size without a position')
        else:
            ctx.check(r.depth == len(opened) + 1, 'one deeper')
            ctx.check(getattr(r, 'size', None) is None, 'no size yet')
            opened.append((r.msg.split(':')[0], r.depth))
    h = Recorder()
    h.seen = seen
    lg.handlers[:] = [h]
    d.detect.trace(True)
    try:
        _, e1 = ctx.attempt(p.dump, obj)
    finally:
        d.detect.trace(False)
        lg.handlers[:] = []
    ctx.check(type(e0) is type(e1), 'fails alike', detail='%s, %s' % (e0, e1))
    ctx.check(st.data.getvalue() == plain.data.getvalue(), 'the same bytes')
    if e1 is None:
        ctx.check(opened == [], 'all are closed')
    # the same pickler again
    opened[:] = []
    q, p.save = p.save, original
    p.clear_memo()
    ctx.check(q is save, 'the same bytes')


def s_reuse(ctx):
    """a pickler used three times, each time traced or not, succeeding or failing"""
    d = ctx.dill
    lg = logging.getLogger('dill')
    ctx.main.__dict__.update(pool(ctx) and {})
    f = ctx.main.make(1)[0]
    gen = (i for i in ())
    log = []
    h = Recorder()
    h.seen = log.append
    lg.handlers[:] = [h]
    st = io.BytesIO()
    p = d.Pickler(st)
    for i in range(3):
        d.detect.trace(bool(ctx.flag('trace%d' % i)))
        on = lg.isEnabledFor(20)
        del log[:]
        st.seek(0)
        st.truncate()
        p.clear_memo()
        ok = ctx.flag('ok%d' % i)
        obj = {'a': f} if ok else {'a': f, 'b': {'c': gen}}
        _, e = ctx.attempt(p.dump, obj)
        ctx.check((e is None) == ok, 'fails alike')
        ctx.check(bool(log) == on, 'traced when it is on')
        if on:
            depth = 0
            for r in log:
                if r.msg.startswith('#'):
                    ctx.check(r.depth == depth, 'closes what is open')
                    depth -= 1
                else:
                    depth += 1
                    ctx.check(r.depth == depth, 'one deeper')
            ctx.check(depth == 0 or not ok, 'all are closed')


class Boom(BaseException):
    pass


def s_context(ctx):
    """histories of up to 3 (thorough 4) steps out of: enter a context (no file, a stream, a path to append to or to
    write, a path that cannot be opened), leave it normally or by an error, trace on, trace off, dump, take away or add a
    handler; from levels not set, debug, info, warning; with and without the standard handler in place"""
    n = 3 if ctx.tier == 'quick' else 4
    d = ctx.dill
    L = d.logger
    lg = logging.getLogger('dill')
    other = Recorder()
    other.seen = lambda r: None
    lg.handlers[:] = {'standard': [L.stderr_handler], 'none': [], 'both': [L.stderr_handler, other]}[
        ctx.choice('handlers', ['standard', 'none', 'both'])]
    lg.setLevel(ctx.choice('level', [30, 0, 20, 10] if ctx.tier != 'quick' else [30, 0, 10]))
    err = sys.stderr = io.StringIO()
    fds = len(os.listdir('/proc/self/fd'))
    stack, made = [], []
    top = ctx.scratch()
    paths = 0
    obj = {'a': {}}
    for i in range(n):
        acts = ['none', 'stream', 'append', 'write', 'bad', 'on', 'off', 'stop'] + (['leave', 'error'] if stack else [])
        act = ctx.choice('act%d' % i, acts)
        if act == 'stop':
            break
        level, hands = lg.getEffectiveLevel(), list(lg.handlers)
        if act in ('none', 'stream', 'append', 'write', 'bad'):
            path = stream = None
            if act == 'none':
                cm = d.detect.trace()
            elif act == 'stream':
                stream = io.StringIO()
                cm = d.detect.trace(stream)
            elif act == 'bad':
                cm = d.detect.trace(os.path.join(top, 'no', 'such'))
                ctx.must_raise('an error', OSError, cm.__enter__)
                ctx.check(lg.getEffectiveLevel() == level and lg.handlers == hands, 'nothing happened')
                continue
            else:
                path = os.path.join(top, 'log%d' % (i % 2))
                if not os.path.exists(path):
                    with open(path, 'w') as f:
                        f.write('before\n')
                with open(path) as f:
                    had = f.read()
                cm = d.detect.trace(path) if act == 'append' else d.detect.trace(path, mode='w')
            log = cm.__enter__()
            stack.append((cm, level, hands, stream, path))
            errs = len(err.getvalue())
            ctx.check(lg.isEnabledFor(20), 'tracing is on')
            log('> mark %s', i)
            d.dumps(obj)
            if stream is not None:
                text = stream.getvalue()
            elif path is not None:
                with open(path) as f:
                    text = f.read()
                ctx.check(text.startswith(had) if act == 'append' else 'before' not in text, 'the mode is obeyed')
            if act != 'none':
                ctx.check('> mark %d' % i in text and 'D2' in text, 'goes to the file')
                ctx.check(len(err.getvalue()) == errs, 'goes to the file only')
            elif L.stderr_handler in lg.handlers:
                ctx.check('> mark %d' % i in err.getvalue()[errs:], 'goes to the standard handler')
        elif act in ('on', 'off'):
            d.detect.trace(act == 'on')
            ctx.check(lg.isEnabledFor(20) == (act == 'on'), 'on and off')
        else:
            cm, level, hands, stream, path = stack.pop()
            leave(ctx, lg, cm, level, hands, stream, Boom('x') if act == 'error' else None)
    while stack:
        cm, level, hands, stream, path = stack.pop()
        leave(ctx, lg, cm, level, hands, stream, None)
    ctx.check(len(os.listdir('/proc/self/fd')) == fds, 'files it opened are closed')


def leave(ctx, lg, cm, level, hands, stream, exc):
    try:
        r = cm.__exit__(type(exc) if exc else None, exc, None)
        ctx.check(not r, 'errors pass through')
    except BaseException as e:
        ctx.check(False, 'errors pass through', detail=repr(e))
    ctx.check(lg.getEffectiveLevel() == level, 'the level is back', detail='%r' % lg.level)
    ctx.check(set(map(id, lg.handlers)) == set(map(id, hands)) and len(lg.handlers) == len(hands), 'the handlers are back',
              detail='%r for %r' % (lg.handlers, hands))
    if stream is not None:
        ctx.check(not stream.closed, 'a given stream stays open')


SCENARIOS = [
    Scenario('size', s_size, labels=('the size in its unit', 'no size, no suffix', 'depth is the width')),
    Scenario('structure', s_structure, labels=('the bytes it took', 'the same bytes', 'all are closed', 'closes what is open')),
    Scenario('streams', s_streams, labels=('the same bytes', 'no size without a position', 'the bytes it took')),
    Scenario('reuse', s_reuse, labels=('traced when it is on', 'all are closed')),
    Scenario('context', s_context, labels=('the level is back', 'the handlers are back', 'files it opened are closed',
                                           'a given stream stays open')),
]
