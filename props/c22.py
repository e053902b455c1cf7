"""C22: temporary dumps and captured streams"""
import linecache
import os
import sys
import tempfile

from sx.api import Scenario

ASSUMPTIONS = [
    'the file of the main program is found under its name, encoded in UTF-8',
    'as source: values their repr denotes; functions and classes of the main program, without decorators, using '
    'builtins and the values, functions, classes and modules bound in its file; importable ones']

CHARS = ['a', '\u00e9', '\u20ac', '\U0001f600', '\n', '\r', '\x0c', '\x85', '\u2028', "'", '"', '\\', '<', '>', '#', '(',
         '=', '\x00', '\xff', '\ud800', ' ', '%', '{']


def few(ctx):
    return ["'", '\\', '\n', '\u20ac', '>'] if ctx.tier == 'quick' else CHARS


def roundtrip(ctx, value, way, source=False, **kw):
    """dumped and loaded again, one of four ways; the file or buffer read twice"""
    t = ctx.dill.temp
    alias = kw.get('alias')
    lk = {'alias': alias} if alias and ctx.flag('alias again') else {}
    sfx = '_source' if source else ''
    if way in ('buffer', 'bytes'):
        f = ctx.expect_ok('dumped', getattr(t, 'dumpIO' + sfx), value, **kw)
        load = getattr(t, 'loadIO' + sfx)
        arg = f if way == 'buffer' else f.getvalue()
    else:
        f = ctx.expect_ok('dumped', getattr(t, 'dump' + sfx), value, **dict(kw, dir=ctx.scratch()))
        load = getattr(t, 'load' + sfx)
        if way == 'binary':
            lk['mode'] = 'rb'
        arg = f if way == 'file' else f.name
        ctx.check(os.path.dirname(f.name) == ctx.scratch() and os.path.exists(f.name), 'in the directory asked for')
        ctx.check(not source or f.name.endswith('.py'), 'named like a module')
    first = ctx.expect_ok('loaded', load, arg, **lk)
    again = ctx.expect_ok('loaded', load, arg, **lk)
    if way not in ('buffer', 'bytes'):
        name = f.name
        f.close()
        ctx.check(not os.path.exists(name), 'gone with its handle')
    return first, again


WAYS = ['buffer', 'bytes', 'file', 'name', 'binary']


def s_pickle(ctx):
    """a tree of lists, tuples, dictionaries, sets and a function around two symbolic values, or a text of
    any of 23 characters and any of 5 (thorough 23), or two symbolic bytes; through a buffer, its bytes, a file or its name; prefix and suffix"""
    way = ctx.choice('way', WAYS[:4])
    kind = ctx.choice('kind', ['leaf', 'list', 'shared', 'dict', 'function', 'text', 'bytes', 'none'])
    a, b = ctx.any('a'), ctx.leaf('b')
    if kind == 'text':
        v = ctx.choice('c', CHARS) + ctx.choice('d', few(ctx))
    elif kind == 'bytes':
        v = ctx.bytes('v', 2, alphabet=b'\x00\n\r\x1a\x80.\xff')
    elif kind == 'function':
        def v(x=a):
            return [x, b]
    else:
        s = [a]
        v = {'leaf': a, 'list': [a, (b, [a])], 'shared': [s, s], 'dict': {'k': a, 'l': {'m': b}}, 'none': None}[kind]
    kw = {}
    if way in ('file', 'name'):
        kw = ctx.choice('kw', [{}, {'prefix': 'zz'}, {'suffix': '.q'}, {'delete': True}])
    opts = dict(kw)
    before = dict(ctx.dill.settings)
    for r in roundtrip(ctx, v, way, **kw):
        if kind == 'function':
            ctx.check(ctx.eq(r(), [a, b]), 'equal')
            ctx.check(ctx.eq(r(b), [b, b]), 'equal')
        else:
            ctx.check(ctx.eq(r, v), 'equal')
            if kind == 'shared':
                ctx.check(r[0] is r[1] and r[0] is not s, 'equal')
    ctx.check(kw == opts and dict(ctx.dill.settings) == before, 'options untouched')


def s_values(ctx):
    """as source: text of any of 23 characters and any of 5 (thorough 23), alone or in a list, tuple, dictionary or set; bytes; numbers and
    14 words that name something else; under an alias"""
    way = ctx.choice('way', ['buffer', 'file', 'binary'])
    kind = ctx.choice('kind', ['text', 'list', 'tuple', 'dict', 'set', 'bytes', 'int', 'float', 'word', 'other'])
    if kind in ('text', 'list', 'tuple', 'dict', 'set'):
        t = ctx.choice('c', CHARS) + ctx.choice('d', few(ctx))
        v = {'text': t, 'list': [t, ['x', t]], 'tuple': (t,), 'dict': {t: t}, 'set': {t}}[kind]
    elif kind == 'bytes':
        v = bytes([ctx.pick('c', 256)]) + b'<x>'
    elif kind == 'int':
        v = ctx.choice('v', [0, -1, 1 << 80, -(10 ** 30)])
    elif kind == 'float':
        v = ctx.choice('v', [0.5, -1e300, float('inf'), 1e-320, 1 + 2j])
    elif kind == 'word':
        w = ctx.choice('v', ['inf', 'nan', '<x>', "<class 'int'>", 'None', 'int', 'zz', '__main__', '#NAME: x', 'len', '', '<lambda>',
                             'NotImplemented', '@x'])
        v = [w] if ctx.flag('in a list') else w
    else:
        v = ctx.choice('v', [None, True, False, Ellipsis, NotImplemented, range(3), slice(1, 2), frozenset([1]), [], (), {}, set(),
                             [[]], bytearray(b'\xff')])
    for r in roundtrip(ctx, v, way, source=True, alias='zz'):
        ctx.check(type(r) is type(v) and r == v, 'equal', detail='%r for %r' % (r, v))


def s_nameless(ctx):
    """as source without an alias: a value that has no name is refused"""
    v = ctx.choice('v', [1, 'a', [1], {'a': 1}, True, 1.5])
    t = ctx.dill.temp
    ctx.must_raise('refused', AttributeError, t.dumpIO_source, v)
    ctx.must_raise('refused', AttributeError, t.dump_source, v, dir=ctx.scratch())
    ctx.check(os.listdir(ctx.scratch()) == [], 'no file left')


MAIN = {
    'plain': 'def f(x):\n    return x + 1\n',
    'text': 'def f(x):\n    return "%s", x\n',
    'comment': 'def f(x):\n    # %s\n    return x + 1\n',
    'docstring': 'def f(x):\n    """%s"""\n    return x + 1, f.__doc__\n',
    'global value': 'y = 5\ndef f(x):\n    return x + y\n',
    'global text': 'y = "%s<x>"\ndef f(x):\n    return y, x\n',
    'global list': 'y = [1, "%s"]\ndef f(x):\n    return y, x\n',
    'global none': 'y = None\ndef f(x):\n    return y, x\n',
    'global function': 'def g(x):\n    return x\ndef f(x):\n    return g(x) + 1\n',
    'global through function': 'z = 3\ndef g(x):\n    return x + z\ndef f(x):\n    return g(x) + 1\n',
    'global module': 'import math\ndef f(x):\n    return math.floor(2.5) + x\n',
    'global class': 'class K(object):\n    y = 1\ndef f(x):\n    return K.y + x\n',
    'closure': 'def o(y):\n    def f(x):\n        return x + y\n    return f\nf = o(5)\n',
    'closure text': 'def o(y):\n    def f(x):\n        return y, x\n    return f\nf = o("%s<x>")\n',
    'closure function': 'def g(x):\n    return x + 1\ndef o(y):\n    def f(x):\n        return y(x)\n    return f\nf = o(g)\n',
    'lambda': 'f = lambda x: x + 1\n',
    'defaults': 'def f(x, y=[1, "%s"], *, z=3):\n    return x, y, z\n',
    'recursive': 'def f(x, n=3):\n    return x if n == 0 else f(x + n, n - 1)\n',
    'mutual': 'def g(x, n):\n    return f(x + n, n - 1)\ndef f(x, n=3):\n    return x if n == 0 else g(x, n)\n',
    'class': 'class f(object):\n    y = "%s"\n    def __new__(cls, x):\n        return [cls.y, x]\n',
    'builtin': 'def f(x):\n    return len("%s"), x\n',
}
TEXTS = ['a', '\u00e9', '\u20ac\U0001f600', '\\x85', '\u2028\x85', '\\\\', "'", '\\"', '<a>', '# x', '%s', '=']


def s_main(ctx):
    """as source: 20 functions and a class of the main program with 12 texts in them; under no alias, their own name
    or another; called with a symbolic integer"""
    which = ctx.choice('which', list(MAIN))
    text = MAIN[which]
    if '%s' in text:
        text = text.replace('%s', ctx.choice('text', TEXTS))
    # an alias renames the one definition, which a text form of recursion cannot follow
    alias = ctx.choice('alias', ['', 'f', 'zz'] if which not in ('recursive', 'mutual') else ['', 'f'])
    if which == 'docstring' and alias == 'zz':
        text = text.replace(', f.__doc__', '')
    path = os.path.join(ctx.scratch(), 'zzmain.py')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    main = ctx.main
    main.__file__ = path
    exec(compile(text, path, 'exec'), main.__dict__)
    linecache.checkcache(path)
    o = main.f
    x = ctx.int('x')
    want = o(x)
    way = ctx.choice('way', ['buffer', 'file', 'binary'] if which in ('plain', 'text') else ['buffer', 'file'])
    for r in roundtrip(ctx, o, way, source=True, **({'alias': alias} if alias else {})):
        ctx.check(r is not o and callable(r), 'a new object')
        ctx.check(ctx.eq(r(x), want), 'behaves the same')


def s_library(ctx):
    """as source: functions, classes and modules that can be imported come back as themselves"""
    import collections
    import math
    import json.decoder
    m = ctx.module('zzlive')
    exec('def f(x):\n    return x\nclass K(object):\n    pass\n', m.__dict__)
    pool = {'function': m.f, 'class': m.K, 'builtin': len, 'type': int, 'C function': math.sin, 'library': json.dumps,
            'library class': collections.OrderedDict, 'nested module': json.decoder.JSONDecoder}
    o = pool[ctx.choice('which', list(pool))]
    kw = {'alias': 'zz'} if ctx.flag('alias') else {}
    for r in roundtrip(ctx, o, ctx.choice('way', ['buffer', 'file']), source=True, **kw):
        ctx.check(r is o, 'the object itself')


class Out(BaseException):
    pass


def s_capture(ctx):
    """histories of up to 4 (thorough 6) steps out of: capture stdout or stderr, write one of two streams, leave the
    innermost capture normally or by an error, leave all by an error, put another stream in place, put None"""
    n = 4 if ctx.tier == 'quick' else 6
    capture = ctx.dill.temp.capture
    streams = ('stdout', 'stderr')

    class Tape(object):
        def __init__(self):
            self.got = ''

        def write(self, text):
            self.got += text
    base = {s: Tape() for s in streams}
    for s in streams:
        setattr(sys, s, base[s])
    stack = []               # (stream, its buffer, the context)
    now = dict(base)         # what is in place, as the model has it
    text = {id(base[s]): '' for s in streams}
    before = []

    def leave(exc):
        s, buf, cm = stack.pop()
        try:
            if exc is None:
                r = cm.__exit__(None, None, None)
            else:
                r = cm.__exit__(type(exc), exc, exc.__traceback__)
            ctx.check(not r, 'errors pass through')
        except BaseException as e:
            ctx.check(e is exc, 'errors pass through')
        now[s] = before.pop()
        ctx.check(buf.getvalue() == text[id(buf)], 'all that was written')

    keep = []
    for i in range(n):
        acts = ['out', 'err', 'write out', 'write err', 'replace', 'stop']
        if stack:
            acts += ['leave', 'error', 'all']
        act = ctx.choice('act%d' % i, acts)
        if act == 'stop':
            break
        if act in ('out', 'err'):
            s = 'std' + act
            cm = capture(s) if s == 'stderr' or i % 2 else capture()
            buf = cm.__enter__()
            keep.append(buf)
            ctx.check(getattr(sys, s) is buf and all(buf is not t for t in now.values()), 'a stream of its own')
            before.append(now[s])
            now[s] = buf
            text[id(buf)] = ''
            stack.append((s, buf, cm))
        elif act.startswith('write'):
            s = 'std' + act[6:]
            chunk = '%d\u00e9\n' % i
            getattr(sys, s).write(chunk)
            text[id(now[s])] += chunk
        elif act == 'replace':
            t = Tape()
            keep.append(t)
            sys.stdout = now['stdout'] = t
            text[id(t)] = ''
        elif act == 'leave':
            leave(None)
        elif act == 'error':
            leave([ValueError('x'), Out(), StopIteration(), SystemExit()][i % 4])
        elif act == 'all':
            e = Out()
            while stack:
                leave(e)
        for s in streams:
            ctx.check(getattr(sys, s) is now[s], 'the stream in place')
    while stack:
        leave(None)
    for s in streams:
        ctx.check(getattr(sys, s) is now[s], 'the stream in place')
        ctx.check(base[s].got == text[id(base[s])], 'nothing leaks out')


SCENARIOS = [
    Scenario('pickle', s_pickle, labels=('equal', 'options untouched', 'gone with its handle')),
    Scenario('values', s_values, labels=('equal',)),
    Scenario('nameless', s_nameless, labels=('refused', 'no file left')),
    Scenario('main', s_main, labels=('behaves the same', 'a new object')),
    Scenario('library', s_library, labels=('the object itself',)),
    Scenario('capture', s_capture, labels=('the stream in place', 'all that was written', 'errors pass through')),
]
