"""C28: text that brings along what an object needs"""
import linecache
import os
import sys
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'the file holds what was imported, and is found under the module; the text is executed in a module that is live under '
    'its own name, and infinite and undefined numbers are had from numpy',
    'outside: decorators, defaults, annotations, bases and class bodies that need globals; more than one decorator that '
    'closes over its function; closures and classes with bases among the globals; closures that assign what they close over '
    'or refer to themselves; lambdas that are not assigned to a name',
    'a closure is importable by name when a line of its module assigns the call of its factory to a name it is bound to']

OTHER = '''
TEN = 10
def g(x):
    return x + 1
def viaten(x):
    return x + TEN
class K(object):
    y = 1
    def __init__(self, v=2):
        self.v = v
    def m(self, x):
        return self.y + self.v + x
'''

# what a function refers to: (definition, expression of x that uses it)
USES = {
    'int': ('N = 5\n', 'N + x'), 'negative': ('N = -5\n', 'N + x'), 'zero': ('N = 0\n', '(N, x)'),
    'text': ('N = "it\'s \\"q\\" <b>\\n"\n', '(N, x)'), 'bytes': ('N = b"\'\\x00"\n', '(N, x)'),
    'none': ('N = None\n', '(N, x)'), 'true': ('N = True\n', '(N, x)'), 'dots': ('N = ...\n', '(N, x)'),
    'list': ('N = [1, ["a("]]\n', '(N, x)'), 'tuple': ('N = (1,)\n', '(N, x)'), 'empty': ('N = ()\n', '(N, x)'),
    'dict': ('N = {"a": [1], 2: None}\n', '(N, x)'), 'set': ('N = frozenset([1])\n', '(N, x)'),
    'inf': ('N = float("inf")\n', '(N, x)'), 'complex': ('N = 1-2j\n', '(N, x)'),
    'function': ('def h(y):\n    return y * 3\n', 'h(x)'),
    'lambda': ('h = lambda y: y * 3\n', 'h(x)'), 'lambda()': ('h = lambda: 3\n', 'h() + x'),
    'longer': ('def hh(y):\n    return y * 4\ndef h(y):\n    return y * 3\n', 'h(x)'),
    'needs': ('M = 7\ndef h(y):\n    return y * M\n', 'h(x)'),
    'needs needs': ('M = 7\ndef i(y):\n    return y * M\ndef h(y):\n    return i(y)\n', 'h(x)'),
    'class': ('class C(object):\n    z = 4\n', 'C.z + x'),
    'instance': ('class C(object):\n    def __init__(self, z):\n        self.z = z\nN = C(6)\n', 'N.z + x'),
    'other': ('from zzother import g\n', 'g(x)'), 'other as': ('from zzother import g as gg\n', 'gg(x)'),
    'other needs': ('from zzother import viaten\n', 'viaten(x)'),
    'other class': ('from zzother import K as KK\n', 'KK(3).m(x)'),
    'other value': ('from zzother import TEN as T\n', 'T + x'),
    'other module': ('import zzother\n', 'zzother.g(x)'), 'other module as': ('import zzother as zo\n', 'zo.g(x)'),
    'module': ('import math\n', 'math.floor(2.5) + x'), 'submodule': ('import os.path\n', '(os.path.sep, x)'),
    'submodule as': ('import os.path as op\n', '(op.sep, x)'), 'package as': ('import json.decoder as jd\n', '(jd.__name__, x)'),
    'builtin': ('from math import floor\n', 'floor(2.5) + x'), 'builtin as': ('from math import floor as fl\n', 'fl(2.5) + x'),
    'builtin name': ('ln = len\n', 'ln([x]) + x'), 'type name': ('tt = list\n', 'tt([x])'),
    'shadow': ('def len(y):\n    return 9\n', 'len([x]) + x'), 'real builtin': ('', 'len([x]) + x'),
    'type': ('from collections import deque as dq\n', 'dq([x])'), 'library': ('from os.path import join as j\n', 'j("a", str(x))'),
    'nothing': ('', 'x + 1'),
}
FEW = ['int', 'text', 'needs', 'class', 'other as', 'module', 'builtin', 'nothing']
FORMS = {
    'def': 'def f(x=2):\n    return %s\n', 'lambda': 'f = lambda x=2: %s\n', 'lambda()': 'f = lambda: (lambda x: %s)(2)\n',
    'async': 'async def f(x=2):\n    return %s\n', 'generator': 'def f(x=2):\n    yield %s\n',
    'nested': 'def f(x=2):\n    def f(x):\n        return %s\n    return f(x)\n',
    'nested lambda': 'def f(x=2):\n    return (lambda: %s)()\n', 'comprehension': 'def f(y=2):\n    return [%s for x in range(y)]\n',
    'local class': 'def f(x=2):\n    class Z(object):\n        a = %s\n    return Z.a\n',
    'recursive': 'def f(x=2):\n    return (%s) if x < 1 else f(x - 1)\n',
    'mutual': 'def e(x):\n    return f(x - 1)\ndef f(x=2):\n    return (%s) if x < 1 else e(x)\n',
    'long': 'def f(x=2):\n    # note\n\n    y = x\n    return %s\n',
}
PRE = '# a file\n'


def setup(ctx, text, name='zzneeds'):
    ms = []
    for n, t in (('zzother', OTHER), (name, PRE + text)):
        path = os.path.join(ctx.scratch(), n + '.py')
        with open(path, 'w') as f:
            f.write(t)
        m = ctx.module(n, __file__=path)
        exec(compile(t, path, 'exec'), m.__dict__)
        linecache.checkcache(path)
        ms.append(m)
    return ms[1]


def fresh(ctx, text, name='zznew'):
    """the names that the text binds in a new module"""
    m = ctx.module(name)
    had = set(vars(m))
    exec(compile(text, '<text>', 'exec'), m.__dict__)
    return m, {k: v for k, v in vars(m).items() if k not in had and k != '__builtins__'}


def outcome(f, *args):
    r = f(*args)
    if isinstance(r, types.CoroutineType):
        try:
            r.send(None)
        except StopIteration as e:
            return ['async', e.value]
    if isinstance(r, types.GeneratorType):
        return ['generator', list(r)]
    return r


def same(ctx, old, new, calls=((), (0,), (3,))):
    for args in calls:
        want = outcome(old, *args)
        got = ctx.expect_ok('runs', outcome, new, *args)
        ctx.check(type(got) is type(want) and got == want, 'equivalent', detail='%r for %r' % (got, want))


def importable(ctx, o, alias, source):
    return ctx.expect_ok('text', ctx.dill.source.importable, o, **{k: v for k, v in dict(alias=alias, source=source).items()
                                                                   if v not in ('', None)})


def s_function(ctx):
    """12 forms of functions that use one of 43 kinds of globals (quick: any form with 8 kinds, or the plain one with any),
    with an alias that is another name, its own, or a longer one, or none"""
    form = ctx.choice('form', list(FORMS))
    use = ctx.choice('use', list(USES) if form == 'def' or ctx.tier != 'quick' else FEW)
    define, expr = USES[use]
    m = setup(ctx, define + FORMS[form] % expr)
    alias = ctx.choice('alias', ['', 'al', 'f', 'ff'])
    text = importable(ctx, m.f, alias, True)
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    ctx.check((alias or 'f') in ns, 'bound')
    f = ns.get(alias or 'f')
    ctx.check(type(f) is types.FunctionType and f is not m.f and f.__globals__ is new.__dict__, 'a function of the new module')
    same(ctx, m.f, f, [()] if form == 'lambda()' else [(), (0,), (3,)])


def s_two(ctx):
    """a function that uses any two of 43 kinds of globals (quick: any of 8 and any), under distinct names, the second one
    through another function or not"""
    a = ctx.choice('a', FEW if ctx.tier == 'quick' else list(USES))
    b = ctx.choice('b', list(USES))
    (da, ea), (db, eb) = USES[a], USES[b]
    for n in ('N', 'h', 'C', 'M', 'i', 'hh'):              # other names for the second one
        db, eb = rename(db, n), rename(eb, n)
    if ctx.flag('through'):
        db, eb = db + 'def through(x):\n    return %s\n' % eb, 'through(x)'
    m = setup(ctx, da + db + 'def f(x=2):\n    return [%s, %s]\n' % (ea, eb))
    text = importable(ctx, m.f, '', True)
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    ctx.check('f' in ns, 'bound')
    same(ctx, m.f, ns['f'])


def rename(text, name):
    import re
    return re.sub(r'(?<![\w"\'.])%s(?![\w"])' % name, name + '2', text)


# ------------------------------------------------------------------ closures
CELLS = {
    'int': ('', '5', 'C0 + x'), 'text': ('', '"a\'\\"<b>"', '(C0, x)'), 'none': ('', 'None', '(C0, x)'), 'list': ('', '[1, "z"]', '(C0, x)'),
    'false': ('', 'False', '(C0, x)'), 'function': ('def h(y):\n    return y * 3\n', 'h', 'C0(x)'),
    'function that needs': ('M = 7\ndef h(y):\n    return y * M\n', 'h', 'C0(x)'),
    'lambda': ('h = lambda y: y * 3\n', 'h', 'C0(x)'),
    'other function': ('from zzother import g\n', 'g', 'C0(x)'), 'other needs': ('from zzother import viaten\n', 'viaten', 'C0(x)'),
    'class': ('class K(object):\n    z = 4\n', 'K', 'C0.z + x'),
    'instance': ('class K(object):\n    def __init__(self, z):\n        self.z = z\nN = K(6)\n', 'N', 'C0.z + x'),
    'module': ('import math\n', 'math', 'C0.floor(2.5) + x'), 'package': ('import os.path as op\n', 'op', '(C0.sep, x)'),
    'builtin': ('from math import floor as fl\n', 'fl', 'C0(2.5) + x'), 'real builtin': ('', 'len', 'C0([x]) + x'), 'type': ('', 'list', 'C0([x])'),
}
FACTORIES = {
    'def': 'def mk(%s):\n    def f(x=2):\n        return %s\n    return f\n',
    'lambda': 'def mk(%s):\n    f = lambda x=2: %s\n    return f\n',
    'deep': 'def mk(%s):\n    def mid():\n        def f(x=2):\n            return %s\n        return f\n    return mid()\n',
    'inner': 'def mk(%s):\n    def f(x=2):\n        def f(x):\n            return %s\n        return f(x)\n    return f\n',
    'comment': 'def mk(%s):\n    n = 1\n    # note\n    def f(x=2):\n        # note\n        return %s\n    n = 2\n    return f\n',
}


def s_closure(ctx):
    """closures of 5 factories over one value of 17 kinds (or two: quick, one of 4 first), with an alias or not, as source;
    the name of the cell may be that of the function, of another one or of a builtin"""
    form = ctx.choice('factory', list(FACTORIES))
    a = ctx.choice('a', list(CELLS) if ctx.tier != 'quick' or form == 'def' else ['int', 'text', 'function', 'class'])
    b = ctx.choice('b', ['', 'int', 'none'] + (['function', 'list', 'module'] if ctx.tier != 'quick' else []))
    names = [ctx.choice('cell', ['a', 'mk', 'h', 'len', 'al2']), 'b']
    if a == 'real builtin' and names[0] == 'len' or names[0] == 'h' and CELLS[a][1] != 'h' and b == 'function':
        ctx.skip('the names clash')
    define, args, expr = '', [], []
    for n, c in zip(names, [a, b]):
        if c:
            d, v, e = CELLS[c]
            define += d if d not in define else ''
            args.append(v)
            expr.append(e.replace('C0', n))
    text = FACTORIES[form] % (', '.join(names[:len(args)]), '[%s]' % ', '.join(expr))
    m = setup(ctx, define + text + 'made = mk(%s)\n' % ', '.join(args))
    alias = ctx.choice('alias', ['', 'al', 'f'])
    text = importable(ctx, m.made, alias, True)
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    ctx.check((alias or 'f') in ns, 'bound')
    f = ns.get(alias or 'f')
    ctx.check(type(f) is types.FunctionType and f is not m.made and f.__globals__ is new.__dict__, 'a function of the new module')
    same(ctx, m.made, f)


# ------------------------------------------------------------------- imports
LINES = {
    'one': 'k0 = mk(4)\n', 'two': 'k0 = mk(4)\nk1 = mk(5)\n', 'three': 'k0 = mk(4)\nk1 = mk(5)\nk2 = mk([6])\n',
    'spaced': 'k0   =   mk(4)\nk1=mk(5)\n', 'again': 'k0 = mk(3)\nk0 = mk(4)\nk1 = mk(5)\n',
    'longer': 'k0 = mk(4)\nk00 = mk(5)\n', 'other factory': 'k0 = mk(4)\nk1 = mk2(5)\nk2 = mk(6)\n',
    'other call': 'k0 = mk(4)\ns = str(mk)\nk1 = [mk(5)]\n', 'rebound': 'k0 = mk(4)\nk1 = mk(5)\nk1 = 3\n',
    'comment': 'k0 = mk(4)\n# k1 = mk(5)\n', 'local': 'k0 = mk(4)\ndef z():\n    k1 = mk(5)\n    return k1\n',
    'swapped': 'k0 = mk(5)\nk1 = mk(4)\nk0, k1 = k1, k0\n',
}


def s_named(ctx):
    """closures assigned by one to three lines of a module that look alike in 12 ways, over a value or a function; the
    import of any of them"""
    fun = ctx.flag('over a function')
    lines = LINES[ctx.choice('lines', list(LINES))]
    text = ('def mk(n):\n    def f(x):\n        return [n, x]\n    return f\ndef mk2(n):\n    def f(x):\n        return {n: x}\n    return f\n')
    if fun:
        text += 'def one(x):\n    return 1\ndef two(x):\n    return 2\n'
        for i, n in enumerate(('[6]', '3', '4', '5', '6')):
            lines = lines.replace('(%s)' % n, '(one)' if i % 2 else '(two)')
    m = setup(ctx, text + lines)
    name = ctx.choice('object', [n for n in ('k0', 'k1', 'k2', 'k00') if isinstance(m.__dict__.get(n), types.FunctionType)])
    o = m.__dict__[name]
    alias = ctx.choice('alias', ['', 'al'])
    text = importable(ctx, o, alias, False)
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    if len(ns) == 1:
        ctx.check(alias in ('', list(ns)[0]), 'binds one name', detail=text)
        f = list(ns.values())[0]
        ctx.check(f is o, 'the object itself', detail=text)
    else:
        f = ns.get(alias or 'f')
    same(ctx, o, f, [(3,)])


PLAIN = {
    'def': ('def f(x=2):\n    return x\n', 'f'), 'lambda': ('f = lambda x=2: x\n', 'f'), 'class': ('class f(object):\n    def m(self):\n        return 1\n', 'f'),
    'closes over nothing': ('def mk():\n    def g(x=2):\n        return x\n    return g\nf = mk()\n', 'f'),
    'decorated': ('def twice(h):\n    def w(x=2):\n        return h(x) * 2\n    return w\n@twice\ndef f(x=2):\n    return x\n', 'f'),
    'decorated with': ('def times(n):\n    def d(h):\n        def w(x=2):\n            return h(x) * n\n        return w\n    return d\n@times(3)\ndef f(x=2):\n    return x\n', 'f'),
    'async': ('async def f(x=2):\n    return x\n', 'f'), 'other': ('from zzother import g\n', 'g'), 'other class': ('from zzother import K\n', 'K'),
    'builtin': ('', len), 'library builtin': ('from math import floor\n', 'floor'), 'library': ('from os.path import join\n', 'join'),
    'library class': ('from collections import deque\n', 'deque'), 'type': ('', dict),
}


def s_plain(ctx):
    """functions, classes and builtins of 14 kinds, from a module that is not the main one: as an import (asked for or by
    default) the object itself, as source one that is equivalent; an alias or not; forcing builtins or not"""
    kind = ctx.choice('kind', list(PLAIN))
    define, name = PLAIN[kind]
    m = setup(ctx, define)
    o = getattr(m, name) if isinstance(name, str) else name
    name = name if isinstance(name, str) else o.__name__
    source = ctx.choice('source', [None, False, True])
    alias = ctx.choice('alias', ['', 'al', name])
    builtin = ctx.flag('builtin')
    text = ctx.expect_ok('text', ctx.dill.source.importable, o, alias, source=source, builtin=builtin)
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    if kind in ('builtin', 'type') and not ns:
        ctx.check(not alias or alias == name, 'a builtin needs no import', detail=text)
        return
    got = ns.get(alias or ('g' if kind == 'closes over nothing' and source else name))
    if not source or isinstance(o, types.BuiltinFunctionType) or kind in ('type', 'library class'):
        ctx.check(got is o and set(ns) <= {name, alias}, 'the object itself', detail=text)
    elif isinstance(o, type):
        ctx.check(isinstance(got, type) and got.__name__ == o.__name__, 'bound', detail=text)
        ctx.check(set(vars(got)) - {'__static_attributes__', '__firstlineno__'} == set(vars(o)) - {'__static_attributes__', '__firstlineno__'}, 'equivalent')
    elif kind != 'library':
        ctx.check(type(got) is types.FunctionType, 'bound', detail=text)
        same(ctx, o, got, [(), (3,)] if kind not in ('other',) else [(3,)])


VALUES = [None, True, 0, -1, 10 ** 30, 1.5, -0.0, 1e300, float('inf'), 1 - 2j, '', "it's", 'a"\n\\', '<x>', 'None', b"'\x00", (), (1,), [[]], ['a(', 1],
          {}, {'a': (1,)}, {1}, frozenset([1]), ..., NotImplemented, bytearray(b'x'), range(3), [None, 'x']]


def s_value(ctx):
    """29 plain values, under an alias, as an import, as source or by default"""
    v = VALUES[ctx.pick('value', len(VALUES))]
    text = ctx.expect_ok('text', ctx.dill.source.importable, v, 'al', source=ctx.choice('source', [None, False, True]), builtin=ctx.flag('builtin'))
    new, ns = ctx.expect_ok('executes', fresh, ctx, text)
    ctx.check('al' in ns, 'bound', detail=text)
    ctx.check(type(ns['al']) is type(v) and repr(ns['al']) == repr(v), 'equal', detail=text)
    ctx.check(len(ns) == 1, 'binds one name', detail=text)


# ----------------------------------------------------------- with a pickled object
CLASSES = '''
class Plain(object):
    def __init__(self, *a):
        self.a = list(a)
        self.me = self
    def state(self):
        return [self.a, self.me is self]
class Slots(object):
    __slots__ = ('a',)
    def __init__(self, *a):
        self.a = list(a)
    def state(self):
        return [self.a]
class Items(dict):
    def __init__(self, *a):
        dict.__init__(self, enumerate(a))
    def state(self):
        return list(self.items())
class Reduces(object):
    def __init__(self, *a):
        self.a = list(a)
    def __reduce__(self):
        return type(self), tuple(self.a)
    def state(self):
        return [self.a]
class State(object):
    def __init__(self, *a):
        self.a = list(a)
    def __getstate__(self):
        return {'b': self.a}
    def __setstate__(self, s):
        self.a = s['b']
    def state(self):
        return [self.a]
'''


def s_new(ctx):
    """instances of classes of 5 kinds, of modules with names of 3 lengths, holding a symbolic value or a text that looks like
    the name of the class; dumped with their class, executed in modules with names of 4 lengths"""
    old = ctx.choice('old', ['zzm', 'zzmodule', 'zz' * 70])
    cls = ctx.choice('class', ['Plain', 'Slots', 'Items', 'Reduces', 'State'])
    v = ctx.choice('value', [1, None, 'x', '%s' % old, 'c%s\n%s\n' % (old, cls), '__main__', cls])
    m = setup(ctx, CLASSES, old)
    o = getattr(m, cls)(v, [v])
    alias = ctx.choice('alias', ['al', ''])
    new = ctx.choice('new', ['zzn', 'zzmodule2', 'zz_' + 'n' * 120, old])
    text = ctx.expect_ok('text', ctx.dill.source.dumpsource, o, alias, new=True, enclose=False)
    gone = ctx.flag('gone')
    want = o.state()
    if gone and new != old:
        del sys.modules[old]
    n, ns = ctx.expect_ok('executes', fresh, ctx, text, new)
    ctx.check(set(ns) == {'dill', cls} | ({alias} if alias else set()), 'binds these names', detail=repr(sorted(ns)))
    if alias:
        r = ns[alias]
        ctx.check(type(r) is ns[cls] and type(r) is not type(o), 'of the new class')
        ctx.check(r.state() == want, 'equal', detail='%r for %r' % (r.state(), want))


def s_pickled(ctx):
    """values, functions, classes and instances of 12 kinds: dumped alone, enclosed or not; an alias or not"""
    m = setup(ctx, CLASSES + 'def f(x=2):\n    return x + 1\n')
    kind = ctx.choice('kind', ['value', 'shared', 'function', 'lambda', 'closure', 'class', 'builtin', 'instance', 'slots', 'module', 'text'])
    v = ctx.choice('v', [1, None, 'a\'"\\\n', b'\x00\xff', "');", '__this_is_a_stub_variable__'])

    def mk(n):
        return lambda: n
    s = [v]
    o = {'value': v, 'shared': [s, s, {'k': s}], 'function': m.f, 'lambda': (lambda: v), 'closure': mk(v), 'class': m.Plain, 'builtin': len,
         'instance': m.Plain(v), 'slots': m.Slots(v), 'module': m, 'text': 'def f(): return %r' % v}[kind]
    alias = ctx.choice('alias', ['al', '', 'dill', 'o'])
    enclose = ctx.flag('enclose')
    text = ctx.expect_ok('text', ctx.dill.source.dumpsource, o, alias, new=ctx.flag('new') and kind not in ('instance', 'slots'), enclose=enclose)
    n, ns = ctx.expect_ok('executes', fresh, ctx, text)
    want = ({alias} if alias else set()) | (set() if enclose else {'dill'})
    ctx.check(set(ns) == want, 'binds these names', detail=repr(sorted(ns)))
    if not alias:
        return
    r = ns[alias]
    if kind in ('function', 'class', 'builtin', 'module'):
        ctx.check(r is o, 'the object itself')
    elif kind in ('lambda', 'closure'):
        ctx.check(r() == v, 'equal')
    elif kind in ('instance', 'slots'):
        ctx.check(type(r) is type(o) and r is not o and r.state() == o.state(), 'equal')
    else:
        ctx.check(type(r) is type(o) and r == o, 'equal')
        ctx.check(kind != 'shared' or r[0] is r[1] is r[2]['k'], 'equal')


def s_wrap(ctx):
    """the wrapper that imports a function when it is called: 12 forms, 8 kinds of globals"""
    form = ctx.choice('form', [f for f in FORMS])
    define, expr = USES[ctx.choice('use', FEW)]
    m = setup(ctx, define + FORMS[form] % expr)
    w = ctx.expect_ok('wraps', ctx.dill.source._wrap, m.f)
    ctx.check(w.__name__ == m.f.__name__ and w.__doc__ == m.f.__doc__, 'keeps the name')
    same(ctx, m.f, w, [()] if form == 'lambda()' else [(), (3,)])


SCENARIOS = [
    Scenario('function', s_function, labels=('bound', 'a function of the new module', 'equivalent')),
    Scenario('two', s_two, labels=('bound', 'equivalent')),
    Scenario('closure', s_closure, labels=('bound', 'a function of the new module', 'equivalent')),
    Scenario('named', s_named, labels=('the object itself', 'equivalent')),
    Scenario('plain', s_plain, labels=('the object itself', 'bound', 'equivalent')),
    Scenario('value', s_value, labels=('bound', 'equal', 'binds one name')),
    Scenario('new', s_new, labels=('of the new class', 'equal', 'binds these names')),
    Scenario('pickled', s_pickled, labels=('the object itself', 'equal', 'binds these names')),
    Scenario('wrap', s_wrap, labels=('keeps the name', 'equivalent')),
]
