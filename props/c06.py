"""C06: classes copied by value"""
import abc
import collections
import dataclasses
import enum
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'metaclasses and __init_subclass__ hooks leave attributes alone that are already there (they run again for the copy)',
    'slots are given by a value that can be read again (a string, tuple, list or dictionary)',
    'class attributes do not lead back to the class, except through the closures of its methods',
    'constants and instance state are opaque leaves (None, 0, empty text, an empty tuple or one of unboundedly many '
    'truthy values); class shapes are symbolic choices compiled by CPython']

LIB = '''
import abc
class LiveBase(object):
    lb = 1
    def who(self):
        return 'LiveBase'
class LiveMeta(type):
    extra = 5
    def hello(cls):
        return 'hello ' + cls.__name__
class Other(object):
    pass
'''


def own(c):
    """the names in the dictionary of a class; __slotnames__ is what copyreg keeps there once an instance is pickled"""
    return set(vars(c)) - {'__slotnames__'}


def lib(ctx):
    m = ctx.module('zzlib')
    exec(compile(LIB, '<sx>', 'exec'), m.__dict__)
    return m


def where(ctx, opts=('no module', 'live', 'main')):
    """a namespace whose classes are not found by name"""
    w = ctx.choice('where', opts)
    if w == 'no module':
        return {'__name__': 'zz_nomod'}
    if w == 'live':
        return ctx.module('zzlive').__dict__
    return ctx.main.__dict__


def define(src, ns, *names):
    code = 'def maker():\n' + ''.join(' ' + l + '\n' for l in src.splitlines()) + ' return %s,\n' % ', '.join(names)
    ns['__builtins__'] = __builtins__
    exec(compile(code, '<sx>', 'exec'), ns)
    return ns.pop('maker')()


def same_class(ctx, r, c, what=''):
    ctx.check(isinstance(r, type) and r is not c, what + 'a new class')
    for k in ('__name__', '__qualname__', '__module__', '__doc__'):
        ctx.check(getattr(r, k) == getattr(c, k), what + k)
    ctx.check(type(r) is type(c) or type(r).__name__ == type(c).__name__, what + 'metaclass')
    ctx.check(len(r.__mro__) == len(c.__mro__) and
              all(a is b or a.__qualname__ == b.__qualname__ for a, b in zip(r.__mro__, c.__mro__)), what + 'bases')


def s_shape(ctx):
    """a class with 5 choices of bases (object; a live class; a local class; a diamond of local classes; a built-in
    one), 4 of metaclasses (type, live, local, ABCMeta), 9 of slots (none, string, tuple, list, dictionary, private,
    empty, with __dict__, with __weakref__), a docstring or none, annotations or none, a constant; in a missing, a live
    module or the main program; an instance with its state; tracing on and off; protocols 2-5 for the state"""
    l = lib(ctx)
    ns = where(ctx)
    ns.update(LiveBase=l.LiveBase, LiveMeta=l.LiveMeta, abc=abc, const=ctx.any('const'))
    bases = ctx.choice('bases', ['object', 'LiveBase', 'Local', 'Left, Right', 'list', 'dict', 'Exception'])
    meta = ctx.choice('meta', ['', ', metaclass=LiveMeta', ', metaclass=LocalMeta', ', metaclass=abc.ABCMeta'])
    slots = ctx.choice('slots', ['', "'sl'", "('sl', 't')", "['sl']", "{'sl': 'docs'}", "('__s', 't')", "()",
                                 "('sl', '__dict__')", "('sl', '__weakref__')"])
    if bases in ('list', 'dict') and '__weakref__' in slots:
        ctx.skip('list and dict subclasses')
    if bases != 'object' and '__weakref__' in slots:
        ctx.skip('the base has weak references')
    if '__dict__' in slots and bases not in ('object', 'list', 'dict'):
        ctx.skip('the base has a dictionary')
    doc = ctx.flag('doc')
    quick = ctx.tier == 'quick'
    rec = ctx.flag('recurse') if not quick or slots in ('', "('sl', 't')") else doc
    body = ''
    if doc:
        body += ' """the docs"""\n x: int\n y: "str" = 3\n'
    if slots:
        body += ' __slots__ = %s\n' % slots
    body += ' c = const\n def m(self):\n  return self.c\n'
    if slots == "('__s', 't')":
        body += ' def put(self, v):\n  self.__s = v\n def get(self):\n  return self.__s\n'
    c, local, left, meta_ = define(
        'class LocalMeta(type):\n def hello(cls):\n  return cls.__name__\n'
        'class Local(object):\n k = 3\n def who(self):\n  return "Local"\n'
        'class Left(Local):\n def who(self):\n  return "Left" + super().who()\n'
        'class Right(Local):\n def who(self):\n  return "Right" + super().who()\n'
        'class C(%s%s):\n%s' % (bases, meta, body), ns, 'C', 'Local', 'Left', 'LocalMeta')
    x = c()
    state = {}
    if not slots or bases in ('LiveBase', 'Local', 'Left, Right', 'Exception') or '__dict__' in slots:
        x.d = state['d'] = ctx.any('d')
    if bases != 'Exception' and slots in ("'sl'", "('sl', 't')", "['sl']", "{'sl': 'docs'}", "('sl', '__dict__')",
                                          "('sl', '__weakref__')"):          # (exceptions do not pickle their slots)
        x.sl = state['sl'] = ctx.any('s')
    if bases != 'Exception' and slots == "('__s', 't')":
        x.put(ctx.any('s'))
    names = own(c)
    data = ctx.expect_ok('dumps', ctx.dill.dumps, [c, x, c], recurse=rec, protocol=ctx.choice('proto', [2, 4]))
    r, y, r2 = ctx.expect_ok('loads', ctx.dill.loads, data)
    ctx.check(r is r2 and type(y) is r, 'one class')
    same_class(ctx, r, c)
    ctx.check(own(r) == names, 'own attributes', detail='%s for %s' % (sorted(set(vars(r)) ^ names), bases))
    ctx.check(('__slots__' in vars(c)) == ('__slots__' in vars(r)) and
              (not slots or r.__dict__['__slots__'] == c.__dict__['__slots__']), 'slots')
    ctx.check(not doc or (r.__annotations__ == c.__annotations__ and list(r.__annotations__) == ['x', 'y'] and r.y == 3),
              'annotations')
    ctx.check(ctx.land(ctx.eq(r.c, c.c), ctx.eq(y.m(), x.m())), 'constant')
    ctx.check((r.__dictoffset__ == 0) == (c.__dictoffset__ == 0) and
              (r.__weakrefoffset__ == 0) == (c.__weakrefoffset__ == 0) and r.__basicsize__ == c.__basicsize__, 'layout')
    for k in state:
        ctx.check(ctx.eq(getattr(y, k), state[k]), 'state of the instance')
    if bases != 'Exception' and slots == "('__s', 't')":
        ctx.check(ctx.eq(y.get(), x.get()), 'state of the instance')
    if slots in ("('sl', 't')", "('__s', 't')"):
        ctx.check(not hasattr(y, 't'), 'unset slots stay unset')
    if hasattr(c, 'who'):
        ctx.check(y.who() == x.who(), 'inherited behaviour')
    if hasattr(c, 'hello'):
        ctx.check(r.hello() == c.hello() and r.hello.__self__ is r, 'behaviour of the metaclass')
    if bases == 'LiveBase':
        ctx.check(r.__bases__[0] is l.LiveBase, 'live bases are shared')
    if bases == 'Local':
        ctx.check(r.__bases__[0] is not local, 'local bases are copied')


OWN = ['none', 'new', 'A', 'B', 'Z', 'W', 'const']


def s_resolve(ctx):
    """class C(A, B), C(B, A), C(A) or D(C) below it, A a child of Z, B of W, each defining f or not, live or local;
    C's own f is missing, new, a constant, or the very function of one of its bases, also under a second name g;
    what f and g resolve to is compared on class and instance; tracing on and off"""
    live = ctx.flag('bases are live')
    defs = {k: ctx.flag('%s defines f' % k) for k in 'AZB'}
    defs['W'] = True
    own = ctx.choice('own f', OWN)
    owng = ctx.choice('own g', ['none', 'A', 'W'])
    order = ctx.choice('order', ['A, B', 'B, A', 'A'])
    for o in (own, owng):
        if o in defs and not defs[o]:
            ctx.skip('not there to take')
    child = ctx.flag('child')
    ns = {'__name__': 'zz_nomod', 'const': ctx.any('const'), '__builtins__': __builtins__}
    bsrc = ''
    for k, parent in (('Z', 'object'), ('W', 'object'), ('A', 'Z'), ('B', 'W')):
        bsrc += 'class %s(%s):\n' % (k, parent)
        bsrc += ' def f(self):\n  return %r\n' % k if defs[k] else ' pass\n'
    if live:
        m = ctx.module('zzlive')
        exec(compile(bsrc, '<sx>', 'exec'), m.__dict__)
        ns.update({k: m.__dict__[k] for k in 'ZWAB'})
        bsrc = ''
    csrc = 'class C(%s):\n' % order
    csrc += {'none': ' pass\n', 'new': ' def f(self):\n  return "C"\n', 'const': ' f = const\n'}.get(
        own, ' f = %s.__dict__["f"]\n' % own)
    if owng != 'none':
        csrc += ' g = %s.__dict__["f"]\n' % owng
    csrc += 'class D(C):\n pass\n'
    c, d = define(bsrc + csrc, ns, 'C', 'D')
    t = d if child else c
    r = ctx.expect_ok('copies', ctx.rt, t, recurse=ctx.flag('recurse') if ctx.tier != 'quick' else child)

    def call(v):
        return v() if callable(v) and not ctx.is_sym(v) else v

    for k in 'fg':
        a, b = getattr(t, k, 'missing'), getattr(r, k, 'missing')
        if isinstance(a, types.FunctionType):
            ctx.check(isinstance(b, types.FunctionType) and b(None) == a(None), 'resolves on the class')
        else:
            ctx.check(ctx.eq(a, b), 'resolves on the class')
        a, b = getattr(t(), k, 'missing'), getattr(r(), k, 'missing')
        ctx.check(ctx.eq(call(a), call(b)), 'resolves on the instance')
    same_class(ctx, r, t)


SPECIAL = {'__hash__': hash, '__repr__': repr, '__len__': len, '__eq__': lambda i: i == 5, '__bool__': bool}


def s_special(ctx):
    """a class C(A), A(Z), with its own special methods (hash, repr, len, bool, eq): each missing, new, None or the very
    object that A or Z or the built-in class below provides; Z is an object, a list or a dictionary; A and Z live or
    local; one of the five methods beside one that compares; what the special methods of an instance do is compared"""
    live = ctx.flag('bases are live')
    root = ctx.choice('root', ['object', 'list', 'int'])
    name = ctx.choice('name', list(SPECIAL))
    defs = {k: ctx.flag('%s defines it' % k) for k in 'ZA'}
    owns = ctx.choice('own', ['none', 'new', 'None', 'A', 'Z', 'root'])
    if owns in defs and not defs[owns] or owns == 'root' and not hasattr(eval(root), name):
        ctx.skip('not there to take')
    eq = ctx.flag('compares itself') if name != '__eq__' else False
    ns = {'__name__': 'zz_nomod', '__builtins__': __builtins__}
    values = {'__hash__': '%d', '__repr__': '"%d"', '__len__': '%d', '__eq__': '"eq%d"', '__bool__': '%d == 2'}

    def method(n):
        return ' def %s(self, *a):\n  return %s\n' % (name, values[name] % n)

    src = ''
    for n, (k, parent) in enumerate((('Z', root), ('A', 'Z'))):
        src += 'class %s(%s):\n' % (k, parent) + (method(n + 1) if defs[k] else ' pass\n')
    if live:
        m = ctx.module('zzlive')
        exec(compile(src, '<sx>', 'exec'), m.__dict__)
        ns.update(A=m.A, Z=m.Z)
        src = ''
    src += 'class C(A):\n c = 1\n' + {'none': '', 'new': method(3), 'None': ' %s = None\n' % name}.get(
        owns, ' %s = %s.%s\n' % (name, root if owns == 'root' else owns, name))
    if eq:
        src += ' def __eq__(self, o):\n  return "own eq"\n'
    c, = define(src, ns, 'C')
    r = ctx.expect_ok('copies', ctx.rt, c, recurse=ctx.flag('recurse') if ctx.tier != 'quick' else live)
    same_class(ctx, r, c)
    for k, f in SPECIAL.items():
        def result(t):
            i = t()
            v, exc = ctx.attempt(f, i)
            if exc is not None:
                return type(exc)
            # what the built-in classes say depends on the address of the object
            return 'built in' if k in ('__hash__', '__repr__') and (v == object.__hash__(i) or v == object.__repr__(i)) \
                else v
        a, b = result(c), result(r)
        ctx.check(type(a) is type(b) and a == b, 'special methods act alike')


MEMBERS = {
    'method': (' def a(self, x=1):\n  return ("m", x, self.c)\n', lambda c, i: i.a(2)),
    'static': (' @staticmethod\n def a(x):\n  return ("s", x)\n', lambda c, i: (c.a(2), i.a(3))),
    'class': (' @classmethod\n def a(cls, x):\n  return (cls.__name__, cls.c, x)\n', lambda c, i: (c.a(2), i.a(3))),
    'property': (' @property\n def a(self):\n  "docs of a"\n  return self.c\n @a.setter\n def a(self, v):\n'
                 '  self.seen = v\n', lambda c, i: (setattr(i, 'a', 5), i.seen, i.a, c.a.__doc__)[1:]),
    'lambda': (' a = lambda self: (1, self.c)\n', lambda c, i: i.a()),
    'nested class': (' class a(object):\n  v = 7\n  def m(self):\n   return self.v\n',
                     lambda c, i: (c.a().m(), c.a.__qualname__)),
    'super': (' def __init__(self):\n  super().__init__()\n  self.k = __class__.__name__\n'
              ' def who(self):\n  return "C" + super().who()\n', lambda c, i: (i.k, i.who())),
    'class cell': (' def a(self):\n  return __class__\n', lambda c, i: i.a() is c),
    'partialmethod': (' def b(self, x, y):\n  return (x, y, self.c)\n a = functools.partialmethod(b, 1)\n',
                      lambda c, i: i.a(2)),
    'cached': (' @functools.cached_property\n def a(self):\n  return (self.c, 1)\n', lambda c, i: (i.a, i.a)),
    'operators': (' def __eq__(self, o):\n  return True\n __hash__ = None\n def __len__(self):\n  return 3\n'
                  ' def __getitem__(self, k):\n  return k\n', lambda c, i: (i == 5, c.__hash__, len(i), i[4])),
    'getattr': (' def __getattr__(self, k):\n  return "dyn" + k\n', lambda c, i: i.zzz),
    'descriptor': (' a = Desc(4)\n', lambda c, i: (c.a, i.a)),
    'generator': (' def a(self):\n  yield 1\n  yield self.c\n', lambda c, i: list(i.a())),
    'call': (' def __call__(self, *a, k=2, **kw):\n  return (a, k, kw)\n', lambda c, i: i(1, k=3, z=4)),
    'defaults': (' def a(self, x=const, *, y=const):\n  return (x, y)\n', lambda c, i: i.a()),
    'functions share': (' def a(self):\n  return 1\n b = a\n', lambda c, i: (c.a is c.b, i.b())),
    'class getitem': (' def __class_getitem__(cls, k):\n  return (cls.__name__, k)\n', lambda c, i: c[3]),
    'set name': (' a = Named()\n', lambda c, i: c.__dict__['a'].name),
    'new': (' def __new__(cls, *a):\n  self = super().__new__(cls)\n  self.made = 1\n  return self\n',
            lambda c, i: i.made),
}


def s_members(ctx):
    """a class with any two of 20 kinds of members over a constant; its results and those of its copy, taken on class
    and instance, are compared; a live base; missing module, live module or main program; tracing on and off"""
    names = sorted(MEMBERS)
    k1 = ctx.choice('member 1', names)
    k2 = ctx.choice('member 2', names if ctx.tier != 'quick' else ['super', 'method'])
    l = lib(ctx)
    ns = where(ctx, ('no module', 'main') if ctx.tier == 'quick' else ('no module', 'live', 'main'))
    import functools
    exec(compile('class Desc(object):\n def __init__(self, v):\n  self.v = v\n def __get__(self, i, o):\n'
                 '  return (self.v, i is None)\n'
                 'class Named(object):\n def __set_name__(self, o, n):\n  self.name = n\n', '<sx>', 'exec'), l.__dict__)
    ns.update(functools=functools, LiveBase=l.LiveBase, Desc=l.Desc, Named=l.Named, const=ctx.any('const'))
    s1, f1 = MEMBERS[k1]
    s2, f2 = MEMBERS[k2]
    c, = define('class C(LiveBase):\n c = const\n' + s1 + s2.replace(' a', ' a2').replace('.a', '.a2'), ns, 'C')
    f2 = f2 if 0 else None
    r = ctx.expect_ok('copies', ctx.rt, c, recurse=ctx.flag('recurse'))
    same_class(ctx, r, c)
    ctx.check(own(r) == own(c), 'own attributes', detail=repr(sorted(own(r) ^ own(c))))
    a, e1 = ctx.attempt(f1, c, c())
    b, e2 = ctx.attempt(f1, r, r())
    ctx.check(type(e1) is type(e2), 'same outcome', detail='%r for %r' % (e2, e1))
    ctx.check(ctx.eq(a, b), 'same result')
    for k in vars(c):
        va, vb = vars(c)[k], vars(r)[k]
        ctx.check(type(va).__name__ == type(vb).__name__, 'kinds of attributes', detail='%s: %r for %r' % (k, vb, va))
        if isinstance(va, types.FunctionType):
            ctx.check(va.__name__ == vb.__name__ and va.__qualname__ == vb.__qualname__ and
                      va.__module__ == vb.__module__, 'names of methods')


ABS = ['', '@abc.abstractmethod', '@property|@abc.abstractmethod', '@classmethod|@abc.abstractmethod',
       '@staticmethod|@abc.abstractmethod']


def s_abstract(ctx):
    """an abstract class with two members, each concrete or abstract in one of 4 ways, and a child implementing any of
    them; three classes registered or not, two of them live and one in the pickle, a fourth one that is not; the
    subclass cache filled or not before; tracing on and off"""
    l = lib(ctx)
    ns = where(ctx, ('no module', 'main'))
    ns['abc'] = abc
    p = [ctx.choice('kind%d' % i, ABS) for i in range(2)]
    impl = [ctx.flag('implements %d' % i) for i in range(2)]
    body = ''
    for i in range(2):
        body += ''.join(' %s\n' % d for d in p[i].split('|') if d) + ' def m%d(self=None):\n  return %d\n' % (i, i)
    child = ''.join(' def m%d(self=None):\n  return "c%d"\n' % (i, i) for i in range(2) if impl[i]) or ' pass\n'
    a, c, v, w = define('class A(abc.ABC):\n%sclass C(A):\n%sclass V(object):\n pass\nclass W(object):\n pass\n' % (
        body, child), ns, 'A', 'C', 'V', 'W')
    regs = [ctx.flag('register %d' % i) for i in range(3)]
    others = [int, l.Other, v]
    for o, f in zip(others, regs):
        if f:
            a.register(o)
    if ctx.flag('cached'):
        issubclass(float, a), issubclass(w, a), issubclass(c, a), isinstance(5, a)
    rec = ctx.flag('recurse') if ctx.tier != 'quick' else regs[0]
    ra, rc, rv, rw = ctx.expect_ok('copies', ctx.rt, [a, c, v, w], recurse=rec)
    ctx.check(ra.__abstractmethods__ == a.__abstractmethods__ and rc.__abstractmethods__ == c.__abstractmethods__,
              'abstract methods')
    for x, y in ((a, ra), (c, rc)):
        i, e = ctx.attempt(x)
        j, e2 = ctx.attempt(y)
        ctx.check((e is None) == (e2 is None), 'can be instantiated alike')
    ctx.check(issubclass(rc, ra) and rc.__bases__ == (ra,), 'child')
    for o, x, f in zip(others, [int, l.Other, rv], regs):
        ctx.check(issubclass(x, ra) == f, 'registered classes', detail=repr(x))
    ctx.check(not issubclass(rw, ra) and not issubclass(float, ra), 'other classes are not registered')
    ctx.check(type(ra) is abc.ABCMeta, 'metaclass')
    # registering with the copy does not reach the original
    ra.register(complex)
    ctx.check(not issubclass(complex, a), 'registries are separate')


def s_instances(ctx):
    """instances of classes by value that inherit state from a base: each of base and child has a dictionary or slots
    (public, private, one of the base repeated); every slot and attribute set to any leaf or unset; protocols 2-5; an instance shared twice"""
    ns = {'__name__': 'zz_nomod'}
    b = ctx.choice('base', ['dict', 'slots', 'private', 'both'])
    c = ctx.choice('child', ['dict', 'slots', 'private'] + (['repeated'] if b in ('slots', 'both') else []))
    src = {'dict': ' pass\n', 'slots': ' __slots__ = ("%(p)s1", "%(p)s2")\n', 'private': ' __slots__ = ("__%(p)s", "%(p)s2")\n',
           'both': ' __slots__ = ("%(p)s1", "__dict__")\n',
           'repeated': ' __slots__ = ("b1", "%(p)s2")\n'}
    base, cls = define('class Base(object):\n%sclass Child(Base):\n%s' % (src[b] % {'p': 'b'}, src[c] % {'p': 'c'}), ns,
                       'Base', 'Child')
    x = cls()
    names = []
    if 'dict' in (b, c) or b == 'both':
        names += ['d1', 'd2']
    for kind, p, k in ((b, 'b', 'Base'), (c, 'c', 'Child')):
        names += {'slots': [p + '1', p + '2'], 'private': ['_%s__%s' % (k, p), p + '2'], 'both': [p + '1'], 'repeated': [p + '2']}.get(kind, [])
    state = {}
    for n in names:
        if ctx.flag('set ' + n):
            state[n] = ctx.any('v_' + n)
            setattr(x, n, state[n])
    r = ctx.expect_ok('copies', ctx.rt, [x, x, base], protocol=ctx.choice('proto', [2, 4] if ctx.tier == 'quick' else [2, 3, 4, 5]))
    y, z, rbase = r
    ctx.check(y is z and type(y).__bases__ == (rbase,), 'one copy')
    for n in names:
        setattr(type(y)(), n, 1)
        ctx.check(hasattr(y, n) == (n in state), 'set and unset')
        if n in state:
            ctx.check(ctx.eq(getattr(y, n), state[n]), 'state')


def s_dataclass(ctx):
    """data classes with slots or not, frozen or not, ordered or not, with a default, a default factory and an
    annotated field; with symbolic field values"""
    ns = {'__name__': 'zz_nomod', 'dataclasses': dataclasses, 'const': ctx.any('const')}
    slots, frozen, order = ctx.flag('slots'), ctx.flag('frozen'), ctx.flag('order')
    c, = define('@dataclasses.dataclass(slots=%r, frozen=%r, order=%r)\nclass C(object):\n a: int\n b: object = const\n'
                ' l: list = dataclasses.field(default_factory=list, repr=False)\n' % (slots, frozen, order), ns, 'C')
    x = c(ctx.any('a'))
    r, y = ctx.expect_ok('copies', ctx.rt, [c, x], recurse=ctx.flag('recurse'))
    same_class(ctx, r, c)
    ctx.check([f.name for f in dataclasses.fields(r)] == ['a', 'b', 'l'], 'fields')
    ctx.check(ctx.land(ctx.eq(y.a, x.a), ctx.eq(y.b, x.b)) , 'state')
    z = r(1)
    ctx.check(ctx.land(ctx.eq(z.b, c(1).b), z.l == [], z.l is not r(1).l), 'defaults')
    ctx.check(hasattr(z, '__dict__') == hasattr(c(1), '__dict__'), 'layout')
    _, e = ctx.attempt(setattr, z, 'a', 3)
    ctx.check((e is not None) == frozen, 'frozen')
    ctx.check(('__lt__' in vars(r)) == order, 'ordered')


def s_enum(ctx):
    """enumerations (Enum, IntEnum, Flag) that are found by name, or local, or of the main program, with an alias and a
    method, as class, member or both"""
    import sys
    kind = ctx.choice('kind', ['Enum', 'IntEnum', 'Flag'])
    w = ctx.choice('where', ['found', 'local', 'main'])
    ns = {'__name__': 'zzlive' if w == 'found' else '__main__' if w == 'main' else 'zz_nomod', 'enum': enum}
    exec(compile('class E(enum.%s):\n A = 1\n B = 2\n ALIAS = 1\n def m(self):\n  return self.name\n' % kind, '<sx>',
                 'exec'), ns)
    c = ns['E']
    if w == 'found':
        ctx.module('zzlive').E = c
    elif w == 'main':
        ctx.main.E = c
    o = ctx.choice('object', [[c], [c.A, c.B], [c.B, c]])
    r = ctx.expect_ok('copies', ctx.rt, o)
    for x, y in zip(o, r):
        if w == 'found':
            ctx.check(x is y, 'the identical object')
        else:
            e = y if isinstance(y, type) else type(y)
            ctx.check([m.name for m in e] == ['A', 'B'] and e.ALIAS is e.A and e(2) is e.B and e['B'].value == 2 and
                      e.B.m() == 'B', 'members')
            ctx.check(isinstance(x, type) or (y.name == x.name and y.value == x.value), 'member')


def s_namedtuple(ctx):
    """named tuples of 0-3 fields with 0-3 defaults (leaves), made by collections.namedtuple (plain, renamed fields,
    own docstring), subclassed with a method and slots or without, or by typing.NamedTuple with a method; local, of the
    main program or of a live module that does not have them; class, instances with symbolic fields, or both"""
    ns = where(ctx)
    import typing
    style = ctx.choice('style', ['plain', 'renamed', 'doc', 'subclass', 'subclass with slots', 'typing', 'child of typing'])
    n = ctx.choice('fields', (2, 0, 1, 3))
    dn = ctx.choice('defaults', range(n + 1))
    ns.update(collections=collections, typing=typing, const=[ctx.any('d%d' % i) for i in range(dn)], modname=ns['__name__'])
    fields = 'a b c'.split()[:n]
    if style.endswith('typing'):
        src = 'class C(typing.NamedTuple):\n "docs"\n'
        for i, f in enumerate(fields):
            src += ' %s: int%s\n' % (f, ' = const[%d]' % (i - n + dn) if i >= n - dn else '')
        src += ' def m(self):\n  return (self[:1], "m")\n'
        if style == 'child of typing':
            src += 'class B(C):\n def k(self):\n  return self\n'
    else:
        names = fields
        if style == 'renamed':
            names = ['def'] * min(n, 1) + fields[1:]
        src = 'C = collections.namedtuple("C", %r, defaults=const, rename=%r, module=modname)\n' % (names, style == 'renamed')
        if style == 'doc':
            src += 'C.__doc__ = "own docs"\n'
        if style.startswith('subclass'):
            src += 'class B(C):\n%s x = 3\n def m(self):\n  return (self[:1], self.x)\n' % (
                ' __slots__ = ()\n' if style.endswith('slots') else '')
    last = 'B' if 'class B' in src else 'C'
    c, = define(src, ns, last)
    vals = [ctx.any('v%d' % i) for i in range(n)]
    x = c(*vals)
    if hasattr(x, '__dict__'):
        x.extra = ctx.any('extra')
    with_class = ctx.flag('class too')
    got = ctx.expect_ok('copies', ctx.rt, [x, c] if with_class else [x], recurse=ctx.flag('recurse'),
                        protocol=ctx.choice('proto', [4, 2]))
    y, r = got[0], type(got[0])
    ctx.check(not with_class or got[1] is r, 'one class')
    same_class(ctx, r, c)
    ctx.check(r._fields == c._fields, 'fields')
    ctx.check(list(r._field_defaults) == list(c._field_defaults) and
              all([ctx.eq(r._field_defaults[k], c._field_defaults[k]) for k in c._field_defaults]), 'defaults')
    ctx.check(len(y) == n and ctx.land(*[ctx.eq(tuple.__getitem__(y, i), vals[i]) for i in range(n)]), 'fields of the instance')
    for i, k in enumerate(c._fields):
        ctx.check(ctx.eq(getattr(y, k), vals[i]), 'fields of the instance by name')
    ctx.check(hasattr(y, '__dict__') == hasattr(x, '__dict__') and (not hasattr(x, '__dict__') or ctx.eq(y.extra, x.extra)),
              'state of the instance')
    if hasattr(c, 'm'):
        a, b = x.m(), y.m()
        ctx.check(ctx.eq(a[0], b[0]) and a[1] == b[1], 'methods')
    made, e = ctx.attempt(r, *vals[:n - dn])
    ctx.check(e is None and ctx.eq(tuple(made), tuple(c(*vals[:n - dn]))), 'making new ones')
    ctx.check(own(r) == own(c), 'own attributes', detail=repr(sorted(own(r) ^ own(c))))


GENERIC = {
    'generic': 'class C(typing.Generic[AnyStr]%s):\n',
    'parametrised': 'class B(typing.Generic[AnyStr]):\n b = 1\nclass C(B[bytes]%s):\n',
    'generic child': 'class B(typing.Generic[AnyStr]):\n b = 1\nclass C(B[AnyStr], typing.Generic[AnyStr]%s):\n',
    'child': 'class B(typing.Generic[AnyStr]):\n b = 1\nclass C(B%s):\n',
    'grandchild': 'class A(typing.Generic[AnyStr]):\n a = 1\nclass B(A[bytes]):\n b = 1\nclass C(B%s):\n',
    'two parents': 'class A(typing.Generic[AnyStr]):\n a = 1\nclass B(object):\n b = 1\nclass C(B, A%s):\n',
    'list[int]': 'class C(list[int]%s):\n',
    'dict': 'class C(typing.Dict[str, int]%s):\n',
    'mixed': 'class B(object):\n b = 1\nclass C(B, typing.Generic[AnyStr]%s):\n',
    'protocol': 'class C(typing.Protocol%s):\n',
    'implements': 'class B(typing.Protocol):\n def m(self):\n  ...\nclass C(B%s):\n',
}


def s_generic(ctx):
    """classes with generic bases (11 kinds), of a metaclass or not, slots or none, a docstring or none, a constant and a
    method; with an instance; in a missing or live module or the main program; and typed dictionaries"""
    import typing
    ns = where(ctx)
    kind = ctx.choice('kind', sorted(GENERIC) + ['typed dictionary'])
    ns.update(typing=typing, AnyStr=typing.AnyStr, const=ctx.any('const'))
    rec = ctx.flag('recurse')
    if kind == 'typed dictionary':
        total = ctx.flag('total')
        c, = define('class C(typing.TypedDict, total=%r):\n a: int\n b: typing.%s[str]\n' % (
            total, 'NotRequired' if total else 'Required'), ns, 'C')
        r = ctx.expect_ok('copies', ctx.rt, c, recurse=rec)
        same_class(ctx, r, c)
        ctx.check(r.__required_keys__ == c.__required_keys__ and r.__optional_keys__ == c.__optional_keys__ and
                  r.__total__ == c.__total__ and r.__annotations__ == c.__annotations__, 'typed dictionary')
        return
    meta = ctx.flag('metaclass') and kind not in ('protocol', 'implements')
    slots = ctx.flag('slots')
    src = 'class M(type):\n def hello(cls):\n  return cls.__name__\n' if meta else ''
    src += GENERIC[kind] % (', metaclass=M' if meta else '')
    if ctx.flag('doc'):
        src += ' "docs"\n'
    if slots:
        src += ' __slots__ = ("s",)\n'
    src += ' c = const\n def m(self):\n  return self.c\n'
    c, = define(src, ns, 'C')
    v = ctx.any('v')
    if kind != 'protocol':
        x = c()
        x.s = v
    names = own(c)
    if kind != 'protocol':
        got = ctx.expect_ok('copies', ctx.rt, [c, x], recurse=rec, protocol=ctx.choice('proto', [4, 2]))
        r, y = got
        ctx.check(type(y) is r, 'one class')
        ctx.check(ctx.land(ctx.eq(y.s, v), ctx.eq(y.m(), x.m())), 'state of the instance')
        ctx.check(hasattr(y, '__dict__') == hasattr(x, '__dict__'), 'layout')
    else:
        r = ctx.expect_ok('copies', ctx.rt, c, recurse=rec)
        _, e = ctx.attempt(r)
        ctx.check(isinstance(e, TypeError), 'a protocol')
    same_class(ctx, r, c)
    ctx.check(own(r) == names, 'own attributes', detail=repr(sorted(set(vars(r)) ^ names)))
    ctx.check(ctx.eq(r.c, c.c), 'constant')
    a, b = getattr(c, '__orig_bases__', ()), getattr(r, '__orig_bases__', ())
    ctx.check(len(a) == len(b) and repr(a) == repr(b), 'generic bases')
    ctx.check(getattr(r, '__parameters__', ()) == getattr(c, '__parameters__', ()), 'type parameters')
    if meta:
        ctx.check(r.hello() == 'C', 'behaviour of the metaclass')


HOOKS = {
    '__new__': ('def __new__(m, n, b, d):\n  return type.__new__(m, n, b, d)', 'def __new__(m, n, b, d):\n  return super().__new__(m, n, b, d)'),
    '__init__': ('def __init__(c, n, b, d):\n  type.__init__(c, n, b, d)', 'def __init__(c, n, b, d):\n  super().__init__(n, b, d)'),
    '__call__': ('def __call__(c, *a):\n  return type.__call__(c, *a)', 'def __call__(c, *a):\n  return super().__call__(*a)'),
    'hello': ('def hello(c):\n  return (c.__name__, G, D.__name__)', 'def hello(c):\n  return (c.__name__, G, super().__repr__()[:6])'),
}


def s_metaclass(ctx):
    """a metaclass M copied by value, a class D it makes and an instance in one namespace: each of its __new__, __init__
    and __call__ missing, without or with super(), another method using the namespace or super(); dumping M, D, the
    instance, a function that uses them, or two of them in either order; tracing on and off"""
    kinds = {k: ctx.choice(k, ['none', 'plain', 'super']) for k in sorted(HOOKS)}
    ns = {'__name__': 'zz_nomod', '__builtins__': __builtins__}
    src = 'class M(type):\n x = 1\n' + ''.join(' %s\n' % HOOKS[k][v == 'super'] for k, v in kinds.items() if v != 'none')
    src += 'class D(metaclass=M):\n def m(self):\n  return (D.__name__, G, super().__repr__()[:9])\nd = D()\ndef f():\n return D().m()\n'
    exec(compile(src, '<sx>', 'exec'), ns)
    ns['G'] = ctx.leaf('G')
    what = ctx.choice('what', ['M', 'D', 'd', 'f'])
    other = ctx.choice('other', ['-', 'M', 'D', 'd', 'f'])
    rec = ctx.flag('recurse')
    if rec and kinds['hello'] == 'plain' and what == 'M':
        ctx.skip('the metaclass leads back to itself but through closures')
    names = [what] + [other] * (other != '-')
    got = ctx.expect_ok('copies', ctx.rt, [ns[n] for n in names], recurse=rec)
    for n, r in zip(names, got):
        o = ns[n]
        m = {'M': lambda: r, 'D': lambda: type(r), 'd': lambda: type(type(r)), 'f': lambda: type(r.__globals__['D'])}[n]()
        ctx.check(m.__name__ == 'M' and m is not ns['M'] and m.x == 1 and set(k for k in vars(m)) == set(vars(ns['M'])), 'the metaclass')
        if n == 'M':
            D = m('D', (), {})
        else:
            D = {'D': lambda: r, 'd': lambda: type(r), 'f': lambda: r.__globals__['D']}[n]()
            same_class(ctx, D, ns['D'])
        if kinds['hello'] != 'none':
            ctx.check(ctx.eq(D.hello(), ns['D'].hello()), 'behaviour of the metaclass')
        if n != 'M':
            want = ns['d'].m()
            ctx.check(ctx.eq({'D': lambda: r().m(), 'd': lambda: r.m(), 'f': lambda: r()}[n](), want), 'behaviour')


SCENARIOS = [
    Scenario('shape', s_shape, labels=('own attributes', 'slots', 'layout', 'state of the instance', 'bases', 'metaclass',
                                       'inherited behaviour', 'annotations', 'constant')),
    Scenario('resolve', s_resolve, labels=('resolves on the class', 'resolves on the instance')),
    Scenario('members', s_members, labels=('same result', 'own attributes', 'kinds of attributes')),
    Scenario('abstract', s_abstract, labels=('abstract methods', 'registered classes', 'can be instantiated alike')),
    Scenario('instances', s_instances, labels=('state', 'set and unset')),
    Scenario('dataclass', s_dataclass, labels=('state', 'defaults', 'frozen')),
    Scenario('namedtuple', s_namedtuple, labels=('fields', 'defaults', 'fields of the instance', 'methods')),
    Scenario('generic', s_generic, labels=('generic bases', 'state of the instance', 'typed dictionary', 'a protocol')),
    Scenario('metaclass', s_metaclass, labels=('the metaclass', 'behaviour of the metaclass', 'behaviour')),
    Scenario('special', s_special, labels=('special methods act alike',)),
    Scenario('enum', s_enum, labels=('the identical object',)),
]
