"""C24: wrappers of the built-in types"""
import collections
import contextvars
import dataclasses
import functools
import operator
import types
import typing

from sx.api import Scenario, exec_def

ASSUMPTIONS = [
    'opaque leaves travel through the pickle by persistent id: pickling of the leaves themselves is not modelled',
    'range bounds, cache sizes and method names are drawn by the solver from the finite sets named in the bounds',
]

PROTOS = range(6)


def proto(ctx):
    return ctx.choice('proto', PROTOS)


def s_slice(ctx):
    """start, stop, step arbitrary leaves; protocols 0-5"""
    a, b, c = ctx.any('start'), ctx.any('stop'), ctx.any('step')
    r = ctx.expect_ok('pickles', ctx.rt, slice(a, b, c), protocol=proto(ctx))
    ctx.check(type(r) is slice, 'type')
    ctx.check(ctx.land(ctx.eq(r.start, a), ctx.eq(r.stop, b), ctx.eq(r.step, c)), 'fields')


BIG = [0, 1, -1, 2, 7, 10, -10, 255, 2 ** 31, -2 ** 63, 10 ** 20, -10 ** 5000]


def s_range(ctx):
    """range(a, b, c) with a, b, c from 12 boundary integers (c nonzero), protocols 0, 2 and 4 (the one of 5000 digits: 2 and 4,
    the interpreter limits integers written as text)"""
    a, b = ctx.choice('a', BIG), ctx.choice('b', BIG)
    c = ctx.choice('c', [1, -1, 2, -3, 10 ** 20])
    s = range(a, b, c)
    r = ctx.expect_ok('pickles', ctx.rt, s, protocol=ctx.choice('proto', (2, 4) if BIG[-1] in (a, b) else (0, 2, 4)))
    ctx.check(type(r) is range and (r.start, r.stop, r.step) == (a, b, c), 'parts')


def mkfunc(ctx, name='fw', doc=None):
    f = exec_def('def %s(*a, **k):\n    return (a, k)\n' % name, __name__='zz_nomod')[name]
    f.__defaults__ = None
    f.tag = ctx.any('tag_' + name)
    f.__doc__ = doc
    return f


def feq(ctx, g, f):
    return ctx.land(type(g) is types.FunctionType, g.__code__.co_code == f.__code__.co_code,
                    g.__name__ == f.__name__, ctx.eq(g.tag, f.tag))


class Box(object):
    def __init__(self, v):
        self.v = v

    def meth(self):
        return self.v

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o


class Sub(Box):
    pass


class FalsySub(Sub):
    def __bool__(self):
        return False


# every maker returns (wrapper, parts, getter of the parts from a copy)
def w_method(f, b):
    m = types.MethodType(f, b)
    return m, lambda r: (r.__func__, r.__self__), (f, b)


def w_partial(f, b):
    return functools.partial(f, b, key=b), lambda r: (r.func, r.args[0]), (f, b)


def w_partialmethod(f, b):
    return functools.partialmethod(f, b), lambda r: (r.func, r.args[0]), (f, b)


def w_lru(f, b):
    return functools.lru_cache(maxsize=3)(f), lambda r: (r.__wrapped__, None), (f, None)


def w_property(f, b):
    return property(f, None, f), lambda r: (r.fget, None), (f, None)


def w_static(f, b):
    return staticmethod(f), lambda r: (r.__func__, None), (f, None)


def w_class(f, b):
    return classmethod(f), lambda r: (r.__func__, None), (f, None)


def w_super(f, b):
    return super(Sub, b), lambda r: (None, r.__self__), (None, b)


def w_slice(f, b):
    return slice(f, b), lambda r: (r.start, r.stop), (f, b)


def w_proxy(f, b):
    return types.MappingProxyType({'f': f, 'b': b}), lambda r: (r['f'], r['b']), (f, b)


def w_values(f, b):
    return {1: f, 2: b}.values(), lambda r: tuple(r), (f, b)


def w_items(f, b):
    return {'a': f, 'b': b}.items(), lambda r: tuple(v for k, v in r), (f, b)


def w_keys(f, b):
    return {f: 1, b: 2}.keys(), lambda r: tuple(r), (f, b)


def w_ovalues(f, b):
    return collections.OrderedDict(a=f, b=b).values(), lambda r: tuple(r), (f, b)


def w_oitems(f, b):
    return collections.OrderedDict(a=f, b=b).items(), lambda r: tuple(v for k, v in r), (f, b)


def w_okeys(f, b):
    return collections.OrderedDict([(f, 1), (b, 2)]).keys(), lambda r: tuple(r), (f, b)


def w_boundinst(f, b):
    return b.meth, lambda r: (None, r.__self__), (None, b)


WRAPPERS = [w_method, w_partial, w_partialmethod, w_lru, w_property, w_static, w_class, w_super, w_slice, w_proxy,
            w_values, w_items, w_keys, w_ovalues, w_oitems, w_okeys, w_boundinst]


def s_share(ctx):
    """every ordered pair of 17 wrapper kinds around one shared function and one shared instance (both with a symbolic
    attribute), protocols 0, 2, 4 (all in the thorough tier), recurse on/off"""
    f = mkfunc(ctx)
    b = Sub(ctx.any('state'))
    mk1, mk2 = ctx.choice('w1', WRAPPERS), ctx.choice('w2', WRAPPERS)
    p = ctx.choice('proto', (0, 2, 4) if ctx.tier == 'thorough' else (4,))
    rec = ctx.flag('recurse') if ctx.tier == 'thorough' else False
    (w1, g1, p1), (w2, g2, p2) = mk1(f, b), mk2(f, b)
    r = ctx.expect_ok('pickles', ctx.rt, [w1, w2, w1], protocol=p, recurse=rec)
    ctx.check(type(r) is list and len(r) == 3 and type(r[0]) is type(w1) and type(r[1]) is type(w2), 'type')
    ctx.check(r[2] is r[0] and (r[1] is not r[0]), 'wrapper shared')
    q1, q2 = g1(r[0]), g2(r[1])
    for q, o in ((q1, p1), (q2, p2)):
        if o[0] is not None:
            ctx.check(q[0] is not f and feq(ctx, q[0], f), 'function part')
        if o[1] is not None:
            ctx.check(type(q[1]) is Sub and q[1] is not b, 'instance part')
            ctx.check(ctx.eq(q[1].v, b.v), 'instance state')
    if p1[0] is not None and p2[0] is not None:
        ctx.check(q1[0] is q2[0], 'function shared')
    if p1[1] is not None and p2[1] is not None:
        ctx.check(q1[1] is q2[1], 'instance shared')


def s_method(ctx):
    """bound method over a function copied by value or a method of an instance; symbolic state, defaults"""
    b = Box(ctx.any('state'))
    kind = ctx.choice('kind', ['byvalue', 'inst', 'class', 'builtin', 'nested'])
    if kind == 'byvalue':
        f = mkfunc(ctx)
        m = types.MethodType(f, b)
    elif kind == 'inst':
        m = b.meth
    elif kind == 'class':
        d = exec_def('class K(object):\n    @classmethod\n    def cm(cls, x=1):\n        return (cls, x)\n',
                     __name__='zz_nomod')
        m = d['K'].cm
    elif kind == 'builtin':
        m = types.MethodType(operator.add, 3)
    else:
        m = types.MethodType(types.MethodType(mkfunc(ctx), b), 5)
    r = ctx.expect_ok('pickles', ctx.rt, m, protocol=proto(ctx))
    ctx.check(type(r) is types.MethodType, 'type')
    if kind == 'byvalue':
        ctx.check(ctx.land(feq(ctx, r.__func__, f), ctx.eq(r.__self__.v, b.v)), 'parts')
        ctx.check(ctx.eq(r(1, z=2)[0][1:], (1,)), 'call')
    elif kind == 'inst':
        ctx.check(r.__func__ is Box.meth and ctx.eq(r(), b.v), 'parts')
    elif kind == 'class':
        ctx.check(r(5) == (r.__self__, 5) and r.__self__.__name__ == 'K' and r.__self__ is not d['K'], 'parts')
    elif kind == 'builtin':
        ctx.check(r.__func__ is operator.add and r(4) == 7, 'parts')
    else:
        ctx.check(ctx.land(type(r.__func__) is types.MethodType, ctx.eq(r.__func__.__self__.v, b.v),
                           r.__self__ == 5), 'parts')


def s_partial(ctx):
    """partial with 0-3 symbolic positional and 0-2 keyword arguments, an extra attribute, nested once or not"""
    n, k = ctx.pick('args', 4), ctx.pick('kwargs', 3)
    args = tuple(ctx.any('a%d' % i) for i in range(n))
    kw = {('k%d' % i): ctx.any('k%d' % i) for i in range(k)}
    f = mkfunc(ctx)
    p = functools.partial(f, *args, **kw)
    extra = ctx.flag('attr')
    if extra:
        p.note = ctx.any('note')
    r = ctx.expect_ok('pickles', ctx.rt, p, protocol=proto(ctx))
    ctx.check(type(r) is functools.partial, 'type')
    ctx.check(ctx.land(feq(ctx, r.func, f), ctx.eq(r.args, args), ctx.eq(r.keywords, kw)), 'parts')
    if extra:
        ctx.check(ctx.eq(r.note, p.note), 'attribute')
    else:
        ctx.check(not hasattr(r, 'note'), 'no attribute')
    ctx.check(ctx.eq(r(9), (args + (9,), kw)), 'call')


def s_lru(ctx):
    """cached function: maxsize in {None, -1, 0, 1, 2, 127, 128, 129, 10**9}, typed in {False, True, 0, 1, symbolic};
    default spelled out or not; the function by value or by reference"""
    ms = ctx.choice('maxsize', [None, -1, 0, 1, 2, 127, 128, 129, 10 ** 9])
    typed = ctx.choice('typed', [False, True])
    byref = ctx.flag('byref')
    f = operator.index if byref else mkfunc(ctx)
    c = functools.lru_cache(maxsize=ms, typed=typed)(f)
    if ctx.flag('used'):
        c(3)
    r = ctx.expect_ok('pickles', ctx.rt, c, protocol=proto(ctx))
    ctx.check(type(r) is type(c), 'type')
    ctx.check(r.cache_parameters() == c.cache_parameters(), 'parameters')
    ctx.check(r.__wrapped__ is f if byref else feq(ctx, r.__wrapped__, f), 'function')
    a, b = r(3), r(3)
    ctx.check(a == c(3), 'call')
    if ms != 0 and ms != -1:
        ctx.check(b is a, 'caches')
    if typed and (ms is None or ms > 1):
        r(True), r(1)
        ctx.check(r.cache_info().misses == 3, 'typed keys')


def s_property(ctx):
    """property and abstractproperty; getter, setter, deleter arbitrary leaves (None included) and a symbolic
    docstring; or real functions with docstrings"""
    import abc
    cls = ctx.choice('cls', [property, abc.abstractproperty])
    if ctx.flag('functions'):
        g = mkfunc(ctx, 'g', ctx.choice('gdoc', [None, '', 'text']))
        s = ctx.choice('set', [None, mkfunc(ctx, 's', 'setdoc')])
        x = ctx.choice('del', [None, mkfunc(ctx, 'x', 'deldoc')])
        own = ctx.choice('doc', ['inherit', 'own'])
        p = cls(g, s, x) if own == 'inherit' else cls(g, s, x, 'own doc')
        r = ctx.expect_ok('pickles', ctx.rt, p, protocol=proto(ctx))
        ctx.check(type(r) is cls, 'type')
        ctx.check(feq(ctx, r.fget, g), 'getter')
        ctx.check((r.fset is None) == (s is None) and (s is None or feq(ctx, r.fset, s)), 'setter')
        ctx.check((r.fdel is None) == (x is None) and (x is None or feq(ctx, r.fdel, x)), 'deleter')
        ctx.check(r.__doc__ == p.__doc__, 'doc')
        return
    g, s, x = ctx.any('fget'), ctx.any('fset'), ctx.any('fdel')
    d = ctx.any('doc', none=False)
    p = cls(g, s, x, d)
    r = ctx.expect_ok('pickles', ctx.rt, p, protocol=proto(ctx))
    ctx.check(type(r) is cls, 'type')
    ctx.check(ctx.land(ctx.eq(r.fget, p.fget), ctx.eq(r.fset, p.fset), ctx.eq(r.fdel, p.fdel)), 'parts')
    ctx.check(ctx.eq(r.__doc__, d), 'doc value')


def s_decorators(ctx):
    """staticmethod, classmethod and their abstract forms around a function, a callable leaf or each other"""
    import abc
    cls = ctx.choice('cls', [staticmethod, classmethod, abc.abstractstaticmethod, abc.abstractclassmethod])
    inner = ctx.choice('inner', ['function', 'partial', 'property'])
    f = mkfunc(ctx)
    o = f if inner == 'function' else functools.partial(f, ctx.any('x')) if inner == 'partial' else property(f)
    if inner != 'function' and cls not in (staticmethod, classmethod):
        ctx.skip('abstract forms set an attribute on the function')
    w = cls(o)
    r = ctx.expect_ok('pickles', ctx.rt, w, protocol=proto(ctx))
    ctx.check(type(r) is cls, 'type')
    q = r.__func__
    if inner == 'function':
        ctx.check(feq(ctx, q, f), 'parts')
    elif inner == 'partial':
        ctx.check(ctx.land(feq(ctx, q.func, f), ctx.eq(q.args, o.args)), 'parts')
    else:
        ctx.check(type(q) is property and feq(ctx, q.fget, f), 'parts')
    ctx.check(getattr(r, '__isabstractmethod__', False) == getattr(w, '__isabstractmethod__', False), 'abstract')


def s_super(ctx):
    """super objects: of an instance (true or false), of a class, unbound; class by value or by reference"""
    if ctx.flag('byvalue'):
        d = exec_def('class A(object):\n    def who(self):\n        return "A"\n'
                     'class B(A):\n    def who(self):\n        return "B"\n', __name__='zz_nomod')
        A, B = d['A'], d['B']
    else:
        A, B = Box, Sub
    if ctx.flag('falsy'):
        if B is Sub:
            B = FalsySub
        else:
            B.__bool__ = lambda self: False
    kind = ctx.choice('kind', ['instance', 'class', 'unbound'])
    if kind == 'instance':
        o = B(ctx.any('v')) if issubclass(B, Box) else B()
        if not issubclass(B, Box):
            o.v = ctx.any('v')
        s = super(B, o)
    elif kind == 'class':
        s = super(B, B)
    else:
        s = super(B)
    r = ctx.expect_ok('pickles', ctx.rt, s, protocol=proto(ctx))
    ctx.check(type(r) is super, 'type')
    ctx.check(r.__thisclass__.__qualname__ == B.__qualname__, 'class')
    if issubclass(B, Box):
        ctx.check(r.__thisclass__ is B, 'class identity')
    if kind == 'instance':
        ctx.check(ctx.land(type(r.__self__) is r.__thisclass__, ctx.eq(r.__self__.v, o.v)), 'self')
        if not issubclass(B, Box):
            ctx.check(r.who() == 'A', 'resolves')
    elif kind == 'class':
        ctx.check(r.__self__ is r.__thisclass__, 'self')
    else:
        ctx.check(r.__self__ is None and r.__self_class__ is None, 'self')


def s_views(ctx):
    """keys/values/items views and read-only proxies of a dict or OrderedDict with 0-3 entries of symbolic values;
    alone or together with the dictionary itself, in either order"""
    n = ctx.pick('n', 4)
    typ = ctx.choice('type', [dict, collections.OrderedDict])
    d = typ((('k%d' % i), ctx.any('v%d' % i)) for i in range(n))
    how = ctx.choice('view', ['keys', 'values', 'items', 'proxy'])
    v = types.MappingProxyType(d) if how == 'proxy' else getattr(d, how)()
    shape = ctx.choice('with', ['alone', 'view first', 'dict first'])
    p = proto(ctx)
    obj = v if shape == 'alone' else (v, d) if shape == 'view first' else (d, v)
    r = ctx.expect_ok('pickles', ctx.rt, obj, protocol=p)
    rv = r if shape == 'alone' else r[0] if shape == 'view first' else r[1]
    ctx.check(type(rv) is type(v), 'type')
    if how == 'keys':
        ctx.check(list(rv) == list(d), 'content')
    elif how == 'values':
        ctx.check(ctx.eq(list(rv), list(d.values())), 'content')
    elif how == 'items':
        ctx.check(ctx.eq(list(rv), list(d.items())), 'content')
    else:
        ctx.check(ctx.eq(list(rv.items()), list(d.items())), 'content')
        ctx.check(isinstance(rv | {}, typ), 'mapping type')
    if shape != 'alone':
        rd = r[1] if shape == 'view first' else r[0]
        ctx.check(type(rd) is typ, 'mapping type')
        rd['later'] = 5
        ctx.check(len(rv) == n + 1, 'view of the shared mapping')


def s_getters(ctx):
    """itemgetter / attrgetter / methodcaller with 1-3 items, symbolic items for itemgetter"""
    n = 1 + ctx.pick('n', 3)
    kind = ctx.choice('kind', ['item', 'attr', 'method'])
    p = proto(ctx)
    if kind == 'item':
        items = [ctx.any('i%d' % i) for i in range(n)]
        g = operator.itemgetter(*items)

        class Get(object):
            def __getitem__(self, k):
                return ('got', k)
        o = Get()
        r = ctx.expect_ok('pickles', ctx.rt, g, protocol=p)
        ctx.check(type(r) is operator.itemgetter, 'type')
        ctx.check(ctx.eq(r(o), g(o)), 'applies')
        return
    names = ['v', 'v.v', 'v.v.v'][:n]
    o = Box(Box(Box(ctx.any('leaf'))))
    if kind == 'attr':
        g = operator.attrgetter(*names)
    else:
        g = operator.methodcaller('meth', *[])
    r = ctx.expect_ok('pickles', ctx.rt, g, protocol=p)
    ctx.check(type(r) is type(g), 'type')
    a, b = r(o), g(o)
    if type(a) is not tuple:
        a, b = (a,), (b,)
    ctx.check(len(a) == len(b) and ctx.land(*[ctx.same(x, y) for x, y in zip(a, b)]), 'applies')


def s_singletons(ctx):
    """each singleton, its type, and the dataclass markers, alone and inside a list twice; protocols 0-5"""
    o = ctx.choice('obj', [None, Ellipsis, NotImplemented, True, False, type(None), type(Ellipsis),
                           type(NotImplemented), type, object, int, dict, slice, range, property,
                           dataclasses.MISSING, dataclasses.KW_ONLY, dataclasses._HAS_DEFAULT_FACTORY,
                           dataclasses._FIELD, dataclasses._FIELD_CLASSVAR, dataclasses._FIELD_INITVAR,
                           type(dataclasses.MISSING), types.MappingProxyType, type({}.keys()),
                           type(collections.OrderedDict().items()), functools.partial,
                           type(functools.lru_cache(int))])
    p = proto(ctx)
    r = ctx.expect_ok('pickles', ctx.rt, o, protocol=p)
    ctx.check(r is o, 'identical')
    r = ctx.expect_ok('pickles twice', ctx.rt, [o, {'k': o}], protocol=p)
    ctx.check(r[0] is o and r[1]['k'] is o, 'identical in a list')


def s_context(ctx):
    """two empty contexts, one of them shared (context variables themselves are refused by the pickle protocol)"""
    c, d = contextvars.Context(), contextvars.Context()
    r = ctx.expect_ok('pickles', ctx.rt, [c, c, d], protocol=proto(ctx))
    ctx.check(all(type(x) is contextvars.Context and len(x) == 0 for x in r), 'empty context')
    ctx.check(r[0] is r[1] and r[0] is not r[2], 'shared')


ARGS = ['int', 'C', 'None', 'AnyStr', 'inner', 'builtin alias', 'union', 'forward', 'live']
ALIASES = {
    'List': lambda t, a, b: t.List[a], 'Dict': lambda t, a, b: t.Dict[b, a], 'Tuple': lambda t, a, b: t.Tuple[a, b],
    'Tuple ...': lambda t, a, b: t.Tuple[a, ...], 'Tuple ()': lambda t, a, b: t.List[t.Tuple[()]],
    'Callable': lambda t, a, b: t.Callable[[a], b], 'Callable []': lambda t, a, b: t.Callable[[], a],
    'Callable ...': lambda t, a, b: t.Callable[..., a], 'Optional': lambda t, a, b: t.Optional[a],
    'Union': lambda t, a, b: t.Union[a, b, str], 'ClassVar': lambda t, a, b: t.ClassVar[a],
    'Type': lambda t, a, b: t.Type[a], 'OrderedDict': lambda t, a, b: t.OrderedDict[str, a],
    'Annotated': lambda t, a, b: t.Annotated[a, 'note', b], 'Generic': lambda t, a, b: GenericBox[a],
    'list': lambda t, a, b: list[a], 'dict': lambda t, a, b: dict[b, a], 'tuple': lambda t, a, b: tuple[a, ...]}
BARE = ['List', 'Dict', 'Tuple', 'Callable', 'Type', 'Any', 'Union', 'Optional', 'Generic', 'Protocol', 'AnyStr', 'NoReturn',
        'Deque', 'Tuple[()]', 'tuple[()]', 'Literal', 'Counter', 'Pattern']


class GenericBox(typing.Generic[typing.AnyStr]):
    pass


def s_alias(ctx):
    """18 kinds of generic aliases over any two of 9 arguments (types, a class copied by value, None, type variable,
    other aliases, unions, forward references), and 18 bare forms, alone or twice next to the class; protocols 0-5"""
    t = typing
    p = proto(ctx)
    rec = ctx.flag('recurse')
    if ctx.flag('bare'):
        name = ctx.choice('name', BARE)
        o = t.Tuple[()] if name == 'Tuple[()]' else tuple[()] if name == 'tuple[()]' else t.Literal[1, 'a', None] \
            if name == 'Literal' else getattr(t, name)
        r, r2 = ctx.expect_ok('pickles', ctx.rt, [o, o], protocol=p, recurse=rec)
        ctx.check(type(r) is type(o) and r == o and r is r2 and repr(r) == repr(o), 'bare form')
        if '[' not in name and name != 'Literal':
            ctx.check(r is o, 'the identical bare form')
        return
    c = exec_def('class C(object):\n    pass\n', __name__='zz_nomod')['C']
    args = {'int': int, 'C': c, 'None': None, 'AnyStr': t.AnyStr, 'inner': t.List[t.Tuple[c, int]],
            'builtin alias': list[c], 'union': int | str, 'forward': t.ForwardRef('Later'), 'live': collections.Counter}
    kind = ctx.choice('kind', sorted(ALIASES))
    names = [ctx.choice('a', ARGS), ctx.choice('b', ARGS if ctx.tier != 'quick' else ['int', 'C'])]
    if 'forward' in names and p < 2:
        ctx.skip('these protocols do not take objects with slots')
    o, e = ctx.attempt(ALIASES[kind], t, *[args[n] for n in names])
    if e is not None:
        ctx.skip('no such alias')
    r, d, r2 = ctx.expect_ok('pickles', ctx.rt, [o, c, o], protocol=p, recurse=rec)
    ctx.check(r is r2, 'shared')
    ctx.check(type(r) is type(o) and repr(r) == repr(o), 'kind')
    same = ALIASES[kind](t, *[{'C': d, 'inner': t.List[t.Tuple[d, int]], 'builtin alias': list[d]}.get(n, args[n])
                              for n in names])
    ctx.check(r == same and getattr(r, '__parameters__', ()) == getattr(same, '__parameters__', ()), 'arguments')


def s_capsule(ctx):
    """capsules: those of two modules of the standard library and of this package under their names, and new ones of any
    of 4 names that lead nowhere, to a module, or to something else, with a context pointer or none"""
    import ctypes
    import datetime
    import _socket
    d = ctx.dill._dill
    p = proto(ctx)
    kind = ctx.choice('kind', ['datetime', 'socket', 'own', 'new'])
    if kind != 'new':
        o = {'datetime': datetime.datetime_CAPI, 'socket': _socket.CAPI, 'own': d._testcapsule}[kind]
        r, r2 = ctx.expect_ok('pickles', ctx.rt, [o, o], protocol=p)
        ctx.check(r is o and r2 is o, 'the capsule of that name')
        return
    name = ctx.choice('name', [b'zz_nomod.capsule', b'nodots', b'datetime.datetime', b'os.path.sep'])
    buf = ctypes.create_string_buffer(b'data')
    o = d._PyCapsule_New(ctypes.cast(buf, ctypes.c_void_p), name, None)
    if ctx.flag('context'):
        d._PyCapsule_SetContext(o, 4096)
    r, e = ctx.attempt(ctx.rt, o, protocol=p)
    if name in (b'datetime.datetime', b'os.path.sep'):
        import pickle
        ctx.check(isinstance(e, pickle.UnpicklingError), 'something else has the name')
        return
    ctx.check(e is None and type(r) is type(o) and r is not o, 'type')
    ctx.check(d._PyCapsule_GetName(r) == name and d._PyCapsule_GetPointer(r, name) == d._PyCapsule_GetPointer(o, name) and
              d._PyCapsule_GetContext(r) == d._PyCapsule_GetContext(o), 'name, pointer and context')


SCENARIOS = [
    Scenario('slice', s_slice, labels=('type', 'fields')),
    Scenario('range', s_range, labels=('parts',)),
    Scenario('share', s_share, labels=('type', 'wrapper shared', 'function part', 'instance state', 'function shared',
                                       'instance shared')),
    Scenario('method', s_method, labels=('parts', 'call')),
    Scenario('partial', s_partial, labels=('parts', 'call', 'attribute')),
    Scenario('lru_cache', s_lru, labels=('parameters', 'function', 'caches', 'typed keys')),
    Scenario('property', s_property, labels=('getter', 'setter', 'deleter', 'doc', 'parts', 'doc value')),
    Scenario('static_class_method', s_decorators, labels=('parts', 'abstract')),
    Scenario('super', s_super, labels=('class', 'self', 'resolves')),
    Scenario('views', s_views, labels=('content', 'view of the shared mapping', 'mapping type')),
    Scenario('getters', s_getters, labels=('applies',)),
    Scenario('singletons', s_singletons, labels=('identical', 'identical in a list')),
    Scenario('alias', s_alias, labels=('bare form', 'shared', 'kind', 'arguments')),
    Scenario('capsule', s_capsule, labels=('the capsule of that name', 'name, pointer and context', 'something else has the name')),
    Scenario('context', s_context, labels=('empty context', 'shared')),
]
