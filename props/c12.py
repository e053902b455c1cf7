"""C12: a saved module comes back complete"""
import functools
import io
import math
import os
import random
import sys
import types
import xml.dom

from sx.api import Scenario
from props.c13 import bare, imported, plain

ASSUMPTIONS = [
    'what another module holds under the same name, or as a module, class, function or method under any name, counts as imported '
    'from there, unless it is a function or class of the saved module itself, or None, True or False',
    'modules imported when saving can be imported when loading',
    '__builtins__ and __loader__ are not part of the state']

OTHER = '''
def g():
    return data
class K:
    def m(self):
        return self
data = [1]
k = K()
meth = k.m
'''
OWN = '''
def f():
    return glob
class A:
    kept = []
    def m(self):
        return glob, A
'''


def source(m, src):
    exec(src, m.__dict__)
    m.__dict__.pop('__builtins__', None)


class Item(object):
    """what is put in a namespace, and what it has to be afterwards"""

    def __init__(self, ctx, m, other, ref, common):
        self.common, self.ctx, self.m, self.other, self.ref = common, ctx, m, other, ref
        self.put(m.__dict__)

    def value(self, name):
        """any; in company, the same for all"""
        if self.common:
            return self.common[0]
        return self.ctx.any('value of ' + name)


def by_reference(name, objname, of=lambda other: other, always=True, like=lambda a, b: a == b):
    """an object of another module; without references, values may be copied"""
    class Imported(Item):
        def put(self, ns):
            self.obj = getattr(of(self.other), objname)
            ns[name] = self.obj

        def ok(self, new):
            v = getattr(new, name, None)
            return v is self.obj if self.ref or always else like(v, self.obj)
    Imported.__name__ = name
    return Imported


class Value(Item):
    def put(self, ns):
        ns['zzx'] = self.v = self.value('zzx')

    def ok(self, new):
        return self.ctx.same(new.zzx, self.v)


class Shared(Item):
    def put(self, ns):
        ns['zza'] = ns['zzb'] = [self.value('zza')]
        ns['zzc'] = {'in': ns['zza']}
        self.v = ns['zza'][0]

    def ok(self, new):
        return self.ctx.land(new.zza is new.zzb and new.zzc['in'] is new.zza, self.ctx.same(new.zza[0], self.v))


class Function(Item):
    def put(self, ns):
        source(self.m, OWN)
        ns['glob'] = self.v = self.value('glob')

    def ok(self, new):
        f = new.f
        if f.__globals__ is not new.__dict__:
            return False
        a = f()
        new.glob, old = 'rebound', new.glob
        b = f()
        new.glob = old
        return self.ctx.land(b == 'rebound', self.ctx.same(a, self.v))


class Class(Item):
    def put(self, ns):
        source(self.m, OWN.replace('glob', 'glob1').replace('def f', 'def f1'))
        ns['glob1'] = self.v = self.value('glob1')
        ns['a'] = ns['A']()
        ns['a'].attr = ns['A'].kept

    def ok(self, new):
        a, A = new.a, new.A
        if type(a) is not A or a.attr is not A.kept or A.__module__ != self.m.__name__ or A.m.__globals__ is not new.__dict__:
            return False
        g, cls = a.m()
        return self.ctx.land(cls is A, self.ctx.same(g, self.v))


class Lambda(Item):
    def put(self, ns):
        source(self.m, 'def mk(n):\n def inner():\n  return n, glob2\n return inner\n'
                       'c = mk([5])\nc.same = c.__closure__[0].cell_contents')
        ns['glob2'] = self.v = self.value('glob2')
        ns['p'] = functools.partial(ns['mk'], 3)

    def ok(self, new):
        c = new.c
        n, g = c()
        return self.ctx.land(n == [5] and n is c.same and c.__globals__ is new.__dict__ and new.p.func is new.mk,
                             self.ctx.same(g, self.v))


class Me(Item):
    def put(self, ns):
        ns['me'] = ns['myself'] = self.m

    def ok(self, new):
        return new.me is new and new.myself is new


class MyDict(Item):
    def put(self, ns):
        ns['ns'] = ns

    def ok(self, new):
        return new.ns is new.__dict__


class NestedMe(Item):
    def put(self, ns):
        ns['l'] = [self.m, {'m': self.m}, (self.m,)]

    def ok(self, new):
        return new.l[0] is new and new.l[1]['m'] is new and new.l[2][0] is new


class NestedDict(Item):
    def put(self, ns):
        ns['d'] = {'ns': self.m.__dict__, 'l': [self.m.__dict__]}

    def ok(self, new):
        return new.d['ns'] is new.__dict__ and new.d['l'][0] is new.__dict__


class Attribute(Item):
    """a method of this module's own object, a class with the module as attribute"""

    def put(self, ns):
        source(self.m, OWN.replace('glob', 'glob4').replace('A', 'A4').replace('def f', 'def f4'))
        ns['glob4'] = self.v = self.value('glob4')
        ns['A4'].home = self.m
        ns['bound'] = ns['A4']().m

    def ok(self, new):
        return self.ctx.land(new.A4.home is new, type(new.bound.__self__) is new.A4, self.ctx.same(new.bound()[0], self.v))


class Held(Item):
    """a function and a class of the module that another one holds too"""

    def put(self, ns):
        source(self.m, 'def cb():\n return glob3\nclass Cb(object): pass\n')
        ns['glob3'] = self.v = self.value('glob3')
        self.other.hook = self.other.cb = ns['cb']
        self.other.Base = self.other.Cb = ns['Cb']

    def ok(self, new):
        return self.ctx.land(new.cb.__globals__ is new.__dict__ and new.Cb.__module__ == self.m.__name__,
                             self.ctx.same(new.cb(), self.v))


class Singletons(Item):
    def put(self, ns):
        ns.update(n=None, t=True, f_=False, e=Ellipsis, ni=NotImplemented)
        self.other.__dict__.update(n=None, t=True, f_=False)     # and rebinds them later

    def ok(self, new):
        return new.n is None and new.t is True and new.f_ is False and new.e is Ellipsis and new.ni is NotImplemented


class Dunders(Item):
    def put(self, ns):
        ns.update(__doc__='doc', __all__=['x'], __version__='1', __annotations__={'x': int}, __file__='/nowhere/zz.py')

    def ok(self, new):
        return new.__doc__ == 'doc' and new.__all__ == ['x'] and new.__version__ == '1' and new.__annotations__ == {'x': int} \
            and new.__file__ == '/nowhere/zz.py'


class Again(Item):
    """the table of modules holds the module under another name too"""

    def put(self, ns):
        def gone():
            sys.modules.pop('zzagain', None)
        if sys.modules.get(self.m.__name__) is self.m:
            sys.modules['zzagain'] = self.m
            self.ctx.on_exit(gone)
        source(self.m, 'def fagain():\n return again\n')
        ns['again'] = [self.value('again')]
        self.v = ns['again'][0]

    def ok(self, new):
        return self.ctx.land(new.fagain() is new.again, new.fagain.__globals__ is new.__dict__, self.ctx.same(new.again[0], self.v))


def method(a, b):
    return type(a) is type(b) and type(a.__self__) is type(b.__self__) and a.__func__ is b.__func__


this = lambda m: lambda other: m
ITEMS = [Value, Shared, Function, Class, Lambda, Me, MyDict, NestedMe, NestedDict, Attribute, Held, Singletons, Dunders, Again,
         by_reference('g', 'g'), by_reference('gg', 'g'), by_reference('K', 'K'), by_reference('KK', 'K'),
         by_reference('data', 'data', always=False), by_reference('meth', 'meth', always=False, like=method),
         by_reference('othermeth', 'meth', always=False, like=method),
         by_reference('zzother', 'zzother', lambda o: types.SimpleNamespace(zzother=o)),
         by_reference('zo', 'zzother', lambda o: types.SimpleNamespace(zzother=o)),
         by_reference('math', 'math', lambda o: types.SimpleNamespace(math=math)),
         by_reference('m2', 'math', lambda o: types.SimpleNamespace(math=math)),
         by_reference('op', 'path', this(os)), by_reference('dom', 'dom', this(xml)), by_reference('sin', 'sin', this(math)),
         by_reference('sn', 'sin', this(math)), by_reference('pi', 'pi', this(math), always=False),
         by_reference('rnd', 'random', this(random), always=False, like=lambda a, b: type(a) is type(b) and type(a.__self__) is random.Random), by_reference('OD', 'OrderedDict', this(__import__('collections'))),
         by_reference('ln', 'len', this(__import__('builtins'))), by_reference('argv', 'argv', this(sys), always=False),
         by_reference('ND', 'Node', this(xml.dom)), by_reference('Node', 'Node', this(xml.dom)),
         by_reference('unbound', 'sub', lambda o: types.SimpleNamespace(sub=sys.modules['zzpkg.sub'])),
         by_reference('environ', 'environ', this(os), always=False)]
N = len(ITEMS)


def namesake(ctx, name):
    """a module-like object with the name of an imported module"""
    imported(ctx, name, zzx='theirs', theirs=1)
    return plain(ctx, name)


def build(ctx, kind, which, ref, *common):
    other = ctx.module('zzother')
    exec(OTHER, other.__dict__)
    ctx.module('zzpkg', __file__='/nowhere/zzpkg/__init__.py', __path__=[])
    ctx.module('zzpkg.sub', __file__='/nowhere/zzpkg/sub.py', x=1)
    sys.modules['zzpkg'].__dict__.pop('sub', None)
    m = {'main': bare, 'imported': lambda c: imported(c, 'zzsession'), 'dotted': lambda c: imported(c, 'zzpack.mod'),
         'object': lambda c: plain(c, 'zzsession'), 'namesake': lambda c: namesake(c, 'zzsession')}[kind](ctx)
    return m, [ITEMS[i](ctx, m, other, ref, common) for i in which]


def reload(ctx, kind, m, ref, state, how, old=None):
    """save the module, let it go on, load it; the restored module"""
    d = ctx.dill
    f = io.BytesIO() if how != 'path' else os.path.join(ctx.scratch(), 's.pkl')
    d.settings['recurse'] = how == 'recurse'
    if old is None:
        r, e = ctx.attempt(d.dump_module, f, m, ref)
    elif old == 'function':
        r, e = ctx.attempt(d.dump_session, f, m, ref)
    else:
        r, e = ctx.attempt(d.dump_module, f, main=m, byref=ref)
    ctx.check(e is None, 'saves', detail=repr(e)[:200])
    if e is not None:
        return None
    names = [k for k in m.__dict__ if k not in ('__builtins__', '__loader__')]
    held = dict(m.__dict__)
    if state == 'emptied':
        m.__dict__.clear()
        m.__dict__.update(__name__=held['__name__'], __loader__=held.get('__loader__'))
    elif state == 'rebound':
        for k in names:
            if not k.startswith('__'):
                m.__dict__[k] = 'rebound'
    m.since = since = ['since']
    other = sys.modules['zzother'].__dict__
    other.update((k, 'rebound since') for k in ('n', 't', 'f_') if k in other)
    if how != 'path':
        f.seek(0)
    m_ = m if how == 'given' else None
    if old is None:
        r, e = ctx.attempt(d.load_module, f, m_)
    elif old == 'function':
        r, e = ctx.attempt(d.load_session, f, m_)
    elif m_ is None:
        r, e = ctx.attempt(d.load_module, f)
    else:
        r, e = ctx.attempt(d.load_module, f, main=m)
    ctx.check(e is None, 'loads', detail=repr(e)[:200])
    if e is not None:
        return None
    new = r if kind in ('object', 'namesake') and how != 'given' else m
    if new is m:
        ctx.check(m.__dict__.get('since') is since, 'names bound since are kept')
    ctx.check(all(k in new.__dict__ for k in names), 'every name is bound again',
              detail=repr([k for k in names if k not in new.__dict__]))
    ctx.check(not [k for k in new.__dict__ if k not in names and k not in ('since', '__loader__', '__builtins__')],
              'no other name is bound', detail=repr(list(new.__dict__)))
    return new


def s_pairs(ctx):
    """any two of 38 sorts of bindings: values, shared containers, functions, classes and instances, closures, the module and its
    namespace directly and within others, methods, functions other modules hold, singletons, special names, functions, classes, data,
    methods, modules and submodules (also one its package does not bind) imported under their own or another name; the main program, imported modules (dotted too), module-like
    objects; by reference or not; the module emptied, rebound or as it was; read from a stream or a path, the module given or not"""
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    ref = ctx.flag('refimported')
    i = ctx.pick('first', N)
    j = ctx.pick('second', N) if ctx.tier == 'thorough' else (i + [0, 1, 5][ctx.pick('second', 3)] * (1 + i % 3)) % N
    if j < i and ctx.tier == 'thorough':
        ctx.skip('as the other way around')
    m, items = build(ctx, kind, sorted({i, j}), ref)
    new = reload(ctx, kind, m, ref, ['emptied', 'rebound', 'as it was'][(i + j) % 3], ['stream', 'given', 'path', 'recurse'][(i + j + ref) % 4])
    if new is not None:
        for it in items:
            ctx.check(it.ok(new), 'what was bound is bound again', detail=type(it).__name__)


def s_all(ctx):
    """all of them at once; each state of the module, way to read, with or without references"""
    kind = ctx.choice('kind', ['main', 'imported', 'dotted', 'object'])
    ref = ctx.flag('refimported')
    state = ctx.choice('state', ['emptied', 'rebound', 'as it was'])
    how = ctx.choice('how', ['stream', 'given', 'path', 'recurse'])
    m, items = build(ctx, kind, range(N), ref, ctx.any('value'))
    new = reload(ctx, kind, m, ref, state, how)
    if new is not None:
        for it in items:
            ctx.check(it.ok(new), 'what was bound is bound again', detail=type(it).__name__)


def s_namesake(ctx):
    """module-like objects that have the name of an imported module, with up to 2 of 7 sorts of bindings; by reference or
    not; emptied, rebound or as it was; each way to read"""
    ref = ctx.flag('refimported')
    pool = [0, 1, 2, 3, 5, 7, 14]
    i, j = ctx.choice('first', pool), ctx.choice('second', pool)
    if j < i:
        ctx.skip('as the other way around')
    m, items = build(ctx, 'namesake', sorted({i, j}), ref)
    theirs = sys.modules['zzsession']
    held = dict(theirs.__dict__)
    new = reload(ctx, 'namesake', m, ref, ctx.choice('state', ['emptied', 'rebound', 'as it was']),
                 ctx.choice('how', ['stream', 'given', 'path']))
    ctx.check(sys.modules.get('zzsession') is theirs and theirs.__dict__ == held, 'the imported module is left alone')
    if new is not None:
        ctx.check(new is not theirs, 'the imported module is left alone')
        for it in items:
            ctx.check(it.ok(new), 'what was bound is bound again', detail=type(it).__name__)


def s_renamed(ctx):
    """the former names of the functions and of their arguments; an argument under both names"""
    kind = ctx.choice('kind', ['main', 'imported', 'object'])
    ref = ctx.flag('refimported')
    how = ctx.choice('how', ['given', 'path', 'stream'])
    old = ctx.choice('old', ['function', 'argument'])
    if kind == 'object':
        ctx.assume(how == 'given')               # the former function returns nothing
    m, items = build(ctx, kind, [0, 2, 6, 13, 14, 17], ref)
    new = reload(ctx, kind, m, ref, 'emptied', how, old)
    if new is not None:
        for it in items:
            ctx.check(it.ok(new), 'what was bound is bound again', detail=type(it).__name__)
    d = ctx.dill
    f = io.BytesIO()
    ctx.must_raise('one name at a time', TypeError, d.dump_module, f, m, main=m)
    ctx.must_raise('one name at a time', TypeError, d.dump_module, f, refimported=True, byref=ref)
    ctx.check(f.getvalue() == b'', 'one name at a time')
    d.dump_module(f, m)
    f.seek(0)
    ctx.must_raise('one name at a time', TypeError, d.load_module, f, m, main=m)
    ctx.check(f.tell() == 0, 'one name at a time')


_l = ['saves', 'loads', 'names bound since are kept', 'every name is bound again', 'no other name is bound',
      'what was bound is bound again']
SCENARIOS = [
    Scenario('pairs', s_pairs, labels=_l),
    Scenario('all', s_all, labels=_l),
    Scenario('namesake', s_namesake, labels=_l + ['the imported module is left alone']),
    Scenario('renamed', s_renamed, labels=_l),
]
