"""C25: descriptors, type objects, modules"""
import array
import collections
import datetime
import decimal
import functools
import io
import itertools
import os
import sys
import types
import weakref

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['class, attribute and type names are drawn by the solver from finite sets; file names hold 1-3 symbolic '
               'characters; sys.prefix and its variants are replaced by a scratch prefix while modules are classified']

DESC = (types.MemberDescriptorType, types.GetSetDescriptorType, types.MethodDescriptorType,
        types.WrapperDescriptorType, types.ClassMethodDescriptorType)
CLASSES = [int, float, complex, bool, str, bytes, bytearray, list, tuple, dict, set, frozenset, type, object, slice,
           property, super, range, memoryview, staticmethod, classmethod, enumerate, zip, reversed, BaseException,
           OSError, StopIteration, SyntaxError, UnicodeDecodeError, ImportError, types.FunctionType, types.CodeType,
           types.GeneratorType, types.ModuleType, types.MethodType, types.FrameType, types.TracebackType,
           types.MappingProxyType, types.CellType, types.SimpleNamespace, types.GetSetDescriptorType,
           types.MemberDescriptorType, types.BuiltinFunctionType, types.GenericAlias, types.CoroutineType,
           collections.OrderedDict, collections.deque, collections.defaultdict, functools.partial, datetime.datetime,
           datetime.date, datetime.timedelta, datetime.timezone, decimal.Decimal, decimal.Context, io.BytesIO,
           io.StringIO, io.TextIOWrapper, io.FileIO, io.BufferedReader, weakref.ref, array.array, itertools.chain,
           itertools.count]


def descriptors(cls):
    return sorted(k for k, v in type.__dict__['__dict__'].__get__(cls).items() if isinstance(v, DESC))


def s_builtin(ctx):
    """every descriptor of 64 built-in classes (slot members, get/set, method, slot wrapper, class-method descriptors);
    protocol 0, 2 or 4 (quick: the protocol is tied to the position)"""
    i = ctx.pick('class', len(CLASSES))
    names = descriptors(CLASSES[i])
    j = ctx.pick('attr', len(names))
    p = ctx.choice('proto', (0, 2, 4)) if ctx.tier == 'thorough' else (0, 2, 4)[(i + j) % 3]
    d = type.__dict__['__dict__'].__get__(CLASSES[i])[names[j]]
    r = ctx.expect_ok('pickles', ctx.rt, [d, d], protocol=p)
    ctx.check(r[0] is d and r[1] is d, 'own descriptor')


NAMES = ['Reduce', 'Getattr', 'Sentinel', 'match', 'Pickler', 'Unpickler', 'dict', 'object', 'int', 'type', 'str',
         'property', 'types', 'sys', 'os', 'OrderedDict', 'ItemGetterType', '_dictproxy_helper', 'MetaCatchingDict',
         'PickleError', 'objclass', 'name', 'attr', 'repr_str', 'ModuleType', 'FunctionType', 'logger', 'K', 'Zz']
SLOTS = ['reduction', 'args', 'keys', 'real', 'mro', 'dispatch', 'default', 'value', 'items', 'join', 'other']
KINDS = ['slot', '__dict__', '__weakref__']


def s_user(ctx):
    """a slot member, the __dict__ or the __weakref__ descriptor of a user class called like one of 29 names (names of
    the pickler's own classes and of built-ins among them) with a slot of one of 11 names, the class at module level,
    nested in another class, or copied by value"""
    name = ctx.choice('name', NAMES)
    kind = ctx.choice('kind', KINDS)
    where = ctx.choice('where', ['module', 'nested', 'by value'])
    slot = ctx.choice('slot', SLOTS) if kind == 'slot' else 'other'
    body = "    __slots__ = ('%s', '__dict__', '__weakref__')\n" % slot
    src = 'class %s(object):\n%s' % (name, body)
    if where == 'nested':
        src = 'class Outer(object):\n    ' + src.replace('\n    ', '\n        ')
    m = ctx.module('zzuser', register=where != 'by value')
    exec(src, m.__dict__)
    holder = m.Outer if where == 'nested' else m
    cls = getattr(holder, name)
    d = cls.__dict__[slot if kind == 'slot' else kind]
    r = ctx.expect_ok('pickles', ctx.rt, [d, cls], protocol=ctx.choice('proto', (0, 4)) if ctx.tier == 'thorough' else 2)
    if where == 'by value':
        c2 = r[1]
        ctx.check(c2 is not cls, 'copied class')
        ctx.check(type(r[0]) is type(d) and r[0].__objclass__ is c2 and r[0].__name__ == d.__name__,
                  'descriptor of the copy')
    else:
        ctx.check(r[1] is cls, 'class')
        ctx.check(r[0] is d, 'own descriptor')


def s_inherited(ctx):
    """descriptors reached through a subclass that shadows or inherits the attribute"""
    m = ctx.module('zzuser')
    exec('class A(object):\n    __slots__ = ("x", "y")\n'
         'class B(A):\n    __slots__ = ("x",)\n'
         'class C(B):\n    keys = 3\n    def y(self): return 1\n'
         'class D(dict):\n    def keys(self): return 5\n', m.__dict__)
    d = ctx.choice('which', [m.A.__dict__['x'], m.B.__dict__['x'], m.A.__dict__['y'], m.C.__dict__['__dict__'],
                             m.D.update, dict.__dict__['keys'], m.D.__dict__['__dict__'], m.D.__dict__['__weakref__'],
                             m.D.__init__, m.D.__dict__.get])
    r = ctx.expect_ok('pickles', ctx.rt, d, protocol=ctx.choice('proto', range(6)))
    if isinstance(d, DESC):
        ctx.check(r is d, 'own descriptor')


def type_pool():
    import builtins
    pool = {}
    for ns in (builtins.__dict__, types.__dict__):
        for k, v in ns.items():
            if type(v) is type and not k.startswith('__sx') and v.__module__ == 'builtins':
                pool.setdefault('%s.%s' % (v.__module__, v.__qualname__), v)
    for v in (functools.partial, type({}.keys()), type({}.values()), type({}.items()),
              type(collections.OrderedDict().keys()), type(collections.OrderedDict().values()),
              type(collections.OrderedDict().items()), io.TextIOWrapper, io.BufferedReader, io.BufferedWriter,
              io.BufferedRandom, type(None), type(NotImplemented), type(...), collections.OrderedDict,
              collections.deque, datetime.date, decimal.Decimal, weakref.ref, weakref.ProxyType,
              weakref.CallableProxyType, io.StringIO, io.BytesIO):
        pool.setdefault('%s.%s' % (v.__module__, v.__qualname__), v)
    import enum
    import abc
    import threading
    pool.update({'enum.EnumMeta': enum.EnumMeta, 'enum.EnumType': enum.EnumType, 'abc.ABCMeta': abc.ABCMeta,
                 'threading.ExceptHookArgs': threading.ExceptHookArgs, 'threading.RLock': type(threading.RLock())})
    return [pool[k] for k in sorted(pool)]


def s_types(ctx):
    """every type of the builtins and types modules and some of the standard library, protocols 0-5; alone and in a
    list together with a symbolic leaf; recurse and byref settings on and off (thorough)"""
    pool = type_pool()
    t = pool[ctx.pick('type', len(pool))]
    p = ctx.choice('proto', range(6)) if ctx.tier == 'thorough' else ctx.choice('proto', (0, 4))
    kw = {}
    if ctx.tier == 'thorough':
        kw = dict(byref=ctx.flag('byref'), recurse=ctx.flag('recurse'))
    leaf = ctx.any('leaf')
    r = ctx.expect_ok('pickles', ctx.rt, [t, leaf, t], protocol=p, **kw)
    ctx.check(r[0] is t and r[2] is t, 'identical type')
    ctx.check(ctx.eq(r[1], leaf), 'leaf')


def s_modules(ctx):
    """standard library, installed and own modules by name; protocols 0-5"""
    import builtins
    import json.decoder
    import os.path
    import xml.dom.minidom
    d = ctx.dill
    m = ctx.choice('module', [os, sys, builtins, os.path, json, json.decoder, xml.dom.minidom, types, array, collections,
                              d, d._dill, sys.modules['_io'], sys.modules['posix']])
    setattr(m, 'zz_marker', 1)
    ctx.on_exit(lambda: delattr(m, 'zz_marker'))
    s = ctx.expect_ok('dumps', d.dumps, [m, m], protocol=ctx.choice('proto', range(6)))
    m.zz_marker = 2
    r = ctx.expect_ok('loads', d.loads, s)
    ctx.check(r[0] is m and r[1] is m, 'identical module')
    ctx.check(m.zz_marker == 2 or m in (d, d._dill), 'bare reference')


def s_files(ctx):
    """a live module whose file is <prefix><1-3 characters of "/ab.">m.py (or .so, or in site-packages); the prefix is
    the value of one of sys.prefix, exec_prefix, base_prefix, base_exec_prefix; symbolic state"""
    for k in ('prefix', 'exec_prefix', 'base_prefix', 'base_exec_prefix'):
        old = getattr(sys, k)
        setattr(sys, k, '/zz-elsewhere')
        ctx.on_exit(lambda k=k, old=old: setattr(sys, k, old))
    setattr(sys, ctx.choice('which', ['prefix', 'exec_prefix', 'base_prefix', 'base_exec_prefix']), '/zzp')
    tail = ctx.choice('tail', ['m.py', 'm.cpython-312-x86_64-linux-gnu.so', 'site-packages/m.py', 'none', 'no file'])
    if tail in ('none', 'no file'):
        file, builtin = None, tail == 'no file'
    else:
        mid = ctx.str('mid', (1, 3 if ctx.tier == 'thorough' else 2), alphabet='/a.')
        if tail != 'm.py':
            ctx.assume(ctx.eq(mid[0], '/'))
        mid = ctx.concrete(mid)
        if '..' in mid:
            ctx.skip('leaves the prefix')
        file = '/zzp' + mid + tail
        builtin = mid.startswith('/') or tail != 'm.py'
    v, w = ctx.leaf('v'), ctx.leaf('w')
    m = ctx.module('zzfile', x=v)
    if tail != 'no file':
        m.__file__ = file
    s = ctx.expect_ok('dumps', ctx.dill.dumps, m)
    m.x = w
    m.later = 5
    r = ctx.expect_ok('loads', ctx.dill.loads, s)
    ctx.check(r is m, 'identical module')
    ctx.check(ctx.eq(m.x, w if builtin else v), 'bare reference' if builtin else 'saved state')
    ctx.check(m.later == 5, 'other names kept')


def s_installed(ctx):
    """a live module outside of the prefixes: 8 names of folders, 9 endings of files; symbolic state"""
    folder = ctx.choice('folder', ['lib', 'site-packages', 'my-packages', 'packages', 'site', 'dist-packages', 'site_packages',
                                   'python3.12'])
    end = ctx.choice('end', ['.py', '.so', '.abi3.so', '.cpython-312-x86_64-linux-gnu.so', '.pyc', 'so', '.so.py', '.dill',
                             '.cpython-311-x86_64-linux-gnu.so'])
    import importlib.machinery
    file = '/zzplace/%s/m%s' % (folder, end)
    # (any version's extension module ends in one of the suffixes, the last of which is .so)
    builtin = folder == 'site-packages' or file.endswith(tuple(importlib.machinery.EXTENSION_SUFFIXES))
    v, w = ctx.leaf('v'), ctx.leaf('w')
    m = ctx.module('zzfile', x=v)
    m.__file__ = file
    s = ctx.expect_ok('dumps', ctx.dill.dumps, m)
    m.x = w
    r = ctx.expect_ok('loads', ctx.dill.loads, s)
    ctx.check(r is m, 'identical module')
    ctx.check(ctx.eq(m.x, w if builtin else v), 'bare reference' if builtin else 'saved state')


SCENARIOS = [
    Scenario('builtin', s_builtin, labels=('own descriptor',)),
    Scenario('user', s_user, labels=('own descriptor', 'descriptor of the copy')),
    Scenario('inherited', s_inherited, labels=('own descriptor',)),
    Scenario('types', s_types, labels=('identical type', 'leaf')),
    Scenario('modules', s_modules, labels=('identical module', 'bare reference')),
    Scenario('files', s_files, labels=('bare reference', 'saved state', 'other names kept')),
    Scenario('installed', s_installed, labels=('bare reference', 'saved state')),
]
