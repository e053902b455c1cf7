"""C05: by name or by value"""
import collections
import functools
import sys
import types
import warnings

from sx.api import Scenario

ASSUMPTIONS = [
    'the names that lead to an object are those at the time of the dump; they are unchanged at the time of the load',
    'the bindings along a qualified name, the module and its kind are symbolic choices; modules are made up by the '
    'scenario and registered in the table of modules']

SRC = {
    'function': 'def function():\n    return 1\n',
    'Class': 'class Class(object):\n    mark = 1\n    def m(self):\n        return 2\n',
    'Meta': 'class Meta(type):\n    pass\n',
    'WithMeta': 'class WithMeta(object, metaclass=Meta):\n    mark = 1\n',
}
KINDS = ['function', 'Class', 'WithMeta']


def fresh(kind, modname):
    ns = {'__name__': modname if isinstance(modname, str) else 'zz'}
    if kind == 'WithMeta':
        m = sys.modules.get('zzmeta')
        if m is None:
            m = sys.modules['zzmeta'] = types.ModuleType('zzmeta')
            exec(compile(SRC['Meta'], '<sx>', 'exec'), m.__dict__)
        ns['Meta'] = m.Meta
    exec(compile(SRC[kind], '<sx>', 'exec'), ns)
    o = ns.pop(kind)
    o.__module__ = modname
    return o


class Equal(object):
    """equal to everything, under any name"""
    def __init__(self, o):
        self.__dict__.update(__name__=o.__name__, __qualname__=o.__qualname__, __module__=o.__module__)

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


class Holder(object):
    """what a dotted name goes through"""


def by_value_ok(ctx, o, r, what):
    ctx.check(r is not o, what + ': is a copy')
    ctx.check(type(r) is type(o), what + ': of the same type')
    ctx.check(r.__module__ == o.__module__ and r.__name__ == o.__name__ and r.__qualname__ == o.__qualname__,
              what + ': under the same names')
    if isinstance(o, type):
        ctx.check(r.mark == 1 and r is not o, what + ': with its attributes')
    else:
        ctx.check(r() == 1, what + ': with its behaviour')


MODULES = ['live', 'submodule', 'missing', 'none', 'main', 'unimportable', 'runtime']


def module_of(ctx, kind):
    """(name of the module, module or None)"""
    if kind == 'live':
        return 'zzlive', ctx.module('zzlive')
    if kind == 'submodule':
        p = ctx.module('zzpkg', __path__=[])
        m = ctx.module('zzpkg.sub')
        p.sub = m
        return 'zzpkg.sub', m
    if kind == 'missing':
        return 'zz_nomod', None
    if kind == 'none':
        return None, None
    if kind == 'main':
        return '__main__', ctx.main
    if kind == 'unimportable':
        sys.modules['zzblocked'] = None
        return 'zzblocked', None
    m = types.ModuleType('__runtime__.zzr')
    return '__runtime__.zzr', None


def s_lookup(ctx):
    """a function, class or class of a metaclass whose module is one of 7 kinds (live, a submodule, missing, None, the
    main program, blocked, unregistered) and whose qualified name has up to 3 parts; at each part the name leads on,
    is missing, bound to something else, or says <locals>; at the end it is bound to the object, an equal copy, an object equal to everything, None,
    a bound method of it, an instance of it, a wrapper of the same names, or missing; by-reference storage on or off"""
    kind = ctx.choice('kind', KINDS)
    modname, mod = module_of(ctx, ctx.choice('module', MODULES))
    o = fresh(kind, modname)
    depth = ctx.pick('depth', 3)
    byref = ctx.flag('byref')
    leads, at, path = mod is not None, mod if mod is not None else Holder(), []
    for i in range(depth):
        step = ctx.choice('step%d' % i, ['on', 'missing', 'other', 'locals', 'class'] if leads else ['missing'])
        path.append('<locals>' if step == 'locals' else 'p%d' % i)
        if step == 'class':
            nxt = type('Sub', (), {})
        else:
            nxt = types.ModuleType('x') if step == 'locals' else Holder()
        if step in ('on', 'class'):
            setattr(at, path[-1], nxt)
        elif step == 'other':
            setattr(at, path[-1], 5)
            leads = False
        elif step == 'locals':
            setattr(at, '<locals>', nxt)
            leads = False
        else:
            leads = False
        at = nxt
    end = ctx.choice('end', ['itself', 'copy', 'equal', 'none', 'missing', 'around it', 'wrapper'] if leads else ['itself'])
    last = o.__name__
    path.append(last)
    o.__qualname__ = '.'.join(path)
    if end == 'itself':
        setattr(at, last, o if not isinstance(at, type) or isinstance(o, type) else staticmethod(o))
    elif end == 'copy':
        setattr(at, last, fresh(kind, modname))
    elif end == 'equal':
        setattr(at, last, Equal(o))
    elif end == 'around it':                    # a class method, or an instance of the class
        if isinstance(o, type):
            setattr(at, last, o())
        else:
            setattr(at, last, classmethod(o) if isinstance(at, type) else types.MethodType(o, 5))
    elif end == 'wrapper':                      # as made by functools.wraps, or a subclass of the same names
        if isinstance(o, type):
            w = type(o)(o.__name__, (o,), {'__qualname__': o.__qualname__, '__module__': modname})
        else:
            w = functools.wraps(o)(lambda: o() + 1)
            w = staticmethod(w) if isinstance(at, type) else w
        setattr(at, last, w)
    elif end == 'none':
        setattr(at, last, None)
    elif hasattr(at, last):
        delattr(at, last)
    found = leads and end == 'itself'
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        data, e = ctx.attempt(ctx.dill.dumps, o, byref=byref)
    warned = any(issubclass(x.category, ctx.dill.PicklingWarning) for x in w)
    is_class = isinstance(o, type)
    if found and mod is not ctx.main:
        ctx.check(e is None, 'found: dumps')
        ctx.check(not warned, 'found: no warning')
        r = ctx.expect_ok('found: loads', ctx.dill.loads, data)
        ctx.check(r is o, 'found: the identical object')
        ctx.check(len(data) < 120, 'found: as a bare reference')
    elif is_class and byref:
        if e is None:
            ctx.check(warned, 'by reference: warns')
            ctx.check(found, 'by reference: refuses what the name does not lead to')
            r = ctx.expect_ok('by reference: loads', ctx.dill.loads, data)
            ctx.check(r is o, 'by reference: the identical object')
        else:
            ctx.check(isinstance(e, ctx.dill.PicklingError), 'by reference: pickling error', detail=repr(e))
            ctx.check(not found, 'by reference: dumps what the name leads to', detail=repr(e))
    else:
        ctx.check(e is None, 'not found: dumps', detail=repr(e))
        before = getattr(mod, last, None) if mod is not None else None
        r = ctx.expect_ok('not found: loads', ctx.dill.loads, data)
        by_value_ok(ctx, o, r, 'not found')


def s_instance(ctx):
    """an instance whose class is found by its name, not found, or replaced by another; together with the class in one
    pickle, before or after it; by-reference storage on or off; protocols 0-5"""
    where = ctx.choice('where', ['found', 'missing', 'replaced'])
    byref = ctx.flag('byref')
    m = ctx.module('zzlive')
    c = fresh('Class', 'zzlive')
    if where == 'found':
        m.Class = c
    elif where == 'replaced':
        m.Class = fresh('Class', 'zzlive')
    x = c()
    x.v = ctx.any('v')
    o = ctx.choice('order', [[x, c], [c, x], [x, x], [c.m, x]])
    data, e = ctx.attempt(ctx.dill.dumps, o, byref=byref, protocol=ctx.choice('proto', range(6)))
    if where != 'found' and byref and e is not None:
        ctx.check(isinstance(e, ctx.dill.PicklingError), 'pickling error', detail=repr(e))
        return
    ctx.check(e is None, 'dumps', detail=repr(e))
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    y = [z for z in r if not isinstance(z, (type, types.FunctionType))][0]
    ctx.check((type(y) is c) == (where == 'found'), 'class of the instance')
    ctx.check(where == 'found' or type(y) is not getattr(m, 'Class', None), 'not an instance of another class')
    ctx.check(ctx.eq(y.v, x.v), 'state')
    for z in r:
        ctx.check(not isinstance(z, type) or z is type(y), 'one class')


def s_namedtuple(ctx):
    """named tuple classes (collections' or typing's, with a default and a method or not) that are top level, nested or
    local; in a live module, a missing one or the main program; where the plain name is bound to the class, to nothing,
    to another named tuple class (with other or the same fields) or to a function; by-reference storage on or off; an
    instance is pickled before the class, after it, or not at all"""
    modname = ctx.choice('module', ['zzlive', 'zz_nomod', '__main__'])
    style = ctx.choice('style', ['plain', 'default', 'method', 'renamed'])
    level = ctx.choice('level', ['top', 'nested', 'local'])
    bound = ctx.choice('bound', ['itself', 'nothing', 'other fields', 'same fields', 'function'])
    byref = ctx.flag('byref')
    order = ctx.choice('order', ['instance first', 'class first', 'class alone'])
    mod = ctx.module('zzlive') if modname == 'zzlive' else ctx.main if modname == '__main__' else None
    if mod is None and bound != 'nothing':
        ctx.skip('nothing to bind in')
    if style == 'method':
        ns = {'__name__': modname}
        exec(compile('import typing\nclass P(typing.NamedTuple):\n a: int\n b: int = 5\n def total(self):\n'
                     '  return self.a, self.b\n def __repr__(self):\n  return "P!"\n', '<sx>', 'exec'), ns)
        c = ns['P']
    elif style == 'renamed':
        c = collections.namedtuple('P', ['a', 'def'], rename=True, module=modname)
    else:
        c = collections.namedtuple('P', ['a', 'b'], defaults=[5] if style == 'default' else None, module=modname)
    other = {'itself': c, 'nothing': None, 'other fields': collections.namedtuple('P', 'z', module=modname),
             'same fields': collections.namedtuple('P', c._fields if style != 'renamed' else 'z', module=modname),
             'function': fresh('function', modname)}[bound]
    if other is not None and other is not c and bound == 'same fields':
        other.__repr__ = lambda self: 'other'
    oq = other.__qualname__ if other is not None else None
    if level == 'nested':
        c.__qualname__ = 'Outer.P'
        if mod is not None:
            mod.Outer = type('Outer', (), {'P': c})
    elif level == 'local':
        c.__qualname__ = 'f.<locals>.P'
    if mod is not None and bound != 'nothing':
        mod.P = other
    found = mod is not None and mod is not ctx.main and (level == 'nested' or level == 'top' and bound == 'itself')
    inst = c(ctx.any('a'), ctx.any('b'))
    both = {'instance first': [inst, c], 'class first': [c, inst], 'class alone': [c]}[order]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        data, e = ctx.attempt(ctx.dill.dumps, both, byref=byref)
    warned = any(issubclass(x.category, ctx.dill.PicklingWarning) for x in w)
    if byref and not found and e is not None:
        ctx.check(isinstance(e, ctx.dill.PicklingError), 'pickling error', detail=repr(e))
        return
    ctx.check(e is None, 'dumps', detail=repr(e))
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    ri, rc = {'instance first': r, 'class first': r[::-1], 'class alone': [None, *r]}[order]
    if ri is None:
        ri = rc(inst[0], inst[1])
    ctx.check(type(ri) is rc, 'instance of the class')
    if found:
        ctx.check(rc is c, 'found: the identical class')
    elif mod is not None and bound == 'itself' and level == 'top' and style in ('plain', 'default'):
        ctx.check(rc is c, 'plain: the class of that name in the main program')
    elif byref and warned:
        ctx.check(rc is c, 'by reference: the identical class')
    else:
        ctx.check(rc is c or rc is not other, 'never another class')
    ctx.check(rc.__name__ == 'P' and rc.__qualname__ == c.__qualname__ and rc.__module__ == modname, 'names')
    ctx.check(other is None or other.__qualname__ == (c.__qualname__ if other is c else oq),
              'the other object is left alone')
    ctx.check(rc._fields == c._fields and rc._field_defaults == c._field_defaults, 'fields and defaults')
    ctx.check(ctx.land(ctx.eq(ri[0], inst[0]), ctx.eq(ri[1], inst[1]), ctx.eq(getattr(ri, c._fields[0]), inst[0])),
              'items')
    ctx.check(ctx.eq(tuple(ri._replace(**{c._fields[1]: 3})), (inst[0], 3)), 'replace')
    ctx.check(rc.__doc__ == c.__doc__ and rc.__annotations__ == c.__annotations__ if hasattr(c, '__annotations__')
              else True, 'documentation')
    if style == 'method':
        ctx.check(ctx.eq(ri.total(), inst.total()) and repr(ri) == 'P!', 'methods')


def s_shadow(ctx):
    """a class or function in a submodule whose package binds the submodule's name to the object, to another class, to
    a function or to the submodule itself; the object's name is that of the submodule or another one"""
    kind = ctx.choice('kind', ['function', 'Class'])
    p = ctx.module('zzpkg', __path__=[])
    m = ctx.module('zzpkg.Class' if kind == 'Class' else 'zzpkg.function')
    o = fresh(kind, m.__name__)
    bind = ctx.choice('package binds', ['submodule', 'itself', 'a class', 'a function'])
    v = {'submodule': m, 'itself': o, 'a class': fresh('WithMeta', 'zzpkg'), 'a function': fresh('function', 'zzpkg')}[bind]
    setattr(p, m.__name__.split('.')[1], v)
    there = ctx.choice('submodule binds', ['itself', 'other', 'missing'])
    if there == 'itself':
        setattr(m, kind, o)
    elif there == 'other':
        setattr(m, kind, fresh(kind, m.__name__))
    data = ctx.expect_ok('dumps', ctx.dill.dumps, o)
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    if there == 'itself':
        ctx.check(r is o, 'the identical object')
    else:
        by_value_ok(ctx, o, r, 'not found')


SCENARIOS = [
    Scenario('lookup', s_lookup, labels=('found: the identical object', 'found: as a bare reference',
                                         'by reference: pickling error', 'by reference: the identical object',
                                         'not found: is a copy')),
    Scenario('instance', s_instance, labels=('class of the instance', 'not an instance of another class')),
    Scenario('namedtuple', s_namedtuple, labels=('found: the identical class', 'never another class', 'names',
                                                 'fields and defaults', 'methods')),
    Scenario('shadow', s_shadow, labels=('the identical object', 'not found: is a copy')),
]
