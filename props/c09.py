"""C09: name resolution while loading"""
import io
import pickle
import types

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['the standard lookup is replaced by a recorder where module and name are symbolic']


def s_find_class(ctx):
    """module name of 4, 8, 9, 10, 11, 12 and object name of 4, 8, 9 characters, each character any printable
    ASCII (no dot in the object name, no empty part of the module name); the standard lookup recorded"""
    d = ctx.dill
    module = ctx.str('module', ctx.choice('mlen', [9, 11, 4, 8, 10, 12]), lo=33, hi=126)
    name = ctx.str('name', ctx.choice('nlen', [8, 9, 4]), lo=47, hi=126)
    for i in range(len(module)):        # a module name has no empty part
        ctx.assume(ctx.lnot(ctx.eq(module[i], '.')) if i in (0, len(module) - 1) else
                   ctx.lnot(ctx.land(ctx.eq(module[i], '.'), ctx.eq(module[i - 1], '.'))))
    if ctx.sym:
        from sx.instrument import ENVIRONMENT

        def recorder(self, m, n):
            return ('standard', m, n)
        for k in (pickle.Unpickler.find_class, 'Unpickler.find_class', pickle._Unpickler.find_class):
            ENVIRONMENT[k] = recorder
            ctx.on_exit(lambda k=k: ENVIRONMENT.pop(k, None))
    else:
        target = 'dill._dill' if module == 'dill.dill' else module
        if target == 'dill._dill':
            had = getattr(d._dill, name, None)
            setattr(d._dill, name, ('standard', target, name))
            ctx.on_exit(lambda: setattr(d._dill, name, had))
        else:
            for i in range(len(target)):
                if target[i] == '.':
                    ctx.module(target[:i])
            ctx.module(target, **{name: ('standard', target, name)})
    u = d.Unpickler(io.BytesIO(b''), fix_imports=False)
    r = ctx.expect_ok('resolves', u.find_class, module, name)
    if ctx.decide(ctx.land(ctx.eq(module, '__builtin__'), ctx.eq(name, '__main__'))):
        ctx.check(r is ctx.main.__dict__, 'main namespace')
    elif ctx.decide(ctx.land(ctx.eq(module, '__builtin__'), ctx.eq(name, 'NoneType'))):
        ctx.check(r is type(None), 'NoneType')
    else:
        ctx.check(type(r) is tuple, 'standard lookup')
        if ctx.decide(ctx.eq(module, 'dill.dill')):
            ctx.check(ctx.land(ctx.eq(r[1], 'dill._dill'), ctx.eq(r[2], name)), 'old module path')
        else:
            ctx.check(ctx.land(ctx.eq(r[1], module), ctx.eq(r[2], name)), 'names passed on')


PAIRS = [('builtins', 'len'), ('__builtin__', 'xrange'), ('__builtin__', 'len'), ('__builtin__', 'unicode'),
         ('copy_reg', '_reconstructor'), ('cPickle', 'dumps'), ('itertools', 'izip'), ('collections', 'OrderedDict'),
         ('UserDict', 'UserDict'), ('exceptions', 'KeyError'), ('dill._dill', '_create_function'),
         ('dill._dill', '_load_type'), ('os', 'path'), ('os.path', 'join'), ('builtins', 'dict.fromkeys'),
         ('builtins', 'no_such'), ('no_such_module', 'x'), ('types', 'NoneType'), ('__builtin__', 'reduce'),
         ('zzlive', 'Outer.Inner'), ('zzlive', 'none'), ('zzlive', 'missing'), ('', 'x')]


def s_standard(ctx):
    """23 recorded module/name pairs (renamed Python 2 names, dotted names, missing ones), streams of protocol 0, 2, 4
    and fix_imports on or off, against the standard unpickler; and the old module path of this package"""
    d = ctx.dill
    m = ctx.module('zzlive', none=None)
    exec('class Outer(object):\n    class Inner(object):\n        pass\n', m.__dict__)
    module, name = ctx.choice('pair', PAIRS)
    proto = ctx.choice('proto', (0, 2, 4))
    fix = ctx.flag('fix_imports')

    def stream(mod):
        if proto < 4:
            return (b'\x80\x02' if proto == 2 else b'') + b'c' + mod.encode() + b'\n' + name.encode() + b'\n.'
        out = b'\x80\x04'
        for t in (mod, name):
            out += b'\x8c' + bytes([len(t)]) + t.encode()
        return out + b'\x93.'
    s = stream(module)
    r, e = ctx.attempt(d.loads, s, fix_imports=fix)
    r2, e2 = ctx.attempt(pickle.loads, s, fix_imports=fix)
    ctx.check(type(e) is type(e2) and (r is r2 or r == r2), 'as the standard unpickler', e)
    if module == 'dill._dill':
        r3, e3 = ctx.attempt(d.loads, stream('dill.dill'), fix_imports=fix)
        ctx.check(r3 is r2, 'old module path')


def s_special(ctx):
    """streams naming the main namespace or the missing NoneType, protocols 0, 2, 4"""
    d = ctx.dill
    which = ctx.choice('which', ['NoneType', '__main__'])
    p = ctx.choice('proto', (b'', b'\x80\x02', b'\x80\x03'))
    r = ctx.expect_ok('loads', d.loads, p + b'c__builtin__\n' + which.encode() + b'\n.')
    if which == 'NoneType':
        ctx.check(r is type(None), 'NoneType')
    else:
        ctx.check(r is ctx.main.__dict__, 'main namespace')


def s_repoint(ctx):
    """an instance of a main-program class copied by value; meanwhile the name in the main program still means that
    class, was deleted, or was rebound to a compatible class, an incompatible one, a subclass, or a non-class; ignore an
    arbitrary leaf; state a symbolic leaf; the instance alone, in a list, or a subclass of a builtin"""
    d = ctx.dill
    ns = ctx.main.__dict__
    base = ctx.choice('base', ['object', 'list', 'slots'])
    body = {'object': 'class Zz(object):\n    kind = 1\n', 'list': 'class Zz(list):\n    kind = 1\n',
            'slots': 'class Zz(object):\n    __slots__ = ("v",)\n    kind = 1\n'}[base]
    exec(body, ns)
    C = ns['Zz']
    o = C()
    o.v = ctx.any('v')
    wrap = ctx.flag('in a list')
    s = ctx.expect_ok('dumps', d.dumps, [o] if wrap else o)
    now = ctx.choice('now', ['same', 'deleted', 'compatible', 'incompatible', 'subclass', 'integer', 'function',
                             'none'])
    if now == 'deleted':
        del ns['Zz']
    elif now == 'compatible':
        exec(body.replace('kind = 1', 'kind = 2'), ns)
    elif now == 'incompatible':
        exec('class Zz(dict):\n    pass\n', ns)
    elif now == 'subclass':
        ns['Zz'] = type('Zz2', (C,), {} if base != 'slots' else {'__slots__': ()})
    elif now == 'integer':
        ns['Zz'] = 5
    elif now == 'function':
        ns['Zz'] = len
    elif now == 'none':
        ns['Zz'] = None
    before = dict(ns)
    ignore = ctx.any('ignore')
    r = ctx.expect_ok('loads', d.loads, s, ignore=ignore)
    if wrap:
        ctx.check(type(r) is list and len(r) == 1, 'container')
        r = r[0]
    off = not ctx.decide(bool(ctx.ite(ctx.is_none(ignore), False, ignore)) if not ctx.sym else bool(ignore))
    if not wrap and off and now in ('same', 'compatible', 'subclass'):
        ctx.check(type(r) is ns['Zz'], 'pointed to the live class')
    else:
        ctx.check(type(r) is not C and type(r) is not ns.get('Zz') and type(r).__name__ == 'Zz' and type(r).kind == 1,
                  'untouched')
    ctx.check(ctx.eq(r.v, o.v), 'state')
    ctx.check(list(ns) == list(before) and all(ns[k] is before[k] for k in before), 'main unchanged')


def s_other(ctx):
    """objects whose type is not of the main program are returned untouched, even when the main program has a class of
    that name; ignore an arbitrary leaf"""
    d = ctx.dill
    ns = ctx.main.__dict__
    m = ctx.module('zzlive')
    exec('class Zz(object):\n    pass\n', m.__dict__)
    exec('class Zz(object):\n    pass\nclass list(object):\n    pass\nclass type(object):\n    pass\n'
         'class function(object):\n    pass\n'
         'def zf():\n    return 1\n', ns)
    o = m.Zz()
    o.v = ctx.any('v')
    what = ctx.choice('what', ['instance', 'list', 'class', 'function', 'int', 'none', 'module'])
    x = {'instance': o, 'list': [o], 'class': ns['Zz'], 'function': ns['zf'], 'int': 5, 'none': None, 'module': m}[what]
    ig = ctx.any('ignore')
    r = ctx.expect_ok('loads', d.loads, ctx.expect_ok('dumps', d.dumps, x), ignore=ig)
    ctx.check(type(r) is type(x), 'type kept')
    if what == 'instance':
        ctx.check(ctx.eq(r.v, o.v), 'state')


SCENARIOS = [
    Scenario('find_class', s_find_class, labels=('main namespace', 'NoneType', 'old module path', 'names passed on')),
    Scenario('standard', s_standard, labels=('as the standard unpickler', 'old module path')),
    Scenario('special', s_special, labels=('NoneType', 'main namespace')),
    Scenario('repoint', s_repoint, labels=('pointed to the live class', 'untouched', 'state')),
    Scenario('other', s_other, labels=('type kept', 'state')),
]
