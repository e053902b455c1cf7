"""C02: functions copied by value"""
import collections
import sys
import types

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['defaults, annotations, attributes, closure and global values are opaque leaves: None, 0, empty text, an '
               'empty tuple or one of unboundedly many truthy values']

SRC = '''
G = None
def outer(c0, c1):
    def f(a, b=0, /, c=0, *args, k0=0, k1=0, **kw):
        return (a, b, c, args, k0, k1, kw, c0, c1, G)
    return f
def plain(a, b=0, /, c=0, *args, k0=0, k1=0, **kw):
    return (a, b, c, args, k0, k1, kw, G)
def doc(a, b=0, /, c=0, *args, k0=0, k1=0, **kw):
    'docs in the code'
    return (a, b, c, args, k0, k1, kw, G)
lam = lambda a, b=0, *, k0=0, k1=0: (a, b, k0, k1, G)
def gen(a, b=0, *, k0=0, k1=0):
    yield a
    yield (b, k0, k1, G)
def rec(a, b=0, *, k0=0, k1=0):
    return (b, k0, k1, G) if a == 0 else rec(0, b, k0=k0, k1=k1)
'''

WHERE = ['no module', 'main', 'live, missing', 'live, rebound', 'live, local name', 'live, other name', 'none']


def make(ctx, kind, where, g):
    """the function and its namespace"""
    if where == 'main':
        ns = ctx.main.__dict__
        modname = '__main__'
    elif where.startswith('live'):
        modname = 'zzlive'
        mod = ctx.module(modname)
        ns = mod.__dict__
    else:
        modname = 'zz_nomod'
        ns = {'__name__': modname}
    exec(compile(SRC, '<sx>', 'exec'), ns)
    ns['G'] = g
    if kind == 'closure':
        f = ns['outer'](ctx.any('c0'), ctx.any('c1'))
    else:
        f = ns[kind]
    if where == 'live, missing' and kind in ns:
        del ns[kind]
        if kind == 'rec':
            ns['rec'] = None
            ctx.skip('a recursive function needs its own name')
    elif where == 'live, rebound' and kind in ns:
        if kind == 'rec':
            ctx.skip('a recursive function needs its own name')
        ns[kind] = 5
    elif where == 'live, local name':
        f.__qualname__ = 'here.<locals>.' + f.__name__
    elif where == 'live, other name':           # as os.path is posixpath
        sys.modules['zzother'] = mod
        f.__module__ = 'zzother'
        ns.pop(kind, None)
        if kind == 'rec':
            ctx.skip('a recursive function needs its own name')
    if where == 'none':
        f.__module__ = None
    return f, ns


FIELDS = ('__name__', '__qualname__', '__module__', '__doc__', '__defaults__', '__kwdefaults__', '__annotations__')


def snap(f):
    d = {k: getattr(f, k) for k in FIELDS}
    for k in ('__kwdefaults__', '__annotations__'):
        d[k] = None if d[k] is None else dict(d[k])
    d['__dict__'] = dict(f.__dict__)
    d['__code__'] = f.__code__
    d['__globals__'] = f.__globals__
    d['cells'] = f.__closure__
    d['values'] = None if f.__closure__ is None else [c.cell_contents for c in f.__closure__]
    return d


def compare(ctx, r, s, what):
    for k in FIELDS:
        ctx.check(ctx.eq(getattr(r, k), s[k]), what + k)
    ctx.check(type(r.__dict__) is type(s['dict type']) if 'dict type' in s else True, what + '__dict__ type')
    ctx.check(ctx.eq(dict(r.__dict__), s['__dict__']), what + '__dict__')
    ctx.check(r.__code__ == s['__code__'], what + '__code__')
    if s['values'] is None:
        ctx.check(r.__closure__ is None, what + 'closure')
    else:
        ctx.check(len(r.__closure__) == len(s['values']) and
                  ctx.land(*[ctx.eq(c.cell_contents, v) for c, v in zip(r.__closure__, s['values'])]),
                  what + 'closure')


def original(ctx, f, s, ns, keys):
    compare(ctx, f, s, 'original ')
    ctx.check(f.__globals__ is s['__globals__'] and f.__closure__ is s['cells'] and list(ns) == keys,
              'original namespace')


def result(f, kind, *a, **k):
    r = f(*a, **k)
    return list(r) if kind == 'gen' else r


def check_copy(ctx, f, ns, kind, kw):
    s = snap(f)
    keys = list(ns)
    r = ctx.expect_ok('pickles', ctx.rt, f, **kw)
    ctx.check(type(r) is types.FunctionType and r is not f, 'is a new function')
    compare(ctx, r, s, 'copy ')
    original(ctx, f, s, ns, keys)
    x = ctx.leaf('arg')
    calls = [((x,), {})]
    if s['__defaults__'] is None or len(s['__defaults__']) < 1:
        calls = [((x, 1), {})]
    if s['__kwdefaults__'] is None or len(s['__kwdefaults__']) < 2:
        calls = [(c[0], {'k0': 1, 'k1': 2}) for c in calls]
    if kind in ('closure', 'plain', 'doc'):
        calls = [(a + (2,) * (3 - len(a)), k) for a, k in calls] + [(a + (2,) * (3 - len(a)) + (x,), dict(k, z=x)) for a, k in calls]
    for a, k in calls:
        ctx.check(ctx.eq(result(r, kind, *a, **k), result(f, kind, *a, **k)), 'same result')
    return r


def s_values(ctx):
    """closure / plain / lambda / generator / recursive function; 0-2 positional and 0-2 keyword-only defaults, the
    global and closure values all leaves; protocol 2 or 4 (thorough 0-5); tracing on or off"""
    kind = ctx.choice('kind', ['closure', 'plain', 'lam', 'gen', 'rec'])
    f, ns = make(ctx, kind, 'no module', ctx.any('G'))
    nd = ctx.pick('defaults', 4)
    f.__defaults__ = None if nd == 3 else tuple(ctx.any('d%d' % i) for i in range(nd))
    nk = ctx.pick('kwdefaults', 4)
    f.__kwdefaults__ = None if nk == 3 else {('k%d' % i): ctx.any('kd%d' % i) for i in range(nk)}
    kw = dict(recurse=ctx.flag('recurse'))
    kw['protocol'] = ctx.choice('proto', range(6)) if ctx.tier == 'thorough' else 4
    check_copy(ctx, f, ns, kind, kw)


def s_attributes(ctx):
    """docstring (in the code or not), 0-2 annotations, 0-2 extra attributes (one not an identifier) all leaves; attribute dictionary a dict
    or a dict subclass; name and qualified name equal or not; protocols 0-5; tracing on or off"""
    kind = ctx.choice('kind', ['plain', 'doc'])
    f, ns = make(ctx, kind, 'no module', 5)
    f.__doc__ = ctx.any('doc')
    na = ctx.pick('annotations', 3)
    f.__annotations__ = {n: ctx.any('ann_' + n) for n in ['a', 'return'][:na]}
    nx = ctx.pick('attributes', 3)
    attrs = {n: ctx.any('attr_' + n.strip()) for n in ['x', ' y'][:nx]}
    sub = ctx.flag('dict subclass')
    f.__dict__ = collections.OrderedDict(attrs) if sub else dict(attrs)
    nm = ctx.choice('naming', ['same', 'other name', 'other qualname', 'both', 'lambda'])
    if nm in ('other name', 'both'):
        f.__name__ = 'renamed'
    if nm in ('other qualname', 'both'):
        f.__qualname__ = 'Some.where.<locals>.else_'
    if nm == 'lambda':
        f.__name__ = f.__qualname__ = '<lambda>'
    f.__defaults__, f.__kwdefaults__ = (1, 2), {'k0': 3, 'k1': 4}
    kw = dict(recurse=ctx.flag('recurse'), protocol=ctx.choice('proto', range(6) if ctx.tier == 'thorough' else (0, 4)))
    r = check_copy(ctx, f, ns, kind, kw)
    ctx.check(type(r.__dict__) is type(f.__dict__), 'attribute dictionary type')


def s_where(ctx):
    """every kind of function with no importable home: module missing, main program, name deleted or rebound in a live
    module, module known by another name than the one it records, local name, no module; symbolic default, attribute and global; protocols 0, 2, 4; tracing on or off;
    byref on or off"""
    kind = ctx.choice('kind', ['closure', 'plain', 'lam', 'gen', 'rec'])
    f, ns = make(ctx, kind, ctx.choice('where', WHERE), ctx.any('G'))
    f.__defaults__ = (ctx.any('d'), ctx.any('e'))[:1 if kind != 'plain' and kind != 'closure' else 2]
    f.__kwdefaults__ = {'k0': ctx.any('k0'), 'k1': 1}
    f.note = ctx.any('note')
    check_copy(ctx, f, ns, kind, dict(recurse=ctx.flag('recurse'), byref=ctx.flag('byref'),
                                      protocol=ctx.choice('proto', (0, 2, 4))))


def s_module(ctx):
    """__module__ equal to, different from or absent in the namespace's __name__; the namespace with or without a
    __name__; tracing on or off; protocols 0, 4"""
    ns = exec_def(SRC, __name__='zz_nomod', G=1)
    nsname = ctx.choice('namespace name', ['same', 'other', 'absent'])
    mod = ctx.choice('module', ['zz_nomod', 'zz_other', None])
    f = ns['plain']
    f.__module__ = mod
    if nsname == 'other':
        ns['__name__'] = 'zz_third'
    elif nsname == 'absent':
        del ns['__name__']
    f.note = ctx.any('note')
    ns['G'] = ctx.any('G')
    f.__defaults__, f.__kwdefaults__ = (1, 2), {'k0': 3, 'k1': 4}
    check_copy(ctx, f, ns, 'plain', dict(recurse=ctx.flag('recurse'), protocol=ctx.choice('proto', (0, 4))))


def s_shared_values(ctx):
    """one mutable value serving as default, attribute, annotation, closure value and global at once comes back as one"""
    v = [ctx.any('v')]
    ns = exec_def(SRC, __name__='zz_nomod', G=v)
    ns['G'] = v
    spots = [s for s in ('default', 'kwdefault', 'attribute', 'annotation', 'closure', 'global') if ctx.flag(s)]
    if len(spots) < 2:
        ctx.skip('nothing shared')
    f = ns['outer'](v if 'closure' in spots else 1, 2)
    f.__defaults__ = (v if 'default' in spots else 1, 2)
    f.__kwdefaults__ = {'k0': v if 'kwdefault' in spots else 1, 'k1': 2}
    if 'attribute' in spots:
        f.note = v
    if 'annotation' in spots:
        f.__annotations__['a'] = v
    if 'global' not in spots:
        ns['G'] = 1
    r = ctx.expect_ok('pickles', ctx.rt, f, recurse=ctx.flag('recurse'), protocol=4)
    got = {'default': lambda: r.__defaults__[0], 'kwdefault': lambda: r.__kwdefaults__['k0'],
           'attribute': lambda: r.note, 'annotation': lambda: r.__annotations__['a'],
           'closure': lambda: r.__closure__[0].cell_contents, 'global': lambda: r.__globals__['G']}
    vals = [got[s]() for s in spots]
    ctx.check(all(x is vals[0] for x in vals) and vals[0] is not v, 'one copy')
    ctx.check(ctx.eq(vals[0], v), 'value')


SCENARIOS = [
    Scenario('values', s_values, labels=('same result', 'copy __defaults__', 'copy __kwdefaults__', 'copy closure',
                                         'original namespace')),
    Scenario('attributes', s_attributes, labels=('copy __doc__', 'copy __annotations__', 'copy __dict__',
                                                 'attribute dictionary type', 'copy __qualname__')),
    Scenario('where', s_where, labels=('copy __module__', 'same result')),
    Scenario('module', s_module, labels=('copy __module__', 'same result')),
    Scenario('shared_values', s_shared_values, labels=('one copy', 'value')),
]
