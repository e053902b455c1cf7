"""C04: the namespace of a copied function"""
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'the functions that reach each other through globals share one namespace',
    'programs are generated from the symbolic choices and compiled by CPython; global values are opaque leaves (None, '
    '0, empty text, an empty tuple or one of unboundedly many truthy values)']

PLACES = ['none', 'direct', 'nested', 'deep', 'class', 'method', 'default', 'genexp', 'call', 'store', 'delete']


def ref(name, place, tag):
    """source lines of a function body that refer to a global"""
    return {
        'none': '',
        'direct': ' r.append(%s)\n' % name,
        'nested': ' def in_%s():\n  r.append(%s)\n in_%s()\n' % (tag, name, tag),
        'deep': ' def in_%s():\n  return lambda: (lambda: %s)\n r.append(in_%s()()())\n' % (tag, name, tag),
        'class': ' class C_%s(object):\n  a_%s = %s\n r.append(C_%s.a_%s)\n' % (tag, tag, name, tag, tag),
        'method': ' class C_%s(object):\n  def m(self):\n   return %s\n r.append(C_%s().m())\n' % (tag, name, tag),
        'default': ' def in_%s(a=%s):\n  return a\n r.append(in_%s())\n' % (tag, name, tag),
        'genexp': ' r.extend([%s for i_%s in (1,)])\n' % (name, tag),
        'call': ' r.append(len((%s,)))\n' % name,
        'store': ' global %s\n %s = r\n' % (name, name),
        'delete': ' global %s\n del %s\n' % (name, name),
    }[place]


WHERE = ['no module', 'live', 'main', 'copy of live', 'other module']


def namespace(ctx, where, **ns):
    """a namespace to define functions in; (dictionary, is it that of a live module)"""
    if where == 'live':
        d = ctx.module('zzlive').__dict__
    elif where == 'main':
        d = ctx.main.__dict__
    elif where == 'copy of live':
        m = ctx.module('zzlive')
        d = m.__dict__
    elif where == 'other module':
        ctx.module('zzother', x=1)
        d = {'__name__': 'zzother'}
    else:
        d = {'__name__': 'zz_nomod'}
    d.update(ns)
    if where == 'copy of live':
        d = dict(d)
    return d, where in ('live', 'main')


def define(src, d, *names):
    """compile functions that are not found by their names (they are locals of a maker)"""
    code = 'def maker():\n' + ''.join(' ' + l + '\n' for l in src.splitlines()) + ' return %s\n' % ', '.join(names)
    exec(compile(code, '<sx>', 'exec'), d)
    fs = d.pop('maker')()
    return fs if len(names) > 1 else (fs,)


def fname(v):
    return ('function', v.__name__, v.__code__) if isinstance(v, types.FunctionType) else v


HIDDEN = ('__builtins__',)


def check_ns(ctx, r, f, before, live, recurse, need, traced=True):
    """the namespace of the copy r of f; need: the names that f reaches"""
    ns = r.__globals__
    if not recurse:
        if live:
            ctx.check(ns is f.__globals__, 'shares the live namespace')
        else:
            ctx.check(ns is not f.__globals__, 'copies the namespace')
            ctx.check(set(ns) - set(HIDDEN) == set(before) - set(HIDDEN), 'whole namespace',
                      detail='%s for %s' % (sorted(set(ns) - set(HIDDEN)), sorted(set(before) - set(HIDDEN))))
            for k in sorted(set(before) - set(HIDDEN)):
                ctx.check(ctx.eq(fname(ns[k]), fname(before[k])), 'value in the copied namespace')
    else:
        ctx.check(ns is not f.__globals__, 'own namespace')
        want = set(k for k in need if k in before)
        got = set(ns) - set(HIDDEN) - {'__name__'}
        ctx.check(want <= got, 'every global it reaches', detail='missing %s' % sorted(want - got))
        ctx.check(not any(k in before for k in got - want), 'no other global',
                  detail='extra %s' % sorted(k for k in got - want if k in before))
        for k in sorted(want):
            ctx.check(ctx.eq(fname(ns[k]), fname(before[k])), 'value of a traced global')
    ctx.check('__builtins__' in ns and r.__builtins__['len'] is len, 'builtins')


def dump_copy(ctx, f, recurse, how):
    if how == 'setting':
        ctx.dill.settings['recurse'] = recurse
        return ctx.expect_ok('pickles', ctx.rt, f)
    return ctx.expect_ok('pickles', ctx.rt, f, recurse=recurse)


def names_of(edges, start):
    """names reached from the functions in start"""
    out, todo, seen = set(), list(start), set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for t in edges.get(f, ()):
            out.add(t)
            if t in edges:
                todo.append(t)
    return out


def s_places(ctx):
    """one function referring to two globals and a function, each from any of 11 places of its body (direct, nested,
    twice nested, class body, method, default, generator, argument, store, delete, not at all), whose callee refers to
    a third global; 5 kinds of namespaces; tracing on"""
    where = ctx.choice('where', WHERE if ctx.tier != 'quick' else WHERE[:3])
    px = ctx.choice('place x', PLACES)
    pg = ctx.choice('place g', [p for p in PLACES if p not in ('call', 'store', 'delete')])
    d, live = namespace(ctx, where, x=ctx.any('x'), y=ctx.any('y'), z=ctx.any('z'))
    exec(compile('def g():\n return y\n', '<sx>', 'exec'), d)
    f, = define('def f():\n r = []\n' + ref('x', px, 'x') + ref('g', pg, 'g') + ' return r\n', d, 'f')
    before = dict(d)
    r = dump_copy(ctx, f, True, 'keyword')
    need = names_of({'f': (['x'] if px != 'none' else []) + (['g'] if pg != 'none' else []), 'g': ['y']}, ['f'])
    check_ns(ctx, r, f, before, live, True, need)
    ctx.check(list(d) == list(before) and ctx.land(*[ctx.eq(fname(d[k]), fname(before[k])) for k in 'xyz']),
              'original namespace unchanged')
    a = [v() if isinstance(v, types.FunctionType) else v for v in f()]
    d.update(before)
    b = ctx.expect_ok('copy runs', r)
    b = [v() if isinstance(v, types.FunctionType) else v for v in b]
    ctx.check(ctx.eq(a, b), 'same result')


def s_cycles(ctx):
    """three functions, each calling any of the three (2^9 call graphs) and reading one global of its own; the dumped
    function is one of them or a local function calling any of them; namespace of no module, of a live one or the
    main program's; tracing on"""
    where = ctx.choice('where', WHERE[:3] if ctx.tier != 'quick' else WHERE[:2])
    n = 3
    edges = {}
    src = ''
    for i in range(n):
        t = [j for j in range(n) if ctx.flag('call%d%d' % (i, j))]
        edges['f%d' % i] = ['f%d' % j for j in t] + ['v%d' % i]
        src += 'def f%d(n):\n return (v%d, %s)\n' % (i, i, ' '.join('f%d(n - 1) if n else 0,' % j for j in t))
    d, live = namespace(ctx, where, **{'v%d' % i: ctx.any('v%d' % i) for i in range(n)})
    d['unused'] = 5
    exec(compile(src, '<sx>', 'exec'), d)
    f, = define('def h(n):\n return f0(n)\n', d, 'h')
    edges['h'] = ['f0']
    before = dict(d)
    r = dump_copy(ctx, f, True, 'keyword')
    check_ns(ctx, r, f, before, live, True, names_of(edges, ['h']))
    ctx.check(ctx.eq(r(2), f(2)), 'same result')


def s_closures(ctx):
    """a function with two cells, each empty, holding a leaf, another function, itself, a function of no name or a bound method; those
    functions refer to further globals; tracing on, or off in a namespace of no module"""
    where = ctx.choice('where', WHERE[:2])
    recurse = ctx.flag('recurse')
    d, live = namespace(ctx, where, **{k: ctx.any(k) for k in ('x', 'y', 'z', 'u')})
    d['w'] = 7
    exec(compile('def g():\n return x\n' + (
        'class K(object):\n def m(self):\n  return y\n' if live else ''), '<sx>', 'exec'), d)
    kinds = ['empty', 'leaf', 'function', 'self', 'local'] + (['method'] if live else [])
    c = [ctx.choice('cell%d' % i, kinds) for i in range(2)]
    f, loc, mk = define('def f(n):\n return z, (c0, c1) if 0 else 0\ndef loc():\n return g(), u\n'
                        'def mk(c0, c1):\n def f(n):\n  return z\n  return c0, c1\n return f\n', d, 'f', 'loc', 'mk')
    f = mk(0, 0)
    need = {'z'}
    edges = {'loc': ['g', 'u'], 'g': ['x']}
    for i, kind in enumerate(c):
        cell = f.__closure__[i]
        if kind == 'empty':
            del cell.cell_contents
        elif kind == 'leaf':
            cell.cell_contents = ctx.any('leaf%d' % i)
        elif kind == 'function':
            cell.cell_contents = d['g']
            need |= {'x'}
        elif kind == 'self':
            cell.cell_contents = f
        elif kind == 'method':
            cell.cell_contents = d['K']().m
            need |= {'y'}
        elif kind == 'local':
            cell.cell_contents = loc
            need |= names_of(edges, ['loc'])
    before = dict(d)
    r = dump_copy(ctx, f, recurse, 'keyword')
    check_ns(ctx, r, f, before, live, recurse, need)
    ctx.check(ctx.eq(r(1), f(1)), 'same result')
    for i, kind in enumerate(c):
        if kind == 'local':
            ctx.check(ctx.eq(r.__closure__[i].cell_contents(), loc()), 'same result of the closure')
        if kind == 'self':
            ctx.check(r.__closure__[i].cell_contents is r, 'closes over itself')


def s_whole(ctx):
    """tracing off, by keyword or by setting: a function with any module name (that of its namespace, another live
    module's, a missing one's or none) in any of 5 kinds of namespaces, with 3 global values and another function"""
    where = ctx.choice('where', WHERE)
    how = ctx.choice('how', ['keyword', 'setting'])
    recurse = ctx.flag('recurse')
    d, live = namespace(ctx, where, **{k: ctx.any(k) for k in ('x', 'y', 'z')})
    f, d['g'] = define('def f():\n return x, g(), len\ndef k():\n return y\n', d, 'f', 'k')
    before = dict(d)
    r = dump_copy(ctx, f, recurse, how)
    check_ns(ctx, r, f, before, live, recurse, {'x', 'y', 'g'})
    a, b = f(), ctx.expect_ok('copy runs', r)
    ctx.check(ctx.eq(a, b), 'same result')
    # a later change of the original namespace shows in the copy exactly if it is shared
    new = ctx.leaf('new')
    old = f.__globals__['x']
    f.__globals__['x'] = new
    ctx.check(ctx.eq(r()[0], new if live and not recurse else old), 'shares changes exactly if live')


def s_shared(ctx):
    """two functions of one namespace in one pickle, one reachable from the other or not, tracing on or off"""
    where = ctx.choice('where', WHERE[:3])
    recurse = ctx.flag('recurse')
    d, live = namespace(ctx, where, **{k: ctx.any(k) for k in ('x', 'y')})
    fg, gf = ctx.flag('f calls g'), ctx.flag('g calls f')
    exec(compile('def f(n):\n return x, %s\ndef g(n):\n return y, %s\n' % (
        'g(n - 1) if n else 0' if fg else '0', 'f(n - 1) if n else 0' if gf else '0'), '<sx>', 'exec'), d)
    f, g = d['f'], d['g']
    f.__qualname__ = g.__qualname__ = 'here.<locals>.it'        # not found by name
    order = [f, g] if ctx.flag('order') else [g, f]
    before = dict(d)
    r = ctx.expect_ok('pickles', ctx.rt, order + order, recurse=recurse)
    ctx.check(r[0] is r[2] and r[1] is r[3] and r[0] is not r[1], 'one copy of each')
    edges = {'f': ['x'] + (['g'] if fg else []), 'g': ['y'] + (['f'] if gf else [])}
    for a, b in zip(order, r):
        check_ns(ctx, b, a, before, live, recurse, names_of(edges, [a.__name__]))
        ctx.check(ctx.eq(b(2), a(2)), 'same result')


SCENARIOS = [
    Scenario('places', s_places, labels=('every global it reaches', 'no other global', 'value of a traced global',
                                         'same result', 'builtins')),
    Scenario('cycles', s_cycles, labels=('pickles', 'every global it reaches', 'same result')),
    Scenario('closures', s_closures, labels=('every global it reaches', 'whole namespace', 'shares the live namespace',
                                             'same result of the closure')),
    Scenario('whole', s_whole, labels=('whole namespace', 'shares the live namespace', 'copies the namespace',
                                       'shares changes exactly if live')),
    Scenario('shared', s_shared, labels=('one copy of each', 'same result')),
]
