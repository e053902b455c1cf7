"""C17: introspection of functions"""
import ast
import symtable
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'names are those the symbol tables of the compiler report; a name a class body both binds and reads may be reported '
    'as a global or not, since the read falls back to the global scope',
    'functions reached in another namespace may add their names or not, but only with the object bound there']

# ------------------------------------------------------------------ names
# statements that may stand in any function body
PIECES = {
    'load': 'ga',
    'call': 'ga(gb)',
    'attribute': 'la = p.gx',
    'attribute of a global': 'ga.gx = 1',
    'store': 'global gs\n gs = 1',
    'delete': 'global gd\n del gd',
    'augmented': 'global gs\n gs += 1',
    'local': 'la = 1\n la',
    'local like a builtin': 'len = p\n len',
    'builtin': 'len(p)',
    'nested': 'def inner(q):\n  return ga + q',
    'nested store': 'def inner():\n  global gs\n  gs = 1',
    'nested twice': 'def inner():\n  def deep(r):\n   return gb\n  return deep',
    'nested deep': 'def inner():\n  def deep():\n   def deeper():\n    def deepest():\n     return gb',
    'nested lambdas': 'la = lambda: lambda: lambda: lambda: ga',
    'closure': 'lc = 1\n def inner():\n  return lc',
    'nonlocal': 'lc = 1\n def inner():\n  nonlocal lc\n  lc = ga',
    'parameter in a closure': 'def inner():\n  return p',
    'lambda': 'la = lambda q=ga: gb',
    'default': 'def inner(q=ga, *, r=gb):\n  return q',
    'annotation': 'def inner(q: ga) -> gb:\n  return q',
    'decorated': '@ga\n def inner():\n  return 1',
    'list of': 'la = [ga(x) for x in p if gb]',
    'set of': 'la = {x for x in gb}',
    'dict of': 'la = {x: y for x in p for y in x}',
    'generated': 'la = list(ga(x) for x in gb)',
    'nested comprehension': 'la = [[gb for y in x] for x in p]',
    'lambda in a comprehension': 'la = [lambda: ga for x in p]',
    'comprehension of a cell': 'la = [lambda: x for x in p]',
    'class': 'class K(ga):\n  a = gb',
    'class and method': 'class K(object):\n  def m(self):\n   return ga.gx',
    'class with super': 'class K(object):\n  def m(self):\n   return super().m()',
    'class binds': 'class K(object):\n  ga = 1\n  b = ga',
    'class reads a cell': 'lc = 1\n class K(object):\n  a = lc',
    'class declares': 'class K(object):\n  global gs\n  gs = 1',
    'class with annotations': 'class K(object):\n  a: ga = gb',
    'import': 'import gm',
    'import as': 'from os import path as la',
    'import global': 'global gs\n import gs',
    'handler': 'try:\n  ga\n except gb as la:\n  pass',
    'context': 'with ga as la:\n  pass',
    'loop': 'for la in gb:\n  pass',
    'loop over a global': 'global gs\n for gs in p:\n  pass',
    'walrus': 'if (la := ga):\n  pass',
    'walrus in a comprehension': 'lb = [(la := x) for x in gb]',
    'text': "la = f'{ga!r:{gb}}'",
    'constant text': "la = 'gz'",
    'docstring': "'gz'",
    'match': 'match p:\n  case ga.gx:\n   pass\n  case la:\n   pass',
    'generic': 'def inner[T](q: T) -> ga:\n  return gb',
    'generic class': 'class K[T](ga):\n  a: T = gb',
    'alias': 'type A[T] = ga[T]',
    'keyword': 'p(gk=ga, **gb)',
    'slice': 'p[ga:gb]',
    'unpacking': 'la, *lb = ga',
    'assertion': 'assert ga, gb',
    'many constants': 'la = [%s]' % ','.join("'c%d'" % i for i in range(300)),
    'many names': '%s\n glast' % ';'.join('p.n%d' % i for i in range(300)),
    'async': 'async def inner():\n  async for x in ga:\n   await gb',
    'generator': 'yield ga',
    'star': 'print(*ga)',
}
HOW = ['function', 'method', 'code', 'class method', 'nested code', 'lambda code']


def body(pieces):
    out = 'def f(p):\n'
    declared = [l for c in pieces for l in PIECES[c].split('\n') if l.strip().startswith('global') and not l.startswith('  ')]
    for l in dict.fromkeys(x.strip() for x in declared):
        out += ' %s\n' % l
    for c in pieces:
        lines = PIECES[c].split('\n')
        lines[0] = ' ' + lines[0].strip()
        for l in lines:
            if l.strip().startswith('global') and not l.startswith('  '):
                continue
            out += l + '\n'
    return out + ' return p\n'


def tables(t):
    """(names used as globals by the code of this table alone, names optional in it, tables of the codes nested in it)"""
    own, free, subs = set(), set(), []
    kind = str(t.get_type()).rpartition('.')[2].lower()
    if kind == 'class':
        free |= {'__name__', '__annotations__'}          # the compiler reads them
    for s in t.get_symbols():
        n = s.get_name()
        if s.is_global() and (s.is_referenced() or s.is_assigned() or s.is_imported() or s.is_declared_global()):
            own.add(n)
        elif kind == 'class' and s.is_local() and s.is_referenced():
            free.add(n)
    for c in t.get_children():
        if c.get_name() in ('listcomp', 'setcomp', 'dictcomp') and kind != 'class':
            o, f, s = tables(c)         # compiled into the function since 3.12
            own |= o
            free |= f
            subs += s
        else:
            subs.append(c)
    return own, free, subs


def expected(t, recurse):
    own, free, subs = tables(t)
    n = len(subs)
    for c in subs:
        o, f, m = expected(c, True)
        if recurse:
            own |= o
            free |= f
            n += m
    return own, free - own, n


def codes(co):
    out = []
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            out += [c] + codes(c)
    return out


def s_names(ctx):
    """functions out of any of 59 statements, or any two (quick: the second any of 9), as a function, method, class
    method, code object; recursing or not, against the symbol tables of the compiler"""
    D = ctx.dill.detect
    names = list(PIECES)
    first = ctx.choice('first', names)
    few = ['load', 'store', 'closure', 'nested', 'class and method', 'list of', 'parameter in a closure', 'lambda', 'many names']
    second = ctx.choice('second', ['none'] + (few if ctx.tier == 'quick' else names))
    pieces = [first] if second in ('none', first) else [first, second]
    text = body(pieces)
    try:
        whole = compile(text, '<sx>', 'exec')
        t = symtable.symtable(text, '<sx>', 'exec').get_children()[0]
    except SyntaxError:
        ctx.skip('no valid function')
    co = next(c for c in whole.co_consts if isinstance(c, types.CodeType))
    how = ctx.choice('how', ['function', 'method', 'code', 'bound class method', 'frame'] if second == 'none' else ['function'])
    f = types.FunctionType(co, {}, argdefs=(1,))
    arg = f
    if how == 'method':
        arg = types.MethodType(f, 5)
    elif how == 'code':
        arg = co
    elif how == 'bound class method':
        arg = type('K', (), {'f': classmethod(f)}).f
    elif how == 'frame':
        g = (lambda: (yield 1))()
        arg, co = g.gi_frame, g.gi_code
        t = None
    recurse = ctx.flag('recurse')
    if t is not None:
        own, free, n = expected(t, recurse)
        got = ctx.expect_ok('global names', D.nestedglobals, arg, recurse)
        ctx.check(len(got) == len(set(got)), 'no name twice')
        ctx.check(own <= set(got), 'every global name', detail='%s missing in %s' % (sorted(own - set(got)), first))
        ctx.check(set(got) <= own | free, 'no other name', detail='%s in %s' % (sorted(set(got) - own - free), first))
    want = codes(co) if recurse else [c for c in co.co_consts if isinstance(c, types.CodeType)]
    got = ctx.expect_ok('nested code', D.nestedcode, arg, recurse)
    ctx.check(len(got) == len(want) and all(any(g is w or g == w for w in want) for g in got), 'every nested code',
              detail='%r for %r' % (got, want))
    got = ctx.expect_ok('variable names', D.varnames, arg)
    ctx.check(got == (co.co_varnames, co.co_cellvars), 'variable names')
    if t is not None:
        args = set(t.get_parameters()) | set(t.get_locals())
        ctx.check(set(got[0]) | set(got[1]) >= {s for s in args}, 'variable names')
    ctx.check(D.code(arg) is co, 'its code')
    if how in ('function', 'method', 'code', 'bound class method'):
        import builtins
        for asked in (False, True):     # nothing is bound in its namespace
            got = ctx.expect_ok('globals', D.globalvars, arg, recurse, asked)
            want = {n for n in own if hasattr(builtins, n)} if asked else set()
            more = {n for n in own | free if hasattr(builtins, n)} if asked else set()
            ctx.check(want <= set(got) <= more, 'builtins when asked for', detail='%r for %r' % (sorted(got), sorted(want)))
            ctx.check(all(got[n] is getattr(builtins, n) for n in got), 'with their objects')


def s_free(ctx):
    """functions with 3 closure names, each of whose cells is filled (with any value) or empty; as function or method;
    without closure; 9 kinds of objects without code"""
    D = ctx.dill.detect
    what = ctx.choice('what', ['function', 'method', 'none', 'builtin', 'class', 'instance', 'number', 'partial', 'module', 'nothing',
                               'callable', 'code'])
    cells = [types.CellType() for _ in range(3)]
    want = {}
    ns = {}
    exec('def make(a, b, c):\n def f():\n  return c, a, b\n return f\ndef g(x): return len(x)\n', ns)
    base = ns['make'](0, 0, 0)
    if what in ('function', 'method'):
        for i, n in enumerate(base.__code__.co_freevars):
            if ctx.flag('filled' + n):
                want[n] = cells[i].cell_contents = ctx.any(n)
        f = types.FunctionType(base.__code__, {}, 'f', None, tuple(cells))
        arg = types.MethodType(f, 5) if what == 'method' else f
        got = ctx.expect_ok('free variables', D.freevars, arg)
        ctx.check(set(got) == set(want), 'exactly the filled ones', detail='%r for %r' % (sorted(got), sorted(want)))
        ctx.check(ctx.land(*[ctx.same(got[n], want[n]) for n in want]), 'with their values')
        return
    import functools

    class C(object):
        def __call__(self):
            return ga                   # noqa
    arg = {'none': ns['g'], 'builtin': len, 'class': C, 'instance': object(), 'number': 5, 'partial': functools.partial(base),
           'module': types, 'nothing': None, 'callable': C(), 'code': base.__code__}[what]
    ctx.check(ctx.expect_ok('free variables', D.freevars, arg) == {}, 'nothing free')
    if what not in ('none', 'code'):
        ctx.check(ctx.expect_ok('variable names', D.varnames, arg) == (), 'empty answers')
        ctx.check(ctx.expect_ok('nested code', D.nestedcode, arg) == [], 'empty answers')
        ctx.check(ctx.expect_ok('global names', D.nestedglobals, arg) == [], 'empty answers')
        ctx.check(ctx.expect_ok('globals', D.globalvars, arg, True, True) == {}, 'empty answers')
        ctx.check(list(ctx.expect_ok('globals', D.referredglobals, arg)) == [], 'empty answers')
        ctx.check(D.code(arg) is None, 'empty answers')


def s_made(ctx):
    """functions inside of a function, made by up to 2 calls of it, kept or dropped in 6 forms, renamed or not; recursing or
    not"""
    import gc
    D = ctx.dill.detect
    ns = {}
    exec(MADE, ns)
    how = ctx.choice('how', ['function', 'method', 'code'])
    base = ns['outer']
    arg = {'function': base, 'method': types.MethodType(base, 5), 'code': base.__code__}[how]
    kept, want = [], {}
    recurse = ctx.flag('recurse')
    for i in range(2):
        if not ctx.flag('called%d' % i):
            continue
        fs = base(i)                    # [function, lambda, class with a method, function of a function, generator]
        keep = ctx.choice('keep%d' % i, ['none', 'function', 'lambda', 'method', 'inner', 'all'])
        if i == 0 and ctx.flag('renamed'):  # as functools.wraps does
            fs[0].__name__ = fs[0].__qualname__ = 'other'
        for name, f, deep in (('function', fs[0], False), ('lambda', fs[1], False), ('method', fs[2].m, True), ('inner', fs[3](), True)):
            if keep in (name, 'all'):
                kept.append(f)
                if recurse or not deep:
                    want[id(f)] = f
        if keep in ('inner', 'all'):
            want[id(fs[3])] = fs[3]     # its cell keeps it
            kept.append(fs[3])
        if keep == 'all':
            kept.append(fs[2])
        f = fs = None
    f = name = None
    gc.collect()
    got = ctx.expect_ok('functions inside', D.referrednested, arg, recurse)
    ctx.check(len(got) == len({id(g) for g in got}), 'no function twice')
    got = {id(g): g for g in got if isinstance(g, types.FunctionType)}
    ctx.check(set(want) == set(got), 'the living functions inside', detail='%r for %r' % (list(got.values()), list(want.values())))


MADE = '''
def outer(n):
    def first(x):
        return n + x
    class C(object):
        def m(self):
            return n
    def second():
        def inner():
            return second
        return inner
    return [first, lambda: n, C, second]
def other():
    def first(x):
        return x
    return first
alive = other()
'''


# ------------------------------------------------------------- global objects
def s_objects(ctx):
    """3 functions in one namespace, each referring to any subset of the three, a value and a builtin, directly, in
    nested code or through a cell; values any; recursing or not; builtins asked for or not; names bound or not"""
    D = ctx.dill.detect
    n = 3
    ns = {'va': ctx.any('va'), 'vb': ctx.any('vb'), 'vc': ctx.any('vc'), 'unused': 1}
    names = ['va', 'vb', 'vc']
    fs, refs = [], []
    for i in range(n):
        r = []
        for j in range(n):
            if i != j or ctx.tier != 'quick' or i == 0:
                r.append(ctx.choice('f%d%d' % (i, j), ['no', 'name', 'cell'] if i == 0 else ['no', 'name'] if j != 2 or ctx.tier == 'quick'
                                    else ['no', 'name', 'cell']))
            else:
                r.append('no')
        refs.append(r)
    nested = ctx.flag('nested')
    has_builtin = ctx.choice('builtin in', [0, 1, 2] if ctx.tier != 'quick' else [0, 1])
    shadow = ctx.flag('shadowed') if not nested or ctx.tier != 'quick' else False
    if shadow:
        ns['len'] = 5
    cells = [[types.CellType() for _ in range(n)] for _ in range(n)]
    for i in range(n):
        parts = [names[i]] + ['f%d' % j for j in range(n) if refs[i][j] == 'name'] + ['missing.len2']
        if i == has_builtin:
            parts.append('len')
        free = [j for j in range(n) if refs[i][j] == 'cell']
        inner = 'c%s, ' % ', c'.join(map(str, free)) if free else ''
        text = 'def make(%s):\n def f():\n' % ', '.join('c%d' % j for j in free)
        if nested:
            text += '  def g():\n   return %s%s\n  return g\n return f\n' % (inner, ', '.join(parts))
        else:
            text += '  return %s%s\n return f\n' % (inner, ', '.join(parts))
        tmp = {}
        exec(text, tmp)
        co = next(c for c in tmp['make'].__code__.co_consts if isinstance(c, types.CodeType))
        f = types.FunctionType(co, ns, 'f%d' % i, None, tuple(cells[i][int(v[1:])] for v in co.co_freevars))
        fs.append(f)
        ns['f%d' % i] = f
    for i in range(n):
        for j in range(n):
            cells[i][j].cell_contents = fs[j] if (i + j) % 2 else types.MethodType(fs[j], 5)
    recurse = ctx.flag('recurse')
    builtin = ctx.flag('builtin') if recurse or ctx.tier != 'quick' else True
    reached, todo = [], [0]
    while todo:
        i = todo.pop()
        if i in reached:
            continue
        reached.append(i)
        for j in range(n):
            if refs[i][j] == 'cell' or refs[i][j] == 'name' and recurse:
                todo.append(j)
    want = set()
    if recurse or not nested:
        for i in reached:
            want |= {names[i]} | {'f%d' % j for j in range(n) if refs[i][j] == 'name'}
            if i == has_builtin and (builtin or shadow):
                want.add('len')
    got = ctx.expect_ok('globals', D.globalvars, fs[0], recurse, builtin)
    ctx.check(set(got) == want, 'exactly those', detail='%r for %r' % (sorted(got), sorted(want)))
    ctx.check(ctx.land(*[ctx.same(got[k], ns[k]) if k in ns else got[k] is len for k in want]), 'with their objects')
    ctx.check(set(ctx.expect_ok('globals', D.referredglobals, fs[0], recurse, builtin)) == want, 'the same names')


def s_scopes(ctx):
    """functions of two namespaces that bind the same names to different values or the same; reached by name, by cell
    or both, in any order; recursing"""
    D = ctx.dill.detect
    a, b = ctx.leaf('a'), ctx.leaf('b')
    ctx.assume(ctx.lnot(ctx.eq(a, b)))
    A, B = {'y': a}, {'y': b}
    own = ctx.flag('f uses y')
    back = ctx.choice('g calls', ['nothing', 'h by name', 'h by cell'])
    if ctx.flag('z in B'):
        B['z'] = b
    if ctx.flag('y missing in A'):
        del A['y']
    tmp = {}
    exec('def mk(c):\n def f_(): return (g, h, c)\n def fy_(): return (g, h, c, y)\n def gc_(): return y, c\n return f_, fy_, gc_\n'
         'def f1_(): return g, h\ndef fy1_(): return g, h, y\n'
         'def g_(): return y, z\ndef gn_(): return y, z, hh\ndef h_(): return y\n', tmp)
    cell = types.CellType()
    code = {f.__name__[:-1]: f.__code__ for f in tmp['mk'](1) + tuple(tmp[k] for k in tmp if k[-1] == '_' and k[0] != '_')}

    def fun(name, ns):
        co = code[name]
        return types.FunctionType(co, ns, name, None, tuple(cell for _ in co.co_freevars))
    h = fun('h', A)
    g = fun({'nothing': 'g', 'h by name': 'gn', 'h by cell': 'gc'}[back], B)
    B['hh'] = h
    by = ctx.choice('f calls', ['g by name', 'g by cell'])
    if back == 'h by cell':
        ctx.assume(by == 'g by name')
        cell.cell_contents = h
    else:
        cell.cell_contents = g
    if by == 'g by name':
        A['g'] = g
    if ctx.flag('h by name'):
        A['h'] = h
    f = fun(('fy' if own else 'f') + ('1' if by == 'g by name' else ''), A)
    got = ctx.expect_ok('globals', D.globalvars, f, True, False)
    must = {k for k in ('g', 'h') if k in A}
    if own or 'h' in A:
        must |= {'y'} & set(A)
    ctx.check(must <= set(got), 'every name of its own namespace', detail='%r for %r' % (sorted(got), sorted(must)))
    ctx.check(set(got) <= must | {'y', 'z', 'hh', 'g', 'h'}, 'no other name')
    for k in got:
        if k in must:
            ctx.check(ctx.same(got[k], A[k]), 'bound here')
        else:
            # h and f live in A, g in B
            reached_h = back != 'nothing'
            ctx.check(ctx.lor(k in B and ctx.same(got[k], B[k]), reached_h and k in A and ctx.same(got[k], A[k])), 'bound there')


SCENARIOS = [
    Scenario('made', s_made, labels=('the living functions inside', 'no function twice')),
    Scenario('names', s_names, labels=('every global name', 'no other name', 'builtins when asked for', 'every nested code', 'variable names')),
    Scenario('free', s_free, labels=('exactly the filled ones', 'with their values', 'empty answers')),
    Scenario('objects', s_objects, labels=('exactly those', 'with their objects')),
    Scenario('scopes', s_scopes, labels=('every name of its own namespace', 'bound here', 'bound there')),
]
