"""C01: code objects"""
import pickle
import sys
import types

from sx.api import Scenario, exec_def

ASSUMPTIONS = [
    'the interpreter constructor of code objects is modelled as storing each positional argument in its field '
    '(validated on the real constructor by the path models)',
]

# the documented positional order of the constructor on CPython 3.11 and later
ORDER = ('argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name '
         'qualname firstlineno linetable exceptiontable freevars cellvars').split()
L311 = list(ORDER)
LPYPY = [f for f in ORDER if f != 'exceptiontable']
L310 = [f for f in LPYPY if f != 'qualname']
L37 = [f if f != 'linetable' else 'lnotab' for f in L310 if f != 'posonlyargcount']
L311A = ORDER[:15] + ['endlinetable', 'columntable'] + ORDER[15:]
BYTES = ('code', 'linetable', 'exceptiontable', 'lnotab', 'endlinetable', 'columntable')


class Code(object):
    """stands for a code object whose fields are symbolic"""
    __sx_native_type__ = types.CodeType
    co_lnotab = b''


def construct(*args):
    if len(args) != len(ORDER):
        raise TypeError('code expected %d arguments, got %d' % (len(ORDER), len(args)))
    c = Code()
    for k, v in zip(ORDER, args):
        setattr(c, 'co_' + k, v)
    return c


def model_code(ctx):
    if ctx.sym:
        from sx.instrument import ENVIRONMENT
        ENVIRONMENT[types.CodeType] = construct
        ctx.on_exit(lambda: ENVIRONMENT.pop(types.CodeType))
        for c in (ctx.dill.Pickler, pickle._Pickler):
            if types.CodeType in c.dispatch:
                c.dispatch[Code] = c.dispatch[types.CodeType]


def names(ctx, prefix, n):
    return tuple(prefix + ctx.str('%s%d' % (prefix, i), 1, alphabet='abc') for i in range(n))


def fields(ctx, small=False, table=True):
    """symbolic field values that the real constructor accepts"""
    f = {}
    deep = ctx.tier == 'thorough'

    def count(name, n):
        return ctx.pick(name, n) if not small or deep else n - 1
    nv = count('nvars', 3)
    f['argcount'] = ctx.int('argcount', 0, 2)
    f['posonlyargcount'] = ctx.int('posonly', 0, 2)
    f['kwonlyargcount'] = ctx.int('kwonly', 0, 1)
    ctx.assume(f['posonlyargcount'] <= f['argcount'])
    ctx.assume(f['argcount'] + f['kwonlyargcount'] <= nv)
    f['nlocals'] = nv
    f['stacksize'] = ctx.int('stacksize', 1, 1000)
    f['flags'] = ctx.int('flags', 0, 2 ** 26)
    n = 1 if small else 1 + count('ninstr', 2)
    f['code'] = b''
    for i in range(n):
        f['code'] = f['code'] + ctx.bytes('op%d' % i, 1, alphabet=(9, 1, 121)) + ctx.bytes('arg%d' % i, 1, alphabet=range(128))
    f['consts'] = tuple(ctx.any('const%d' % i) for i in range(count('nconsts', 3)))
    f['names'] = names(ctx, 'g', count('nnames', 3))
    f['varnames'] = names(ctx, 'v', nv)
    ctx.assume(ctx.lnot(ctx.eq(f['varnames'][0], f['varnames'][1])) if nv == 2 else True)
    f['filename'] = '<' + ctx.str('filename', 1, alphabet='abc') + '>'
    f['name'] = ctx.str('name', 2, lo=33, hi=126)
    f['qualname'] = ctx.str('qualname', 3, lo=33, hi=126)
    f['firstlineno'] = ctx.int('firstlineno', 0, 2 ** 31 - 1)
    f['linetable'] = not table or ctx.bytes('linetable', 1 if small and not deep else (0, 2), alphabet=range(128))
    f['exceptiontable'] = ctx.bytes('exctable', (1, 2) if small and not deep else (0, 2), alphabet=range(128))
    f['freevars'] = names(ctx, 'f', count('nfree', 2))
    f['cellvars'] = names(ctx, 'c', count('ncell', 2))
    return f


class Recorded(object):
    """a code object as another interpreter wrote it"""
    def __init__(self, make, args):
        self.make, self.args = make, args

    def __reduce__(self):
        return self.make, self.args


def s_roundtrip(ctx):
    """all 18 fields symbolic: integers within the constructor's range, 1-2 instructions, 0-2 constants (arbitrary
    leaves), names and variables of symbolic text, 0-1 free and cell variables, 0-2 byte tables; protocols 0-5"""
    model_code(ctx)
    f = fields(ctx, table=False)
    # a well-formed line table for the real interpreter: one entry covering the whole code
    f['linetable'] = b'\xf8' + ctx.bytes('lt', 1, alphabet=range(64))
    p = ctx.choice('proto', range(6) if ctx.tier == 'thorough' else (0, 2, 4))
    if ctx.sym:
        c = construct(*[f[k] for k in ORDER])
        c.co_lnotab = ctx.bytes('lnotab', 1, alphabet=range(128))
    else:
        c = types.CodeType(*[f[k] for k in ORDER])
    if ctx.flag('twice'):
        r = ctx.expect_ok('pickles', ctx.rt, [c, c], protocol=p)
        ctx.check(r[0] is r[1], 'shared')
        r = r[0]
    else:
        r = ctx.expect_ok('pickles', ctx.rt, c, protocol=p)
    ctx.check(type(r) is type(c), 'type')
    for k in ORDER:
        ctx.check(ctx.eq(getattr(r, 'co_' + k), f[k]), k)


LAYOUTS = {'3.11': L311, 'pypy3.11': LPYPY, '3.10': L310, '3.7': L37, '3.11a': L311A}


def s_layouts(ctx):
    """the 15-, 16-, 17-, 18- and 20-field layouts, with or without the legacy line table in front, byte fields as
    bytes or as text (independently for code, tables and legacy table), every field symbolic"""
    model_code(ctx)
    lay = ctx.choice('layout', sorted(LAYOUTS))
    f = fields(ctx, small=True)
    f['lnotab'] = ctx.bytes('lnotab', 1, alphabet=range(128))
    f['endlinetable'] = ctx.bytes('endlt', 1, alphabet=range(128))
    f['columntable'] = ctx.bytes('collt', 1, alphabet=range(128))
    lead = ctx.choice('leading', ['no', 'bytes', 'text', 'empty'])
    text = ctx.choice('text', ['none', 'code', 'tables', 'all'])
    args = []
    for k in LAYOUTS[lay]:
        v = f[k]
        if k in BYTES and (text == 'all' or (k == 'code') == (text == 'code') and text != 'none'):
            v = v.decode('latin-1')
        args.append(v)
    if lead != 'no':
        x = ctx.bytes('lead', 1, alphabet=range(128))
        args.insert(0, x if lead == 'bytes' else x.decode('latin-1') if lead == 'text' else b'')
    d = ctx.dill
    s = ctx.expect_ok('dumps', d.dumps, Recorded(d._dill._create_code, tuple(args)))
    r = ctx.expect_ok('loads', d.loads, s)
    ctx.check(type(r) is (Code if ctx.sym else types.CodeType), 'type')
    for k in ORDER:
        got = getattr(r, 'co_' + k)
        if k in LAYOUTS[lay]:
            if k == 'linetable' and lay == '3.10' and lead == 'no':
                # not told apart from 3.8, where this place held the legacy table
                ctx.check(ctx.lor(ctx.eq(got, f[k]), ctx.eq(got, b'')), 'placed ' + k)
            else:
                ctx.check(ctx.eq(got, f[k]), 'placed ' + k)
        elif k == 'qualname':
            ctx.check(ctx.eq(got, f['name']), 'default ' + k)
        elif k == 'posonlyargcount':
            ctx.check(ctx.eq(got, 0), 'default ' + k)
        else:
            ctx.check(ctx.eq(got, b''), 'default ' + k)


def s_refused(ctx):
    """argument lists of 1 to 26 fields of any other length, with or without the legacy line table in front"""
    n = 1 + ctx.pick('n', 26)
    lead = ctx.flag('leading')
    if n in (15, 16, 17, 18, 20):
        ctx.skip('a supported layout')
    args = tuple(ctx.int('f%d' % i, 0, 5) for i in range(n))
    if lead:
        args = (b'',) + args
    d = ctx.dill
    s = ctx.expect_ok('dumps', d.dumps, Recorded(d._dill._create_code, args))
    ctx.must_raise('refused', d.UnpicklingError, d.loads, s)


SOURCES = [
    'def f():\n    pass\n',
    'def f(a, b=1, /, c=2, *args, d, e=3, **kw):\n    x = a\n    return locals()\n',
    'def f(x):\n    try:\n        return x[0]\n    except (KeyError, IndexError) as e:\n        return e\n    finally:\n        x = None\n',
    'def f(x):\n    def g():\n        nonlocal x\n        x += 1\n        def h():\n            return x\n        return h\n    return g\n',
    'def f(n):\n    for i in range(n):\n        yield i\n',
    'async def f(n):\n    async for i in n:\n        await i\n    async with n as k:\n        pass\n',
    'async def f(n):\n    yield n\n',
    'f = lambda q: [w for w in q if w is not f]\n',
    'def f():\n    class A:\n        y = 1\n        def m(self):\n            return super().m() + __class__.y\n    return A\n',
    '\n' * 300 + 'def f(\n   é,\n   ß="€"):\n' + '\n' * 500 + '    return é + ß\n',
    'def f(x):\n    match x:\n        case [1, *rest]:\n            return rest\n        case {"k": v, **kw}:\n            return v, kw\n        case _:\n            return x"" if False else b"\\x00\\xff"\n'.replace('x""', '""'),
    'def f[T](x: T) -> T:\n    type A = list[T]\n    return (1, (2.5, (3j, (None, ..., frozenset({1, 2})))))\n',
    'def f():\n    with open("x") as a, a as b:\n        ' + ' + '.join('%d' % (i + 300) for i in range(300)) + '\n        return [%s]\n' % ', '.join('g%d' % i for i in range(300)),
]

CO = ['argcount', 'posonlyargcount', 'kwonlyargcount', 'nlocals', 'stacksize', 'flags', 'code', 'names', 'varnames',
      'filename', 'name', 'qualname', 'firstlineno', 'linetable', 'exceptiontable', 'freevars', 'cellvars']


def same_code(ctx, r, c, where=''):
    ctx.check(type(r) is types.CodeType, 'real type')
    for k in CO:
        ctx.check(getattr(r, 'co_' + k) == getattr(c, 'co_' + k), 'real ' + k)
    ctx.check(list(r.co_positions()) == list(c.co_positions()) and list(r.co_lines()) == list(c.co_lines()),
              'real positions')
    ctx.check(len(r.co_consts) == len(c.co_consts), 'real consts')
    for x, y in zip(r.co_consts, c.co_consts):
        if type(y) is types.CodeType:
            same_code(ctx, x, y)
        else:
            ctx.check(ctx.eq(x, y) and repr(x) == repr(y), 'real consts')


def s_real(ctx):
    """code of 13 compiled functions (nested, closures, generators, coroutines, exception tables, long line tables,
    non-ASCII names, type parameters, wide arguments), one more symbolic constant, protocols 0-5"""
    i = ctx.pick('src', len(SOURCES))
    c = compile(SOURCES[i], '<s%d>' % i, 'exec')
    inner = ctx.flag('inner')
    if inner:
        c = [k for k in c.co_consts if type(k) is types.CodeType][0]
    extra = ctx.any('const')
    c2 = c.replace(co_consts=c.co_consts + (extra,))
    r = ctx.expect_ok('pickles', ctx.rt, c2, protocol=ctx.choice('proto', range(6)),
                      recurse=ctx.flag('recurse'))
    ctx.check(ctx.eq(r.co_consts[-1], extra), 'real leaf')
    same_code(ctx, r.replace(co_consts=r.co_consts[:-1]), c)


SCENARIOS = [
    Scenario('roundtrip', s_roundtrip, labels=tuple(ORDER) + ('shared',)),
    Scenario('layouts', s_layouts, labels=tuple('placed ' + k for k in ORDER) + (
        'default qualname', 'default posonlyargcount', 'default linetable', 'default exceptiontable')),
    Scenario('refused', s_refused, labels=('refused',)),
    Scenario('real', s_real, labels=('real leaf', 'real consts', 'real positions')),
]
