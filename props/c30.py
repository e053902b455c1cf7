"""C30: streams recorded by former releases"""
import functools
import types
import weakref

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['the argument forms are those releases since 0.2.8 wrote, as listed in the scenarios; code objects are the '
               'concern of C01; values the forms carry are opaque leaves']

SRC = '''
G = None
def outer(c0, c1):
    def f(a, b=0, *, k0=0, k1=0):
        return (a, b, k0, k1, c0, c1, G)
    return f
def plain(a, b=0, *, k0=0, k1=0):
    return (a, b, k0, k1, G)
'''


class Recorded(object):
    """stands in a stream for what helper(*args) gives"""
    def __init__(self, helper, *args):
        self.reduction = helper, args

    def __reduce__(self):
        return self.reduction


def stream(ctx, obj, former):
    """the stream of obj, as recorded when this package's main module had its present or its former name"""
    data = ctx.expect_ok('recorded', ctx.dill.dumps, obj, protocol=2)
    ctx.assume(b'cdill._dill\n' in data)
    return data.replace(b'cdill._dill\n', b'cdill.dill\n') if former else data


def s_function(ctx):
    """functions (with closure or not) recorded with their name, defaults, closure, attributes and keyword-only defaults
    as 2 to 7 arguments, each value any, missing or None; globals with or without their builtins; cells recorded by
    value, empty or with the mark of an empty one; under the present and the former module name; recorded alone,
    twice, or as the method of a recorded class"""
    D = ctx.dill._dill
    ns = exec_def(SRC, __name__='zz_nomod')
    n = ctx.choice('arguments', [2, 3, 4, 5, 6, 7])
    closure = n >= 5 and ctx.flag('closure')
    code = ns['outer'](1, 2).__code__ if closure else ns['plain'].__code__
    g = {'G': ctx.any('G')} if ctx.flag('own globals') else None
    if g is not None and ctx.flag('named'):
        g['__name__'] = 'zz_nomod'
    name = ctx.choice('name', ['f', 'renamed', None]) if n >= 3 else None
    defaults = (ctx.any('d'),) if n >= 4 and ctx.flag('defaults') else None
    cells, values = None, None
    if closure:
        values = [ctx.any('c0'), ctx.any('c1')]
        how = ctx.choice('second cell', ['value', 'mark', 'nothing'])
        cells = (Recorded(D._create_cell, values[0]),
                 Recorded(D._create_cell, *{'value': [values[1]], 'mark': [D._CELL_EMPTY], 'nothing': []}[how]))
    fdict = None
    if n >= 6:
        fdict = ctx.choice('attributes', [None, 'empty', 'filled'])
        fdict = fdict and ({} if fdict == 'empty' else {'note': ctx.any('note'), 'other': 1})
    kwd = {'k0': ctx.any('k0'), 'k1': 2} if n >= 7 and ctx.flag('kwdefaults') else None
    args = (code, g, name, defaults, cells, fdict, kwd)[:n]
    rec = Recorded(D._create_function, *args)
    place = ctx.choice('place', ['alone', 'twice', 'method'])
    what = {'alone': rec, 'twice': [rec, rec],
            'method': Recorded(D._create_type, Recorded(D._load_type, 'type'), 'C', (object,), {'m': rec, '__module__': 'zz_nomod'})}[place]
    data = stream(ctx, what, ctx.flag('former module name'))
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    if place == 'twice':
        ctx.check(r[0] is r[1], 'one function')
        r = r[0]
    elif place == 'method':
        ctx.check(type(r) is type and r.__name__ == 'C' and r.__bases__ == (object,), 'a class')
        r = vars(r)['m']
    ctx.check(type(r) is types.FunctionType, 'a function')
    ctx.check(r.__code__ == code and r.__name__ == (name or code.co_name), 'code and name')
    ctx.check(ctx.eq(r.__defaults__, defaults), 'defaults')
    ctx.check(ctx.eq(r.__kwdefaults__, kwd), 'keyword-only defaults')
    ctx.check(ctx.eq(dict(r.__dict__), fdict or {}), 'attributes')
    if closure:
        ctx.check(ctx.eq(r.__closure__[0].cell_contents, values[0]), 'closure')
        v, e = ctx.attempt(lambda: r.__closure__[1].cell_contents)
        if how == 'mark':
            ctx.check(isinstance(e, ValueError), 'empty cell')
        else:
            ctx.check(e is None and ctx.eq(v, values[1] if how == 'value' else None), 'closure')
    else:
        ctx.check(r.__closure__ is None, 'closure')
    if g is not None:
        ctx.check(ctx.eq(r.__globals__['G'], g['G']), 'globals')
    ctx.check('__builtins__' in r.__globals__, 'builtins')
    if g is not None and not (closure and how == 'mark'):
        x = ctx.leaf('x')
        tail = ((values[0], values[1] if how == 'value' else None) if closure else ()) + (g['G'],)
        ctx.check(ctx.eq(r(x, 1, k0=3, k1=x), (x, 1, 3, x) + tail), 'result')


class Owner(object):
    def method(self):
        return 5


def s_object(ctx):
    """cells, classes, types by former name, named tuples without defaults, class attributes by owner and name, builtin
    methods, modules, the main namespace, locks, weak references and proxies (dead or alive, with and without arguments),
    partials, buffers, evaluated texts, typing tuples; under the present and the former module name; alone or twice
    in a list"""
    D = ctx.dill._dill
    kind = ctx.choice('kind', ['cell', 'class', 'type', 'namedtuple', 'getattr', 'builtin method', 'module', 'main', 'NoneType',
                               'lock', 'rlock', 'weakref', 'proxy', 'partial', 'buffer', 'repr', 'typing'])
    former = ctx.flag('former module name')
    twice = kind not in ('main', 'NoneType') and ctx.flag('twice')

    def load(rec):
        data = stream(ctx, [rec, rec] if twice else rec, former)
        r = ctx.expect_ok('loads', ctx.dill.loads, data)
        if twice:
            ctx.check(r[0] is r[1], 'one object')
            r = r[0]
        return r
    if kind == 'cell':
        v = ctx.any('v')
        how = ctx.choice('how', ['value', 'mark', 'nothing'])
        r = load(Recorded(D._create_cell, *{'value': [v], 'mark': [D._CELL_EMPTY], 'nothing': []}[how]))
        ctx.check(type(r) is types.CellType, 'type')
        got, e = ctx.attempt(lambda: r.cell_contents)
        if how == 'mark':
            ctx.check(isinstance(e, ValueError), 'value')
        else:
            ctx.check(e is None and ctx.eq(got, v if how == 'value' else None), 'value')
    elif kind == 'class':
        base = ctx.choice('base', [(), (object,), (Owner,), (dict, Owner)])
        d = {'__module__': 'zz_nomod', 'v': ctx.any('v')}
        if ctx.flag('documented'):
            d['__doc__'] = 'text'
        r = load(Recorded(D._create_type, Recorded(D._load_type, ctx.choice('name', ['type', 'TypeType' if 'TypeType' in vars(types) else 'type'])),
                          'C', base, d))
        ctx.check(type(r) is type and r.__name__ == 'C' and r.__bases__ == (base or (object,)), 'type')
        ctx.check(ctx.eq(r.v, d['v']) and r.__doc__ == d.get('__doc__') and r.__module__ == 'zz_nomod', 'value')
    elif kind == 'type':
        import builtins
        import io
        names = ['FunctionType', 'LambdaType', 'MethodType', 'CodeType', 'ModuleType', 'GeneratorType', 'CoroutineType', 'CellType',
                 'BuiltinFunctionType', 'BuiltinMethodType', 'WrapperDescriptorType', 'MethodWrapperType', 'MethodDescriptorType',
                 'ClassMethodDescriptorType', 'TracebackType', 'FrameType', 'GetSetDescriptorType', 'MemberDescriptorType',
                 'MappingProxyType', 'int', 'bool', 'dict', 'type', 'object', 'slice', 'super', 'property', 'staticmethod',
                 'BufferedReaderType', 'BufferedWriterType', 'BufferedRandomType', 'TextWrapperType', 'FileType', 'PartialType', 'SuperType',
                 'ItemGetterType', 'AttrGetterType', 'DictKeysType', 'DictValuesType', 'DictItemsType', 'OdictKeysType', 'OdictValuesType',
                 'OdictItemsType']
        import collections
        import operator
        o = collections.OrderedDict()
        special = {'BufferedReaderType': io.BufferedReader, 'BufferedWriterType': io.BufferedWriter, 'BufferedRandomType': io.BufferedRandom,
                   'TextWrapperType': io.TextIOWrapper, 'FileType': io.FileIO, 'PartialType': functools.partial, 'SuperType': super,
                   'ItemGetterType': operator.itemgetter, 'AttrGetterType': operator.attrgetter, 'DictKeysType': type({}.keys()),
                   'DictValuesType': type({}.values()), 'DictItemsType': type({}.items()), 'OdictKeysType': type(o.keys()),
                   'OdictValuesType': type(o.values()), 'OdictItemsType': type(o.items())}
        name = ctx.choice('name', names)
        want = special.get(name) or getattr(types, name, None) or getattr(builtins, name)
        ctx.check(load(Recorded(D._load_type, name)) is want, 'type', detail=name)
    elif kind == 'namedtuple':
        fields = ctx.choice('fields', [('a', 'b'), (), ['a', 'b'], 'a b'])
        mod = ctx.choice('module', ['zz_nomod', 'zzlive', '__main__'])
        if mod == 'zzlive':
            ctx.module('zzlive')
        rec = Recorded(D._create_namedtuple, 'P', fields, mod)
        r = load(rec)
        names = tuple(fields.split() if isinstance(fields, str) else fields)
        ctx.check(r.__bases__ == (tuple,) and r.__name__ == 'P' and r.__module__ == mod, 'type')
        ctx.check(r._fields == names and r._field_defaults == {}, 'value')
        if len(names) == 2:
            v = ctx.any('v')
            i = ctx.expect_ok('loads', ctx.dill.loads, stream(ctx, Recorded(Call(rec), 1, v), former))
            ctx.check(type(i).__name__ == 'P' and ctx.eq(tuple(i), (1, v)) and ctx.eq(i.b, v), 'value')
    elif kind == 'getattr':
        owner, name, rep = ctx.choice('of', [
            (list, 'append', None), (dict, 'fromkeys', None), (int, '__add__', None), (int, 'real', None), (type, '__dict__', None),
            (types.FunctionType, '__globals__', None), (types.MemberDescriptorType, '__objclass__', None), (str, 'join', 'no such text'),
            (types.FunctionType, '__code__', ''), (str, 'maketrans', None), (Owner, 'method', '')])
        rep = repr(vars(owner)[name]) if rep is None else rep
        r = load(Recorded(D._getattr, owner, name, rep))
        ctx.check(r is vars(owner)[name], 'type', detail='%r' % (r,))
    elif kind == 'builtin method':
        how = ctx.choice('of', ['module', 'object', 'gone'])
        if how == 'module':
            ctx.check(load(Recorded(D._get_attr, Recorded(D._import_module, 'math'), 'sqrt')) is __import__('math').sqrt, 'type')
        elif how == 'object':
            v = [ctx.any('v')]
            r = load(Recorded(D._get_attr, v, 'append'))
            ctx.check(type(r) is types.BuiltinMethodType and r.__name__ == 'append' and ctx.eq(r.__self__, v), 'type')
        else:                           # as methods of the builtins without owner
            ctx.check(load(Recorded(D._get_attr, None, 'len')) is len, 'type')
    elif kind == 'module':
        name = ctx.choice('name', ['math', 'os.path', 'xml.dom', 'zzlive', 'zz_gone', '__runtime__.zzlive'])
        import os
        import sys
        import xml.dom
        m = ctx.module(name) if 'zzlive' in name else None
        want = {'math': __import__('math'), 'os.path': os.path, 'xml.dom': xml.dom}.get(name, m)
        safe = ctx.choice('safe', [None, True, False])
        rec = Recorded(D._import_module, name, *([] if safe is None else [safe]))
        if name == 'zz_gone' and not safe:
            data = stream(ctx, rec, former)
            ctx.must_raise('module not found', ImportError, ctx.dill.loads, data)
        else:
            ctx.check(load(rec) is want, 'type')
    elif kind in ('main', 'NoneType'):
        data = b'\x80\x02c__builtin__\n%s\n.' % (b'__main__' if kind == 'main' else b'NoneType')
        if kind == 'main' and ctx.flag('attribute'):
            ctx.main.zzname = v = ctx.any('v')
            r = ctx.expect_ok('loads', ctx.dill.loads, data)
            ctx.check(ctx.eq(r['zzname'], v), 'value')
        r = ctx.expect_ok('loads', ctx.dill.loads, data)
        ctx.check(r is (ctx.main.__dict__ if kind == 'main' else type(None)), 'type')
    elif kind == 'lock':
        import threading
        locked = ctx.flag('locked')
        r = load(Recorded(D._create_lock, locked))
        ctx.check(type(r) is type(threading.Lock()), 'type')
        ctx.check(r.locked() == locked, 'value')
    elif kind == 'rlock':
        import threading
        count = ctx.choice('count', [0, 1, 2])
        mine = threading.get_ident()
        r = load(Recorded(D._create_rlock, count, mine if count else 0))
        ctx.check(type(r) is type(threading.RLock()), 'type')
        ctx.check(bool(r._is_owned()) == (count > 0), 'value')
        for _ in range(count):
            r.release()
        ctx.check(not r._is_owned(), 'value')
    elif kind == 'weakref':
        how = ctx.choice('referent', ['dead', 'alive'])
        rec = Recorded(D._create_weakref, None if how == 'dead' else Owner)
        r = load(rec)
        ctx.check(type(r) is weakref.ref, 'type')
        ctx.check(r() is (None if how == 'dead' else Owner), 'value')
    elif kind == 'proxy':
        how = ctx.choice('referent', ['dead', 'dead callable', 'alive', 'alive callable', 'alive alone'])
        args = {'dead': (None, False), 'dead callable': (None, True), 'alive': (Owner.method, False), 'alive callable': (Owner.method, True),
                'alive alone': (Owner.method,)}[how]
        r = load(Recorded(D._create_weakproxy, *args))
        ctx.check(type(r) is (weakref.ProxyType if how == 'dead' else weakref.CallableProxyType), 'type')
        if how.startswith('alive'):
            ctx.check(r.__name__ == 'method', 'value')
        else:
            _, e = ctx.attempt(lambda: r.__name__)
            ctx.check(isinstance(e, ReferenceError), 'value')
    elif kind == 'partial':
        v = ctx.any('v')
        args = ctx.choice('args', ['None', 'empty', 'one'])
        kwds = ctx.choice('kwds', ['None', 'empty', 'one'])
        a = {'None': None, 'empty': (), 'one': (v,)}[args]
        k = {'None': None, 'empty': {}, 'one': {'sep': v}}[kwds]
        r = load(Recorded(D._create_ftype, functools.partial, print, a, k))
        ctx.check(type(r) is functools.partial and r.func is print, 'type')
        ctx.check(ctx.land(ctx.eq(r.args, a or ()), ctx.eq(r.keywords, k or {})), 'value')
    elif kind == 'buffer':
        import io
        text = b'abc'                   # of former Pythons, whose texts were bytes
        pos = ctx.choice('position', [0, 2, 3, 5])
        closed = ctx.flag('closed')
        r = load(Recorded(ctx.choice('helper', [D._create_stringi, D._create_stringo]), text, pos, closed))
        ctx.check(isinstance(r, io.BytesIO) and r.closed == closed, 'type')
        if not closed:
            ctx.check(r.tell() == pos and r.getvalue() == text, 'value')
    elif kind == 'repr':
        text, want = ctx.choice('text', [('range(1, 5)', range(1, 5)), ('NotImplemented', NotImplemented), ('Ellipsis', Ellipsis),
                                         ('None', None), ("('a', 1)", ('a', 1))])
        r = load(Recorded(D._eval_repr, text))
        ctx.check(type(r) is type(want) and r == want, 'value')
    else:
        import typing
        a, want = ctx.choice('arguments', [(((),), typing.Tuple[()]), ((), typing.Tuple[()]), ((int,), typing.Tuple[int]),
                                           ((int, str), typing.Tuple[int, str]), ((int, Ellipsis), typing.Tuple[int, ...])])
        r = load(Recorded(D._create_typing_tuple, a))
        ctx.check(r == want and typing.get_origin(r) is tuple and typing.get_args(r) == typing.get_args(want), 'value')


class Call(object):
    """stands for the class a recorded call gives, as the callable of another"""
    def __init__(self, rec):
        self.rec = rec

    def __call__(self, *a):
        raise AssertionError('only recorded')

    def __reduce__(self):
        return self.rec.reduction


SCENARIOS = [
    Scenario('function', s_function, labels=('code and name', 'defaults', 'keyword-only defaults', 'attributes', 'closure', 'empty cell',
                                             'globals', 'builtins', 'result', 'one function')),
    Scenario('object', s_object, labels=('type', 'value', 'one object')),
]
