"""C15: the self-checks"""
import pickle
import sys
import warnings

from sx.api import Scenario

ASSUMPTIONS = [
    'an object is equal to its copy when == says so (for array-likes: of all items); what __eq__ and __reduce__ do is given '
    'by the inputs']

SRC = '''
class Base(object):
    def __eq__(self, other):
        return hooks['eq'](self, other)
    __hash__ = object.__hash__
class Thing(Base):
    def __init__(self, n=0):
        self.n = n
    def __reduce__(self):
        return hooks['reduce'](self)
    def __eq__(self, other):
        return hooks['eq'](self, other)
    __hash__ = object.__hash__
class Other(object):
    __eq__ = Thing.__eq__
    __hash__ = object.__hash__
class Derived(Thing):
    pass
def rebuild(n=0):
    return hooks['load'](n)
def namesake():
    class Thing(object):
        pass
    Thing.__qualname__ = 'Thing'
    return Thing
Namesake = namesake()
Namesake.__eq__ = Thing.__eq__
'''

KINDS = [TypeError, AssertionError, NotImplementedError, pickle.PicklingError, pickle.UnpicklingError, ValueError, KeyError,
         RecursionError, AttributeError, ZeroDivisionError]
CAUGHT = (TypeError, AssertionError, NotImplementedError, pickle.PicklingError, pickle.UnpicklingError)


def world(ctx):
    m = ctx.module('zzfaulty')
    exec(compile(SRC, '<sx>', 'exec'), m.__dict__)
    m.hooks = {'reduce': lambda o: (m.rebuild, (o.n,)), 'eq': lambda a, b: a is b, 'load': m.Thing}
    return m


class State(object):
    """what must not change"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.was = self.now()

    def now(self):
        d = self.ctx.dill
        return [list(warnings.filters), list(d.settings.items()), sorted(sys.modules), sorted(self.ctx.main.__dict__),
                {k: id(v) for k, v in d.Pickler.dispatch.items()}, {k: id(v) for k, v in pickle._Pickler.dispatch.items()},
                [warnings.showwarning, sys.stdout, sys.stderr, sys.getrecursionlimit(), warnings.filters is filters]]

    def unchanged(self, label):
        now = self.now()
        self.ctx.check(now[0] == self.was[0] and now[6][-1], 'warning filters as before')
        self.ctx.check(now[1:6] == self.was[1:6] and now[6][:-1] == self.was[6][:-1], 'nothing else changed')


filters = warnings.filters
FILTERS = [('ignore', None, Warning, None, 0), ('error', None, Warning, None, 0), ('default', None, DeprecationWarning, None, 0)]


def set_filters(ctx, n):
    picked = []
    for i in range(n):
        k = ctx.pick('filter%d' % i, len(FILTERS) + 1)
        if k == len(FILTERS):
            break
        picked.append(FILTERS[k])
    global filters
    filters = warnings.filters
    warnings.filters[:] = picked
    warnings._filters_mutated()


def raiser(kind):
    def f(*a):
        raise kind('on purpose')
    return f


def s_quick(ctx):
    """copying fails at dump or load with any of 10 error kinds, or yields the same type, another type, a base, a derived
    one, a namesake; comparing
    yields any value, warns, or raises any kind; a value with all(), or with one that raises; exact and safe on/off; up to one
    filter (thorough: two)"""
    d = ctx.dill
    m = world(ctx)
    h = m.hooks
    copying = ctx.choice('copying', ['same', 'other', 'namesake', 'base', 'derived', 'dump fails', 'load fails'])
    exact, safe = ctx.bool('exact'), ctx.bool('safe')
    boom = None
    obj = m.Thing()
    if copying.endswith('fails'):
        boom = KINDS[ctx.pick('error', len(KINDS))]
        h['reduce' if copying == 'dump fails' else 'load'] = raiser(boom)
        equal = False
    else:
        h['load'] = {'same': m.Thing, 'other': lambda n: m.Other(), 'namesake': lambda n: m.Namesake(),
                     'base': lambda n: m.Base(), 'derived': m.Derived}[copying]
        comparing = ctx.choice('comparing', ['value', 'warns', 'raises', 'all', 'all raises', 'all missing'])
        equal = ctx.any('equal')
        h['eq'] = lambda a, b: equal
        if comparing == 'warns':
            def eq(a, b):
                warnings.warn('about comparing', DeprecationWarning)
                return equal
            h['eq'] = eq
        elif comparing == 'raises':
            boom = KINDS[ctx.pick('error', len(KINDS))]
            h['eq'] = raiser(boom)
        elif comparing.startswith('all'):
            class Items(object):
                def __bool__(self):
                    raise ValueError('ambiguous')
            items = Items()
            h['eq'] = lambda a, b: items
            if comparing == 'all':
                Items.all = lambda self: equal
            else:
                k = [TypeError, ValueError][ctx.pick('all error', 2)] if comparing == 'all raises' else ValueError
                boom = k
                if comparing == 'all raises':
                    Items.all = raiser(k)
    set_filters(ctx, 1 if ctx.tier == 'quick' else 2)
    st = State(ctx)
    res, e = ctx.attempt(d.pickles, obj, exact, safe)
    st.unchanged('quick')
    if boom is not None:
        caught = ctx.lor(safe, issubclass(boom, CAUGHT))
        if e is None:
            ctx.check(res is False, 'false when it fails')
            ctx.check(caught, 'other errors come through')
        else:
            ctx.check(type(e) is boom and ctx.lnot(caught), 'the caught kinds are caught')
        return
    ctx.check(e is None, 'answers', detail=None if e is None else ctx._describe(e))
    if e is None:
        ctx.check(res is True or res is False or type(res).__name__ == 'SymBool', 'yes or no')
        alike = copying == 'namesake' and type(obj) is m.Thing or copying == 'same'
        truth = ctx.lor(ctx.lnot(falsy(ctx, equal)), ctx.land(ctx.lnot(exact), alike))
        ctx.check(ctx.iff(res, truth), 'the truth')


def falsy(ctx, x):
    if ctx.is_sym(x) and hasattr(x, 'falsy'):
        return x.falsy()
    return ctx.lnot(x) if isinstance(x, bool) or ctx.is_sym(x) and type(x).__name__ == 'SymBool' else not ctx.decide(truthy(x))


def truthy(x):
    return bool(x)


ARRAYS = ['int', 'float', 'bool', 'empty', 'matrix', 'text', 'nan free object']


def array(kind, other):
    import numpy as np
    v = {'int': [1, 2, 3], 'float': [0.5, 1.5, 2.5], 'bool': [True, False, False], 'empty': [], 'matrix': [[1, 2], [3, 4]],
         'text': ['a', 'b'], 'nan free object': [1, 'a']}[kind]
    a = np.array(v, dtype=object if kind.startswith('nan') else None)
    if other == 'zeroed':
        a = a * 0
    elif other == 'changed':
        a = a[::-1].copy()
    elif other == 'shorter':
        a = a[:1]
    return a


def s_arrays(ctx):
    """arrays of 4 kinds whose copy is the same, loses everything, has other items, or fewer; exact or not, safe or not"""
    d = ctx.dill
    m = world(ctx)
    kind = ctx.choice('kind', ['int', 'float', 'bool', 'matrix'])
    lossy = ctx.choice('lossy', ['same', 'zeroed', 'changed', 'shorter'])
    exact, safe = ctx.flag('exact'), ctx.flag('safe')
    import numpy as np
    Arr = type('Arr', (np.ndarray,), {'__reduce__': lambda self: (m.rebuild, (0,)), '__module__': 'zzfaulty'})
    m.Arr = Arr
    m.hooks['load'] = lambda n: array(kind, lossy).view(Arr)
    m.hooks['reduce'] = None
    obj = array(kind, 'same').view(Arr)
    Arr.__reduce__ = lambda self: (m.rebuild, (0,), {})
    Arr.__setstate__ = lambda self, s: None
    ctx.attempt(d.pickles, obj)                     # its type is registered when first seen
    set_filters(ctx, 1)
    st = State(ctx)
    res = ctx.expect_ok('answers', d.pickles, obj, exact, safe)
    st.unchanged('arrays')
    same = lossy == 'same'
    ctx.check(bool(res) == (same or not exact), 'the truth')


# -------------------------------------------------------------------- listings
def items(ctx, m, n):
    """n values: fine, failing with a caught or another kind, a copy that is not equal, None"""
    out = []
    pool = [m.Thing(10 + i) for i in range(n)]
    what = [ctx.choice('item%d' % i, ['fine', 'fails', 'fails otherwise', 'unequal', 'equal to the first', 'none']) for i in range(n)]
    status = {}

    def reduce(o):
        w = status.get(o.n, 'fine')
        if w == 'fails':
            raise TypeError('on purpose')
        if w == 'fails otherwise':
            raise ValueError('on purpose')
        return m.rebuild, (o.n,)

    def eq(a, b):
        if 'equal to the first' in what and {getattr(a, 'n', None), getattr(b, 'n', None)} == {10, 10 + what.index('equal to the first')}:
            return True
        if type(b) is not type(a) or a.n != b.n:
            return False
        return status.get(a.n) != 'unequal'
    m.hooks.update(reduce=reduce, eq=eq, load=m.Thing)
    for i, w in enumerate(what):
        status[10 + i] = what[0] if w == 'equal to the first' else w
        out.append(None if w == 'none' else pool[i])
    return out


def answer(ctx, d, o, exact, safe):
    return ctx.attempt(d.pickles, o, exact, safe)


def s_items(ctx):
    """up to 2 items (thorough: 3), each fine or bad in 3 ways or equal to another; in a list, a tuple, a mapping, a class
    with values, an iterator, or alone; exact or not, safe or not"""
    d = ctx.dill
    m = world(ctx)
    n = ctx.pick('n', 3 if ctx.tier == 'quick' else 4)
    vs = items(ctx, m, max(n, 1))
    exact, safe = ctx.flag('exact'), ctx.flag('safe')
    how = ctx.choice('how', ['list', 'tuple', 'dict', 'values', 'iterator', 'alone', 'falsy values'])
    if how == 'alone':
        vs, obj = vs[:1], vs[0]
        ctx.assume(obj is not None)
    else:
        vs = vs[:n]
        Box = type('Box', (list,), {'values': (lambda self: list(vs)) if how == 'values' else None})
        obj = {'list': list, 'tuple': tuple, 'iterator': iter, 'dict': lambda v: dict(enumerate(v)),
               'values': lambda v: Box([1, 2]), 'falsy values': Box}[how](vs)
    st = State(ctx)
    res, e = ctx.attempt(d.detect.baditems, obj, exact, safe)
    st.unchanged('items')
    want, err, seen = [], None, []
    for v in vs:
        if any(v is x or v == x for x in want):
            continue
        r, er = answer(ctx, d, v, exact, safe)
        if er is not None:
            err = er
            break
        if not r:
            want.append(v)
    if err is not None:
        ctx.check(type(e) is type(err), 'fails as the quick check')
        return
    ctx.check(e is None and len(res) == len(want) and all(a is b for a, b in zip(res, want)), 'item by item',
              detail=None if e is None else ctx._describe(e))


def s_attributes(ctx):
    """an object with two attributes, each fine, bad in 3 ways, raising on access, or bad and with an attribute of its own;
    depth 0 to 2, exact or not, safe or not: bad objects, bad types, errors"""
    d = ctx.dill
    m = world(ctx)
    T = d.detect
    vs = items(ctx, m, 2)
    Obj = type('Obj', (m.Thing,), {'__dir__': lambda self: self.names, '__module__': 'zzfaulty'})
    m.Obj = Obj
    obj = Obj(20)
    obj.names = ['a', 'b']
    obj.a, obj.b = vs
    if vs[0] is not None and ctx.flag('deeper'):
        inner = m.Obj(10)
        inner.names = ['c', 'd']
        inner.c, inner.d = vs[1], 5
        obj.a = inner
    raising = ctx.flag('raising')
    if raising:
        Obj.z = property(raiser(ZeroDivisionError))
        obj.names = ['a', 'b', 'z']
    if ctx.flag('bad itself'):
        obj.n = 10
    exact, safe = ctx.flag('exact'), ctx.flag('safe')
    depth = ctx.pick('depth', 3)
    which = ctx.choice('which', ['badobjects', 'badtypes', 'errors'])
    ctx.assume(not (raising and which != 'errors' and depth))      # they have nothing to say about such attributes
    st = State(ctx)
    res, e = ctx.attempt(getattr(T, which), obj, depth, exact, safe)
    st.unchanged('attributes')

    class Fails(Exception):
        pass

    def expected(o, depth):
        """a leaf is (object, verdict); an attribute that raises on access is its error"""
        if not depth:
            return leaf(o)
        out = {}
        for name in type(o).__dir__(o) if isinstance(o, Obj) else dir(o):
            try:
                v = getattr(o, name)
            except ZeroDivisionError as er:
                out[name] = er
                continue
            r, er = answer(ctx, d, v, exact, safe)
            if er is not None:
                raise Fails(er)
            if not r:
                out[name] = expected(v, depth - 1)
        return out

    def leaf(o):
        r, er = answer(ctx, d, o, exact, safe)
        if er is not None and which != 'errors':
            raise Fails(er)
        return (o, bool(r))
    try:
        want = expected(obj, depth)
    except Fails as f:
        ctx.check(type(e) is type(f.args[0]), 'fails as the quick check')
        return
    ctx.check(e is None, 'answers', detail=None if e is None else ctx._describe(e))
    if e is None:
        agree(ctx, which, res, want)


def agree(ctx, which, res, want):
    if isinstance(want, dict):
        ctx.check(type(res) is dict and sorted(res) == sorted(want), 'attribute by attribute')
        for k in want:
            agree(ctx, which, res[k], want[k])
    elif isinstance(want, Exception):
        ctx.check(type(res) is type(want), 'attribute by attribute')
    else:
        o, good = want
        if good:
            ctx.check(res is None, 'nothing about what pickles')
        elif which == 'badobjects':
            ctx.check(res is o or not hasattr(o, 'n') and type(res) is type(o), 'the bad object')
        elif which == 'badtypes':
            ctx.check(res is type(o), 'its type')
        else:
            ctx.check(isinstance(res, Exception), 'an error')


ARR = ['int', 'float', 'bool', 'empty', 'matrix', 'text']


def s_errors(ctx):
    """what dill copies by value or compares unusually (instances of local classes, arrays, equal objects of another type):
    the error report agrees with the quick check; exact or not, safe or not"""
    d = ctx.dill
    m = world(ctx)
    kind = ctx.choice('kind', ['local', 'array', 'array fails', 'equal other', 'unequal other', 'namesake', 'comparing fails',
                               'nan', 'class', 'generator'])
    exact, safe = ctx.flag('exact'), ctx.flag('safe')
    obj = m.Thing()
    h = m.hooks
    if kind == 'local':
        ns = {}
        exec('def f():\n    class C(object):\n        def __eq__(self, other): return %s\n    return C()' % ctx.flag('equal'), ns)
        obj = ns['f']()
    elif kind == 'array':
        obj = array(ARR[ctx.pick('arr', len(ARR))], 'same')
    elif kind == 'array fails':
        obj = array('int', 'same').astype(object)
        obj[1] = (i for i in ())
    elif kind in ('equal other', 'unequal other', 'namesake'):
        h['load'] = lambda n: m.Namesake() if kind == 'namesake' else m.Other()
        h['eq'] = lambda a, b: kind == 'equal other'
    elif kind == 'comparing fails':
        h['load'] = m.Thing
        h['eq'] = raiser(KINDS[ctx.pick('error', len(KINDS))])
    elif kind == 'nan':
        obj = float('nan')
    elif kind == 'class':
        obj = type('Local', (), {})
    elif kind == 'generator':
        obj = (i for i in ())
    ctx.attempt(d.pickles, obj)
    st = State(ctx)
    res = ctx.expect_ok('reports', d.detect.errors, obj, 0, exact, safe)
    r, er = answer(ctx, d, obj, exact, safe)
    st.unchanged('errors')
    if kind == 'comparing fails' and not exact:
        ctx.check(res is None, 'nothing about what pickles')        # the type is what counts
    elif er is not None:
        ctx.check(isinstance(res, Exception), 'an error')
    elif r:
        ctx.check(res is None, 'nothing about what pickles')
    else:
        ctx.check(isinstance(res, Exception), 'an error')


PYTHON = [None, 'python3', '/a b/python', '/opt/my python/bin/python3 -q']


def s_check(ctx):
    """the check in another process: objects of 6 kinds, 4 interpreters, options; the process is a stand-in that executes the
    text here, and fails when it does or by choice"""
    import io
    import subprocess
    d = ctx.dill
    m = world(ctx)
    v = ctx.choice('value', [0, None, "a'b\"\\ c\n", b'\x00 %s', 'x" y'])
    kind = ctx.choice('kind', ['value', 'list', 'function', 'instance', 'refuses to dump', 'refuses to load'])
    o = {'value': v, 'list': [v, {v: v}], 'function': lambda: v, 'instance': m.Thing(v)}.get(kind) if kind[:7] != 'refuses' else m.Thing(v)
    if kind == 'refuses to dump':
        def reduce(o):
            raise ValueError('no')
        m.hooks['reduce'] = reduce
    elif kind == 'refuses to load':
        def load(n):
            raise ValueError('no')
        m.hooks.update(reduce=lambda o: (m.rebuild, (o.n,)), load=load)
    m.hooks['eq'] = lambda a, b: a.n == b.n
    python = ctx.choice('python', PYTHON)
    fails = ctx.flag('process fails') and kind != 'refuses to load'
    verbose = ctx.choice('verbose', [None, False, True])
    kw = ctx.choice('options', [{}, {'protocol': 0}, {'recurse': True}, {'byref': True}])
    calls, made = [], []

    def call(cmd, *a, **k):
        calls.append((cmd, a, k))
        try:
            exec(compile(cmd[2], '<other>', 'exec'), {'print': made.append})
        except ValueError:
            return 1
        return 1 if fails else 0
    old, subprocess.call = subprocess.call, call
    out, sys.stdout = sys.stdout, io.StringIO()
    opts = dict(kw)
    if python:
        kw['python'] = python
    if verbose is not None:
        kw['verbose'] = verbose
    try:
        _, er = ctx.attempt(d.check, o, **kw)
    finally:
        subprocess.call = old
        printed = sys.stdout.getvalue().split('\n')[:-1]
        sys.stdout = out
    if kind == 'refuses to dump':
        ctx.check(type(er) is ValueError and not calls, 'a dump that fails is raised')
        ctx.check(printed == (['DUMP FAILED'] if verbose else []), 'says how it went', detail=repr(printed))
        return
    ctx.check(er is None, 'checks', detail=repr(er))
    ctx.check(len(calls) == 1 and calls[0][1:] == ((), {}), 'one process', detail=repr(calls))
    cmd = calls[0][0]
    ctx.check(len(cmd) == 3 and cmd[0] == (python or sys.executable) and cmd[1] == '-c', 'the given interpreter', detail=repr(cmd[:2]))
    good = kind != 'refuses to load' and not fails
    ctx.check(printed == (['SUCCESS' if good else 'LOAD FAILED'] if verbose else []), 'says how it went', detail=repr(printed))
    ctx.check(len(made) == (kind != 'refuses to load'), 'the text rebuilds the object')
    for r in made:
        same = r() == v if kind == 'function' else (type(r) is type(o) and r == o)
        ctx.check(same, 'the text rebuilds the object', detail=cmd[2])


ST = ['warning filters as before', 'nothing else changed']
SCENARIOS = [
    Scenario('quick', s_quick, labels=ST + ['false when it fails', 'other errors come through', 'the caught kinds are caught',
                                            'answers', 'yes or no', 'the truth']),
    Scenario('arrays', s_arrays, labels=ST + ['answers', 'the truth']),
    Scenario('items', s_items, labels=ST + ['fails as the quick check', 'item by item']),
    Scenario('attributes', s_attributes, labels=ST + ['answers', 'attribute by attribute', 'nothing about what pickles',
                                                      'the bad object', 'its type', 'an error']),
    Scenario('check', s_check, labels=('checks', 'one process', 'the given interpreter', 'says how it went', 'the text rebuilds the object',
                                       'a dump that fails is raised')),
    Scenario('errors', s_errors, labels=ST + ['reports', 'an error', 'nothing about what pickles']),
]
