"""C07: dictionaries and namespaces"""
import collections
import io
import pickle
import types

from sx.api import Scenario

ASSUMPTIONS = ['the values of the dictionaries are opaque leaves (None, 0, empty text, an empty tuple or one of '
               'unboundedly many truthy values); keys are text, numbers, None and tuples',
               'importing a module by the text a dictionary holds under __name__ has no other effect']


class MyDict(dict):
    """found by its name"""


MyDict.__module__ = 'zzlib'


def pickler(ctx, how, obj, proto):
    if how == 'dumps':
        return ctx.dill.dumps(obj, protocol=proto)
    f = io.BytesIO()
    if how == 'stock':
        p = pickle._Pickler(f, proto)
    else:
        cls = type('MyPickler', (ctx.dill.Pickler,), {'__module__': 'zzlib'})
        p = cls(f, proto)
    p.dump(obj)
    return f.getvalue()


def modules(ctx):
    ctx.module('zzlib').MyDict = MyDict
    p = ctx.module('zzpkg', __path__=[])
    p.sub = ctx.module('zzpkg.sub', x=1)
    m = ctx.module('zzlive', x=ctx.any('mx'))
    odd = ctx.module('zzm\xfcsli\u043c', x=3)
    orphan = ctx.module('zzorphan.sub')       # cannot be imported without its package
    ctx.module('__runtime__.zzr', x=2)
    alias = types.ModuleType('zzlive')
    import sys
    sys.modules['zzalias'] = alias
    hidden = types.ModuleType('zzhidden')
    noname = ctx.module('zznoname')
    del noname.__name__
    oddname = ctx.module('zzodd')
    oddname.__name__ = 5
    return {'main': ctx.main.__dict__, 'live': m.__dict__, 'submodule': p.sub.__dict__,
            'package': p.__dict__, 'not ascii': odd.__dict__}, \
        {'alias': alias.__dict__, 'hidden': hidden.__dict__, 'no name': noname.__dict__, 'odd name': oddname.__dict__,
         'orphan': orphan.__dict__}


def small(d):
    for k in ('__builtins__', '__loader__', '__spec__', '__file__', '__cached__'):
        d.pop(k, None)
    return d


def s_live(ctx):
    """the namespace of the main program, of a module (its name ASCII or not), submodule or package, alone, twice in a list, in
    another dictionary, or as an attribute; pickled by dumps, by a pickler class derived from dill's, or by the extended
    standard pickler; protocols 0-5"""
    live, other = modules(ctx)
    name = ctx.choice('namespace', sorted(live))
    d = live[name]
    how = ctx.choice('how', ['dumps', 'derived', 'stock'])
    proto = ctx.choice('proto', range(6))
    before = list(d.items())
    place = ctx.choice('place', ['alone', 'twice', 'value'])
    o = {'alone': d, 'twice': [d, d], 'value': {'k': d, 'l': d}}[place]
    data = ctx.expect_ok('dumps', pickler, ctx, how, o, proto)
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    rs = [r] if place == 'alone' else list(r) if place == 'twice' else list(r.values())
    for x in rs:
        ctx.check(x is d, 'that very dictionary')
    ctx.check(len(data) < 120, 'a bare reference')
    ctx.check(len(before) == len(d) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(before, d.items())),
              'namespace untouched')


def s_equal(ctx):
    """a copy of a live namespace: exact, with one entry more, less, changed or reordered, as a dictionary, an ordered
    one or a subclass; alone or beside the namespace itself; by dumps, a derived pickler or the extended standard one"""
    live, other = modules(ctx)
    name = ctx.choice('namespace', ['main', 'live', 'submodule'])
    d = small(live[name])
    if name == 'main':
        for k in list(d):
            if not (k.startswith('__') and isinstance(d[k], (str, type(None)))):
                del d[k]
    d['a'] = ctx.any('a')
    d['b'] = ctx.any('b')
    d['l'] = [1]
    c = dict(d)
    change = ctx.choice('change', ['exact', 'more', 'less', 'changed', 'reordered'])
    if change == 'more':
        c['c'] = ctx.any('c')
    elif change == 'less':
        del c['b']
    elif change == 'changed':
        c['b'] = ctx.any('c')
    elif change == 'reordered':
        v = c.pop('a')
        c['a'] = v
    kind = ctx.choice('type', [dict, collections.OrderedDict, MyDict])
    c = kind(c)
    how = ctx.choice('how', ['dumps', 'derived', 'stock'])
    beside = ctx.flag('beside')
    before = list(d.items())
    data = ctx.expect_ok('dumps', pickler, ctx, how, [d, c, d] if beside else [c], None)
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    x = r[1] if beside else r[0]
    ctx.check(type(x) is kind and x is not d and x is not c, 'a new dictionary of its type')
    ctx.check(list(x) == list(c), 'keys in order', detail='%s for %s' % (list(x)[-4:], list(c)[-4:]))
    ctx.check(ctx.land(*[ctx.eq(x[k], c[k]) for k in c]), 'equal values')
    ctx.check(x['l'] is not d['l'], 'copied values')
    if beside:
        ctx.check(r[0] is d and r[2] is d, 'the namespace beside it')
    x['new'] = 1
    ctx.check('new' not in d and len(before) == len(d), 'does not alias the namespace')


def s_names(ctx):
    """a dictionary with nothing, text, a number, None or leaves under __name__ (names of the main program, live,
    missing, blocked, dotted, runtime modules, odd text), or the namespace of a module that is not in the table under
    the name it records, or whose package is missing; up to two further entries; protocols 0, 2, 4"""
    live, other = modules(ctx)
    import sys
    sys.modules['zzblocked'] = None
    how = ctx.choice('how', ['dumps', 'stock'])
    what = ctx.choice('dictionary', ['own'] + sorted(other))
    if what == 'own':
        d = {}
        name = ctx.choice('name', ['absent', '__main__', 'zzlive', 'zz_nomod', 'zzblocked', 'zzpkg.sub', 'zzpkg.none',
                                   '__runtime__.zzr', '__runtime__.none', '', '.', 'zzm\xfcsli\u043c', '\u044f', 'zzlive.', 'a b', 5, None, ('zzlive',),
                                   'leaf'])
        if ctx.flag('first'):
            d['x'] = ctx.any('x')
        if name == 'leaf':
            d['__name__'] = ctx.any('nm')
        elif name != 'absent':
            d['__name__'] = name
    else:
        d = small(other[what])
    d['y'] = ctx.any('y')
    data = ctx.expect_ok('dumps', pickler, ctx, how, d, ctx.choice('proto', [0, 2, 4]))
    r = ctx.expect_ok('loads', ctx.dill.loads, data)
    ctx.check(type(r) is dict and r is not d and all(r is not v for v in live.values()), 'a new dictionary')
    ctx.check(list(r) == list(d), 'keys in order')
    ctx.check(ctx.land(*[ctx.eq(r[k], d[k]) for k in d]), 'equal values')


KEYS = ['a', '', '__name__', 0, 1, -5, None, True, ('t', 1), 2.5, b'b', 'é']


def s_content(ctx):
    """dictionaries, ordered ones, default ones, counters and subclasses with up to 3 entries under any of 12 keys in
    any order, values leaves, the dictionary itself, or a shared list; protocols 0, 1, 2, 4"""
    modules(ctx)
    kind = ctx.choice('type', ['dict', 'OrderedDict', 'MyDict', 'defaultdict', 'MyDict with state'])
    proto = ctx.choice('proto', [0, 1, 2, 4])
    d = {'dict': dict, 'OrderedDict': collections.OrderedDict, 'MyDict': MyDict, 'MyDict with state': MyDict,
         'defaultdict': lambda: collections.defaultdict(list)}[kind]()
    n = ctx.pick('n', 3 if ctx.tier == 'quick' else 4)
    shared = [1]
    keys = KEYS if n <= 1 or ctx.tier != 'quick' else KEYS[1:5]
    for i in range(n):
        k = ctx.choice('key%d' % i, keys)
        # (a subclass that holds itself needs protocol 2 in any pickler)
        what = ctx.choice('kind%d' % i, ['leaf', 'shared'] + (['itself'] if proto > 1 or kind == 'dict' else []))
        d[k] = ctx.any('v%d' % i) if what == 'leaf' else d if what == 'itself' else shared
    if kind == 'MyDict with state':
        d.state = ctx.any('state')
    r, l = ctx.expect_ok('copies', ctx.rt, [d, shared], protocol=proto)
    ctx.check(type(r) is type(d) and r is not d, 'a new dictionary of its type')
    ctx.check(list(r) == list(d) and [type(k) for k in r] == [type(k) for k in d], 'keys in order')
    for k in d:
        if d[k] is d:
            ctx.check(r[k] is r, 'holds itself')
        elif d[k] is shared:
            ctx.check(r[k] is l, 'shared value')
        else:
            ctx.check(ctx.eq(r[k], d[k]), 'equal values')
    if kind == 'defaultdict':
        ctx.check(r.default_factory is list, 'default factory')
    if kind == 'MyDict with state':
        ctx.check(ctx.eq(r.state, d.state), 'state')


SCENARIOS = [
    Scenario('live', s_live, labels=('that very dictionary', 'a bare reference', 'namespace untouched')),
    Scenario('equal', s_equal, labels=('a new dictionary of its type', 'keys in order', 'equal values',
                                       'the namespace beside it', 'does not alias the namespace')),
    Scenario('names', s_names, labels=('a new dictionary', 'equal values')),
    Scenario('content', s_content, labels=('holds itself', 'shared value', 'equal values')),
]
