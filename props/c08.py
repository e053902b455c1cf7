"""C08: keywords over settings"""
import io
import os
import pickle
import types

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['option values are opaque leaves (None, 0, empty text, empty tuple, or anything truthy) for byref, recurse '
               'and ignore, integers for protocol and fmode']


def entry_points(ctx):
    d = ctx.dill

    def dumps(obj, **kw):
        return d.dumps(obj, **kw)

    def dump(obj, **kw):
        f = io.BytesIO()
        d.dump(obj, f, **kw)
        return f.getvalue()

    def pickler(obj, **kw):
        f = io.BytesIO()
        d.Pickler(f, **kw).dump(obj)
        return f.getvalue()
    return [dumps, dump, pickler]


def load_points(ctx):
    d = ctx.dill

    def loads(s, **kw):
        return d.loads(s, **kw)

    def load(s, **kw):
        return d.load(io.BytesIO(s), **kw)

    def unpickler(s, **kw):
        return d.Unpickler(io.BytesIO(s), **kw).load()
    return [loads, load, unpickler]


def option(ctx, name):
    """(keywords, effective value) for a symbolic setting and a keyword that is absent, None or any value"""
    s = ctx.any('setting_' + name)
    ctx.dill.settings[name] = s
    if ctx.flag('given_' + name):
        k = ctx.any('keyword_' + name)
        return {name: k}, ctx.ite(ctx.is_none(k), s, k)
    return {}, s


def main_class(ctx, name='ZzMain'):
    ns = ctx.main.__dict__
    exec('class %s(object):\n    pass\n' % name, ns)
    return ns[name]


def two_globals():
    return exec_def('used = [1]\nunused = [2]\ndef f():\n    return used\n', __name__='zz_nomod')['f']


def snapshot(ctx):
    return dict(ctx.dill.settings)


def unchanged(ctx, snap):
    s = ctx.dill.settings
    ctx.check(list(s) == list(snap) and ctx.land(*[ctx.same(s[k], snap[k]) for k in snap]), 'settings unchanged')


def s_byref(ctx):
    """byref: setting and keyword arbitrary leaves, keyword present or absent, through dumps, dump, Pickler, copy"""
    C = main_class(ctx)
    kw, eff = option(ctx, 'byref')
    snap = snapshot(ctx)
    ep = ctx.choice('entry', entry_points(ctx) + [None])
    if ep is None:
        r = ctx.expect_ok('copies', ctx.dill.copy, C, **kw)
    else:
        s = ctx.expect_ok('dumps', ep, C, **kw)
        r = ctx.expect_ok('loads', ctx.dill.loads, s)
    ctx.check(ctx.iff(r is C, ctx.decide(bool(eff))), 'byref obeyed')
    unchanged(ctx, snap)


def s_recurse(ctx):
    """recurse: setting and keyword arbitrary leaves, keyword present or absent, through dumps, dump, Pickler, copy"""
    f = two_globals()
    kw, eff = option(ctx, 'recurse')
    snap = snapshot(ctx)
    ep = ctx.choice('entry', entry_points(ctx) + [None])
    if ep is None:
        r = ctx.expect_ok('copies', ctx.dill.copy, f, **kw)
    else:
        r = ctx.expect_ok('loads', ctx.dill.loads, ctx.expect_ok('dumps', ep, f, **kw))
    ctx.check(r() == [1], 'works')
    ctx.check(ctx.iff('unused' not in r.__globals__, ctx.decide(bool(eff))), 'recurse obeyed')
    unchanged(ctx, snap)


def s_ignore(ctx):
    """ignore: setting and keyword arbitrary leaves, keyword present or absent, through loads, load, Unpickler, copy"""
    C = main_class(ctx)
    o = C()
    o.v = ctx.any('v')
    s = ctx.dill.dumps(o)
    kw, eff = option(ctx, 'ignore')
    snap = snapshot(ctx)
    ep = ctx.choice('entry', load_points(ctx) + [None])
    if ep is None:
        r = ctx.expect_ok('copies', ctx.dill.copy, o, **kw)
    else:
        r = ctx.expect_ok('loads', ep, s, **kw)
    ctx.check(ctx.iff(type(r) is not C, ctx.decide(bool(eff))), 'ignore obeyed')
    ctx.check(ctx.eq(r.v, o.v), 'state')
    unchanged(ctx, snap)


def s_protocol(ctx):
    """protocol: setting -1 .. 6, keyword absent, None or -2 .. 7, through dumps, dump, copy, Pickler; as int or text or
    bool"""
    d = ctx.dill
    st = ctx.int('setting', -1, 6)
    d.settings['protocol'] = st
    how = ctx.choice('keyword', ['absent', 'none', 'value'])
    kw = {}
    eff = st
    if how == 'none':
        kw = dict(protocol=None)
    elif how == 'value':
        k = ctx.int('value', -2, 7)
        kw = dict(protocol=k)
        eff = k
    snap = snapshot(ctx)
    obj = [(1, b'\xff'), {'a': 2.5}, 'text' * 9, 70000]
    eps = entry_points(ctx)
    i = ctx.pick('entry', 3)
    if i == 2 and how != 'value':
        ctx.skip('the pickler class takes its default protocol from the standard one')
    r, e = ctx.attempt(eps[i], obj, **kw)
    if ctx.decide(eff > pickle.HIGHEST_PROTOCOL):
        ctx.check(isinstance(e, ValueError), 'too high refused')
    else:
        ctx.check(e is None, 'dumps', e)
        eff = ctx.concrete(eff)
        ctx.check(r == pickle._dumps(obj, eff), 'protocol obeyed')
    unchanged(ctx, snap)


def s_fmode(ctx):
    """file mode: setting 0..2, keyword absent, None or 0..2, through dumps, dump, Pickler, copy; a read handle at a
    symbolic position whose file is changed (or not) between dump and load"""
    d = ctx.dill
    st = ctx.int('setting', 0, 2)
    d.settings['fmode'] = st
    how = ctx.choice('keyword', ['absent', 'none', 'value'])
    kw, eff = {}, st
    if how == 'none':
        kw = dict(fmode=None)
    elif how == 'value':
        eff = ctx.int('value', 0, 2)
        kw = dict(fmode=eff)
    snap = snapshot(ctx)
    path = os.path.join(ctx.scratch(), 'f')
    with open(path, 'w') as f:
        f.write('0123456789')
    h = open(path, 'r')
    ctx.on_exit(h.close)
    h.seek(4)
    ep = ctx.choice('entry', entry_points(ctx))
    s = ctx.expect_ok('dumps', ep, h, **kw)
    with open(path, 'w') as f:
        f.write('abcdefghij')
    r = ctx.expect_ok('loads', d.loads, s)
    ctx.on_exit(r.close)
    got = r.read()
    want = ctx.ite(eff == 0, 0, ctx.ite(eff == 1, 1, 2))
    want = ctx.concrete(want)
    ctx.check(got == {0: 'abcdefghij', 1: 'efghij', 2: '456789'}[want], 'file mode obeyed')
    unchanged(ctx, snap)


def s_sequence(ctx):
    """two dumps and two loads with independent options (keyword absent, None, False or True), the settings switched
    between them or not, also from inside a reduce method: nothing leaks"""
    d = ctx.dill
    f = two_globals()
    C = main_class(ctx)
    vals = [None, False, True]
    d.settings['recurse'] = ctx.flag('setting')

    def call(i):
        k = ctx.pick('kw%d' % i, 4)
        return {} if k == 3 else {'recurse': vals[k]}

    def eff(kw):
        v = kw.get('recurse')
        return d.settings['recurse'] if v is None else v
    k1, k2 = call(1), call(2)
    nested = ctx.flag('nested')
    got = []
    if nested:
        outer = d.settings['recurse']

        class Inner(object):
            def __reduce__(self):
                got.append(d.dumps(f, **k1))
                return (int, ())
        Inner.__module__ = 'zz_nomod'
        r2 = d.loads(d.dumps([Inner(), f], **k2))[1]
        r1 = d.loads(got[0])
    else:
        r1 = d.loads(d.dumps(f, **k1))
        e1 = eff(k1)
        if ctx.flag('switch'):
            d.settings['recurse'] = not d.settings['recurse']
            ctx.check(('unused' not in r1.__globals__) == bool(e1), 'first obeyed')
        r2 = d.loads(d.dumps(f, **k2))
    if nested:
        ctx.check(('unused' not in r1.__globals__) == bool(eff(k1)), 'inner obeyed')
    ctx.check(('unused' not in r2.__globals__) == bool(eff(k2)), 'second obeyed')


def s_positional(ctx):
    """the documented positional order of dump and dumps: protocol, byref, fmode, recurse"""
    d = ctx.dill
    C, f = main_class(ctx), two_globals()
    p = ctx.choice('proto', [None, 0, 2, 4])
    b, r = ctx.any('byref'), ctx.any('recurse')
    fm = ctx.choice('fmode', [None, 0, 1])
    if ctx.flag('dumps'):
        s = ctx.expect_ok('dumps', d.dumps, [C, f], p, b, fm, r)
    else:
        x = io.BytesIO()
        ctx.expect_ok('dumps', d.dump, [C, f], x, p, b, fm, r)
        s = x.getvalue()
    out = d.loads(s)
    ctx.check(ctx.iff(out[0] is C, ctx.decide(bool(b))), 'byref placed')
    ctx.check(ctx.iff('unused' not in out[1].__globals__, ctx.decide(bool(r))), 'recurse placed')
    want = d.settings['protocol'] if p is None else p
    ctx.check(s[:2] == b'\x80' + bytes([want]) if want >= 2 else s[:1] != b'\x80', 'protocol placed')


SCENARIOS = [
    Scenario('byref', s_byref, labels=('byref obeyed', 'settings unchanged')),
    Scenario('recurse', s_recurse, labels=('recurse obeyed', 'settings unchanged')),
    Scenario('ignore', s_ignore, labels=('ignore obeyed', 'settings unchanged')),
    Scenario('protocol', s_protocol, labels=('protocol obeyed', 'too high refused')),
    Scenario('fmode', s_fmode, labels=('file mode obeyed',)),
    Scenario('sequence', s_sequence, labels=('first obeyed', 'second obeyed', 'inner obeyed')),
    Scenario('positional', s_positional, labels=('byref placed', 'recurse placed', 'protocol placed')),
]
