"""C26: locks, weak references, proxies"""
import collections
import os
import sys
import threading
import types
import weakref
import _thread

from sx.api import Scenario, exec_def

ASSUMPTIONS = [
    'a re-entrant lock with a symbolic owner and count is represented by its documented text form and by the pair '
    'handed to its restore method; path models are re-executed on real locks',
    'memory addresses are those of the run (the text forms of proxies contain them)',
]

LOCK, RLOCK = type(threading.Lock()), type(threading.RLock())


def s_lock(ctx):
    """a lock, locked or not, alone or shared twice; protocols 0-5"""
    locked = ctx.flag('locked')
    p = ctx.choice('proto', range(6))
    k = threading.Lock()
    if locked:
        k.acquire()
    r = ctx.expect_ok('pickles', ctx.rt, [k, {'again': k}], protocol=p)
    ctx.check(type(r[0]) is LOCK and r[0] is not k, 'type')
    ctx.check(r[0].locked() == locked and k.locked() == locked, 'locked state')
    ctx.check(r[1]['again'] is r[0], 'shared')
    if locked:
        r[0].release()
        ctx.check(not r[0].locked() and k.locked(), 'independent')
    else:
        ctx.check(r[0].acquire(False) and not k.locked(), 'independent')


class RLockModel(object):
    """a re-entrant lock whose owner and count are symbolic"""
    __sx_native_type__ = RLOCK

    def __init__(self, count=0, owner=0):
        self.state = (count, owner)

    def __repr__(self):
        c, o = self.state
        return '<' + self.word + ' _thread.RLock object owner=' + self.text(o) + ' count=' + self.text(c) + \
            ' at 0x7f0badcafe10>'

    def _acquire_restore(self, state):
        self.state = tuple(state)

    def _is_owned(self):
        from sx import values as V
        return V.mkbool(V.zand(V.zb(self.state[0] > 0), V.zb(self.state[1] == _thread.get_ident())))


def s_rlock(ctx):
    """owner this thread or any other identity up to 15 digits, count 0 .. 99999, both zero when unlocked"""
    count = ctx.int('count', 0, 99999)
    mine = ctx.flag('mine')
    me = _thread.get_ident()
    owner = me if mine else ctx.int('owner', 0, 10 ** 15 - 1)
    if mine:
        ctx.assume(count > 0)
    else:
        ctx.assume(ctx.iff(count == 0, owner == 0))
        ctx.assume(ctx.lnot(ctx.eq(owner, me)))
    if ctx.sym:
        import pickle
        from sx import values as V
        from sx.instrument import ENVIRONMENT
        RLockModel.text = staticmethod(V.to_str)
        RLockModel.word = 'locked' if ctx.decide(count > 0) else 'unlocked'
        for t in (threading.RLock, RLOCK, _thread.RLock):
            ENVIRONMENT[t] = RLockModel
            ctx.on_exit(lambda t=t: ENVIRONMENT.pop(t, None))
        for c in (ctx.dill.Pickler, pickle._Pickler):
            if RLOCK in c.dispatch:
                c.dispatch[RLockModel] = c.dispatch[RLOCK]
        k = RLockModel(count, owner)
    else:
        ctx.decide(count > 0)
        k = RLOCK()
        if count:
            k._acquire_restore((count, owner))
    p = ctx.choice('proto', (0, 2, 4))
    if not mine and ctx.decide(count > 0):
        # nobody but its owner may hold it: refused, not handed over
        s = ctx.expect_ok('dumps', ctx.dill.dumps, [k, k], protocol=p)
        ctx.must_raise('held by another thread', ctx.dill.UnpicklingError, ctx.dill.loads, s)
        return
    r = ctx.expect_ok('pickles', ctx.rt, [k, k], protocol=p)
    ctx.check(r[0] is r[1], 'shared')
    r = r[0]
    if ctx.sym:
        ctx.check(type(r) is RLockModel, 'type')
        ctx.check(ctx.eq(r.state[0], count), 'count')
        ctx.check(ctx.eq(r.state[1], owner), 'owner')
        ctx.check(ctx.eq(k.state[0], count), 'original')
    else:
        ctx.check(type(r) is RLOCK, 'type')
        t = repr(r)
        ctx.check(' count=%d ' % count in t, 'count')
        ctx.check(' owner=%d ' % owner in t, 'owner')
        ctx.check(' count=%d ' % count in repr(k), 'original')


def s_rlock_owned(ctx):
    """a real re-entrant lock acquired 0-3 times by this thread"""
    n = ctx.pick('n', 4)
    k = threading.RLock()
    for _ in range(n):
        k.acquire()
    r = ctx.expect_ok('pickles', ctx.rt, k, protocol=ctx.choice('proto', range(6)))
    ctx.check(type(r) is RLOCK and r._is_owned() == (n > 0), 'owned')
    for _ in range(n):
        r.release()
    ctx.check(not r._is_owned() and k._is_owned() == (n > 0), 'released as often as acquired')
    ctx.must_raise('one more release fails', RuntimeError, r.release)


SRC = '''
class Ref(object):
    def __init__(self, v):
        self.v = v
class Falsy(Ref):
    def __bool__(self):
        return False
class FalsyCallable(Falsy):
    def __call__(self, x=0):
        return (self.v, x)
class Callable(Ref):
    def __call__(self, x=0):
        return (self.v, x)
class Text(Ref):
    text = None
    rtext = None
    def __str__(self):
        if self.text is None:
            return object.__repr__(self)
        return self.text
    def __repr__(self):
        if self.rtext is None:
            return object.__repr__(self)
        return self.rtext
class CText(Text):
    def __call__(self, x=0):
        return (self.v, x)
'''


def classes(ctx):
    m = ctx.module('zzmod')
    exec(SRC, m.__dict__)
    return m


def s_weakref(ctx):
    """a weak reference to an instance (true or false), a class, a function or a set (empty or not); alive (kept by the same pickle, before or after the
    reference, or by nothing else) or dead; with or without a callback"""
    m = classes(ctx)
    kind = ctx.choice('referent', ['instance', 'false instance', 'class', 'function', 'set', 'empty set'])
    if kind.endswith('instance'):
        o = (m.Falsy if kind[0] == 'f' else m.Ref)(ctx.any('v'))
    elif kind == 'class':
        o = exec_def('class K(object):\n    x = 1\n', __name__='zz_nomod')['K']
    elif kind == 'function':
        o = exec_def('def f():\n    return 3\n', __name__='zz_nomod')['f']
    else:
        o = set() if kind == 'empty set' else frozenset([1, 2, 3])
    w = weakref.ref(o)
    shape = ctx.choice('shape', ['before', 'after', 'dead', 'two refs'])
    p = ctx.choice('proto', range(6))
    if shape == 'dead':
        if kind == 'class':
            ctx.skip('the death of a class waits for the collector')
        del o
        if w() is not None:
            import gc
            gc.collect()
        r = ctx.expect_ok('pickles', ctx.rt, [w], protocol=p)
        ctx.check(type(r[0]) is weakref.ref and r[0]() is None, 'dead')
        return
    if shape == 'two refs':
        class R2(object):
            pass
        obj = [w, weakref.ref(o), o]
        r = ctx.expect_ok('pickles', ctx.rt, obj, protocol=p)
        ctx.check(r[0]() is r[2] and r[1]() is r[2], 'refers to the copy')
        return
    obj = [o, w] if shape == 'before' else [w, o]
    r = ctx.expect_ok('pickles', ctx.rt, obj, protocol=p)
    ro, rw = (r[0], r[1]) if shape == 'before' else (r[1], r[0])
    ctx.check(type(rw) is weakref.ref, 'type')
    ctx.check(rw() is ro and type(ro) is type(o), 'refers to the copy')
    if kind.endswith('instance'):
        ctx.check(ctx.eq(ro.v, o.v), 'state')


def s_proxy(ctx):
    """a proxy or callable proxy of an instance (true or false, by reference or by value class), sharing its referent with another
    proxy, a weak reference and the instance itself in every order; dead proxies of both kinds"""
    m = classes(ctx)
    callable_ = ctx.flag('callable')
    falsy = ctx.flag('false')
    o = ((m.FalsyCallable if falsy else m.Callable) if callable_ else m.Falsy if falsy else m.Ref)(ctx.any('v'))
    px = weakref.proxy(o)
    typ = type(px)
    p = ctx.choice('proto', range(6))
    shape = ctx.choice('shape', ['op', 'po', 'ppo', 'wpo', 'pow', 'dead', 'dead2'])
    if shape.startswith('dead'):
        del o
        obj = [px] if shape == 'dead' else [px, px]
        r = ctx.expect_ok('pickles', ctx.rt, obj, protocol=p)
        ctx.check(type(r[0]) is typ, 'kind')
        ctx.check(is_dead(r[0]), 'dead')
        return
    parts = {'o': o, 'p': px, 'w': weakref.ref(o)}
    r = ctx.expect_ok('pickles', ctx.rt, [parts[c] for c in shape], protocol=p)
    ro = r[shape.index('o')]
    ctx.check(type(ro) is type(o) and ro is not o, 'referent')
    ctx.check(ctx.eq(ro.v, o.v), 'state')
    for c, x in zip(shape, r):
        if c == 'p':
            ctx.check(type(x) is typ, 'kind')
            ctx.check(ctx.eq(x.v, o.v), 'reads')
            x.v = 5
            ctx.check(ro.v == 5, 'refers to the copy')
            ro.v = o.v
            if callable_:
                ctx.check(ctx.eq(x(2), (o.v, 2)), 'calls')
        elif c == 'w':
            ctx.check(x() is ro, 'weak reference to the copy')


def is_dead(px):
    try:
        px.v
    except ReferenceError:
        return True
    except AttributeError:
        return False
    return False


TEXTS = ['', 'x', 'v', 'meet at 10', ' at 10', 'ab', 'beef', '10', '<r at 0x10>', 'a at b at 20>', ' at ', ' at zz>',
         '<proxy>', '0x10', 'inf', '0', '-1', '1_0', ' at 0x_1', '٣', ' at ٣']


def s_proxy_text(ctx):
    """the referent's str() is any text of up to 3 characters over digits, a, t, x, space and brackets, or one of 21
    longer ones; its repr() the default, the same text or another of them"""
    m = classes(ctx)
    callable_ = ctx.flag('callable')
    o = (m.CText if callable_ else m.Text)(ctx.any('v'))
    if ctx.flag('free'):
        text = ctx.str('text', (0, 3 if ctx.tier == 'thorough' else 2), alphabet='1atx >')
    else:
        text = ctx.choice('text', TEXTS)
    how = ctx.choice('repr', ['default', 'same', 'other'])
    text = ctx.concrete(text)
    o.text = text
    if how == 'same':
        o.rtext = text
    elif how == 'other':
        o.rtext = 'thing at 99'
    px = weakref.proxy(o)
    r = ctx.expect_ok('pickles', ctx.rt, [o, px], protocol=2)
    ctx.check(type(r[1]) is type(px), 'kind')
    r[1].mark = 7
    ctx.check(getattr(r[0], 'mark', None) == 7, 'refers to the copy')
    ctx.check(ctx.eq(r[0].v, o.v), 'state')


def s_proxy_class(ctx):
    """a proxy of a class (whose text form holds no address) or of a function"""
    kind = ctx.choice('kind', ['class', 'function', 'set', 'module class'])
    if kind == 'class':
        o = exec_def('class K(object):\n    x = 1\n', __name__='zz_nomod')['K']
    elif kind == 'function':
        o = exec_def('def K():\n    return 3\n', __name__='zz_nomod')['K']
    elif kind == 'set':
        o = set([1, 2])
    else:
        o = collections.OrderedDict
    px = weakref.proxy(o)
    r = ctx.expect_ok('pickles', ctx.rt, [o, px], protocol=ctx.choice('proto', (0, 2, 4)))
    ctx.check(type(r[1]) is type(px), 'kind')
    if kind == 'set':
        r[0].add(77)
        ctx.check(77 in r[1], 'refers to the copy')
    else:
        ctx.check(r[1].__name__ == o.__name__, 'reads')
        if kind != 'module class':
            r[0].mark = 7
            ctx.check(r[1].mark == 7 and not hasattr(o, 'mark'), 'refers to the copy')


SCENARIOS = [
    Scenario('lock', s_lock, labels=('locked state', 'shared', 'independent')),
    Scenario('rlock', s_rlock, labels=('count', 'owner', 'held by another thread')),
    Scenario('rlock_owned', s_rlock_owned, labels=('owned', 'one more release fails')),
    Scenario('weakref', s_weakref, labels=('dead', 'refers to the copy', 'state')),
    Scenario('proxy', s_proxy, labels=('dead', 'kind', 'reads', 'refers to the copy', 'calls',
                                       'weak reference to the copy')),
    Scenario('proxy_text', s_proxy_text, labels=('kind', 'refers to the copy')),
    Scenario('proxy_class', s_proxy_class, labels=('kind', 'reads', 'refers to the copy')),
]
