"""C16: the extension on and off, registered types"""
import io
import pickle
import struct
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'handlers are found in the dispatch tables of the python picklers, as documented; other code puts its handlers into '
    'the table of the standard pickler',
    'a type registered while the extension is on reaches the standard pickler when the extension is next turned on']


class Meta(type):
    pass


class Mixin(object):
    pass


class Deep(Mixin, Meta):
    pass


class User(object):
    pass


def handler(name):
    def f(pickler, obj):
        CALLS.append((name, type(pickler).__module__.split('.')[0]))
        pickler.write(b'X' + struct.pack('<I', len(name)) + name.encode())
    f.__name__ = name
    return f


CALLS = []
MINE = [handler('mine0'), handler('mine1')]
THEIRS = [handler('theirs')]
MISSING = object()


def run(ctx, n, kinds):
    d = ctx.dill
    stock, own = pickle._Pickler.dispatch, d.Pickler.dispatch
    before = dict(own)
    d.extend(False)
    plain = dict(stock)                                   # with the extension off

    def reset():
        d.extend(False)
        for table, was in ((stock, plain), (own, before)):
            table.clear()
            table.update(was)
        d.extend()
    ctx.on_exit(reset)
    d.extend()
    # what the tables should hold
    theirs = dict(plain)        # the standard pickler's handlers, without the extension's
    placed = {t: f for t, f in stock.items() if plain.get(t) is not f}
    mine = dict(own)
    form = ctx.choice('form', ['decorator', 'call'])
    on = True
    pool = [User, int, types.FunctionType, Meta][:kinds]
    for k in range(n):
        op = ctx.choice('op%d' % k, ['on', 'off', 'register', 'other', 'withdraw'])
        if op in ('register', 'other', 'withdraw'):
            t = pool[ctx.pick('type%d' % k, len(pool))]
        if op == 'on':
            ctx.expect_ok('turns on', d.extend) if form == 'call' else ctx.expect_ok('turns on', d.extend, True)
            placed = {u: f for u, f in mine.items() if plain.get(u) is not f or u in placed}
            on = True
        elif op == 'off':
            ctx.expect_ok('turns off', d.extend, False)
            placed = {}
            on = False
        elif op == 'register':
            f = MINE[k % 2]
            mine[t] = f
            if form == 'call':
                ctx.expect_ok('registers', d.pickle, t, f)
            else:
                ctx.check(ctx.expect_ok('registers', d.register(t), f) is f, 'registering returns the function')
        elif op == 'other':
            stock[t] = THEIRS[0]
            theirs[t] = THEIRS[0]
            placed.pop(t, None)
        else:                                             # other code takes its handler back
            ctx.assume(t not in placed and theirs.get(t) is THEIRS[0])
            for table in (stock, theirs):
                if t in plain:
                    table[t] = plain[t]
                else:
                    del table[t]
        want = dict(theirs)
        want.update(placed)
        diff = [u for u in set(want) | set(stock) if want.get(u) is not stock.get(u)]
        ctx.check(not diff, 'handlers of the standard pickler are as they should be', detail=repr(diff)[:200])
        diff = [u for u in set(mine) | set(own) if mine.get(u) is not (own[u] if u in own else None)]
        ctx.check(not diff, "this package's handlers are as registered", detail=repr(diff)[:200])
    return want, mine


def s_history(ctx):
    """all sequences of 3 operations (thorough: 4) over turning on, turning off, registering a type in either form, other
    code setting or withdrawing its handler; 3 types (thorough: 4): a user's, one of the standard pickler's own, one of
    this package's, a metaclass"""
    want, mine = run(ctx, 3 if ctx.tier == 'quick' else 4, 3 if ctx.tier == 'quick' else 4)


def s_handled(ctx):
    """as above with 2 operations on 4 types; then an object of each type is dumped by both picklers"""
    d = ctx.dill
    want, mine = run(ctx, 2, 4)
    ns = ctx.main.__dict__
    meta = [Meta, Deep][ctx.pick('meta', 2)]
    ns.update(User=User, Meta=Meta, Made=meta('Made', (), {'__module__': '__main__'}), f=run)
    made = ns['Made']
    objs = [(User, User()), (int, 5), (types.FunctionType, run), (Meta, made)]
    which = ctx.pick('object', 4)
    t, obj = objs[which]
    ctx.assume(which == 3 or meta is Meta)
    if which == 3 and meta not in mine:
        ctx.assume(not any(mine.get(u) in MINE for u in (int, types.FunctionType)))
        ctx.check(mine is not None and d.Pickler.dispatch.get(meta) is d.Pickler.dispatch[type], 'a class of another metaclass is a class')
        got = ctx.expect_ok('dumps', ctx.rt, made, byref=ctx.flag('byref'))
        ctx.check(isinstance(got, type) and got.__name__ == 'Made' and type(got).__name__ == meta.__name__, 'a class of another metaclass is a class')
        return
    for P, table in ((d.Pickler, mine), (pickle._Pickler, want)):
        del CALLS[:]
        buf = io.BytesIO()
        r, e = ctx.attempt(lambda: P(buf, 2).dump(obj))
        f = table.get(type(obj))
        if f in MINE + THEIRS:
            ctx.check(e is None and [c[0] for c in CALLS] == [f.__name__], 'handled by the registered function')
            ctx.check(pickle.loads(buf.getvalue()) == f.__name__, 'handled by the registered function')
        else:
            ctx.check(not CALLS, 'not handled by another')


L = ['turns on', 'turns off', 'registers', 'handlers of the standard pickler are as they should be',
     "this package's handlers are as registered"]
SCENARIOS = [
    Scenario('history', s_history, labels=L + ['registering returns the function']),
    Scenario('handled', s_handled, labels=L + ['a class of another metaclass is a class', 'handled by the registered function',
                                               'not handled by another']),
]
