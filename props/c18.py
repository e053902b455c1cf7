"""C18: searches along references, objects by address"""
import gc
import types
import weakref

from sx.api import Scenario

ASSUMPTIONS = [
    'gc.get_referents and gc.get_referrers return the objects an object refers to, or that refer to it, in any order (in '
    'the encoding: answered from a symbolic reference graph, forwards or backwards)',
    'gc.get_objects returns the objects the collector tracks (in the encoding: three of them)',
    'ignored objects are given as a tuple, or as a single object without a length']


class Node(object):
    __slots__ = ('r0', 'r1', 'r2', 'r3', 'kinds')

    def __repr__(self):
        return 'a node'

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False
    __hash__ = object.__hash__


class Kind(type):
    """isinstance() asks the node"""
    def __instancecheck__(cls, obj):
        return type(obj) is Node and bool(obj.kinds[cls.index])


A = Kind('A', (), {'index': 0})
B = Kind('B', (), {'index': 1})


def graph(ctx, n, kinds, sparse):
    nodes = [Node() for _ in range(n)]
    adj = [[False if sparse and i == j else ctx.bool('e%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    if sparse:
        for i in range(n):
            adj[i][0] = adj[i][0] if not sparse == 'up' else False
            adj[0][i] = adj[0][i] if not sparse == 'down' else False
    hit = [[ctx.bool('k%d%d' % (i, k)) if k < kinds else False for k in range(2)] for i in range(n)]
    for v, h in zip(nodes, hit):
        v.kinds = tuple(h)
    if not ctx.sym:
        for i, v in enumerate(nodes):
            for j, w in enumerate(nodes):
                if adj[i][j]:
                    setattr(v, 'r%d' % j, w)
        return nodes, adj, hit
    from sx.instrument import ENVIRONMENT
    noise = [{}, [], Node.__dict__]
    rev = ctx.flag('reversed')

    def answers(edge):
        def f(*objs):
            out = []
            for o in objs:
                i = next((i for i, v in enumerate(nodes) if v is o), None)
                out += noise if i is not None else noise[:1]
                if i is not None:
                    out += [nodes[j] for j in range(n) if ctx.decide(edge(i, j))]
            return out[::-1] if rev else out
        return f
    for k, f in ((gc.get_referents, answers(lambda i, j: adj[i][j])), (gc.get_referrers, answers(lambda i, j: adj[j][i])),
                 (gc.collect, lambda *a: 0)):
        ENVIRONMENT[k] = f
        ctx.on_exit(lambda k=k: ENVIRONMENT.pop(k, None))
    return nodes, adj, hit


def search(ctx, n, kinds, up, step, sparse=None):
    P = ctx.dill.pointers
    nodes, adj, hit = graph(ctx, n, kinds, sparse)
    objtype = ctx.choice('type', [A, (A,), (A, B)] if kinds == 2 else [A])
    good = [ctx.lor(h[0], h[1]) if objtype == (A, B) else h[0] for h in hit]
    edge = (lambda i, j: adj[i][j]) if up else (lambda i, j: adj[j][i])
    ign = [ctx.flag('ignore%d' % i) if not sparse and (i or step or ctx.tier != 'quick') or sparse and i == n - 1 else False
           for i in range(n)]
    ignore = tuple(v for i, v in enumerate(nodes) if ign[i])
    kw = {'ignore': ignore} if ignore else {}
    if len(ignore) == 1 and ctx.flag('single'):
        kw['ignore'] = ignore[0]
    if step:
        depth = 1
        res = ctx.expect_ok('answers', P.parent, nodes[0], objtype, **kw)
    else:
        depth = ctx.int('depth', 0)
        res = ctx.expect_ok('answers', P.parents if up else P.children, nodes[0], objtype, depth, **kw)
    # what there is: level[k] holds the nodes reached in at most k steps
    level = [[i == 0 for i in range(n)]]
    for _ in range(n):
        last = level[-1]
        level.append([ctx.lor(last[v], False if ign[v] else ctx.lor(*[ctx.land(last[u], edge(u, v)) for u in range(n)]))
                      for v in range(n)])
    found = [ctx.lor(*[ctx.land(level[k][v], good[v]) for v in range(n)]) for k in range(n + 1)]

    def index(o):
        return next((i for i, v in enumerate(nodes) if v is o), None)
    if step:
        if res is None:
            ctx.check(ctx.lor(good[0], ctx.lnot(found[1])), 'nothing only when there is none')
            return
        i = index(res)
        ctx.check(i is not None and not ign[i], 'not ignored')
        ctx.check(ctx.land(edge(0, i), good[i]), 'a real parent')
        return
    ctx.check(type(res) is list and len(res) >= 1, 'a chain')
    chain = [index(o) for o in (res if up else res[::-1])]
    ctx.check(None not in chain and chain[0] == 0, 'starts at the object')
    ctx.check(not any(ign[i] for i in chain[1:]), 'not ignored')
    ctx.check(ctx.land(*[edge(i, j) for i, j in zip(chain, chain[1:])]), 'real references')
    length = len(chain) - 1
    if length == 0:
        for k in range(n + 1):
            ctx.check(ctx.lor(good[0], ctx.lnot(ctx.land(k <= depth, found[k]))), 'the object alone only when there is none')
        return
    ctx.check(good[chain[-1]], 'of the type')
    ctx.check(length <= depth, 'within the depth')
    ctx.check(ctx.lnot(found[length - 1]), 'shortest')


def s_parents(ctx):
    """all graphs of 3 nodes, one type (thorough: two), every subset of the others (thorough: of all) ignored, any depth"""
    search(ctx, 3, 1 if ctx.tier == 'quick' else 1 + ctx.flag('kinds'), True, False)


def s_children(ctx):
    """all graphs of 3 nodes, one type (thorough: two), every subset of the others (thorough: of all) ignored, any depth"""
    search(ctx, 3, 1 if ctx.tier == 'quick' else 1 + ctx.flag('kinds'), False, False)


def s_parent(ctx):
    """all graphs of 3 nodes, two types, every subset ignored; the one-step search"""
    search(ctx, 3, 2, True, True)


def s_deep(ctx):
    """all graphs of 4 nodes without self-references and ways back to the object, nothing or one node ignored, any depth;
    either direction"""
    up = ctx.flag('up')
    search(ctx, 4, 1, up, False, 'up' if up else 'down')


def s_full(ctx):
    """all graphs of 4 nodes without self-references, nothing or one node ignored, any depth; either direction"""
    search(ctx, 4, 1, ctx.flag('up'), False, 'full')


# ------------------------------------------------------------------ addresses
class Target(object):
    pass


TRACKED = [Target(), {'a': [Target()]}, [1]]
UNTRACKED = ['some text', 10 ** 30]


def s_at(ctx):
    """any integer within 10**6 of the address of a tracked object at which no other object is, an object the collector tracks, an object of a given module, or None,
    True, False; with a module or without; values that are no address"""
    at = ctx.dill.pointers.at
    tracked, untracked = TRACKED, UNTRACKED
    which = ctx.choice('which', ['tracked', 'special', 'module', 'other', 'text', 'number', 'nothing'])
    mod = ctx.module('zzholder', register=False, a=untracked[0], b=untracked[1], c=tracked[1])
    given = ctx.choice('module', [None, mod])
    specials = [None, True, False]
    ident = id
    if ctx.sym:
        from sx.instrument import ENVIRONMENT
        everything = tracked + untracked + specials

        def ident(o):
            """addresses that are the same in every run of the encoding"""
            return next((1 + k) * 10 ** 5 for k, v in enumerate(everything + [o]) if v is o)
        ENVIRONMENT[id] = ident
        ENVIRONMENT[hex] = lambda v: '0x..' if which == 'other' else hex('' if which == 'text' else v)   # only in a message
        for k in (id, hex):
            ctx.on_exit(lambda k=k: ENVIRONMENT.pop(k, None))
    if which in ('text', 'number', 'nothing'):
        addr = {'text': ctx.str('text', 2), 'number': 0.5, 'nothing': None}[which]
        ctx.must_raise('no address at all', TypeError, at, addr, *([given] if given else []))
        return
    if ctx.sym and not given:
        ENVIRONMENT[gc.get_objects] = lambda *a: list(tracked)
        ctx.on_exit(lambda: ENVIRONMENT.pop(gc.get_objects, None))
    target = {'tracked': tracked[ctx.pick('t', 3)] if which == 'tracked' else None,
              'special': specials[ctx.pick('s', 3)] if which == 'special' else None,
              'module': untracked[ctx.pick('m', 2)] if which == 'module' else None, 'other': tracked[0]}[which]
    off = ctx.int('off', -10 ** 6, 10 ** 6) if which == 'other' else 0
    addr = ident(target) + off
    if given:
        held = specials + list(mod.__dict__.values())
    else:
        held = specials + (tracked if ctx.sym else gc.get_objects())
    known = [addr == ident(o) for o in held]
    for o, k in zip(held, known):
        if o is not target:
            ctx.assume(ctx.lnot(k))
    r, e = ctx.attempt(at, addr, *([given] if given else []))
    if e is None:
        ctx.check(ident(r) == addr, 'the object at the address')
        ctx.check(any(r is o for o in held), 'one it knows of')
    else:
        ctx.check(type(e) is ReferenceError, 'an unknown address is a reference error', detail=type(e).__name__)
        ctx.check(ctx.lnot(ctx.lor(*known)), 'a known address is found')


def s_reference(ctx):
    """the address of an object, of what a weak proxy stands for, or of a dead one's nothing; and back"""
    P = ctx.dill.pointers
    t = Target()
    kind = ctx.choice('kind', ['object', 'proxy', 'callable proxy', 'dead', 'class', 'none'])
    if kind == 'callable proxy':
        t = types.SimpleNamespace
        t = type('Called', (), {'__call__': lambda self: 1, '__slots__': ('__weakref__', 'x')})()
        t.x = t
        ctx.on_exit(lambda: delattr(t, 'x'))
    want = t
    obj = {'object': t, 'class': Target, 'none': None}.get(kind)
    if kind in ('proxy', 'callable proxy', 'dead'):
        u = Target() if kind == 'dead' else t
        obj = weakref.proxy(u)
        del u
    want = {'class': Target, 'none': None, 'dead': None}.get(kind, t)
    addr = ctx.expect_ok('an address', P.reference, obj)
    ctx.check(addr == id(want), 'its address')
    back = ctx.expect_ok('found again', P.at, addr)
    ctx.check(back is want, 'and back')


L = ['answers', 'a chain', 'starts at the object', 'not ignored', 'real references', 'the object alone only when there is none',
     'of the type', 'within the depth', 'shortest']
SCENARIOS = [
    Scenario('parents', s_parents, labels=L),
    Scenario('children', s_children, labels=L),
    Scenario('parent', s_parent, labels=['answers', 'nothing only when there is none', 'not ignored', 'a real parent']),
    Scenario('deep', s_deep, labels=L),
    Scenario('full', s_full, labels=L, tiers=('thorough',)),
    Scenario('at', s_at, labels=['no address at all', 'the object at the address', 'one it knows of',
                                 'an unknown address is a reference error', 'a known address is found']),
    Scenario('reference', s_reference, labels=['an address', 'its address', 'found again', 'and back']),
]
