"""C03: sharing and cycles"""
import types

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['references between functions go through closure cells, attributes and shared namespaces; arguments of '
               'the constructor of a function (its defaults) lead back to it through a cell only',
               'the graphs are connected: every object is reachable from the one that is dumped']

SRC = '''
def two(c0, c1):
    def f():
        return (c0, c1)
    return f
def one(c0):
    def g():
        return c0
    return g
def dflt(c0):
    def h(x, *, y=None):
        return c0, x, y
    return h
class Box(object):
    pass
class Key(object):
    pass
'''
EMPTY = object()


class Graph(object):
    """a graph that is made up while it is walked: every reference is a symbolic choice between a leaf, an object that
    already exists and a new object of any kind, numbered in the order of the walk"""

    def __init__(self, ctx, budget, kinds, width=2, leaf=True, width1=2, attr=False):
        self.ctx, self.budget, self.kinds, self.width, self.leaf = ctx, budget, kinds, width, leaf
        # the classes are found by name, the functions are not
        self.lib = ctx.module('zzlib')
        exec(compile(SRC, '<sx>', 'exec'), self.lib.__dict__)
        self.ns = {'__name__': 'zz_nomod'}
        self.nodes = []          # (kind, object)
        self.todo = []
        self.n = 0
        self.width1 = width1
        self.attr = attr
        self.ecount = 0

    def fresh(self, s):
        self.ecount += 1
        return '%s%d' % (s, self.ecount)

    def ref(self, only=None):
        """the object a new reference leads to"""
        old = [o for k, o in self.nodes if only is None or k in only]
        new = [k for k in self.kinds if only is None or k in only]
        if only and not new:
            new = list(only)
        if self.n >= self.budget and (only is None or old):
            new = []
        opts = ([('leaf', None)] if only is None and (self.leaf or not (old or new)) else []) + \
            [('old', o) for o in old] + [('new', k) for k in new]
        self.ecount += 1
        what, x = self.ctx.choice('e%d' % self.ecount, opts)
        if what == 'leaf':
            return self.ctx.any('v%d' % self.ecount)
        return x if what == 'old' else self.make(x)

    def make(self, kind):
        self.n += 1
        lib = self.lib
        if kind == 'C':
            o = types.CellType()
        elif kind == 'L':
            o = []
        elif kind == 'D':
            o = {}
        elif kind == 'S':
            o = set()
        elif kind == 'I':
            o = lib.Box()
        elif kind in 'Ff':
            maker = lib.two if kind == 'F' else lib.one
            code = [c for c in maker.__code__.co_consts if isinstance(c, types.CodeType)][0]
            cells = []
            for i in range(2 if kind == 'F' else 1):
                cells.append(self.ref('C'))
            o = types.FunctionType(code, self.ns, 'fn%d' % self.n, None, tuple(cells))
            o.__module__ = 'zz_nomod'
        elif kind == 'd':
            cells = (self.ref('C'),)
            code = [c for c in lib.dflt.__code__.co_consts if isinstance(c, types.CodeType)][0]
            o = types.FunctionType(code, self.ns, 'fn%d' % self.n, None, cells)
            o.__module__ = 'zz_nomod'
        self.nodes.append((kind, o))
        self.todo.append((kind, o))
        return o

    def run(self, kind):
        root = self.make(kind)
        while self.todo:
            k, o = self.todo.pop(0)
            if k == 'C':
                if self.ctx.flag(self.fresh('full')):
                    o.cell_contents = self.ref()
            elif k == 'L':
                o.extend([self.ref() for _ in range(self.width)])
            elif k == 'D':
                for i in range(self.width):
                    o[i] = self.ref()
            elif k == 'I':
                for i in range(self.width1):
                    setattr(o, 'a%d' % i, self.ref())
            elif k == 'd':
                o.__defaults__ = (self.ref(),)
                if self.attr and self.ctx.flag(self.fresh('kw')):
                    o.__kwdefaults__ = {'y': self.ref()}
            elif k in 'Ff':
                if self.ctx.flag(self.fresh('attr')):
                    o.attr = self.ref()
        return root


def parts(o):
    """kind and references of an object of the graph"""
    t = type(o)
    if t is types.CellType:
        try:
            return 'C', (o.cell_contents,)
        except ValueError:
            return 'C', ()
    if t is list:
        return 'L', tuple(o)
    if t is dict:
        return 'D', tuple((k, v) for k, v in o.items() if k != '__builtins__')
    if t is tuple:
        return 'T', o
    if t is types.FunctionType:
        return ('F', o.__name__, o.__code__.co_code, o.__code__.co_freevars, tuple(o.__dict__),
                tuple(o.__kwdefaults__ or ())), (o.__closure__ or ()) + tuple(o.__dict__.values()) + \
            (o.__defaults__ or ()) + tuple((o.__kwdefaults__ or {}).values())
    if hasattr(o, '__dict__') and not isinstance(o, type) and t.__name__ in ('Box', 'Key'):
        return ('I', t.__name__, tuple(sorted(o.__dict__))), tuple(o.__dict__[k] for k in sorted(o.__dict__))
    return None


def walk(ctx, o):
    """nodes in walk order, references as indices or leaves"""
    index, out, todo, keep = {}, [], [o], []

    def num(x):
        if ctx.is_sym(x) or parts(x) is None:
            return ('leaf', x)
        if type(x) is tuple:
            return ('tuple', tuple(num(y) for y in x))
        if id(x) not in index:
            index[id(x)] = len(index)
            keep.append(x)
            todo.append(x)
        return ('node', index[id(x)])
    index[id(o)] = 0
    while todo:
        x = todo.pop(0)
        k, refs = parts(x)
        out.append((k, tuple(num(r) for r in refs), x))
    return out


def same_ref(ctx, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'node':
        return a[1] == b[1]
    if a[0] == 'tuple':
        return len(a[1]) == len(b[1]) and ctx.land(*[same_ref(ctx, x, y) for x, y in zip(a[1], b[1])])
    return ctx.eq(a[1], b[1])


def compare(ctx, before, r, what='graph'):
    after = walk(ctx, r)
    ctx.check(len(before) == len(after), what + ': number of distinct objects',
              detail='%d objects became %d' % (len(before), len(after)))
    for (k, refs, x), (k2, refs2, y) in zip(before, after):
        ctx.check(k == k2, what + ': same kinds', detail='%r became %r' % (k, k2))
        ctx.check(len(refs) == len(refs2), what + ': same shape')
        ctx.check(ctx.land(*[same_ref(ctx, a, b) for a, b in zip(refs, refs2)]), what + ': same references')
        if type(y) is not type:
            ctx.check(x is not y, what + ': copies')


def unchanged(ctx, before, o):
    after = walk(ctx, o)
    ctx.check(len(before) == len(after), 'original unchanged')
    for (k, refs, x), (k2, refs2, y) in zip(before, after):
        ctx.check(k == k2 and x is y, 'original unchanged')
        ctx.check(len(refs) == len(refs2) and ctx.land(*[same_ref(ctx, a, b) for a, b in zip(refs, refs2)]),
                  'original unchanged')


def go(ctx, root, **kw):
    before = walk(ctx, root)
    r = ctx.expect_ok('pickles', ctx.rt, root, **kw)
    compare(ctx, before, r)
    unchanged(ctx, before, root)


def s_graph(ctx):
    """every connected graph of at most 3 objects (thorough: 4) out of functions with two cells, cells, lists and
    instances, two references per list, one per instance (thorough: two), an optional attribute per function; default protocol; tracing
    of globals on and off (lists only when off)"""
    rec = ctx.flag('recurse')
    kinds = ('FCI' if rec else 'FCLI') if ctx.tier == 'quick' else 'FCLI'
    g = Graph(ctx, 3 if ctx.tier == 'quick' else 4, kinds, width1=1 if ctx.tier == 'quick' else 2)
    root = g.run(ctx.choice('root', kinds))
    go(ctx, root, recurse=rec)


def s_functions(ctx):
    """every connected graph of at most 5 objects (4 with tracing of globals; thorough: 7) out of functions with one cell, attributes and cells"""
    rec = ctx.flag('recurse')
    g = Graph(ctx, (4 if rec else 5) if ctx.tier == 'quick' else 7, 'fC', leaf=ctx.tier != 'quick')
    root = g.run(ctx.choice('root', 'fC'))
    go(ctx, root, recurse=rec)


def tangled(root):
    """is there a function whose defaults lead back to it other than through a cell or an attribute?"""
    def reach(x, seen):
        if id(x) in seen or type(x) is types.CellType or parts(x) is None:
            return
        seen[id(x)] = x
        for y in (x.__defaults__ or ()) if type(x) is types.FunctionType else parts(x)[1]:
            reach(y, seen)
    for k, refs, x in root:
        if type(x) is types.FunctionType and x.__defaults__:
            seen = {}
            for y in x.__defaults__:
                reach(y, seen)
            if id(x) in seen:
                return True
    return False


def s_defaults(ctx):
    """every connected graph of at most 4 objects (thorough: 5) out of functions with one cell and one default, cells, lists and
    functions with one cell and an attribute, where a default leads back to its function through a cell only; tracing of
    globals on and off"""
    rec = ctx.flag('recurse')
    g = Graph(ctx, 4 if ctx.tier == 'quick' else 5, 'dCL', leaf=True, width=1, attr=ctx.tier != 'quick')
    root = g.run('d')
    before = walk(ctx, root)
    if tangled(before):
        ctx.skip('a default that leads back to its function')
    go(ctx, root, recurse=rec)


def s_protocols(ctx):
    """every connected graph of at most 2 objects out of functions, cells, dictionaries and instances, protocols 0-5"""
    g = Graph(ctx, 2, 'FfCDI', width1=1)
    proto = ctx.choice('proto', range(6))
    root = g.run(ctx.choice('root', 'FfDI'))
    go(ctx, root, protocol=proto)


SCENARIOS = [
    Scenario('graph', s_graph, labels=('pickles', 'graph: number of distinct objects', 'graph: same references')),
    Scenario('functions', s_functions, labels=('pickles', 'graph: number of distinct objects', 'graph: same references')),
    Scenario('defaults', s_defaults, labels=('pickles', 'graph: number of distinct objects', 'graph: same references')),
    Scenario('protocols', s_protocols, labels=('pickles', 'graph: number of distinct objects', 'graph: same references')),
]
