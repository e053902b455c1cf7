"""C31: many dumps, one after another or inside one another"""
import io
import os
import threading
import types

from sx.api import Scenario, exec_def
from props.c03 import Graph, walk, same_ref

ASSUMPTIONS = ['every dump succeeds, and is read in the order it was written, by one unpickler for one pickler',
               'objects are not changed between the dumps',
               'where the memo of the pickler is cleared, a new unpickler reads on (Python numbers what it memoizes itself)']


def alike(ctx, objs, got):
    """got is a copy of objs, with what they share among themselves shared in the same way"""
    before, after = walk(ctx, list(objs)), walk(ctx, list(got))
    ctx.check(len(before) == len(after), 'number of distinct objects',
              detail='%d objects became %d' % (len(before), len(after)))
    for (k, refs, x), (k2, refs2, y) in zip(before, after):
        ctx.check(k == k2 and len(refs) == len(refs2), 'same kinds', detail='%r became %r' % (k, k2))
        ctx.check(ctx.land(*[same_ref(ctx, a, b) for a, b in zip(refs, refs2)]), 'same references')
        ctx.check(x is not y, 'copies')
    return {id(y) for _, _, y in after}


def s_graph(ctx):
    """every graph of at most 3 objects (thorough: 4) out of functions with one cell and maybe an attribute, cells, lists and
    instances with one reference (thorough: functions with two cells, lists with two references), of which two (thorough:
    three) are dumped one after another, the second (third) being any of the objects or one that nothing else leads to;
    the memo cleared between two dumps or not; tracing of globals on and off"""
    d = ctx.dill
    rec = ctx.flag('recurse')
    quick = ctx.tier == 'quick'
    kinds = 'fCLI' if quick else 'FCLI'
    g = Graph(ctx, 3 if quick else 4, kinds, width=1 if quick else 2, width1=1, leaf=not quick)
    first = ctx.choice('root', kinds)
    roots = [g.run(first)]
    for i in range(1 if quick else 2):
        opts = [('old', j) for j in range(len(g.nodes))] + ([('new', k) for k in kinds] if g.n < g.budget else [])
        what, x = ctx.choice('next%d' % i, opts)
        roots.append(g.nodes[x][1] if what == 'old' else g.run(x))
    clear = [ctx.flag('clear%d' % i) for i in range(len(roots) - 1)] + [False]
    f = io.BytesIO()
    p = d.Pickler(f, recurse=rec, byref=False)
    for o, c in zip(roots, clear):
        ctx.expect_ok('dumped', p.dump, o)
        if c:
            p.clear_memo()
    f.seek(0)
    groups, u = [([], [])], d.Unpickler(f)
    for o, c in zip(roots, clear):
        groups[-1][0].append(o)
        groups[-1][1].append(ctx.expect_ok('loaded', u.load))
        if c:
            groups.append(([], []))
            u = d.Unpickler(f)
    ctx.check(f.read() == b'', 'all was read')
    seen = set()
    for objs, got in groups:
        ids = alike(ctx, objs, got)
        ctx.check(not ids & seen, 'independent copies')
        seen |= ids


SRC = '''
class Base(object):
    def who(self):
        return 'base', self.v
class K(Base):
    """a class"""
    note = None
    def m(self, x=None):
        return self.v, x, self.note
    def up(self):
        return super().who()
    @property
    def p(self):
        return self.v
    @staticmethod
    def s(x):
        return x
def maker(c):
    def f(x):
        return c, x, G
    return f
'''
CLASS, INST, FUNC, METH, BOUND, CLOSURE, BASE = 'class', 'instance', 'method', 'upper', 'bound', 'closure', 'base'


def attributes(c):
    return set(c.__dict__) - {'__slotnames__'}       # copyreg notes these when an instance is dumped


def s_classes(ctx):
    """a class copied by value and what belongs to it: its base, an instance, its methods (one that names the class
    through its cell), a bound method, and a closure over the class or over the instance; any two of them (thorough: three), in any order and the same one twice, dumped by one pickler;
    the memo cleared between two dumps or not; protocols 0, 2 and 4; tracing of globals on and off"""
    d = ctx.dill
    rec = ctx.flag('recurse')
    ns = exec_def(SRC, __name__='zz_nomod')
    ns['G'] = ctx.any('G')
    K = ns['K']
    K.note = ctx.any('note')
    i = K()
    i.v = ctx.any('v')
    over = ctx.choice('over', [CLASS, INST])
    objs = {CLASS: K, BASE: ns['Base'], INST: i, FUNC: K.__dict__['m'], METH: K.__dict__['up'], BOUND: i.m,
            CLOSURE: ns['maker'](K if over == CLASS else i)}
    n = 2 if ctx.tier == 'quick' else 3
    kinds = list(objs)
    order = [ctx.choice('dump%d' % j, kinds) for j in range(n)]
    clear = [ctx.flag('clear%d' % j) for j in range(n - 1)] + [False]
    proto = ctx.choice('protocol', [0, 2, 4])
    f = io.BytesIO()
    p = d.Pickler(f, proto, recurse=rec, byref=False)
    for k, c in zip(order, clear):
        ctx.expect_ok('dumped', p.dump, objs[k])
        if c:
            p.clear_memo()
    f.seek(0)
    u = d.Unpickler(f)
    groups = [{}]
    for k, c in zip(order, clear):
        r = ctx.expect_ok('loaded', u.load)
        back = groups[-1]
        if k in back and k != BOUND:         # bound methods are made anew whenever they are asked for
            ctx.check(r is back[k], 'the same again')
        back[k] = r
        if c:
            groups.append({})
            u = d.Unpickler(f)
    ctx.check(f.read() == b'', 'all was read')
    classes = []
    for n, back in enumerate(groups):
        found = [back[CLASS]] if CLASS in back else []
        inst = [back[INST]] if INST in back else []
        func = [back[FUNC]] if FUNC in back else []
        if BOUND in back:
            inst.append(back[BOUND].__self__)
            func.append(back[BOUND].__func__)
        if METH in back:
            found.append(back[METH].__closure__[0].cell_contents)
        if CLOSURE in back:
            (found if over == CLASS else inst).append(back[CLOSURE].__closure__[0].cell_contents)
            x = ctx.leaf('x%d' % n)
            ctx.check(ctx.eq(back[CLOSURE](x)[1:], (x, ns['G'])), 'the closure works')
        found += [type(o) for o in inst]
        ctx.check(all(o is inst[0] for o in inst), 'one instance')
        ctx.check(all(c is found[0] for c in found), 'one class')
        for o in inst[:1]:
            ctx.check(ctx.eq(o.v, i.v), 'attribute')
        for c in found[:1]:
            func.append(c.__dict__['m'])
            ctx.check(type(c) is type and c.__name__ == 'K' and c is not K and c.__doc__ == 'a class', 'a class')
            ctx.check(ctx.eq(c.note, K.note), 'class attribute')
            ctx.check(attributes(c) == attributes(K), 'attributes of the class')
            if METH in back:
                ctx.check(c.__dict__['up'] is back[METH], 'one function')
            ctx.check(c.__dict__['up'].__closure__[0].cell_contents is c, 'its own class')
            if BASE in back:
                ctx.check(c.__bases__ == (back[BASE],), 'one base')
            o = c()
            o.v = ctx.any('w%d' % n)
            ctx.check(ctx.eq(o.up(), ('base', o.v)) and ctx.eq(o.m(1), (o.v, 1, K.note)) and ctx.eq(o.p, o.v), 'the class works')
            classes.append(c)
        ctx.check(all(x is func[0] for x in func), 'one function')
        ctx.check(all(x is not K.__dict__['m'] for x in func), 'copies')
    ctx.check(len(set(map(id, classes))) == len(classes), 'independent copies')


class Plain(object):
    """a stream that only has what loading needs at the least"""

    def __init__(self, f):
        self.read, self.readline = f.read, f.readline


class Piped(io.RawIOBase):
    """a stream that gives a few bytes at a time (or what is asked for) and cannot go back"""

    def __init__(self, data, most=7):
        self.data, self.most = io.BytesIO(data), most

    def readable(self):
        return True

    def readinto(self, b):
        piece = self.data.read(min(len(b), self.most))
        b[:len(piece)] = piece
        return len(piece)


def s_stream(ctx):
    """two (thorough: three) objects, each a function by value, a class by value, an instance of it, a list of a leaf, or a
    large text or array of bytes, dumped one after another with protocols 0, 2 and 4 and any bytes between them, read
    from memory, from a file, from a buffered pipe that gives a few bytes at a time,
    from a raw stream without buffer, or from an object with no more than read and
    readline; by dill.load, by a new Unpickler each, or by dill.loads of the very slice"""
    d = ctx.dill
    ns = exec_def(SRC, __name__='zz_nomod')
    ns['G'] = ctx.any('G')
    n = 2 if ctx.tier == 'quick' else 3
    f, recorded, junk = io.BytesIO(), [], []
    for j in range(n):
        kind = ctx.choice('kind%d' % j, [CLOSURE, CLASS, INST, 'list', 'large'])
        v = ctx.any('v%d' % j)
        if kind == CLOSURE:
            o = ns['maker'](v)
        elif kind in (CLASS, INST):
            o = ns['K']
            if kind == INST:
                o = o()
                o.v = v
        elif kind == 'list':
            o = [v, j]
        else:
            o = ['x' * 70000, bytearray(b'\x00' * 70000), v]
        start = f.tell()
        ctx.expect_ok('dumped', d.dump, o, f, ctx.choice('protocol%d' % j, [0, 2, 4] if j == 0 or ctx.tier != 'quick' else [0, 4]))
        recorded.append((kind, o, v, start, f.tell()))
        b = ctx.choice('between%d' % j, [b'', b'.', b'\x80\x04N.']) if j == 0 else b'end.'
        junk.append(b)
        f.write(b)
    data = f.getvalue()
    where = ctx.choice('from', ['memory', 'file', 'pipe', 'raw', 'plain', 'slice'])
    if where == 'memory':
        s = io.BytesIO(data)
    elif where == 'file':
        path = os.path.join(ctx.scratch(), 'many.pkl')
        with open(path, 'wb') as g:
            g.write(data)
        s = open(path, 'rb')
        ctx.on_exit(s.close)
    elif where == 'pipe':
        s = io.BufferedReader(Piped(data), 16)
    elif where == 'raw':
        s = Piped(data, len(data))
    elif where == 'plain':
        s = Plain(io.BytesIO(data))
    how = where != 'slice' and ctx.choice('by', ['load', 'unpickler'])
    for (kind, o, v, start, end), b in zip(recorded, junk):
        if where == 'slice':
            r = ctx.expect_ok('loaded', d.loads, data[start:end])
        else:
            r = ctx.expect_ok('loaded', d.load, s) if how == 'load' else ctx.expect_ok('loaded', lambda: d.Unpickler(s).load())
            got = s.read(len(b))
            ctx.check(got == b, 'just after the dump', detail='%r instead of %r' % (got, b))
        if kind == CLOSURE:
            ctx.check(type(r) is types.FunctionType and ctx.eq(r(1), (v, 1, ns['G'])), 'as it was')
        elif kind == CLASS:
            ctx.check(type(r) is type and r is not o and r.__name__ == 'K' and attributes(r) == attributes(o), 'as it was')
        elif kind == INST:
            ctx.check(type(r).__name__ == 'K' and ctx.eq(r.p, v), 'as it was')
        elif kind == 'list':
            ctx.check(type(r) is list and ctx.eq(r[0], v) and r[1:] == o[1:], 'as it was')
        else:
            ctx.check(type(r) is list and r[:2] == o[:2] and ctx.eq(r[2], v), 'as it was')


class Inner(object):
    """an object that is itself dumped by what rebuilds it"""

    def __init__(self, d, obj, kw):
        self.d, self.obj, self.kw = d, obj, kw

    def __reduce__(self):
        return self.d.loads, (self.d.dumps(self.obj, **self.kw),)


def s_nested(ctx):
    """a list or the closure of a function that holds an object whose reduction dumps a closure, a class, an instance or a list
    with dill, with and without tracing of globals, in front of, between or after references to the same thing; tracing
    of globals on and off outside; within a class that is being dumped, or not; one level deep or two"""
    d = ctx.dill
    ns = exec_def(SRC, __name__='zz_nomod')
    ns['G'] = ctx.any('G')
    v = ctx.any('v')
    kind = ctx.choice('kind', [CLOSURE, CLASS, INST, 'list'])
    K = ns['K']
    if kind == CLOSURE:
        o = ns['maker'](v)
    elif kind == 'list':
        o = [v]
    else:
        o = K
        if kind == INST:
            o = K()
            o.v = v
    inner = Inner(d, o, {'recurse': ctx.flag('recurse inside')})
    if ctx.flag('two levels'):
        inner = Inner(d, [inner], {})
        get = lambda x: x[0]
    else:
        get = lambda x: x
    place = ctx.choice('place', [0, 1, 2])
    L = [o, o]
    L.insert(place, inner)
    within = ctx.choice('within', ['list', 'closure', 'class'])
    if within == 'list':
        what, open_ = L, lambda r: r
    elif within == 'closure':
        what, open_ = exec_def(SRC, __name__='zz_other', G=None)['maker'](L), lambda r: r.__closure__[0].cell_contents
    else:
        what, open_ = exec_def(SRC, __name__='zz_other', G=None)['K'], lambda r: r.note
        what.note = L
    r = ctx.expect_ok('round trip', ctx.rt, what, recurse=ctx.flag('recurse'))
    r = list(open_(r))
    ctx.check(len(r) == 3, 'length')
    alone = get(r.pop(place))
    ctx.check(r[0] is r[1], 'shared outside')
    ctx.check(r[0] is not alone and r[0] is not o and alone is not o, 'a copy of its own')
    for x in (r[0], alone):
        if kind == CLOSURE:
            ctx.check(ctx.eq(x(1), (v, 1, ns['G'])), 'as it was')
        elif kind == CLASS:
            ctx.check(type(x) is type and x.__name__ == 'K' and x.__dict__['up'].__closure__[0].cell_contents is x, 'as it was')
        elif kind == INST:
            ctx.check(type(x).__name__ == 'K' and ctx.eq(x.p, v), 'as it was')
        else:
            ctx.check(type(x) is list and ctx.eq(x, [v]), 'as it was')


class Turns(object):
    """threads that run one at a time; at each point one comes to, it may hand over to the next"""

    def __init__(self, n):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive, self.me, self.switch, self.failed = [True] * n, 0, [], None

    def hand_over(self):
        me, n = self.me, len(self.sem)
        for j in range(1, n):
            k = (me + j) % n
            if self.alive[k]:
                self.me = k
                self.sem[k].release()
                return me
        return None

    def point(self):
        if self.switch and self.switch.pop(0):
            me = self.hand_over()
            if me is not None and not self.sem[me].acquire(timeout=60):
                raise RuntimeError('no turn')

    def run(self, jobs):
        def body(k):
            try:
                self.sem[k].acquire(timeout=60)
                jobs[k]()
            except BaseException as e:
                self.failed = self.failed or e
            finally:
                self.alive[k] = False
                self.hand_over()
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in threads:
            t.start()
        self.sem[0].release()
        for t in threads:
            t.join(120)
        if self.failed is not None:
            raise self.failed


TURNS = []


def arrive(v):
    TURNS[-1].point()
    return [v]


class Gate(object):
    """an object at which another thread may take over, when it is dumped and when it is loaded"""

    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        TURNS[-1].point()
        return arrive, (self.v,)


def s_threads(ctx):
    """two threads, each of them dumps and loads a class with methods, a recursive closure, an instance or a list of functions with
    shared cells, tracing of globals on and off in each; at two places of the object, when dumped and when loaded, the
    other thread takes over or not: all schedules of 6 such points (thorough: 8)"""
    d = ctx.dill
    jobs, results, checks = [], [None, None], []
    turns = Turns(2)
    TURNS.append(turns)
    ctx.on_exit(TURNS.pop)
    for k in range(2):
        kind = ctx.choice('kind%d' % k, [CLASS, CLOSURE, INST, 'list'][:4 if k == 0 or ctx.tier != 'quick' else 2])
        rec = ctx.flag('recurse%d' % k)
        ns = exec_def(SRC + RECURSIVE, __name__='zz_nomod%d' % k)
        v = ns['G'] = ctx.any('v%d' % k)
        if kind in (CLASS, INST):
            o = ns['K']
            o.note, o.more = Gate(v), Gate(v)
            if kind == INST:
                o = o()
                o.v = v
        elif kind == CLOSURE:
            o = ns['recursive'](Gate(v), Gate(v))
        else:
            o = list(ns['shared'](Gate(v)))
            o.insert(1, Gate(v))

        def job(k=k, o=o, rec=rec):
            results[k] = ctx.attempt(lambda: d.loads(d.dumps(o, recurse=rec)))
        jobs.append(job)
        checks.append((kind, v, o))
    turns.switch = [ctx.flag('switch%d' % j) for j in range(6 if ctx.tier == 'quick' else 8)]
    turns.run(jobs)
    for k, (kind, v, o) in enumerate(checks):
        r, e = results[k]
        ctx.check(e is None, 'round trip', detail=repr(e)[:200])
        if e is not None:
            return
        if kind in (CLASS, INST):
            c = r if kind == CLASS else type(r)
            ctx.check(type(c) is type and c.__name__ == 'K' and c is not o and c is not type(o), 'as it was')
            ctx.check(ctx.land(ctx.eq(c.note, [v]), ctx.eq(c.more, [v])), 'as it was')
            ctx.check(c.__dict__['up'].__closure__[0].cell_contents is c, 'as it was')
            if kind == INST:
                ctx.check(ctx.land(ctx.eq(r.v, v), ctx.eq(r.up(), ('base', v))), 'as it was')
        elif kind == CLOSURE:
            ctx.check(ctx.eq(r(2), ([v], [v], v)), 'as it was')
            ctx.check(r.__closure__[r.__code__.co_freevars.index('g')].cell_contents is r, 'as it was')
        else:
            f, gate, g = r
            ctx.check(f.__closure__[0] is g.__closure__[0] and f is not g, 'as it was')
            ctx.check(ctx.land(ctx.eq(f(), [v]), ctx.eq(g(), ([v], v)), ctx.eq(gate, [v])), 'as it was')


RECURSIVE = '''
def recursive(a, b):
    def g(n):
        return g(n - 1) if n else (a, b, G)
    return g
def shared(c):
    def f():
        return c
    def g():
        return c, G
    return f, g
'''

SCENARIOS = [
    Scenario('graph', s_graph, labels=('dumped', 'loaded', 'number of distinct objects', 'same references', 'independent copies')),
    Scenario('classes', s_classes, labels=('dumped', 'loaded', 'the same again', 'one class', 'one function', 'independent copies')),
    Scenario('stream', s_stream, labels=('dumped', 'loaded', 'just after the dump', 'as it was')),
    Scenario('threads', s_threads, labels=('round trip', 'as it was')),
    Scenario('nested', s_nested, labels=('round trip', 'shared outside', 'a copy of its own', 'as it was')),
]
