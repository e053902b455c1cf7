"""C23: change detection"""
import builtins
import collections
import importlib
import sys
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'everything reachable is memorised for the first time together with the object (updating is documented not to '
    'recurse)',
    'rebinding to the very same object is no change; an undone change is not claimed either way']


def diff(ctx):
    imp = builtins.__import__
    d = importlib.import_module('dill.__diff')
    builtins.__import__ = imp            # the hook for later imports is not needed
    d.memo.clear()
    d.id_to_obj.clear()
    ctx.on_exit(d.memo.clear)
    ctx.on_exit(d.id_to_obj.clear)
    return d


class Plain(object):
    pass


class Slots(object):
    __slots__ = ('a', 'b', 'c')


class Both(Slots):
    pass


class Private(object):
    __slots__ = ('__a', 'b', '__dict__')


class Items(list):
    """has an attribute named like a method of mappings"""
    items = None


class Lists(list):
    pass


class Copies(collections.UserDict):
    def copy(self, deep):
        return self


class Cell(object):
    """compares equal to everything"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1

    def __bool__(self):
        return False


ATTRS = {'plain': Plain, 'slots': Slots, 'both': Both, 'private': Private, 'cell': Cell, 'items': Items, 'lists': Lists,
         'userdict': Copies, 'module': None, 'function': None, 'class': None}
SEQS = {'list': list, 'dict': dict, 'items': Items, 'lists': Lists, 'deque': collections.deque,
        'ordered': collections.OrderedDict, 'userdict': Copies, 'set': set, 'default': None, 'tuple': tuple, 'frozenset': frozenset,
        'userlist': collections.UserList}
MAPS = ('dict', 'ordered', 'userdict', 'default')


def make(kind, n):
    if kind == 'module':
        return types.ModuleType('zz%d' % n)
    if kind == 'function':
        def f():
            pass
        return f
    if kind == 'class':
        return type('K', (object,), {})
    if kind == 'default':
        return collections.defaultdict(list)
    return (ATTRS.get(kind) or SEQS[kind])()


def attributes(o):
    out = {}
    d = getattr(o, '__dict__', None)
    if d is not None and type(o) not in (list, dict, set, frozenset, tuple, str, int):
        out.update(d)
    for c in type(o).__mro__:
        for k, m in vars(c).items():
            if type(m) is types.MemberDescriptorType and '__slots__' in vars(c):
                try:
                    out[k] = m.__get__(o)
                except AttributeError:
                    pass
    return out


def members(o):
    """the items, as a list (dictionaries: by key)"""
    if isinstance(o, (dict, collections.UserDict)):
        return {id(k): (k, v) for k, v in o.items()}
    if isinstance(o, (set, frozenset)):
        return {id(v): (v, v) for v in o}
    if isinstance(o, (list, tuple, collections.deque, collections.UserList)):
        return dict(enumerate((v, v) for v in o))
    return {}


def children(o):
    return list(attributes(o).values()) + [x for p in members(o).values() for x in p]


def state(o):
    return {k: id(v) for k, v in attributes(o).items()}, {k: (id(a), id(b)) for k, (a, b) in members(o).items()}


def reachable(o):
    seen, todo = {}, [o]
    while todo:
        x = todo.pop()
        if id(x) not in seen:
            seen[id(x)] = x
            todo += children(x)
    return seen


def acyclic(o, path=()):
    return not any(o is x for x in path) and all(acyclic(x, path + (o,)) for x in children(o))


def verdict(ctx, d, root, before, label=''):
    """compare the answers with the snapshot taken when the root was memorised"""
    now = reachable(root)
    dirty = {i for i, x in now.items() if i not in before or before[i] != state(x)}
    attrs0, items0 = before[id(root)]
    attrs, items = attributes(root), state(root)[1]
    must = {k for k in set(attrs0) | set(attrs) if k not in attrs or id(attrs[k]) != attrs0.get(k)}
    may = must | {k for k in attrs if any(i in dirty for i in reachable(attrs[k]))}
    got = ctx.expect_ok('answers', d.whats_changed, root)
    changed, seq = got
    ctx.check(bool(changed or seq) == bool(dirty), 'changed exactly when something was touched',
              detail='%r, touched %d' % (got, len(dirty)))
    if acyclic(root):
        must = may
    ctx.check(must <= set(changed) <= may, 'names what changed', detail='%r for %r' % (sorted(changed), sorted(must)))
    ctx.check(all((changed[k] is attrs[k]) if k in attrs else changed[k] is None for k in changed), 'present values')
    ctx.check(bool(seq) or items == items0, 'items', detail=repr(got))
    ctx.check(not seq or items != items0 or any(i in dirty for p in members(root).values() for x in p
                                                for i in reachable(x)), 'items', detail=repr(got))
    yes = ctx.expect_ok('answers', d.has_changed, root)
    ctx.check(bool(yes) == bool(dirty), 'yes or no')
    ctx.check(bool(ctx.expect_ok('answers', d.whats_changed, root, simple=True)) == bool(dirty), 'yes or no')
    return dirty


def set_attr(o, k, v):
    (o.__dict__.__setitem__ if False else setattr)(o, k, v)


def insert(o, v, n):
    """the n-th item of a container under construction"""
    if isinstance(o, (dict, collections.UserDict)):
        o['k%d' % n] = v
    elif isinstance(o, set):
        o.add(v)
    else:
        o.append(v)


def s_edits(ctx):
    """a root of any of 20 kinds that refers (by attribute, item or key) to a middle of any of 20 kinds (quick: one of the
    two of 4 kinds), the middle to a leaf instance, which refers back to the root or not; one edit of root, middle, leaf or something unrelated: an attribute or item rebound,
    added, removed, items swapped or replaced by objects known before, keys exchanged for known ones, attributes exchanged for equal ones; (thorough: any two edits)"""
    d = diff(ctx)
    kinds = ['plain', 'slots', 'both', 'private', 'cell', 'items', 'module', 'function', 'class', 'list', 'dict', 'deque', 'ordered',
             'userdict', 'set', 'default', 'tuple', 'frozenset', 'userlist', 'lists']
    hashable = ('plain', 'slots', 'both', 'private', 'cell', 'module', 'function', 'class', 'tuple', 'frozenset')
    leaf = Plain()
    leaf.x = 1000.5
    mk = ctx.choice('middle', kinds)
    if mk in ('tuple', 'frozenset'):
        middle = SEQS[mk]([leaf])
    else:
        middle = make(mk, 1)
        if mk in ATTRS and mk != 'userdict' and mk not in ('items', 'lists'):
            set_attr(middle, 'b', leaf)
        else:
            insert(middle, leaf, 0)
    core = ['plain', 'slots', 'list', 'dict']
    rk = ctx.choice('root', kinds if ctx.tier != 'quick' or mk in core else core)
    as_key = rk in MAPS and mk in hashable and ctx.flag('as key')
    spare = Plain()
    if rk in ('tuple', 'frozenset'):
        ctx.assume(rk == 'tuple' or mk in hashable)
        root = SEQS[rk]([middle])
    else:
        root = make(rk, 0)
        how = 'item'
        if rk in ATTRS:
            how = ctx.choice('by', ['attribute', 'item']) if rk in SEQS else 'attribute'
        if how == 'attribute':
            set_attr(root, 'b', middle)
            if rk in SEQS:
                insert(root, 5, 0)
        elif as_key:
            root[middle] = 1
        else:
            ctx.assume(rk != 'set' or mk in hashable)
            insert(root, middle, 0)
            if rk != 'set':
                insert(root, 5, 1)
    if ctx.flag('cycle'):
        leaf.up = root
    d.memorise(root)
    before = {i: state(x) for i, x in reachable(root).items()}
    verdict(ctx, d, root, before)
    pool = {'root': root, 'middle': middle, 'leaf': leaf, 'unrelated': spare}
    for e in range(1 if ctx.tier == 'quick' else 2):
        where = ctx.choice('where%d' % e, list(pool))
        o = pool[where]
        acts = []
        if attributes(o) or type(o) in (Plain, Slots, Both, Private, Cell, types.ModuleType, types.FunctionType, Items, Lists, Copies):
            acts += ['add attribute']
            acts += ['rebind attribute', 'remove attribute', 'attribute to an equal value'] if 'b' in attributes(o) or \
                'x' in attributes(o) else []
        if isinstance(o, (list, collections.deque, collections.UserList)):
            acts += ['add item', 'remove item', 'rebind item', 'item to a known object'] if len(o) else ['add item']
            acts += ['swap items'] if len(o) > 1 else []
        elif isinstance(o, (dict, collections.UserDict)):
            acts += ['add item', 'remove item', 'rebind item', 'item to a known object', 'exchange key'] if len(o) else ['add item']
            acts += ['swap items'] if len(o) > 1 else []
        elif isinstance(o, set):
            acts += ['add item', 'remove item', 'exchange key'] if len(o) else ['add item']
        if not acts:
            acts = ['nothing']
        act = ctx.choice('act%d' % e, acts)
        edit(o, act, spare, leaf)
        verdict(ctx, d, root, before)
    if act == 'rebind attribute':
        d.memo.clear()
        d.id_to_obj.clear()
        d.memorise(root)
        before = {i: state(x) for i, x in reachable(root).items()}
        verdict(ctx, d, root, before)


def edit(o, act, spare, known):
    name = 'x' if type(o) is Plain and 'x' in o.__dict__ else 'b'
    if act == 'add attribute':
        set_attr(o, 'c', spare)
    elif act == 'rebind attribute':
        set_attr(o, name, spare)
    elif act == 'attribute to an equal value':
        v = getattr(o, name)
        set_attr(o, name, float(repr(v)) if type(v) is float else v[:] if type(v) is list else Cell())
    elif act == 'remove attribute':
        delattr(o, name)
    elif act == 'add item':
        insert(o, spare, 9)
    elif act == 'remove item':
        if isinstance(o, (dict, collections.UserDict)):
            del o[next(iter(o))]
        else:
            o.pop()
    elif act in ('rebind item', 'item to a known object'):
        new = spare if act == 'rebind item' else known.__dict__.get('x', known)
        if isinstance(o, (dict, collections.UserDict)):
            o[next(iter(o))] = new
        else:
            o[0] = new
    elif act == 'exchange key':       # for a known object: as many entries, the same values
        if isinstance(o, set):
            o.pop()
            o.add(known)
        else:
            v = o.pop(next(iter(o)))
            o[known] = v
    elif act == 'swap items' and hasattr(o, 'keys'):
        a, b = list(o)[:2]
        o[a], o[b] = o[b], o[a]
    elif act == 'swap items':
        o[0], o[1] = o[1], o[0]


def s_graph(ctx):
    """all graphs of 3 (thorough 4) instances with up to 2 attributes each (the last one: 1) to any of them; an attribute of any
    instance rebound to any, added or removed; every instance asked about"""
    n = 3 if ctx.tier == 'quick' else 4
    d = diff(ctx)
    nodes = [Plain() for _ in range(n)]
    names = ['a', 'b']
    for i, o in enumerate(nodes):
        for k in names[:1 if i == n - 1 else 2]:
            t = ctx.pick('%s%d' % (k, i), n + 1)
            if t < n:
                setattr(o, k, nodes[t])
    for o in nodes:
        d.memorise(o)
    before = {id(o): state(o) for o in nodes}
    who = nodes[ctx.pick('who', n)]
    act = ctx.choice('act', ['a', 'c', 'del a'] if ctx.tier == 'quick' else ['a', 'b', 'c', 'del a', 'none'])
    if act == 'del a':
        if hasattr(who, 'a'):
            del who.a
    elif act != 'none':
        setattr(who, act, nodes[ctx.pick('to', n) if act == 'a' else 0])
    for o in nodes:
        verdict(ctx, d, o, before)


def s_never(ctx):
    """an object never memorised, or forgotten; an update of the object alone"""
    d = diff(ctx)
    kind = ctx.choice('kind', ['plain', 'list', 'dict', 'slots', 'set', 'function', 'class', 'module', 'userdict'])
    o = make(kind, 0)
    ctx.must_raise('refused', RuntimeError, d.whats_changed, o)
    ctx.check(bool(ctx.expect_ok('counts as changed', d.has_changed, o)), 'counts as changed')
    d.memorise(o)
    before = {id(o): state(o)}
    ctx.check(not ctx.expect_ok('unchanged', d.has_changed, o), 'unchanged')
    spare = Plain()
    if kind in ATTRS and kind != 'userdict':
        set_attr(o, 'c', spare)
    else:
        insert(o, spare, 0)
    ctx.check(bool(d.has_changed(o)), 'changed')
    d.memorise(spare)
    d.memorise(o)
    ctx.check(bool(d.has_changed(o)), 'memorised again without force keeps the record')
    d.memorise(o, force=True)
    ctx.check(kind == 'userdict' or not d.has_changed(o), 'an update is a new record')


def s_fresh(ctx):
    """containers that make their items anew: numpy arrays of numbers, ranges, arrays, item views"""
    import array
    import numpy
    d = diff(ctx)
    o = Plain()
    o.v = [numpy.array([1.5, 2.5]), range(1000, 1003), array.array('d', [1.5, 2.5]), {1: 2}.items(), numpy.array([Cell(), Cell()]),
           bytearray(b'ab'), b'ab', 'ab'][ctx.pick('kind', 8)]
    d.memorise(o)
    ctx.check(not d.has_changed(o), 'untouched')


SCENARIOS = [
    Scenario('edits', s_edits, labels=('changed exactly when something was touched', 'names what changed', 'yes or no', 'items')),
    Scenario('graph', s_graph, labels=('changed exactly when something was touched', 'names what changed', 'present values')),
    Scenario('never', s_never, labels=('refused', 'counts as changed', 'an update is a new record')),
    Scenario('fresh', s_fresh, labels=('untouched',)),
]
