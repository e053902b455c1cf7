"""C29: the catalogue of types"""
import importlib
import sys

from sx.api import Scenario

ASSUMPTIONS = [
    'a name is listed as pickleable or as unpickleable, not as both (checked for the catalogue of the tree), and what dill '
    'registers is listed as pickleable',
    'whether the objects of the catalogue can be pickled is not part of the claim']


class Example(object):
    pass


EXAMPLES = [Example(), 5, 'text', None, Example, [], len]
NAMES = ['OneType', 'Plain', 'TypeFirst', 'other', 'Mine']


def catalogue(ctx):
    """the module of the lists, and everything as it was on exit"""
    d = ctx.dill
    lists = importlib.import_module('dill._objects')
    objects, names = d.objects, d.types.__dict__
    was = dict(objects), dict(names), {k: dict(getattr(lists, k)) for k in lists.__all__}

    def restore():
        objects.clear()
        objects.update(was[0])
        for k in set(names) - set(was[1]):
            del names[k]
        for k in lists.__all__:
            getattr(lists, k).clear()
            getattr(lists, k).update(was[2][k])
    ctx.on_exit(restore)
    objects.clear()
    for k in [k for k in names if k[:2] != '__']:
        del names[k]
    return d, lists


def wanted(lists, p, u, mine):
    out = dict(mine)
    for l, asked in ((lists.succeeds, p), (lists.failures, u)):
        for k in l:
            out.pop(k, None)
            if asked:
                out[k] = l[k]
    out.update(lists.registered)
    return out


def compare(ctx, d, want):
    ctx.check(set(d.objects) == set(want), 'the objects asked for', detail=repr(sorted(set(d.objects) ^ set(want)))[:200])
    ctx.check(all(d.objects[k] is want[k] for k in want if k in d.objects), 'the objects themselves')
    types = {k: v for k, v in vars(d.types).items() if k[:2] != '__'}
    ctx.check(set(types) == set(want), 'their types and no other', detail=repr(sorted(set(types) ^ set(want)))[:200])
    ctx.check(all(types[k] is type(want[k]) for k in want if k in types), 'their types and no other')


def s_lists(ctx):
    """4 names, each listed as pickleable, unpickleable, registered or not at all, or added by the user (quick: three of them in the
    first three ways), and 2 calls, or (thorough) 3 names and 3 calls, asking by any values for each kind or not; an entry removed or added by hand between the calls"""
    d, lists = catalogue(ctx)
    for k in lists.__all__:
        getattr(lists, k).clear()
    mine = {}
    calls = 2 if ctx.tier == 'quick' or not ctx.flag('longer') else 3
    kinds = ['pickleable', 'unpickleable', 'registered', 'mine', 'none']
    for i, k in enumerate(NAMES[:6 - calls]):
        kind = ctx.choice(k, kinds if i < 1 or ctx.tier == 'thorough' else kinds[:3])
        o = EXAMPLES[i]
        if kind == 'pickleable':
            lists.succeeds[k] = o
        elif kind == 'unpickleable':
            lists.failures[k] = o
        elif kind == 'registered':
            lists.registered[k] = lists.succeeds[k] = o
        elif kind == 'mine':
            mine[k] = d.objects[k] = o
    for n in range(calls):
        p, u = ctx.bool('pickleable%d' % n), ctx.bool('unpickleable%d' % n)
        r, e = ctx.attempt(d.load_types, p, u)
        ctx.check(e is None and r is None, 'loads', detail=repr(e)[:200])
        compare(ctx, d, wanted(lists, ctx.decide(p), ctx.decide(u), mine))
        if n + 1 < calls:
            by_hand = ctx.choice('by hand%d' % n, ['nothing', 'removed', 'added'])
            if by_hand == 'removed':
                for k in NAMES[:2]:
                    d.objects.pop(k, None)
                    mine.pop(k, None)
            elif by_hand == 'added':
                mine['laterType'] = d.objects['laterType'] = EXAMPLES[6]
    ctx.check(all(lists.registered[k] is lists.succeeds.get(k) for k in lists.registered), 'the lists are left alone')


def s_tree(ctx):
    """the catalogue of the tree: 3 calls, asking for each kind or not, or by default"""
    d, lists = catalogue(ctx)
    ctx.check(not set(lists.succeeds) & set(lists.failures), 'listed once', detail=repr(set(lists.succeeds) & set(lists.failures))[:200])
    ctx.check(set(lists.registered) <= set(lists.succeeds), 'what is registered is pickleable')
    sizes = [len(getattr(lists, k)) for k in lists.__all__]
    for n in range(3):
        if ctx.flag('by default%d' % n):
            p = u = True
            r, e = ctx.attempt(d.load_types)
        else:
            p, u = ctx.bool('pickleable%d' % n), ctx.bool('unpickleable%d' % n)
            r, e = ctx.attempt(d.load_types, pickleable=p, unpickleable=u)
        ctx.check(e is None and r is None, 'loads', detail=repr(e)[:200])
        compare(ctx, d, wanted(lists, p is True or ctx.decide(p), u is True or ctx.decide(u), {}))
    ctx.check(sizes == [len(getattr(lists, k)) for k in lists.__all__], 'the lists are left alone')


_l = ['the objects asked for', 'the objects themselves', 'their types and no other', 'loads']
SCENARIOS = [
    Scenario('lists', s_lists, labels=_l + ['the lists are left alone']),
    Scenario('tree', s_tree, labels=_l + ['listed once']),
]
