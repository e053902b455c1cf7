"""C21: import text and source text"""
import linecache
import os
import sys
import types

from sx.api import Scenario

ASSUMPTIONS = [
    'an object is importable when its module is live and binds it under its own name',
    'the file holds what was imported, and is found under the module; input typed into the interpreter has decorators of one '
    'line, and no lines inside a string that look like a definition; text inside a string that spans lines may move '
    'with an indented block']


def run(text, **ns):
    exec(compile(text, '<sx>', 'exec'), ns)
    ns.pop('__builtins__', None)
    return ns


# ------------------------------------------------------------------ import text
LIB = '''
import functools
def wraps(f):
    @functools.wraps(f)
    def wrapper(*args):
        return f(*args)
    return wrapper
def named():
    return 1
%s
class Meta(type):
    def __repr__(cls):
        return "named"
class Plain(object):
    pass
class Loud(object, metaclass=Meta):
    pass
class Slots(object):
    __slots__ = ("a",)
@wraps
def wrapped(x):
    return x
async def waits():
    return 1
def gen():
    yield 1
'''
OWN = ['named', 'Plain', 'Loud', 'Slots', 'wrapped', 'waits', 'gen', 'Meta', 'wraps']
SHADOW = ['len', 'list', 'dict', 'function', 'FunctionType', 'ellipsis', 'NoneType', 'types', 'getimport', 'obj', '_str',
          'tail', 'Array', 'inf', 'nan', 'array']


def s_import(ctx):
    """functions and classes of a live module, of a submodule (of a package that binds the same name to something else
    or not), and of a package, among them ones named like 16 builtins, types, or names dill uses; with no alias, another
    one, the own name, one that begins or ends with it, or the name of a builtin; verified or not, builtins forced or not"""
    where = ctx.choice('where', ['module', 'submodule', 'package'])
    if where == 'module':
        m = ctx.module('zzmod')
    elif where == 'package':
        m = ctx.module('zzpkg', __path__=[])
    else:
        p = ctx.module('zzpkg', __path__=[])
        m = p.sub = ctx.module('zzpkg.sub')
    name = ctx.choice('object', OWN + SHADOW)
    kind = ctx.choice('kind', ['function', 'class']) if name in SHADOW else ''
    extra = {'': '', 'function': 'def %s():\n    return 1\n', 'class': 'class %s(object):\n    pass\n'}[kind]
    exec(compile(LIB % (extra % name if extra else ''), '<sx>', 'exec'), m.__dict__)
    if where == 'submodule' and ctx.flag('namesake'):
        setattr(p, name, types.SimpleNamespace())
    o = getattr(m, name)
    check_import(ctx, o, name)


def check_import(ctx, o, name, head=True):
    alias = ctx.choice('alias', ['', 'other', name.rpartition('.')[2], name.rpartition('.')[2] + '_', '_' + name.rpartition('.')[2], 'len',
                                 'getimport'])
    kw = dict(verify=ctx.flag('verify'), builtin=ctx.flag('builtin'))
    text = ctx.expect_ok('text', ctx.dill.source.getimport, o, alias, **kw)
    ns = ctx.expect_ok('executes', run, text)
    want = alias or (name if '.' not in name or not isinstance(o, types.ModuleType) or alias else name.partition('.')[0])
    import builtins
    if not ns and vars(builtins).get(want) is o:          # an expression names the builtin
        ctx.check(True, 'a builtin needs no import')
        return
    ctx.check(list(ns) == [want], 'binds the name only', detail='%r for %s' % (text, want))
    ctx.check(ns[want] is o, 'binds the object', detail=text)


def s_library(ctx):
    """16 functions, types and modules of builtins, the standard library and this package; alias as above"""
    import collections
    import functools
    import json.decoder
    import math
    import operator
    import os.path
    import xml.dom.minidom
    d = ctx.dill
    pool = {'len': len, 'abs': abs, 'int': int, 'dict': dict, 'object': object, 'ValueError': ValueError, 'sin': math.sin,
            'OrderedDict': collections.OrderedDict, 'deque': collections.deque, 'partial': functools.partial,
            'JSONDecoder': json.decoder.JSONDecoder, 'join': os.path.join, 'itemgetter': operator.itemgetter,
            'FunctionType': None, 'dumps': json.dumps, 'getimport': d.source.getimport, 'Document':
            xml.dom.minidom.Document, 'namedtuple': collections.namedtuple, 'print': print, 'reduce': functools.reduce,
            'wraps': functools.wraps, 'NoneType': type(None), 'ModuleType': None, 'zip': zip, 'super': super}
    name = ctx.choice('object', [k for k in pool if pool[k] is not None])
    check_import(ctx, pool[name], name)


def s_modules(ctx):
    """modules: top level, in a package, in a package that binds another name or not"""
    which = ctx.choice('which', ['zzmod', 'zzpkg.sub', 'zzpkg', 'os', 'json.decoder', 'math', 'builtins', 'types'])
    if which == 'zzpkg.sub':
        p = ctx.module('zzpkg', __path__=[])
        m = p.sub = ctx.module(which)
    elif which.startswith('zz'):
        m = ctx.module(which)
    else:
        import json.decoder
        m = sys.modules[which]
    alias = ctx.choice('alias', ['', 'other', which.rpartition('.')[2], which.rpartition('.')[2] + '_', 'len'])
    text = ctx.expect_ok('text', ctx.dill.source.getimport, m, alias, verify=ctx.flag('verify'), builtin=ctx.flag('builtin'))
    ns = ctx.expect_ok('executes', run, text)
    want = alias or which.rpartition('.')[2]
    ctx.check(list(ns) == [want], 'binds the name only', detail='%r for %s' % (text, want))
    ctx.check(ns[want] is m, 'binds the object', detail=text)


# ------------------------------------------------------------------ source text
FUNCS = {
    'plain': 'def f(x):\n    return x + 1\n',
    'oneline': 'def f(x): return x + 1\n',
    'async': 'async def f(x):\n    return x + 1\n',
    'decorated': '@same\ndef f(x):\n    return x + 1\n',
    'decorated twice': '@same\n@also(1)\ndef f(x):\n    return x + 1\n',
    'decorator over lines': '@also(\n    1\n)\ndef f(x):\n    return x + 1\n',
    'blank lines': 'def f(x):\n\n    y = 1\n\n    return x + y\n',
    'comments': 'def f(x):\n    # first\n    y = 1  # second\n# third\n    return x + y\n    # last\n',
    'arguments over lines': 'def f(x,\n      y=1):\n    return x + y\n',
    'nested': 'def f(x):\n    def f(x):\n        return x\n    return f(x) + 1\n',
    'nested class': 'def f(x):\n    class K(object):\n        y = 1\n    return x + K.y\n',
    'mentions': 'def f(x):\n    s = "def f(x): lambda class K"\n    return x + 1\n',
    'lambda inside': 'def f(x):\n    g = lambda y: y + 1\n    return g(x)\n',
    'lambda default': 'def f(x, g=lambda y: y + 1):\n    return g(x)\n',
    'async lambda': 'async def f(x, g=lambda y: y + 1):\n    return g(x)\n',
    'lambda decorator': '@also(\n    lambda x: x\n)\ndef f(x):\n    return x + 1\n',
    'lambda': 'f = lambda x: x + 1\n',
    'tight lambda': 'f = lambda*x: x[0] + 1\n',
    'longer lambda': 'fn = lambda x: x + 1\n',
    'longer name': 'def fn(x):\n    return x + 1\n',
    'lambda of lambda': 'fn = lambda x: (lambda y: y + 1)(x)\n',
    'spaced': 'def  f (x) :\n    return x + 1\n',
    'docstring': 'def f(x):\n    """docs\n    def f(y):\n    """\n    return x + 1\n',
}
CLASSES = {
    'plain': 'class K(object):\n    y = 1\n    def m(self):\n        return self.y\n',
    'no bases': 'class K:\n    y = 1\n    def m(self):\n        return self.y\n',
    'bases over lines': 'class K(\n        object):\n    y = 1\n    def m(self):\n        return self.y\n',
    'decorated': '@same\nclass K(object):\n    y = 1\n    def m(self):\n        return self.y\n',
    'nested namesake': 'class K(object):\n    y = 1\n    class K(object):\n        z = 2\n    def m(self):\n        return self.y\n',
    'mentions': 'class K(object):\n    """\nclass K:\n    """\n    y = 1\n    def m(self):\n        return self.y\n',
}
BEFORE = {
    'nothing': '',
    'function': 'def g(x):\n    return 0\n',
    'same function': 'def f(x):\n    return 0\n',
    'longer name': 'def ff(x):\n    return 0\nclass KK(object):\n    pass\n',
    'same class': 'class K(object):\n    y = 0\n',
    'nested same': 'class Z(object):\n    class K(object):\n        y = 0\n    def f(self):\n        return 0\n',
    'local same': 'def z():\n    class K(object):\n        y = 0\n    def f(x):\n        return 0\n    return K, f\n',
    'conditional same': 'if not True:\n    class K(object):\n        y = 0\n    def f(x):\n        return 0\n',
    'text': 's = """\nclass K:\n    y = 0\ndef f(x):\n    return 0\n"""\n',
    'lambda': 'f = lambda x: 0\n',
    'comment': '# def f(x): class K\n',
}
AFTER = {
    'nothing': '',
    'blank line and function': '\ndef h(x):\n    return 0\n',
    'statement': 'value = 5\n',
    'lambda': 'value = lambda x: x + 2\n',
    'nested same': 'class Y(object):\n    class K(object):\n        y = 9\n    def f(self):\n        return 9\n',
    'local same': 'def y():\n    class K(object):\n        y = 9\n    def f(x):\n        return 9\n    return K, f\n',
    'comment': '# the end\n',
    'text': 's = """\nclass K:\n    y = 9\ndef f(x):\n    return 9\n"""\n',
}
PLACES = ['top', 'in a class', 'in a function', 'in an if', 'in a nested class']
HEAD = 'def same(o):\n    return o\ndef also(n):\n    return same\n'


def shift(text, n):
    """indent everything but empty lines"""
    return ''.join(' ' * n + l if l.strip() else l for l in text.splitlines(True))


def load(ctx, text):
    """import the text from a file"""
    path = os.path.join(ctx.scratch(), 'zzsrc.py')
    with open(path, 'w') as f:
        f.write(text)
    m = ctx.module('zzsrc', __file__=path)
    exec(compile(text, path, 'exec'), m.__dict__)
    linecache.checkcache(path)
    return m


def place(ctx, body, name, before, after, where):
    """(module, object, its block)"""
    pre = HEAD + before
    if where == 'top':
        block = body
        text = pre + block + after
        m = load(ctx, text)
        o = m.__dict__[name]
    elif where == 'in an if':
        block = shift(body, 4)
        text = pre + 'if True:\n    pass\n' + block + after
        m = load(ctx, text)
        o = m.__dict__[name]
    elif where == 'in a class':
        block = shift(body, 4)
        text = pre + 'class Outer(object):\n    a = 1\n' + block + after
        m = load(ctx, text)
        o = m.Outer.__dict__[name]
    elif where == 'in a nested class':
        block = shift(body, 8)
        text = pre + 'class Outer(object):\n    class Inner(object):\n' + block + after
        m = load(ctx, text)
        o = m.Outer.Inner.__dict__[name]
    else:
        block = shift(body, 4)
        text = pre + 'def outer():\n    a = 1\n' + block + '    return %s\n' % name + after
        m = load(ctx, text)
        o = m.outer()
    return m, o, block


def result(ctx, o, kind):
    if kind == 'class':
        return [o.y, o().m(), sorted(k for k in vars(o) if k[0] != '_')]
    r = o(5)
    if isinstance(r, types.CoroutineType):
        try:
            r.send(None)
        except StopIteration as e:
            return [e.value, 'async']
    return [r, o.__code__.co_varnames, o.__doc__]


def check_source(ctx, kind, body, name, before, after, where):
    m, o, block = place(ctx, body, name, before, after, where)
    src = ctx.dill.source
    text = ctx.expect_ok('source', src.getsource, o)
    ctx.check(text == block, 'exactly the block', detail='%r for %r' % (text, block))
    lines, n = ctx.expect_ok('source', src.getsourcelines, o)
    ctx.check(''.join(lines) == block, 'the lines', detail=repr(lines))
    with open(m.__file__) as f:
        ctx.check(''.join(f.readlines()[n:]).startswith(block), 'the line number', detail=repr(n))
    alias = ctx.choice('alias', ['', 'other', name, name + 's', 's' + name] + [name[:1]][:len(name) - 1])
    text = ctx.expect_ok('source', src.getsource, o, alias=alias, lstrip=True)
    if '"""' in body:
        ctx.check(len(text.splitlines()) >= len(block.splitlines()), 'stripped block')
    ns = ctx.expect_ok('executes', run, text, same=m.same, also=m.also)
    new = ctx.expect_ok('bound', lambda: ns[alias or name])
    want, got = result(ctx, o, kind), result(ctx, new, kind)
    if '"""' not in body or where == 'top':
        ctx.check(got == want, 'equivalent', detail='%r for %r' % (got, want))
    extra = set(ns) - {'same', 'also', name, alias}
    ctx.check(not extra, 'no other names', detail=repr(extra))


def s_function(ctx):
    """23 functions at 5 places of a file, after 11 kinds of neighbours and before 8 (quick: any two of the three
    vary), as plain text and with stripped indentation and an alias"""
    vary(ctx, FUNCS, 'plain', 'f', 'function')


def s_class(ctx):
    """6 classes at 5 places of a file, after 11 kinds of neighbours and before 8 (quick: any two of the three
    vary), as plain text and with stripped indentation and an alias"""
    vary(ctx, CLASSES, 'plain', 'K', 'class')


def vary(ctx, bodies, plain, name, kind):
    body = ctx.choice('body', list(bodies))
    where = ctx.choice('where', PLACES)
    before = ctx.choice('before', list(BEFORE))
    after = ctx.choice('after', list(AFTER) if ctx.tier != 'quick' or (body == plain or before == 'nothing') else ['statement'])
    if kind == 'function' and body.startswith(('longer', 'lambda of')):
        name = 'fn'
    check_source(ctx, kind, bodies[body], name, BEFORE[before], AFTER[after], where)


def s_history(ctx):
    """functions and classes typed into the interpreter, after (11 kinds) and before (7) other input; the last
    definition of that name, without empty lines, which the line editor does not keep"""
    import readline
    kind = ctx.choice('kind', ['function', 'class'])
    bodies = FUNCS if kind == 'function' else CLASSES
    which = ctx.choice('body', [k for k in bodies if k not in ('decorator over lines', 'lambda decorator') and
                                (k != 'mentions' or kind == 'function')])
    body = bodies[which]
    name = 'K' if kind == 'class' else 'fn' if which.startswith(('longer', 'lambda of')) else 'f'
    before, after = BEFORE[ctx.choice('before', list(BEFORE))], AFTER[ctx.choice('after', [k for k in AFTER if k != 'text'])]
    ns = ctx.main.__dict__
    for block in (HEAD, before, body, after):
        exec(compile(block, '<stdin>', 'exec'), ns)
    lines = [l for l in (HEAD + before + body + after).split('\n') if l]
    block = ''.join(l + '\n' for l in body.split('\n') if l)
    if ctx.sym:
        from sx.instrument import ENVIRONMENT
        for k, f in ((readline.get_current_history_length, lambda: len(lines)), (readline.get_history_item, lambda i: lines[i - 1])):
            ENVIRONMENT[k] = f
            ctx.on_exit(lambda k=k: ENVIRONMENT.pop(k, None))
    else:
        readline.clear_history()
        for l in lines:
            readline.add_history(l)
        ctx.on_exit(readline.clear_history)
    o = ns[name]
    text = ctx.expect_ok('source', ctx.dill.source.getsource, o)
    ctx.check(text == block, 'exactly the block', detail='%r for %r' % (text, block))


WRAPS = {
    # the text around the object (which goes at {0} or {1}, 1 or 2 levels deep), and how to get at it
    'function': ('def outer(n=1):\n{0}    return %s\n', 'outer', 'outer()'),
    'decorated': ('@same\ndef outer(n=1):\n{0}    return %s\n', 'outer', 'outer()'),
    'decorated twice': ('@same\n@also(1)\ndef outer(n=1):\n{0}    return %s\n', 'outer', 'outer()'),
    'async': ('async def outer(n=1):\n{0}    return %s\n', 'outer', 'drive(outer())'),
    'nested': ('def outer(n=1):\n    a = n\n    def inner():\n{1}        return %s\n    return inner\n', 'outer', 'outer()()'),
    'nested decorated': ('@same\ndef outer(n=1):\n    a = n\n    @same\n    def inner():\n{1}        return %s\n    return inner\n', 'outer', 'outer()()'),
    'nested after a lambda': ('def outer(n=1):\n    a = lambda: n\n    def inner():\n{1}        return %s\n    return inner\n', 'outer', 'outer()()'),
    'class inside': ('def outer(n=1):\n    class C(object):\n{1}    return C.__dict__["%s"]\n', 'outer', 'outer()'),
    'method': ('class C(object):\n    a = 1\n    def outer(n=1):\n{1}        return %s\n', 'C', 'C.outer()'),
    'conditional': ('if True:\n    def outer(n=1):\n{1}        return %s\n', 'outer', 'outer()'),
    'arguments over lines': ('def outer(\n        n=1):\n{0}    return %s\n', 'outer', 'outer()'),
    'comments': ('def outer(n=1):\n    # first\n{0}    # def f(x): lambda x\n# outside\n    return %s\n', 'outer', 'outer()'),
}
TWINS = ['nothing', 'same block before', 'same block after', 'same function before', 'same object before']


def drive(c):
    try:
        c.send(None)
    except StopIteration as e:
        return e.value


def s_enclosing(ctx):
    """functions and classes (23 + 6) made within 12 kinds of functions, between 11 and 8 kinds of neighbours, with the same
    text elsewhere in the file or not (quick: two of the four vary)"""
    kind = ctx.choice('kind', ['function', 'class'])
    bodies = FUNCS if kind == 'function' else CLASSES
    body = ctx.choice('body', list(bodies))
    wrap = ctx.choice('wrap', list(WRAPS))
    few = ctx.tier == 'quick'
    plain = body == 'plain' or wrap == 'function'
    before = ctx.choice('before', list(BEFORE) if body == 'plain' or not few else ['local same'])
    after = ctx.choice('after', list(AFTER) if body == 'plain' and before == 'nothing' or not few else ['lambda'])
    twin = ctx.choice('twin', TWINS if plain and before in ('nothing', 'local same') or not few else ['same block after'])
    name = 'K' if kind == 'class' else 'fn' if body.startswith(('longer', 'lambda of')) else 'f'
    text, binds, get = WRAPS[wrap]
    inner = bodies[body]
    text = (text % name).format(shift(inner, 4), shift(inner, 8))
    block = text
    if wrap == 'method':
        block = text.split('    a = 1\n')[1]
    elif wrap == 'conditional':
        block = text.split('\n', 1)[1]
    pre, post = HEAD + BEFORE[before], AFTER[after]
    if twin == 'same block before':
        pre += 'def twin():\n%s    return %s\n' % (shift(inner, 4), name)
    elif twin == 'same block after':
        post += 'def twin():\n%s    return %s\n' % (shift(inner, 4), name)
    elif twin == 'same function before':
        pre += text.replace('return', 'return 0 or')
    elif twin == 'same object before':
        pre += inner
    m = load(ctx, pre + text + post)
    o = eval(get, dict(m.__dict__, drive=drive))
    src = ctx.dill.source
    got = ctx.expect_ok('source', src.getsource, o, enclosing=True)
    ctx.check(got == block, 'exactly the outermost block', detail='%r for %r' % (got, block))
    lines, n = ctx.expect_ok('source', src.getsourcelines, o, enclosing=True)
    ctx.check(''.join(lines) == block, 'the lines', detail=repr(lines))
    with open(m.__file__) as f:
        ctx.check(''.join(f.readlines()[n:]).startswith(block), 'the line number', detail=repr(n))
    if kind == 'class':
        return
    out = ctx.expect_ok('outermost', ctx.dill.detect.outermost, o)
    want = m.__dict__.get('outer')
    ctx.check(out is want, 'the function around it', detail=repr(out))
    if want is not None:
        text = ctx.expect_ok('import', src.getimport, o, enclosing=True)
        ns = ctx.expect_ok('executes', run, text)
        ctx.check(ns == {'outer': want}, 'its import', detail=repr(text))


SCENARIOS = [
    Scenario('enclosing', s_enclosing, labels=('exactly the outermost block', 'the lines', 'the line number', 'the function around it', 'its import')),
    Scenario('history', s_history, labels=('exactly the block',)),
    Scenario('import', s_import, labels=('binds the name only', 'binds the object')),
    Scenario('library', s_library, labels=('binds the name only', 'binds the object', 'a builtin needs no import')),
    Scenario('modules', s_modules, labels=('binds the name only', 'binds the object')),
    Scenario('function', s_function, labels=('exactly the block', 'the line number', 'equivalent', 'no other names')),
    Scenario('class', s_class, labels=('exactly the block', 'the line number', 'equivalent', 'no other names')),
]
