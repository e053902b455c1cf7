"""Regenerates the encoding of dill from /repo's current source, on every run.

Every module of the package is parsed, its AST rewritten so that the operations
which Python does not let an object overload (identity, membership, calls into
C, formatting, subscripts of native containers) go through the helpers below,
and compiled under its own file name.  Everything else is executed natively on
the proxies of values.py.
"""
import ast
import builtins
import dis
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import engine as _e
from . import values as V
from .values import Sym, SymAny, SymBool, SymBytes, SymInt, SymStr, is_sym

REPO = os.environ.get('SX_REPO', '/repo')
SKIP = ('dill.__info__', 'dill._objects', 'dill.tests')

NOWRAP = {'super', 'locals', 'globals', 'vars', 'dir'}


class Rewrite(ast.NodeTransformer):
    def helper(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_AnnAssign(self, node):        # annotations are never evaluated ('from __future__')
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOWRAP:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Name) and f.id in ('eval', 'exec'):
            self.generic_visit(node)
            if node.args:
                node.args[0] = self.helper('__sx_src__', [node.args[0]], node)
            return node
        self.generic_visit(node)
        node.func = self.helper('__sx_fn__', [node.func], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, ast.Is):
            return self.helper('__sx_is__', [a, b], node)
        if isinstance(op, ast.IsNot):
            return self.helper('__sx_isnot__', [a, b], node)
        if isinstance(op, ast.In):
            return self.helper('__sx_in__', [a, b], node)
        if isinstance(op, ast.NotIn):
            return self.helper('__sx_notin__', [a, b], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.helper('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
        return self.helper('__sx_fstr__', parts, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice,)):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            return self.helper('__sx_sub__', [node.value, node.slice], node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException')
        if broad:
            node.body.insert(0, ast.copy_location(ast.Expr(self.helper('__sx_ctl__', [], node)), node))
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo=None):
        self.repo = repo or REPO

    def find_spec(self, name, path=None, target=None):
        if name != 'dill' and not name.startswith('dill.'):
            return None
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            fn, pkg = os.path.join(base, '__init__.py'), [base]
        else:
            fn, pkg = base + '.py', None
        if not os.path.exists(fn):
            return None
        if name.startswith(SKIP):
            return importlib.util.spec_from_file_location(name, fn, submodule_search_locations=pkg)
        spec = importlib.util.spec_from_file_location(name, fn, loader=self, submodule_search_locations=pkg)
        return spec

    def create_module(self, spec):
        return None

    def get_source(self, name):
        return None

    def exec_module(self, module):
        with open(module.__spec__.origin, encoding='utf-8') as f:
            src = f.read()
        exec(transform(src, module.__spec__.origin), module.__dict__)


# ------------------------------------------------------------------- helpers
def _is(a, b):
    ta, tb = type(a), type(b)
    if ta is SymAny or tb is SymAny:
        if a is b:
            return True
        ca, cb = V.any_code(a), V.any_code(b)
        if ca is None or cb is None:
            return False
        if ta is not SymAny and a is not None or tb is not SymAny and b is not None:
            # identity with a non-None native object: decided by the value
            pass
        return V.mkbool(V.zeqi(ca, cb))
    if ta is SymBool or tb is SymBool:
        if ta is bool or tb is bool or ta is tb:
            return a == b
        return False
    return a is b


def _isnot(a, b):
    return V._neg(_is(a, b))


_MISS = type('Missing', (), {'__repr__': lambda s: '<no key>'})()


def resolve(k, keys):
    """the member of keys equal to the symbolic k, forking; _MISS when there is none"""
    if type(k) is SymAny:
        for x in keys:
            if x is k:
                return x
    for x in keys:
        r = (k == x)
        if r is False:
            continue
        if bool(r):
            return x
    return _MISS


def _in(a, b):
    if is_sym(a) or is_sym(b):
        if type(b) in (SymStr, SymBytes):
            return b.__contains__(a)
        if isinstance(b, (str, bytes)) and is_sym(a):
            t = SymStr if isinstance(b, str) else SymBytes
            return t(t._codes(b)).__contains__(a)
        if isinstance(b, (dict, set, frozenset)) or type(b).__name__ in ('dict_keys', 'mappingproxy'):
            return resolve(a, list(b)) is not _MISS
    return a in b


def _notin(a, b):
    return not _in(a, b)


def _sub(a, k):
    if is_sym(k) and isinstance(a, dict) and type(k) is not SymAny:
        r = resolve(k, list(a))
        if r is _MISS:
            h = getattr(type(a), '__missing__', None)
            if h is not None:
                return h(a, conc(k))
            raise KeyError('symbolic key')
        return a[r]
    return a[k]


def conc(x, depth=0):
    """replace str/int/bytes/bool proxies by solver-chosen concrete values (forks)"""
    t = type(x)
    if t in (SymStr, SymBytes):
        return x.concretise()
    if t is SymInt:
        return V.eng().value(x.e)
    if t is SymBool:
        return bool(x)
    if depth < 3:
        if t is tuple:
            return tuple(conc(i, depth + 1) for i in x) if any_sym(x, depth) else x
        if t is list and any_sym(x, depth):
            return [conc(i, depth + 1) for i in x]
        if t is dict and any_sym(x.values(), depth):
            return {k: conc(v, depth + 1) for k, v in x.items()}
    return x


def any_sym(xs, depth=0):
    for x in xs:
        t = type(x)
        if t in (SymStr, SymBytes, SymInt, SymBool):
            return True
        if depth < 3 and t in (tuple, list) and any_sym(x, depth + 1):
            return True
    return False


def _mod(a, b):
    if is_sym(a):
        return a % b
    if type(a) is str:
        if is_sym(b) or type(b) is tuple and any_sym(b) or type(b) is dict and any_sym(b.values()):
            return format_percent(a, b)
    return a % b


def format_percent(fmt, args):
    import re
    if type(args) is dict:
        return fmt % conc(args)
    if type(args) is not tuple:
        args = (args,)
    out, pos, k = '', 0, 0
    for m in re.finditer(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[sdrxia])', fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        spec = m.group()
        if spec == '%%':
            out = out + '%'
            continue
        a = args[k]
        k += 1
        if is_sym(a):
            if spec == '%s' or spec == '%d' and type(a) is SymInt:
                out = out + V.to_str(a)
            elif spec == '%r':
                out = out + V.to_repr(a)
            else:
                out = out + spec % conc(a)
        else:
            out = out + spec % (a,)
    out = out + fmt[pos:]
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return out


def _fstr(*parts):
    out = ''
    for p in parts:
        if type(p) is str:
            out = out + p
            continue
        v, conv, spec = p
        if is_sym(v):
            if conv == -1 and spec == '' or conv == 115:
                out = out + V.to_str(v)
            elif conv == 114 and spec == '':
                out = out + V.to_repr(v)
            else:
                out = out + format(conc(v), spec)
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out = out + format(v, spec)
    return out


def _src(x):
    if is_sym(x):
        return conc(x)
    if isinstance(x, (str, bytes)):
        return x
    return x


def _ctl():
    e = sys.exc_info()[1]
    if isinstance(e, _e.Control):
        raise e


# ---------------------------------------------------------------- call models
def m_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if issubclass(t, Sym):
            return a[0].__class__
        nat = t.__dict__.get('__sx_native_type__')
        if nat is not None:
            return nat
        return t
    return type(*a, **k)


def m_int(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        base = a[1] if len(a) > 1 else k.get('base', 10)
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._int()
        if type(x) is SymStr:
            return V.str_to_int(x, base)
        return int(conc(x))
    return int(*a, **k)


def m_str(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if type(x) is SymBytes and (len(a) > 1 or k):
            return V.decode(x, *a[1:], **k)
        return V.to_str(x)
    return str(*a, **k)


def m_repr(x):
    return V.to_repr(x) if is_sym(x) else repr(x)


def m_bytes(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if type(x) is SymStr:
            return V.encode(x, *a[1:], **k)
        if type(x) is SymBytes:
            return x
        return bytes(conc(x))
    return bytes(*a, **k)


def m_bool(*a):
    return bool(*a)


def m_ord(c):
    if type(c) in (SymStr, SymBytes):
        if len(c.c) != 1:
            raise TypeError('ord() expected a character')
        return V.mkint(c.c[0])
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        if not V.decide(V.c_between(i.e, 0, 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr.mk((i.e,))
    return chr(i)


def m_latin_1_encode(x, *a):
    if type(x) is SymStr:
        r = V.encode(x, 'latin-1')
        return r, len(x.c)
    import codecs
    return codecs.latin_1_encode(x, *a)


def m_getattr(o, n, *d):
    if is_sym(n):
        r = resolve(n, [x for x in dir(o) if len(x) == len(n.c)])
        if r is _MISS:
            if d:
                return d[0]
            raise AttributeError('symbolic attribute')
        n = r
    return getattr(o, n, *d)


def m_hasattr(o, n):
    try:
        m_getattr(o, n)
        return True
    except AttributeError:
        return False


def m_math_log(x, *a):
    """the logarithm to base 2 of a positive integer, exact only in its floor (to which floats round it)"""
    import math
    if type(x) is not SymInt or a != (2,):
        return math.log(conc(x), *conc(a))
    if not x > 0:
        raise ValueError('math domain error')
    k = x.bit_length() - 1
    if x == 1 << k:
        return math.log(1 << k, 2)
    lo, hi = 1 << k, 1 << (k + 1)           # the least x of the block that is rounded up to the next one
    while hi - lo > 1:
        m = (lo + hi) // 2
        lo, hi = (lo, m) if math.log(m, 2) >= k + 1 else (m, hi)
    return float(k + 1) if x >= hi else k + 0.5


def m_math_log2(x):
    import math
    return m_math_log(x, 2) if type(x) is SymInt else math.log2(x)


CONC_MODULES = {'posix', 'os', 'posixpath', 'genericpath', 'io', '_io', 're', '_sre', 'tempfile', 'marshal',
                'codecs', '_codecs', 'struct', '_struct', 'tokenize', 'ast', 'textwrap', 'linecache', 'inspect',
                'math', 'pathlib', 'pickletools', 'shutil', 'importlib', '_imp', 'importlib.util', 'dis', '_locale',
                'locale', 'token', 'builtins_conc', 'keyword', 'stat', 'ntpath', 'fnmatch'}
CONC_BUILTINS = {'__import__', 'open', 'compile', 'format', 'hex', 'oct', 'bin', 'round', 'print', 'float', 'ascii',
                 'complex', 'bytearray', 'memoryview'}

MODELS = {}
ENVIRONMENT = {}      # callables interposed while a scenario models the environment


def _install_models():
    import codecs
    import math
    MODELS.update({math.log: m_math_log, math.log2: m_math_log2, type: m_type, int: m_int, str: m_str, repr: m_repr, bytes: m_bytes,
                   ord: m_ord, chr: m_chr, getattr: m_getattr, hasattr: m_hasattr,
                   codecs.latin_1_encode: m_latin_1_encode})


_install_models()

_BUILTIN = type(len)
_MDESC = type(str.join)
_WDESC = type(str.__add__)
_SLOTW = type('x'.__add__)
_cache = {}


def _seq_method(f):
    """bound method of a native str/bytes/dict: dispatch to the models when an argument is symbolic"""
    s = f.__self__
    name = f.__name__

    def call(*a, **k):
        if isinstance(s, dict):
            if a and is_sym(a[0]) and type(a[0]) is not SymAny:
                if name in ('get', 'pop', '__contains__', '__getitem__'):
                    r = resolve(a[0], list(s))
                    if r is _MISS:
                        if name == '__contains__':
                            return False
                        if name == 'get':
                            return a[1] if len(a) > 1 else k.get('default')
                        if len(a) > 1:
                            return a[1]
                        raise KeyError('symbolic key')
                    return f(r, *a[1:], **k)
                a = (conc(a[0]),) + a[1:]
            return f(*a, **k)
        if name == 'join' and len(a) == 1 and not is_sym(a[0]):
            a = (list(a[0]),)
        if any_sym(a) or any_sym(k.values()):
            t = SymStr if isinstance(s, str) else SymBytes
            if name == 'format':
                return f(*conc(a), **conc(k))
            return getattr(t(t._codes(s)), name)(*a, **k)
        return f(*a, **k)
    return call


def _conc_wrapper(f):
    def call(*a, **k):
        if any_sym(a) or any_sym(k.values()):
            a = tuple(conc(x) for x in a)
            k = {n: conc(x) for n, x in k.items()}
        return f(*a, **k)
    return call


def fn(f):
    if ENVIRONMENT:
        try:
            r = ENVIRONMENT.get(f)
        except TypeError:
            r = None
        if r is not None:
            return r
        if isinstance(f, _BUILTIN) and type(f.__self__) is not types.ModuleType:
            r = ENVIRONMENT.get(f.__qualname__)     # the same method, reached as a bound one
            if r is not None:
                return functools.partial(r, f.__self__)
            for c in type(f.__self__).__mro__:      # or through super()
                r = c.__dict__.get(f.__name__)
                try:
                    r = ENVIRONMENT.get(r)
                except TypeError:
                    r = None
                if r is not None:
                    return functools.partial(r, f.__self__)
    t = type(f)
    if t is not _BUILTIN and isinstance(f, _BUILTIN):
        t = _BUILTIN                                # 'builtin_method'
    if t is types.FunctionType:
        m = f.__module__
        if m in CONC_MODULES:
            if m == 'inspect' and f.__name__ == 'indentsize':
                return f            # str methods only, which the proxies have
            return _conc_wrapper(f)
        return f
    if t is types.MethodType:
        return f
    if t is type or t is _BUILTIN or t is _MDESC or t is _WDESC or t is _SLOTW:
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m
        if t is type:
            if f.__module__ in CONC_MODULES or f.__module__ == 'builtins' and f.__name__ in CONC_BUILTINS:
                return _conc_wrapper(f)
            return f
        if t is _BUILTIN:
            s = f.__self__
            ts = type(s)
            if ts is str or ts is bytes or isinstance(s, dict) and not is_sym(s):
                return _seq_method(f)
            if s is builtins and f.__name__ in CONC_BUILTINS:
                return _conc_wrapper(f)
            if f.__module__ in CONC_MODULES or ts.__module__ in CONC_MODULES:
                return _conc_wrapper(f)
        return f
    return f


def install_helpers():
    builtins.__dict__.update(__sx_fn__=fn, __sx_is__=_is, __sx_isnot__=_isnot, __sx_in__=_in, __sx_notin__=_notin,
                             __sx_mod__=_mod, __sx_fstr__=_fstr, __sx_sub__=_sub, __sx_src__=_src, __sx_ctl__=_ctl)


HELPERS = ('__sx_fn__', '__sx_is__', '__sx_isnot__', '__sx_in__', '__sx_notin__', '__sx_mod__', '__sx_fstr__',
           '__sx_sub__', '__sx_src__', '__sx_ctl__')

ENTERED = {}          # functions of dill executed symbolically in this process


def install(repo=None):
    """import dill instrumented; returns the package"""
    assert 'dill' not in sys.modules
    repo = repo or REPO
    install_helpers()
    main = types.ModuleType('__main__')
    main.__builtins__ = builtins
    sys.modules['__main__'] = main
    sys.meta_path.insert(0, Finder(repo))
    _monitor(repo)
    import dill
    import dill._dill
    return dill


def _monitor(repo):
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'sx')
    pre = os.path.join(repo, 'dill') + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            if _e.ENG is not None:
                ENTERED['%s:%s' % (code.co_filename[len(pre):], code.co_qualname)] = 1
            else:
                return None
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
