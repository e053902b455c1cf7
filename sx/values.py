"""Symbolic values.  Each proxy carries z3 terms over the integers.

SymInt    a Python int (mathematical integer)
SymBool   a Python bool
SymStr    a str of concrete length whose characters are symbolic code points
SymBytes  a bytes of concrete length whose bytes are symbolic
SymAny    an opaque picklable leaf; only None-ness, truthiness and equality are
          observable.  Coding: 0 None, 1 the int 0, 2 '', 3 (), >=4 distinct truthy values
"""
import z3
from . import engine as _e


def eng():
    e = _e.ENG
    if e is None:
        raise RuntimeError('symbolic value used outside an exploration')
    return e


class Sym(object):
    __slots__ = ()

    def __reduce_ex__(self, protocol):
        raise TypeError('symbolic value reached the pickle machinery as an ordinary object')


def is_sym(x):
    return issubclass(type(x), Sym)


def zb(x):
    """z3 (or python) bool of a SymBool / bool"""
    if type(x) is SymBool:
        return x.e
    return bool(x)


def mkbool(e):
    if isinstance(e, bool):
        return e
    return SymBool(e)


def zand(*xs):
    out = []
    for x in xs:
        x = zb(x) if not z3.is_expr(x) else x
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def zor(*xs):
    out = []
    for x in xs:
        x = zb(x) if not z3.is_expr(x) else x
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def znot(x):
    x = zb(x) if not z3.is_expr(x) else x
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zeqi(a, b):
    """equality of two int-or-z3 Ints"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return a == b


# ------------------------------------------------------------------------ bool
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e
    __class__ = property(lambda s: bool)

    def __bool__(self):
        return eng().branch(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        if type(o) is bool:
            return self if o else SymBool(z3.Not(self.e))
        if type(o) in (int, SymInt):
            return self._int() == o
        return False

    def __ne__(self, o):
        return _neg(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(zand(self, o))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(zor(self, o))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    def __invert__(self):
        return mkbool(znot(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return repr(bool(self))
    __str__ = __repr__

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__


def _neg(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    if x is NotImplemented:
        return x
    return not x


# ------------------------------------------------------------------------- int
def _zi(o):
    t = type(o)
    if t is int:
        return o
    if t is bool:
        return int(o)
    if t is SymInt:
        return o.e
    if t is SymBool:
        return o._int().e
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e
    __class__ = property(lambda s: int)

    def _bin(self, o, f):
        v = _zi(o)
        if v is None:
            return NotImplemented
        return mkint(f(self.e, v))

    def _rbin(self, o, f):
        v = _zi(o)
        if v is None:
            return NotImplemented
        return mkint(f(v, self.e))

    def _cmp(self, o, f):
        v = _zi(o)
        if v is None:
            return NotImplemented
        return SymBool(f(self.e, v))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if type(o) in (str, SymStr, list, tuple, bytes):
            return o * eng().value(self.e)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o): return self.__mul__(o)

    def __floordiv__(self, o):
        v = _zi(o)
        if v is None:
            return NotImplemented
        if not isinstance(v, int):
            v = eng().value(v)
        if v == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if v > 0:
            return mkint(self.e / v)        # z3 div rounds down for a positive divisor
        return mkint((-self.e) / (-v))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q, self - q * o

    def __lshift__(self, o):
        v = _zi(o)
        if v is None:
            return NotImplemented
        return mkint(self.e * (1 << eng().value(v)))

    def __rlshift__(self, o):
        return o << eng().value(self.e)

    def __rshift__(self, o):
        v = _zi(o)
        if v is None:
            return NotImplemented
        return mkint(self.e / (1 << eng().value(v)))

    def __rrshift__(self, o):
        return o >> eng().value(self.e)

    def __and__(self, o):
        v = _zi(o)
        if v is None:
            return NotImplemented
        if isinstance(v, int) and v >= 0 and (v & (v + 1)) == 0:
            return mkint(self.e % (v + 1))
        return eng().value(self.e) & eng().value(v)
    __rand__ = __and__

    def __or__(self, o):
        v = _zi(o)
        return NotImplemented if v is None else eng().value(self.e) | eng().value(v)
    __ror__ = __or__

    def __xor__(self, o):
        v = _zi(o)
        return NotImplemented if v is None else eng().value(self.e) ^ eng().value(v)
    __rxor__ = __xor__

    def __invert__(self): return mkint(-self.e - 1)
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __eq__(self, o):
        if type(o) is float:
            return o.is_integer() and self == int(o)
        v = _zi(o)
        if v is None:
            return False
        return mkbool(zeqi(self.e, v))

    def __ne__(self, o): return _neg(self.__eq__(o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().value(self.e)
    __int__ = __index__

    def __hash__(self):
        return hash(eng().value(self.e))

    def __float__(self):
        return float(eng().value(self.e))

    def bit_length(self):
        n = 0
        a = abs(self)
        while a >= (1 << n):
            n += 1
        return n

    def __repr__(self):
        return str(eng().value(self.e))
    __str__ = __repr__


# ------------------------------------------------------------------------- any
ANY_CODES = {0: None, 1: 0, 2: '', 3: ()}


def any_value(code):
    """the concrete stand-in for a SymAny code"""
    if code in ANY_CODES:
        return ANY_CODES[code]
    return ('leaf', code)


def any_code(o):
    t = type(o)
    if t is SymAny:
        return o.e
    if o is None:
        return 0
    if t is int and o == 0 or t is bool and o is False:
        return 1
    if t is str and o == '':
        return 2
    if t is tuple:
        if o == ():
            return 3
        if len(o) == 2 and o[0] == 'leaf' and type(o[1]) is int:
            return o[1]
    return None


class SymAny(Sym):
    __slots__ = ('e', 'name', '__weakref__')

    def __init__(self, e, name):
        self.e, self.name = e, name

    def is_none(self):
        return SymBool(self.e == 0)

    def __bool__(self):
        return eng().branch(self.e >= 4)

    def __eq__(self, o):
        c = any_code(o)
        if c is None:
            return False
        return mkbool(zeqi(self.e, c))

    def __ne__(self, o): return _neg(self.__eq__(o))

    def __hash__(self):
        return id(self) >> 4

    def __repr__(self):
        return '<leaf %s>' % self.name


# ------------------------------------------------------------------------- str
def _ch(c):
    return c


_SPACE = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
         [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
_BSPACE = [9, 10, 11, 12, 13, 32]
_LINE = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]
_BLINE = [10, 13]


def c_in(c, codes):
    """z3/bool: code point c is one of codes"""
    if isinstance(c, int):
        return c in codes
    codes = sorted(codes)
    parts = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        parts.append(c == codes[i] if i == j else z3.And(c >= codes[i], c <= codes[j]))
        i = j + 1
    return zor(*parts)


def c_between(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def decide(e):
    if isinstance(e, bool):
        return e
    return eng().branch(e)


class _Seq(Sym):
    """common part of SymStr and SymBytes"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        return hash(self.concretise())

    def concretise(self):
        e = eng()
        return self._native([e.value(c) for c in self.c])

    def _co(self, o):
        """code tuple of o when o is compatible with self, else None"""
        if type(o) is type(self):
            return o.c
        if isinstance(o, self._nat) and not is_sym(o):
            return self._codes(o)
        return None

    def _need(self, o):
        c = self._co(o)
        if c is None:
            raise TypeError('%s expected, not %s' % (self._nat.__name__, type(o).__name__))
        return c

    def __eq__(self, o):
        c = self._co(o)
        if c is None:
            return False
        if len(c) != len(self.c):
            return False
        return mkbool(zand(*[zeqi(a, b) for a, b in zip(self.c, c)]))

    def __ne__(self, o):
        return _neg(self.__eq__(o))

    def _lt(self, c, d, strict):
        # lexicographic
        r = (len(c) < len(d)) if strict else (len(c) <= len(d))
        for a, b in reversed(list(zip(c, d))):
            lt = (a < b) if isinstance(a, int) and isinstance(b, int) else (a < b)
            eq = zeqi(a, b)
            r = zor(lt, zand(eq, r))
        return mkbool(r)

    def __lt__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self._lt(self.c, c, True)

    def __le__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self._lt(self.c, c, False)

    def __gt__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self._lt(c, self.c, True)

    def __ge__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self._lt(c, self.c, False)

    def __add__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self.mk(self.c + tuple(c))

    def __radd__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else self.mk(tuple(c) + self.c)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = eng().value(n.e)
        return self.mk(self.c * n)
    __rmul__ = __mul__

    def _sub(self, i, j):
        return self.mk(self.c[i:j])

    def _at(self, i, pat):
        """does pat occur at i (bool or z3)"""
        if i < 0 or i + len(pat) > len(self.c):
            return False
        return zand(*[zeqi(a, b) for a, b in zip(self.c[i:i + len(pat)], pat)])

    def __contains__(self, o):
        if self._nat is bytes and type(o) in (int, SymInt):
            o = (o if type(o) is int else o.e,)
            pat = o
        else:
            pat = self._need(o)
        return decide(zor(*[self._at(i, pat) for i in range(len(self.c) - len(pat) + 1)]))

    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, o, start=None, end=None):
        pat = self._need(o)
        s, e = self._range(start, end)
        for i in range(s, e - len(pat) + 1):
            if decide(self._at(i, pat)):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        pat = self._need(o)
        s, e = self._range(start, end)
        for i in range(e - len(pat), s - 1, -1):
            if decide(self._at(i, pat)):
                return i
        return -1

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, o, *a):
        i = self.rfind(o, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, o, start=None, end=None):
        pat = self._need(o)
        s, e = self._range(start, end)
        if not pat:
            return e - s + 1
        n = 0
        i = s
        while i + len(pat) <= e:
            if decide(self._at(i, pat)):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        x = self.mk(self.c[s:e]) if (s, e) != (0, len(self.c)) else self
        if not is_sym(x):
            x = type(self)(self._codes(x))
        ps = p if isinstance(p, tuple) else (p,)
        return mkbool(zor(*[x._at(0, self._need(q)) for q in ps]))

    def endswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        x = type(self)(self.c[s:e])
        ps = p if isinstance(p, tuple) else (p,)
        return mkbool(zor(*[x._at(len(x.c) - len(self._need(q)), self._need(q)) for q in ps]))

    def removeprefix(self, p):
        return self._sub(len(self._need(p)), None) if self.startswith(p) else self

    def removesuffix(self, p):
        return self._sub(0, len(self.c) - len(self._need(p))) if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._wsplit(maxsplit)
        pat = self._need(sep)
        if not pat:
            raise ValueError('empty separator')
        out, start, i = [], 0, 0
        while i + len(pat) <= len(self.c) and maxsplit != 0:
            if decide(self._at(i, pat)):
                out.append(self._sub(start, i))
                i += len(pat)
                start = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self._sub(start, None))
        return out

    def _wsplit(self, maxsplit):
        out, i, n = [], 0, len(self.c)
        while True:
            while i < n and decide(c_in(self.c[i], self._space)):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                out.append(self._sub(i, n))
                break
            j = i
            while j < n and not decide(c_in(self.c[j], self._space)):
                j += 1
            out.append(self._sub(i, j))
            maxsplit -= 1
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._wsplit(-1)
            r = type(self)(self.c[::-1])._wsplit(maxsplit)
            return [self.mk(self._co(x)[::-1]) for x in r][::-1]
        pat = self._need(sep)
        r = type(self)(self.c[::-1]).split(self.mk(tuple(pat)[::-1]), maxsplit)
        return [self.mk(self._co(x)[::-1]) for x in r][::-1]

    def partition(self, sep):
        i = self.find(sep)
        e = self.mk(())
        if i < 0:
            return self, e, e
        return self._sub(0, i), sep, self._sub(i + len(sep), None)

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self.mk(())
        if i < 0:
            return e, e, self
        return self._sub(0, i), sep, self._sub(i + len(sep), None)

    def splitlines(self, keepends=False):
        out, i, start, n = [], 0, 0, len(self.c)
        while i < n:
            if decide(c_in(self.c[i], self._line)):
                j = i + 1
                if j < n and decide(zeqi(self.c[i], 13)) and decide(zeqi(self.c[j], 10)):
                    j += 1
                out.append(self._sub(start, j if keepends else i))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._sub(start, None))
        return out

    def lstrip(self, chars=None):
        codes = self._space if chars is None else self._need(chars)
        i = 0
        while i < len(self.c) and decide(self._inset(self.c[i], codes)):
            i += 1
        return self._sub(i, None)

    def rstrip(self, chars=None):
        codes = self._space if chars is None else self._need(chars)
        i = len(self.c)
        while i > 0 and decide(self._inset(self.c[i - 1], codes)):
            i -= 1
        return self._sub(0, i)

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars) if len(x) else x

    @staticmethod
    def _inset(c, codes):
        if all(isinstance(k, int) for k in codes):
            return c_in(c, list(codes))
        return zor(*[zeqi(c, k) for k in codes])

    def replace(self, old, new, count=-1):
        pat, new = self._need(old), tuple(self._need(new))
        if not pat:
            out = []
            for k, c in enumerate(self.c):
                if count != 0:
                    out.extend(new)
                    count -= 1
                out.append(c)
            if count != 0:
                out.extend(new)
            return self.mk(out)
        out, i = [], 0
        while i < len(self.c):
            if count != 0 and decide(self._at(i, pat)):
                out.extend(new)
                i += len(pat)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return self.mk(out)

    def isspace(self):
        if not self.c:
            return False
        return mkbool(zand(*[c_in(c, self._space) for c in self.c]))

    def isdigit(self):
        if not self.c:
            return False
        return mkbool(zand(*[c_between(c, 48, 57) for c in self.c]))

    def join(self, xs):
        out = []
        for k, x in enumerate(xs):
            if k:
                out.extend(self.c)
            out.extend(self._need(x))
        return self.mk(out)

    def _slice(self, i):
        if isinstance(i, slice):
            f = lambda v: eng().value(v.e) if type(v) is SymInt else v
            return self.mk(self.c[slice(f(i.start), f(i.stop), f(i.step))])
        return None


class SymStr(_Seq):
    __slots__ = ()
    _nat = str
    _space = _SPACE
    _line = _LINE
    __class__ = property(lambda s: str)

    @staticmethod
    def _native(codes):
        return ''.join(map(chr, codes))

    @staticmethod
    def _codes(s):
        return tuple(map(ord, s))

    @staticmethod
    def mk(codes):
        codes = tuple(codes)
        if all(isinstance(c, int) for c in codes):
            return ''.join(map(chr, codes))
        return SymStr(codes)

    def __getitem__(self, i):
        r = self._slice(i)
        if r is not None:
            return r
        if type(i) is SymInt:
            i = eng().value(i.e)
        return self.mk((self.c[i],))

    def __iter__(self):
        for c in self.c:
            yield self.mk((c,))

    def __mod__(self, args):
        raise _e.Truncated('symbolic format string')

    def isidentifier(self):
        # ASCII identifiers only: a non-ASCII symbolic character is outside the claim
        if not self.c:
            return False
        out = []
        for k, c in enumerate(self.c):
            if not isinstance(c, int) and not decide(c < 128):
                raise _e.Truncated('isidentifier on a non-ASCII symbolic character')
            al = zor(c_between(c, 65, 90), c_between(c, 97, 122), zeqi(c, 95))
            out.append(al if k == 0 else zor(al, c_between(c, 48, 57)))
        return mkbool(zand(*out))

    def isascii(self):
        return mkbool(zand(*[c_between(c, 0, 127) for c in self.c]))

    def isalnum(self):
        if not self.c:
            return False
        for c in self.c:
            if not isinstance(c, int) and not decide(c < 128):
                raise _e.Truncated('isalnum on a non-ASCII symbolic character')
        return mkbool(zand(*[zor(c_between(c, 48, 57), c_between(c, 65, 90), c_between(c, 97, 122))
                             for c in self.c]))

    def lower(self):
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.extend(map(ord, chr(c).lower()))
            elif decide(c_between(c, 65, 90)):
                out.append(c + 32)
            elif decide(c < 128):
                out.append(c)
            else:
                raise _e.Truncated('lower() of a non-ASCII symbolic character')
        return self.mk(out)

    def upper(self):
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.extend(map(ord, chr(c).upper()))
            elif decide(c_between(c, 97, 122)):
                out.append(c - 32)
            elif decide(c < 128):
                out.append(c)
            else:
                raise _e.Truncated('upper() of a non-ASCII symbolic character')
        return self.mk(out)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.c:
            if decide(zeqi(c, 9)):
                if tabsize > 0:
                    k = tabsize - (col % tabsize)
                    out.extend([32] * k)
                    col += k
            else:
                out.append(c)
                col = 0 if decide(c_in(c, [10, 13])) else col + 1
        return self.mk(out)

    def ljust(self, w, f=' '):
        return self + f * max(0, w - len(self.c))

    def rjust(self, w, f=' '):
        return f * max(0, w - len(self.c)) + self

    def translate(self, table):
        raise _e.Truncated('translate')

    def format(self, *a, **k):
        raise _e.Truncated('symbolic format string')

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def __str__(self):
        return self.concretise()

    def __repr__(self):
        return repr(self.concretise())

    def __format__(self, spec):
        return format(self.concretise(), spec)


def encode(s, encoding, errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if errors != 'strict':
        return s.concretise().encode(encoding, errors)
    out = []
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'ascii', 'us-ascii'):
        lim = 128 if 'ascii' in enc else 256
        for k, c in enumerate(s.c):
            if not decide(c_between(c, 0, lim - 1)):
                raise UnicodeEncodeError(encoding, '?' * len(s.c), k, k + 1, 'ordinal not in range(%d)' % lim)
            out.append(c)
    elif enc in ('utf-8', 'utf8'):
        for k, c in enumerate(s.c):
            if isinstance(c, int):
                out.extend(chr(c).encode('utf-8'))
            elif decide(c < 0x80):
                out.append(c)
            elif decide(c < 0x800):
                out += [c / 64 + 0xc0, c % 64 + 0x80]
            elif decide(c_between(c, 0xd800, 0xdfff)):
                raise UnicodeEncodeError('utf-8', '?' * len(s.c), k, k + 1, 'surrogates not allowed')
            elif decide(c < 0x10000):
                out += [c / 4096 + 0xe0, (c / 64) % 64 + 0x80, c % 64 + 0x80]
            else:
                out += [c / 262144 + 0xf0, (c / 4096) % 64 + 0x80, (c / 64) % 64 + 0x80, c % 64 + 0x80]
    else:
        return s.concretise().encode(encoding)
    return SymBytes.mk(out)


def decode(b, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if errors != 'strict':
        return b.concretise().decode(encoding, errors)
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        return SymStr.mk(b.c)
    if enc in ('ascii', 'us-ascii'):
        for k, c in enumerate(b.c):
            if not decide(c_between(c, 0, 127)):
                raise UnicodeDecodeError(encoding, bytes(len(b.c)), k, k + 1, 'ordinal not in range(128)')
        return SymStr.mk(b.c)
    if enc not in ('utf-8', 'utf8'):
        return b.concretise().decode(encoding)
    out, i, n = [], 0, len(b.c)

    def bad(msg='invalid start byte'):
        raise UnicodeDecodeError('utf-8', bytes(n), i, i + 1, msg)

    def cont(j, lo=0x80, hi=0xbf):
        if j >= n:
            bad('unexpected end of data')
        if not decide(c_between(b.c[j], lo, hi)):
            bad('invalid continuation byte')
        return b.c[j] - 0x80
    while i < n:
        c = b.c[i]
        if decide(c_between(c, 0, 0x7f)):
            out.append(c)
            i += 1
        elif decide(c_between(c, 0xc2, 0xdf)):
            out.append((c - 0xc0) * 64 + cont(i + 1))
            i += 2
        elif decide(c_between(c, 0xe0, 0xef)):
            lo, hi = 0x80, 0xbf
            if decide(zeqi(c, 0xe0)):
                lo = 0xa0
            elif decide(zeqi(c, 0xed)):
                hi = 0x9f
            x = cont(i + 1, lo, hi)
            y = cont(i + 2)
            out.append((c - 0xe0) * 4096 + x * 64 + y)
            i += 3
        elif decide(c_between(c, 0xf0, 0xf4)):
            lo, hi = 0x80, 0xbf
            if decide(zeqi(c, 0xf0)):
                lo = 0x90
            elif decide(zeqi(c, 0xf4)):
                hi = 0x8f
            x = cont(i + 1, lo, hi)
            y = cont(i + 2)
            w = cont(i + 3)
            out.append((c - 0xf0) * 262144 + x * 4096 + y * 64 + w)
            i += 4
        else:
            bad()
    return SymStr.mk(out)


class SymBytes(_Seq):
    __slots__ = ()
    _nat = bytes
    _space = _BSPACE
    _line = _BLINE
    __class__ = property(lambda s: bytes)

    @staticmethod
    def _native(codes):
        return bytes(codes)

    @staticmethod
    def _codes(s):
        return tuple(s)

    @staticmethod
    def mk(codes):
        codes = tuple(codes)
        if all(isinstance(c, int) for c in codes):
            return bytes(codes)
        return SymBytes(codes)

    def __getitem__(self, i):
        r = self._slice(i)
        if r is not None:
            return r
        if type(i) is SymInt:
            i = eng().value(i.e)
        return mkint(self.c[i])

    def __iter__(self):
        for c in self.c:
            yield mkint(c)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def __str__(self):
        return str(self.concretise())

    def __repr__(self):
        return repr(self.concretise())


# ------------------------------------------------------- decimal text of an int
def int_to_str(x):
    """str(SymInt): forks on sign and on the number of digits"""
    e = x.e
    neg = decide(e < 0)
    a = -e if neg else e
    n = 1
    while not decide(a < 10 ** n):
        n += 1
        if n > 20:
            raise _e.Truncated('integer of more than 20 digits printed')
    codes = [45] if neg else []
    for k in range(n - 1, -1, -1):
        codes.append((a / (10 ** k)) % 10 + 48 if n > 1 else a + 48)
    return SymStr.mk(codes)


def str_to_int(s, base=10):
    """int(SymStr)"""
    if base != 10:
        return int(s.concretise(), base)
    t = s.strip()
    if not is_sym(t):
        return int(t)
    c = list(t.c)
    neg = False
    if len(c) > 1 and decide(c_in(c[0], [43, 45])):
        neg = decide(zeqi(c[0], 45))
        c = c[1:]
    v = 0
    for k in c:
        if not decide(c_between(k, 48, 57)):
            # underscores and non-ASCII digits are decided on the concrete text
            return int(s.concretise())
        v = v * 10 + (k - 48)
    return mkint(-v if neg else v)


def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    return str(x)


def to_repr(x):
    t = type(x)
    if t is SymInt:
        return int_to_str(x)
    return repr(x)
