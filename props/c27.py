"""C27: numpy objects"""
import numpy as np

from sx.api import Scenario, exec_def

ASSUMPTIONS = ['attributes of an array do not lead back to the array (numpy itself pickles the contents before the array is known)',
               'elements of object arrays and attributes are opaque leaves; numbers, shapes and types are choices, stored by numpy']

SRC = '''
import numpy
class Plain(numpy.ndarray):
    tag = 3
    def twice(self):
        return len(self) * 2
class Final(numpy.ndarray):
    def __array_finalize__(self, obj):
        self.info = getattr(obj, 'info', None)
class Child(Plain):
    pass
class Reduced(numpy.ndarray):
    def __reduce__(self):
        f, a, s = numpy.ndarray.__reduce__(self)
        return f, a, (s, self.info)
    def __setstate__(self, s):
        numpy.ndarray.__setstate__(self, s[0])
        self.info = s[1]
class ReducedEx(numpy.ndarray):
    def __reduce_ex__(self, protocol):
        return rebuild, (type(self), self.tolist(), str(self.dtype), self.shape, self.info)
def rebuild(cls, items, dtype, shape, info):
    o = numpy.array(items, dtype=dtype).reshape(shape).view(cls)
    o.info = info
    return o
'''
DTYPES = ['i4', '>i8', 'f8', 'c16', 'b1', 'U3', 'S3', 'M8[s]', 'm8[D]', 'record', 'nested', 'O', 'V4']
SHAPES = [(2, 3), (4,), (), (0, 2), (1, 2, 2)]


def dtype(name):
    if name == 'record':
        return np.dtype([('a', 'i4'), ('b', 'U2')])
    if name == 'nested':
        return np.dtype([('a', 'f4', (2,)), ('b', [('c', 'i1')])])
    return np.dtype(name)


def where(ctx, opts=('no module', 'live', 'main')):
    """a namespace with the classes: not importable, importable, or the main program"""
    w = ctx.choice('where', opts)
    if w == 'no module':
        ns = {'__name__': 'zz_nomod'}
    else:
        ns = ctx.module('zzlive').__dict__ if w == 'live' else ctx.main.__dict__
    exec(compile(SRC, '<sx>', 'exec'), ns)
    return ns, w


def fill(ctx, shape, dt):
    a = np.zeros(shape, dtype=dtype(dt))
    n = a.size
    if dt == 'O':
        flat = np.empty(n, dtype=object)
        for i in range(n):
            flat[i] = ctx.any('e%d' % i) if i < 3 else [i]
        return flat.reshape(shape)
    if dt not in ('record', 'nested', 'V4', 'U3', 'S3'):
        return np.arange(n).reshape(shape).astype(dtype(dt))
    raw = (bytes(range(65, 91)) * 40)[:n * a.itemsize]
    if dt in ('U3', 'record'):
        a[...] = ('z',) if dt == 'nope' else (np.array(['x%d' % i for i in range(n)]).reshape(shape) if dt == 'U3' else
                                              np.array([(i, 'r') for i in range(n)], dtype=a.dtype).reshape(shape))
        return a
    return np.frombuffer(raw, dtype=a.dtype).reshape(shape).copy() if n else a


def equal(ctx, r, o):
    ctx.check(type(r).__name__ == type(o).__name__, 'class', detail='%r for %r' % (type(r), type(o)))
    o = o if o.dtype == r.dtype else o.astype(o.dtype.newbyteorder('='))      # (numpy may swap to the native order)
    ctx.check(r.dtype == o.dtype and r.shape == o.shape, 'type and shape')
    ctx.check(r.flags.f_contiguous == o.flags.f_contiguous and r.flags.c_contiguous == o.flags.c_contiguous and
              r.flags.writeable, 'order')
    a, b = np.ndarray.tolist(r), np.ndarray.tolist(o)
    if o.dtype == object:
        ctx.check(ctx.eq(a, b), 'elements')
    else:
        ctx.check(repr(a) == repr(b) and r.tobytes() == o.tobytes(), 'elements')


def s_array(ctx):
    """arrays and arrays of 5 subclasses (plain, with a finalizer, a child of a subclass, with an own __reduce__ or
    __reduce_ex__) of 13 element types and 5 shapes, in C or Fortran order; 0-2 attributes (leaves); elements of object
    arrays leaves; subclasses not importable, live, or of the main program; alone or twice; protocols 2, 4 (thorough: 0-5)"""
    kind = ctx.choice('kind', ['ndarray', 'Plain', 'Final', 'Child', 'Reduced', 'ReducedEx'])
    dt = ctx.choice('dtype', DTYPES)
    quick = ctx.tier == 'quick'
    shape = ctx.choice('shape', SHAPES if not quick or dt in ('i4', 'O') else SHAPES[:1] + SHAPES[2:3])
    ns, w = where(ctx, ('no module', 'live', 'main') if not quick or dt == 'i4' else ('no module',))
    if kind == 'ReducedEx' and dt in ('record', 'nested', 'V4', 'O', 'M8[s]', 'm8[D]'):
        ctx.skip('not rebuilt from a list')
    o = fill(ctx, shape, dt)
    if ctx.flag('Fortran order'):
        if kind == 'ReducedEx':
            ctx.skip('not rebuilt in order')
        o = np.asfortranarray(o)
    attrs = {}
    if kind != 'ndarray':
        o = o.view(ns[kind])
        if kind not in ('Plain', 'Child') or ctx.flag('attribute'):
            attrs['info'] = ctx.any('info')
        if kind in ('Plain', 'Child') and attrs and ctx.flag('second'):
            attrs['more'] = ctx.any('more')
    for k in attrs:
        setattr(o, k, attrs[k])
    before = dict(getattr(o, '__dict__', {}))
    p = ctx.choice('proto', [2, 4] if quick else range(6))
    r, n, r2 = ctx.expect_ok('copies', ctx.rt, [o, 5, o], protocol=p, recurse=ctx.flag('recurse') if not quick else bool(attrs))
    ctx.check(r is r2 and r is not o, 'one new array')
    equal(ctx, r, o)
    ctx.check(list(getattr(r, '__dict__', {})) == list(before), 'names of attributes')
    for k in before:
        ctx.check(ctx.eq(r.__dict__[k], before[k]), 'attributes')
    ctx.check(list(getattr(o, '__dict__', {})) == list(before) and all([o.__dict__[k] is before[k] for k in before]),
              'original unchanged')
    if w == 'live' and kind != 'ndarray':
        ctx.check(type(r) is type(o), 'live class')
    if kind in ('Plain', 'Child'):
        ctx.check(r.tag == 3 and (not shape or r.twice() == o.twice()), 'behaviour')


def s_two(ctx):
    """arrays of two different subclasses, and of one subclass twice, dumped one after the other and together, with
    different attributes (leaves); the handlers found for one type leave the others alone"""
    ns, w = where(ctx)
    ks = [ctx.choice('first', ['ndarray', 'Plain', 'Final', 'Reduced']), ctx.choice('second', ['Plain', 'Reduced', 'Child'])]
    os = []
    for i, k in enumerate(ks):
        o = np.arange(3 + i)
        if k != 'ndarray':
            o = o.view(ns[k])
            o.info = ctx.any('info%d' % i)
        os.append(o)
    together = ctx.flag('together')
    if together:
        rs = ctx.expect_ok('copies', ctx.rt, os)
    else:
        rs = [ctx.expect_ok('copies', ctx.rt, o) for o in os]
    for r, o, k in zip(rs, os, ks):
        equal(ctx, r, o)
        if k != 'ndarray':
            ctx.check(ctx.eq(r.info, o.info), 'attributes')
    if w == 'live':
        for r, o in zip(rs, os):
            ctx.check(type(r) is type(o), 'live class')


def s_dtype(ctx):
    """20 element types as instances, their classes, and the class of element types itself, alone and twice in a list;
    protocols 0-5"""
    name = ctx.choice('type', DTYPES + ['f2', 'u1', '<U0', 'i8', '>f4', 'aligned', 'titles', 'string', 'np.dtype'])
    if name == 'np.dtype':
        o = np.dtype
    elif name == 'aligned':
        o = np.dtype([('a', 'i1'), ('b', 'f8')], align=True)
    elif name == 'titles':
        o = np.dtype({'names': ['a'], 'formats': ['i4'], 'offsets': [4], 'itemsize': 12, 'titles': ['the title']})
    elif name == 'string':
        o = np.dtypes.StringDType()
    else:
        o = dtype(name)
    if name != 'np.dtype' and ctx.flag('its class'):
        o = type(o)
    p = ctx.choice('proto', range(6))
    r, r2 = ctx.expect_ok('copies', ctx.rt, [o, o], protocol=p)
    ctx.check(r is r2, 'one copy')
    if isinstance(o, type):
        ctx.check(r is o, 'the identical class', detail='%r for %r' % (r, o))
    else:
        ctx.check(type(r) is type(o) and r == o and repr(r) == repr(o) and r.itemsize == o.itemsize and
                  r.alignment == o.alignment and r.names == o.names and r.isalignedstruct == o.isalignedstruct, 'equal type')


def s_ufunc(ctx):
    """universal functions: numpy's own (of the main namespace and of submodules), one bound in a live module under its
    name, one bound under another name or nowhere; protocols 0-5, alone or in an array of objects"""
    import pickle
    which = ctx.choice('which', ['add', 'sin', 'matmul', 'invert', 'float_power', 'linalg', 'strings', 'bound', 'other name', 'nowhere'])
    if which == 'linalg':
        o = np.linalg._umath_linalg.det
    elif which == 'strings':
        o = np.strings.str_len
    elif which in ('bound', 'other name', 'nowhere'):
        f = exec_def('def half(x):\n    return x / 2\n', __name__='zzlive')['half']
        o = np.frompyfunc(f, 1, 1)
        m = ctx.module('zzlive')
        if which == 'bound':
            setattr(m, o.__name__, o)
        elif which == 'other name':
            m.halve = o
    else:
        o = getattr(np, which)
    p = ctx.choice('proto', range(6))
    wrap = ctx.choice('wrap', ['none', 'list', 'array'])
    x = o if wrap == 'none' else [o, o]
    if wrap == 'array':
        x = np.empty(2, dtype=object)
        x[:] = [o, o]
    r, e = ctx.attempt(ctx.rt, x, protocol=p)
    if which in ('other name', 'nowhere'):
        ctx.check(isinstance(e, pickle.PicklingError), 'not found: refused')
        return
    ctx.check(e is None, 'copies', e)
    ctx.check(r is o if wrap == 'none' else (r[0] is o and r[1] is o), 'the identical function')


def s_scalar(ctx):
    """scalars of 14 types, and the scalar types themselves; protocols 0-5"""
    o = ctx.choice('scalar', [np.int8(-3), np.uint64(2 ** 63), np.float32(.1), np.float64('inf'), np.longdouble(1) / 3,
                              np.complex64(1 + 2j), np.bool_(True), np.str_('x\u20ac'), np.bytes_(b'a\0b'), np.datetime64('2020-02-29'),
                              np.datetime64('NaT'), np.timedelta64(3, 'h'), np.void(b'abc'), np.float16(-0.0)])
    if ctx.flag('type'):
        o = type(o)
    p = ctx.choice('proto', range(6))
    r = ctx.expect_ok('copies', ctx.rt, o, protocol=p)
    if isinstance(o, type):
        ctx.check(r is o, 'the identical class')
    else:
        ctx.check(type(r) is type(o) and r.dtype == o.dtype and r.tobytes() == o.tobytes(), 'equal scalar')


SCENARIOS = [
    Scenario('array', s_array, labels=('class', 'type and shape', 'order', 'elements', 'attributes', 'original unchanged')),
    Scenario('two', s_two, labels=('attributes', 'live class')),
    Scenario('dtype', s_dtype, labels=('the identical class', 'equal type')),
    Scenario('ufunc', s_ufunc, labels=('the identical function', 'not found: refused')),
    Scenario('scalar', s_scalar, labels=('equal scalar', 'the identical class')),
]
