"""What a scenario may use.  The same scenario runs in two modes:

symbolic   (sx.symctx)  on the instrumented dill, inputs are z3-backed proxies
concrete   (sx.conc)    on the real, uninstrumented dill, inputs are the values of one solver model
"""
import contextlib
import os
import shutil
import sys
import tempfile
import types
import warnings


class Skip(BaseException):
    """this path is outside the claim (counted)"""


class Scenario(object):
    def __init__(self, name, fn, labels=(), tiers=('quick', 'thorough'), bounds='', max_paths=100000, seeds=()):
        self.name, self.fn, self.labels, self.tiers = name, fn, tuple(labels), tiers
        self.bounds = bounds or (fn.__doc__ or '').strip()
        self.max_paths = max_paths


class BaseCtx(object):
    sym = False
    tier = 'quick'

    # ------------------------------------------------------------- isolation
    def _isolate(self):
        import pickle, copyreg, logging
        d = self.dill
        self._undo = []
        self._scratch = None
        main = sys.modules['__main__']
        snap_mod = dict(sys.modules)
        snap_main = dict(main.__dict__)
        disp, sdisp = dict(d.Pickler.dispatch), dict(pickle._Pickler.dispatch)
        settings = dict(d.settings)
        filt = list(warnings.filters)
        lg = logging.getLogger('dill')
        lvl, hand = lg.level, list(lg.handlers)
        out, err, inp = sys.stdout, sys.stderr, sys.stdin
        cwd = os.getcwd()
        path = list(sys.path)
        table = dict(copyreg.dispatch_table)

        def undo():
            sys.stdout, sys.stderr, sys.stdin = out, err, inp
            os.chdir(cwd)
            sys.path[:] = path
            for k in list(sys.modules):
                if k not in snap_mod:
                    m = sys.modules[k]
                    if getattr(m, '__spec__', None) is None or k.startswith('zz'):
                        del sys.modules[k]
            for k, v in snap_mod.items():
                if sys.modules.get(k) is not v:
                    sys.modules[k] = v
            main.__dict__.clear()
            main.__dict__.update(snap_main)
            for cur, old in ((d.Pickler.dispatch, disp), (pickle._Pickler.dispatch, sdisp), (d.settings, settings),
                             (copyreg.dispatch_table, table)):
                if list(cur) != list(old) or any(cur[k] is not old[k] for k in old):
                    cur.clear()
                    cur.update(old)
            warnings.filters[:] = filt
            warnings._filters_mutated()
            lg.setLevel(lvl)
            lg.handlers[:] = hand
        self._undo.append(undo)
        warnings.simplefilter('ignore')

    def _restore(self):
        for u in reversed(self._undo):
            u()
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)

    def on_exit(self, f):
        self._undo.append(f)

    def scratch(self):
        if not self._scratch:
            self._scratch = tempfile.mkdtemp(prefix='sx-', dir='/tmp')
        return self._scratch

    @property
    def main(self):
        return sys.modules['__main__']

    def module(self, name, register=True, **ns):
        """a fresh module object; registered modules are removed after the path"""
        m = types.ModuleType(name)
        m.__dict__.update(ns)
        if register:
            sys.modules[name] = m
        return m

    # ------------------------------------------------------------------ inputs
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, len(options))]

    def flag(self, name):
        """a boolean input, decided now"""
        return bool(self.pick(name, 2))

    # ------------------------------------------------------------------- logic
    def eq(self, a, b):
        """deep equality (leaves compare by value); may be symbolic"""
        if self.is_sym(a) or self.is_sym(b):
            return a == b
        if type(a) is not type(b):
            return False
        if type(a) in (tuple, list):
            return len(a) == len(b) and self.land(*[self.eq(x, y) for x, y in zip(a, b)])
        if type(a) is dict:
            return list(a) == list(b) and self.land(*[self.eq(a[k], b[k]) for k in a])
        if type(a) in (set, frozenset):
            return a == b
        return bool(a == b)

    def same(self, a, b):
        """identity of ordinary objects, equality of leaves"""
        if self.is_sym(a) or self.is_sym(b):
            return a == b
        if isinstance(a, (int, str, bytes, type(None), tuple)):
            return self.eq(a, b)
        return a is b

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)

    def iff(self, a, b):
        return self.land(self.implies(a, b), self.implies(b, a))

    # -------------------------------------------------------------- dill calls
    def rt(self, obj, ignore=None, **kw):
        return self.dill.loads(self.dill.dumps(obj, **kw), ignore=ignore)

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def _describe(self, e):
        if any(self.is_sym(a) for a in e.args):
            return type(e).__name__
        return '%s: %s' % (type(e).__name__, str(e)[:300])

    def expect_ok(self, label, f, *a, **k):
        r, e = self.attempt(f, *a, **k)
        self.check(e is None, label, detail=None if e is None else self._describe(e))
        return r

    def must_raise(self, label, exc, f, *a, **k):
        r, e = self.attempt(f, *a, **k)
        self.check(isinstance(e, exc), label,
                   detail='returned %r' % (r,) if e is None else self._describe(e))
        return e


def exec_def(src, **ns):
    """run source in a fresh namespace and return it"""
    g = dict(ns)
    exec(compile(src, '<sx>', 'exec'), g)
    return g


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)
