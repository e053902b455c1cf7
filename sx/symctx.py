"""symbolic mode of a scenario"""
import pickle
import z3
from . import values as V
from . import engine as _e
from .api import BaseCtx, Skip


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, eng, dill, tier, seed=1):
        self.e, self.dill, self.tier, self.seed = eng, dill, tier, seed
        self.log = []

    def _enter(self):
        self._pids = {}
        self._pid_of = {}
        d = self.dill

        def persistent_id(pickler, obj):
            if V.is_sym(obj):
                k = self._pid_of.get(id(obj))
                if k is None:
                    k = 'sx%d' % len(self._pids)
                    self._pids[k] = obj
                    self._pid_of[id(obj)] = k
                return k
            return None

        def persistent_load(unpickler, pid):
            return self._pids[pid]
        self._isolate()
        d.Pickler.persistent_id = persistent_id
        d.Unpickler.persistent_load = persistent_load
        sp = pickle._Pickler.persistent_id
        su = pickle._Unpickler.persistent_load
        pickle._Pickler.persistent_id = persistent_id
        pickle._Unpickler.persistent_load = persistent_load

        def undo():
            pickle._Pickler.persistent_id = sp
            pickle._Unpickler.persistent_load = su
            for c, n in ((d.Pickler, 'persistent_id'), (d.Unpickler, 'persistent_load')):
                if n in c.__dict__:
                    delattr(c, n)
        self.on_exit(undo)

    def _exit(self):
        self._restore()

    is_sym = staticmethod(V.is_sym)

    # ------------------------------------------------------------------ inputs
    def _declare_int(self, name, kind, lo, hi):
        x = z3.Int(name)
        self.e.declare(name, kind, x)
        cs = []
        if lo is not None:
            cs.append(x >= lo)
        if hi is not None:
            cs.append(x <= hi)
        if cs:
            self.e.assume(z3.And(*cs))
        return x

    FORCE_VALUES = 4

    def _force(self, x, kind='int'):
        """sampling fallback (only used when the encoding does not carry): a few solver-chosen values"""
        if not self.e.force:
            return x
        for want in ([0, 4, 5] if kind == 'any' else []):
            if self.e.branch(x == want, tag=want):
                return x
        for _ in range(self.FORCE_VALUES if kind != 'any' else 0):
            if self.e.pos < len(self.e.prefix):
                v = self.e.prefix[self.e.pos][2]
            else:
                self.e.ensure_model()
                v = self.e.model.eval(x, model_completion=True).as_long()
            if self.e.branch(x == v, tag=v):
                return x
        raise _e.PathInfeasible()

    def int(self, name, lo=None, hi=None):
        return V.SymInt(self._force(self._declare_int(name, 'int', lo, hi)))

    def bool(self, name):
        x = z3.Bool(name)
        self.e.declare(name, 'bool', x)
        return V.SymBool(x)

    def any(self, name, none=True):
        """an opaque value: None, 0, '', () or one of unboundedly many distinct truthy values"""
        x = self._declare_int(name, 'any', 0 if none else 1, None)
        return V.SymAny(self._force(x, 'any'), name)

    def leaf(self, name):
        """an opaque truthy value"""
        return V.SymAny(self._declare_int(name, 'any', 4, None), name)

    def pick(self, name, n):
        x = self._declare_int(name, 'int', 0, n - 1)
        return self.e.value(x, n + 1)

    def _chars(self, name, n, alphabet, lo, hi):
        cs = []
        for i in range(n):
            c = z3.Int('%s[%d]' % (name, i))
            if alphabet is not None:
                self.e.assume(V.c_in(c, sorted(set(alphabet))))
            else:
                cond = z3.And(c >= lo, c <= hi)
                if hi > 0xd800:
                    cond = z3.And(cond, z3.Not(z3.And(c >= 0xd800, c <= 0xdfff)))
                self.e.assume(cond)
            cs.append(c)
        return tuple(cs)

    def _len(self, name, n):
        if isinstance(n, tuple):
            lo, hi = n
            return lo + self.pick(name + '.len', hi - lo + 1) if hi > lo else lo
        return n

    def str(self, name, n, alphabet=None, lo=0, hi=0x10ffff):
        k = self._len(name, n)
        cs = self._chars(name, k, None if alphabet is None else [ord(c) for c in alphabet], lo, hi)
        self.e.declare(name, 'str', cs)
        return V.SymStr.mk(cs)

    def bytes(self, name, n, alphabet=None):
        k = self._len(name, n)
        cs = self._chars(name, k, None if alphabet is None else list(alphabet), 0, 255)
        self.e.declare(name, 'bytes', cs)
        return V.SymBytes.mk(cs)

    # ------------------------------------------------------------------- logic
    def assume(self, c):
        self.e.assume(V.zb(c))

    def check(self, c, label, detail=None):
        self.e.oblige(V.zb(c), label, detail)

    def land(self, *xs):
        return V.mkbool(V.zand(*xs))

    def lor(self, *xs):
        return V.mkbool(V.zor(*xs))

    def lnot(self, x):
        return V.mkbool(V.znot(x))

    def is_none(self, x):
        if type(x) is V.SymAny:
            return x.is_none()
        return x is None

    def ite(self, c, a, b):
        """if c then a else b over ints / leaves"""
        c = V.zb(c)
        if isinstance(c, bool):
            return a if c else b
        if type(a) is V.SymAny or type(b) is V.SymAny:
            return V.SymAny(z3.If(c, V.any_code(a), V.any_code(b)), 'ite')
        return V.SymInt(z3.If(c, V._zi(a), V._zi(b)))

    def decide(self, c):
        return bool(c) if not isinstance(c, bool) else c

    def text(self, x):
        """str(x)"""
        return V.to_str(x)

    def concrete(self, x):
        """a concrete value, forking over the feasible ones"""
        from .instrument import conc
        return conc(x)

    def skip(self, why):
        raise _e.Truncated('outside the claim: ' + why)
