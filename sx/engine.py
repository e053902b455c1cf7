"""Symbolic execution by re-execution.

One *path* is one execution of a scenario against the instrumented dill code.
Whenever a symbolic condition reaches a Python branch (``bool()`` of a SymBool)
the engine asks z3 which sides are feasible under the path condition, follows
one and queues the other.  An obligation is discharged by asking z3 for a model
of (path condition and not obligation); ``unsat`` discharges it for *all* values
of the symbols on that path.
"""
import sys
import time
import z3


class Control(BaseException):
    """engine control flow; never caught by 'except Exception'"""


class PathInfeasible(Control):
    pass


class PathEnd(Control):
    pass


class Truncated(Control):
    """a stated bound was hit: the path is abandoned and counted"""


class Inconclusive(Control):
    """the solver answered unknown"""


class Nondeterminism(Control):
    pass


ENG = None          # the active engine


class Violation(object):
    def __init__(self, scenario, label, values, detail):
        self.scenario, self.label, self.values, self.detail = scenario, label, values, detail

    def as_dict(self):
        return dict(scenario=self.scenario, label=self.label, values=self.values, detail=self.detail)


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'truncated', 'branches', 'forks', 'queries', 'unknown',
              'obligations', 'discharged_by_solver', 'discharged_syntactically', 'concretisations',
              'solver_s')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.truncations = {}
        self.labels = {}
        self.sites = {}
        self.funcs = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['truncations'] = self.truncations
        d['labels'] = self.labels
        d['sites'] = self.sites
        d['funcs'] = self.funcs
        return d

    @staticmethod
    def merge(dicts):
        out = {f: 0 for f in Stats.FIELDS}
        for k in ('truncations', 'labels', 'sites', 'funcs'):
            out[k] = {}
        for d in dicts:
            for f in Stats.FIELDS:
                out[f] += d[f]
            for k in ('truncations', 'labels', 'sites', 'funcs'):
                for a, b in d[k].items():
                    out[k][a] = out[k].get(a, 0) + b
        return out


class Engine(object):
    TIMEOUT_MS = 20000
    CONC_CAP = 40
    MAX_DEPTH = 4000

    def __init__(self, name, fn, max_paths=200000, deadline=None):
        self.name, self.fn = name, fn
        self.max_paths = max_paths
        self.deadline = deadline
        self.slice = None
        self.force = False
        self.stats = Stats()
        self.violations = []
        self.viol_by_label = {}
        self.done_paths = []        # (values, labels)
        self.complete = True
        self.why_incomplete = []

    # ------------------------------------------------------------ path state
    def _begin(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.TIMEOUT_MS)
        self.model = model
        self.symbols = {}           # name -> (kind, payload)
        self.order = []
        self.path_labels = []

    def check_sat(self, *extra):
        t = time.time()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive('solver: unknown (%s)' % self.solver.reason_unknown())
        return m

    def assume(self, cond):
        """restrict the inputs; cond is a z3 BoolRef or a bool"""
        if cond is True:
            return
        if cond is False:
            raise PathInfeasible()
        self.solver.add(cond)
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        if self.pos < len(self.prefix):     # re-executing a feasible prefix
            self.model = None
            return
        m = self.check_sat()
        if m is None:
            raise PathInfeasible()
        self.model = m

    def ensure_model(self):
        if self.model is None:
            m = self.check_sat()
            if m is None:
                raise PathInfeasible()
            self.model = m

    def branch(self, cond, tag=None):
        """decide a symbolic condition; returns a concrete bool"""
        if isinstance(cond, bool):
            return cond
        h = cond.hash()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            choice, h0, _ = self.prefix[self.pos]
            if h0 != h:
                raise Nondeterminism('branch %d differs on re-execution: %s' % (self.pos, cond))
            self.trace.append(self.prefix[self.pos])
            self.pos += 1
            cond = cond if choice else z3.Not(cond)
            self.solver.add(cond)
            if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
            return choice
        if self.deadline and time.time() > self.deadline:
            raise Truncated('time budget of this scenario')
        if len(self.trace) > self.MAX_DEPTH:
            raise Truncated('more than %d decisions on one path' % self.MAX_DEPTH)
        self.ensure_model()
        self._site()
        v = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        m = self.check_sat(other)
        if m is not None:
            self.stats.forks += 1
            self.work.append((self.trace + [(not v, h, tag)], m))
        self.trace.append((v, h, tag))
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def _site(self):
        f = sys._getframe(2)
        n = 0
        while f is not None and n < 40:
            fn = f.f_code.co_filename
            if '/dill/' in fn and '/props/' not in fn:
                k = '%s:%s' % (fn.rsplit('/', 1)[1], f.f_code.co_name)
                self.stats.sites[k] = self.stats.sites.get(k, 0) + 1
                return
            f = f.f_back
            n += 1

    def value(self, e, cap=None):
        """a concrete int for the z3 Int e, by forking over its feasible values"""
        if isinstance(e, int):
            return e
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        self.stats.concretisations += 1
        for _ in range(cap or self.CONC_CAP):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][2]
                if v is None:
                    raise Nondeterminism('concretisation differs on re-execution')
            else:
                self.ensure_model()
                v = self.model.eval(e, model_completion=True).as_long()
            if self.branch(e == v, tag=v):
                return v
        raise Truncated('more than %d values of one integer concretised' % self.CONC_CAP)

    # ------------------------------------------------------------ obligations
    def oblige(self, cond, label, detail=None):
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        self.path_labels.append(label)
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged_syntactically += 1
                return
            m = self.check_sat()
            if m is None:
                raise PathInfeasible()
        else:
            s = z3.simplify(cond)
            if z3.is_true(s):
                self.stats.discharged_syntactically += 1
                return
            m = self.check_sat(z3.Not(cond))
            if m is None:
                self.stats.discharged_by_solver += 1
                return
        self.model = m
        self._violate(label, m, detail)
        raise PathEnd()

    def _violate(self, label, m, detail):
        if self.force:
            self.done_paths.append((self.values_of(m), None))
            return
        n = self.viol_by_label.get(label, 0)
        self.viol_by_label[label] = n + 1
        if n < 12:
            self.violations.append(Violation(self.name, label, self.values_of(m), detail))

    def values_of(self, m):
        out = {}
        for name in self.order:
            kind, payload = self.symbols[name]
            if kind == 'int' or kind == 'any':
                out[name] = m.eval(payload, model_completion=True).as_long()
            elif kind == 'bool':
                out[name] = bool(z3.is_true(m.eval(payload, model_completion=True)))
            elif kind == 'str':
                out[name] = ''.join(chr(c if isinstance(c, int) else
                                        m.eval(c, model_completion=True).as_long()) for c in payload)
            elif kind == 'bytes':
                out[name] = [c if isinstance(c, int) else
                             m.eval(c, model_completion=True).as_long() for c in payload]
            else:
                raise AssertionError(kind)
        return out

    def declare(self, name, kind, payload):
        if name in self.symbols:
            raise AssertionError('symbol %r declared twice' % name)
        self.symbols[name] = (kind, payload)
        self.order.append(name)

    # ------------------------------------------------------------ exploration
    def explore(self, make_ctx, start=None, frontier=None):
        """explore every path; with *frontier*, stop once that many prefixes are queued"""
        global ENG
        self.work = list(start) if start is not None else [([], None)]
        while self.work:
            if frontier and len(self.work) >= frontier:
                break
            if self.stats.paths + self.stats.infeasible >= self.max_paths:
                self.complete = False
                self.why_incomplete.append('path cap %d' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.complete = False
                self.why_incomplete.append('time budget')
                break
            if self.slice and time.time() > self.slice and self.stats.paths + self.stats.infeasible:
                break
            prefix, model = self.work.pop(0 if frontier else -1)
            self._begin(prefix, model)
            ENG = self
            ctx = make_ctx(self)
            ctx._enter()
            try:
                try:
                    self.fn(ctx)
                    self.finish_path()
                except PathInfeasible:
                    self.stats.infeasible += 1
                except PathEnd:
                    self.stats.paths += 1
                except Truncated as t:
                    self.stats.truncated += 1
                    k = str(t)
                    self.stats.truncations[k] = self.stats.truncations.get(k, 0) + 1
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    label = 'uncaught:' + type(e).__name__
                    where = ' | '.join('%s:%s:%s' % (x.filename.rsplit('/', 1)[-1], x.lineno, x.name)
                                       for x in tb[-6:])
                    m = self.check_sat()
                    if m is None:
                        self.stats.infeasible += 1
                    else:
                        self.stats.paths += 1
                        self._violate(label, m, '%s @ %s' % (str(e)[:300], where))
            finally:
                ENG = None
                ctx._exit()
        return self.work

    def finish_path(self):
        self.stats.paths += 1
        if self.model is None:
            m = self.check_sat()
            if m is None:
                self.stats.paths -= 1
                self.stats.infeasible += 1
                return
            self.model = m
        # self.model satisfies every constraint added along the path
        self.done_paths.append((self.values_of(self._diverse()), list(self.path_labels)))

    def _diverse(self):
        """a model of the path condition in which opaque values differ where they may"""
        anys = [p for k, p in self.symbols.values() if k == 'any']
        if not anys:
            return self.model
        try:
            want = [a >= 4 for a in anys]
            if len(anys) > 1:
                want.append(z3.Distinct(*anys))
            m = self.check_sat(*want)
            if m is not None:
                return m
            m, kept = self.model, []
            for i, a in enumerate(anys[:12]):
                m2 = self.check_sat(*kept, a == 4 + i)
                if m2 is not None:
                    m = m2
                    kept.append(a == 4 + i)
            return m
        except Inconclusive:
            return self.model


def cur():
    return ENG
