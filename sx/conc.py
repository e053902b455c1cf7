"""concrete mode: replays solver models on the real, uninstrumented dill

usage: python -m sx.conc < cases.jsonl > results.jsonl   (each case runs in a forked child)
"""
import importlib
import io
import json
import os
import signal
import sys
import traceback
import types

from .api import BaseCtx, Skip

ANY_CODES = {0: None, 1: 0, 2: '', 3: ()}


class Failed(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Assumed(BaseException):
    pass


class ConcCtx(BaseCtx):
    sym = False

    def __init__(self, dill, values, tier='quick', seed=1):
        self.dill, self.v, self.tier, self.seed = dill, values, tier, seed
        self.labels = []

    def _enter(self):
        self._isolate()

    def _exit(self):
        self._restore()

    @staticmethod
    def is_sym(x):
        return False

    def _get(self, name, default):
        return self.v.get(name, default)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0 if hi is None else min(0, hi))

    def bool(self, name):
        return bool(self._get(name, False))

    def any(self, name, none=True):
        c = self._get(name, 0 if none else 1)
        return ANY_CODES[c] if c in ANY_CODES else ('leaf', c)

    def leaf(self, name):
        return ('leaf', self._get(name, 4))

    def pick(self, name, n):
        return self._get(name, 0)

    def _len(self, name, n):
        return n[0] + self.pick(name + '.len', 0) if isinstance(n, tuple) else n

    def str(self, name, n, alphabet=None, lo=0, hi=0x10ffff):
        return self._get(name, (min(alphabet) if alphabet else chr(lo)) * self._len(name, n))

    def bytes(self, name, n, alphabet=None):
        return bytes(self._get(name, [min(alphabet) if alphabet else 0] * self._len(name, n)))

    def assume(self, c):
        if not c:
            raise Assumed()

    def check(self, c, label, detail=None):
        self.labels.append(label)
        if not c:
            raise Failed(label, detail)

    def land(self, *xs):
        return all(xs)

    def lor(self, *xs):
        return any(xs)

    def lnot(self, x):
        return not x

    def is_none(self, x):
        return x is None

    def ite(self, c, a, b):
        return a if c else b

    def decide(self, c):
        return bool(c)

    def text(self, x):
        return str(x)

    def concrete(self, x):
        return x

    def skip(self, why):
        raise Skip(why)


def run_case(dill, case):
    """one case in this process"""
    mod = importlib.import_module('props.' + case['module'])
    sc = {s.name: s for s in mod.SCENARIOS}[case['scenario']]
    ctx = ConcCtx(dill, case['values'], case.get('tier', 'quick'))
    res = dict(id=case.get('id'), failed=None, detail=None)
    ctx._enter()
    try:
        sc.fn(ctx)
        res['end'] = 'ok'
    except Failed as f:
        res.update(end='failed', failed=f.label, detail=None if f.detail is None else str(f.detail)[:400])
    except Assumed:
        res['end'] = 'assumption not met'
    except Skip:
        res['end'] = 'skip'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' | '.join('%s:%s:%s' % (x.filename.rsplit('/', 1)[-1], x.lineno, x.name) for x in tb[-6:])
        res.update(end='failed', failed='uncaught:' + type(e).__name__, detail='%s @ %s' % (str(e)[:300], where))
    finally:
        ctx._exit()
    res['labels'] = ctx.labels
    return res


def setup():
    """a clean __main__ and the real dill from the repository under test"""
    repo = os.environ.get('SX_REPO', '/repo')
    sys.path.insert(0, repo)
    main = types.ModuleType('__main__')
    main.__builtins__ = __builtins__ if isinstance(__builtins__, types.ModuleType) else sys.modules['builtins']
    sys.modules['__main__'] = main
    import dill
    assert os.path.realpath(dill.__file__).startswith(os.path.realpath(repo) + os.sep), dill.__file__
    import dill.source, dill.detect, dill.temp, dill.session, dill.pointers, dill.logger
    return dill


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('SX_DEBUG'):
        os.dup2(devnull, 2)
    dill = setup()
    for line in sys.stdin:
        case = json.loads(line)
        if case.get('fork', True):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(case.get('timeout', 60))
                try:
                    res = run_case(dill, case)
                    data = json.dumps(res).encode()
                except BaseException as e:
                    data = json.dumps(dict(id=case.get('id'), end='error', failed=None, labels=[],
                                           detail='%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if not data:
                data = json.dumps(dict(id=case.get('id'), end='crashed', failed='process died', labels=[],
                                       detail='exit status %d' % st)).encode()
            out.write(data.decode() + '\n')
        else:
            out.write(json.dumps(run_case(dill, case)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
