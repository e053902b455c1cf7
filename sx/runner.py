"""explores the scenarios of one property, replays, writes the evidence"""
import argparse
import collections
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('SX_EVIDENCE') or os.path.join(HERE, 'evidence')
CONC_PYTHON = os.environ.get('SX_CONC_PYTHON', '/opt/venv/bin/python')
NPROC = int(os.environ.get('SX_PROCS', '8'))
BUDGET = {'quick': 150, 'thorough': 1500}


def modname(prop):
    return prop.lower()


# ------------------------------------------------------------------ worker side
_W = {}


def _init(prop, tier, seed, deadline):
    sys.setrecursionlimit(6000)
    from . import instrument
    dill = instrument.install()
    import dill.source, dill.detect, dill.temp, dill.session, dill.pointers, dill.logger    # noqa
    devnull = open(os.devnull, 'w')
    if not os.environ.get('SX_DEBUG'):
        sys.stdout = sys.stderr = devnull
    sys.__stderr__ = sys.stderr
    mod = importlib.import_module('props.' + modname(prop))
    _W.update(dill=sys.modules['dill'], mod=mod, tier=tier, seed=seed, deadline=deadline)
    if hasattr(mod, 'prepare'):
        mod.prepare(_W['dill'])


def _task(args):
    name, prefixes, slice_s, force = args
    from . import engine, instrument
    from .symctx import SymCtx
    t0 = time.time()
    sc = {s.name: s for s in _W['mod'].SCENARIOS}[name]
    eng = engine.Engine(name, sc.fn, deadline=_W['deadline'])
    eng.slice = t0 + slice_s
    eng.force = force
    out = dict(scenario=name, left=[], violations=[], paths=[], error=None)
    try:
        work = eng.explore(lambda e: SymCtx(e, _W['dill'], _W['tier'], _W['seed']),
                           start=[(p, None) for p in prefixes])
        out['left'] = [p for p, m in work]
    except engine.Inconclusive as e:
        out['error'] = 'inconclusive: %s' % e
    except engine.Nondeterminism as e:
        out['error'] = 'nondeterminism: %s' % e
    except BaseException as e:
        out['error'] = 'engine: %s' % ''.join(traceback.format_exception(e))[-1500:]
    out['violations'] = [v.as_dict() for v in eng.violations]
    out['paths'] = eng.done_paths
    st = eng.stats.as_dict()
    st['funcs'] = dict(instrument.ENTERED)
    out['stats'] = st
    out['wall'] = time.time() - t0
    return out


# ------------------------------------------------------------------ parent side
class Conc(object):
    """a pool of concrete workers"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier

    def run(self, cases, nproc=NPROC, timeout=600):
        if not cases:
            return []
        for i, c in enumerate(cases):
            c['id'] = i
            c['module'] = modname(self.prop)
            c['tier'] = self.tier
        n = min(nproc, max(1, len(cases) // 4))
        parts = [cases[i::n] for i in range(n)]
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        procs = []
        for p in parts:
            pr = subprocess.Popen([CONC_PYTHON, os.path.join(HERE, 'run.py'), '--conc'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=HERE,
                                  stderr=None if os.environ.get('SX_DEBUG') else subprocess.DEVNULL)
            procs.append((pr, '\n'.join(json.dumps(c) for c in p) + '\n'))
        import threading
        outs = [None] * len(procs)

        def comm(i):
            pr, data = procs[i]
            try:
                outs[i] = pr.communicate(data.encode(), timeout=timeout)[0].decode()
            except subprocess.TimeoutExpired:
                pr.kill()
                outs[i] = ''
        th = [threading.Thread(target=comm, args=(i,)) for i in range(len(procs))]
        [t.start() for t in th]
        [t.join() for t in th]
        res = {}
        for o in outs:
            for line in o.splitlines():
                r = json.loads(line)
                res[r['id']] = r
        return [res.get(i, dict(id=i, end='error', failed=None, detail='no answer', labels=[]))
                for i in range(len(cases))]


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def is_known(known, prop, v):
    for k in known:
        if k['property'] != prop or k.get('kind') == 'fixed':
            continue
        if k['scenario'] != v['scenario'] or k['label'] != v['label']:
            continue
        m = k.get('when')
        if m is None or eval(m, {'__builtins__': {'len': len, 'any': any, 'all': all, 'set': set, 'str': str, 'ord': ord}}, {'v': v['values']}):
            return k
    return None


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    return check(a.prop, a.tier, a.only, a.v)


def replay(path):
    with open(path) as f:
        c = json.load(f)
    r = Conc(c['property'], c.get('tier', 'quick')).run([dict(scenario=c['scenario'], values=c['values'])])[0]
    print(json.dumps(r, indent=1))
    return 1 if r['end'] in ('failed', 'crashed') else 0


def explore(prop, tier, seed, names, deadline, force=False):
    """symbolic exploration of the named scenarios; returns per-scenario results"""
    res = {n: dict(stats=[], violations=[], paths=[], errors=[], wall=0.0, unexplored=0) for n in names}
    ctx = multiprocessing.get_context('spawn')
    pool = ctx.Pool(NPROC, initializer=_init, initargs=(prop, tier, seed, deadline))
    pending = []
    for n in names:
        pending.append((n, pool.apply_async(_task, ((n, [[]], 0.7, force),))))
    while pending:
        nxt = []
        moved = False
        for n, h in pending:
            if not h.ready():
                nxt.append((n, h))
                continue
            moved = True
            o = h.get()
            r = res[n]
            r['stats'].append(o['stats'])
            r['violations'] += o['violations']
            r['paths'] += o['paths']
            r['wall'] += o['wall']
            if o['error']:
                r['errors'].append(o['error'])
            left = o['left']
            if left and (r['errors'] and not force or time.time() > deadline or force and len(r['paths']) > 600):
                r['unexplored'] += len(left)
                left = []
            if left:
                # shortest prefixes = biggest subtrees: give each its own task
                left.sort(key=len)
                k = max(1, min(len(left), 2 * NPROC))
                for i in range(k):
                    nxt.append((n, pool.apply_async(_task, ((n, left[i::k], 3.0, force),))))
        pending = nxt
        if not moved:
            time.sleep(0.02)
        if time.time() > deadline + 120:
            for n, h in pending:
                res[n]['errors'].append('a task did not end within the time budget')
            break
    pool.terminate()
    return res


def check(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    deadline = t0 + float(os.environ.get('SX_BUDGET', BUDGET[tier]))
    mod = importlib.import_module('props.' + modname(prop))
    scs = [s for s in mod.SCENARIOS if tier in s.tiers and (not only or s.name == only)]
    names = [s.name for s in scs]
    from . import engine
    res = explore(prop, tier, seed, names, deadline)
    conc = Conc(prop, tier)
    known = load_known()
    rnd = random.Random(seed)

    notes, problems = [], []
    # ---- replay of the counterexamples
    cands = []
    for n in names:
        byl = collections.defaultdict(list)
        for v in res[n]['violations']:
            byl[v['label']].append(v)
        for l, vs in byl.items():
            rnd.shuffle(vs)
            cands += vs[:24]
    rep = conc.run([dict(scenario=v['scenario'], values=v['values']) for v in cands])
    confirmed, spurious = [], collections.Counter()
    seen = set()
    for v, r in zip(cands, rep):
        if r['end'] in ('failed', 'crashed'):
            # the failing label on the real code is what is reported
            v = dict(v, symbolic_label=v['label'], label=r['failed'], detail=r['detail'] or v['detail'])
            confirmed.append(v)
        else:
            spurious[(v['scenario'], v['label'])] += 1
            if verbose:
                print('SPURIOUS', v, r)
    # ---- validation of path models on the real code
    cap = 400 if tier == 'quick' else 4000
    per = max(20, cap // max(1, len(names)))
    cases = []
    for n in names:
        ps = res[n]['paths']
        groups = collections.defaultdict(list)
        for vals, labels in ps:
            groups[tuple(sorted(set(labels)))].append((vals, labels))
        pick = []
        lists = [rnd.sample(g, len(g)) for _, g in sorted(groups.items())]
        while lists and len(pick) < per:
            lists = [l for l in lists if l]
            for l in lists:
                if l and len(pick) < per:
                    pick.append(l.pop())
        for vals, labels in pick:
            cases.append(dict(scenario=n, values=vals, expect=labels))
    # ---- scenarios whose encoding did not carry: the solver enumerates models of the inputs
    degraded = {}
    for n in names:
        sp = sum(c for (s, _), c in spurious.items() if s == n)
        if res[n]['errors'] or sp:
            degraded[n] = (res[n]['errors'][:2], ['%s x%d' % (l, c) for (s, l), c in spurious.items() if s == n])
    if degraded:
        r2 = explore(prop, tier, seed, sorted(degraded), time.time() + 60, force=True)
        for n in sorted(degraded):
            ps = r2[n]['paths']
            for vals, _ in (rnd.sample(ps, 300) if len(ps) > 300 else ps):
                cases.append(dict(scenario=n, values=vals, expect=None))
    vres = conc.run([dict(scenario=c['scenario'], values=c['values']) for c in cases])
    validated, mismatched = 0, []
    for c, r in zip(cases, vres):
        if r['end'] in ('failed', 'crashed'):
            confirmed.append(dict(scenario=c['scenario'], label=r['failed'], values=c['values'], detail=r['detail'],
                                  symbolic_label='(not refuted symbolically; found on replay of a path model)'))
        elif c['expect'] is None:
            pass
        elif r['end'] == 'ok' and r['labels'] == c['expect']:
            validated += 1
        else:
            mismatched.append((c, r))
            if verbose:
                print('MISMATCH', c, r)
    # ---- reached labels
    for s in scs:
        st = engine.Stats.merge(res[s.name]['stats'])
        missing = [l for l in s.labels if l not in st['labels']]
        if missing and s.name not in degraded and not any(v['scenario'] == s.name for v in confirmed):
            problems.append('scenario %s never reached %s' % (s.name, missing))
        if st['paths'] == 0 and not degraded.get(s.name) and not any(v['scenario'] == s.name for v in confirmed):
            problems.append('scenario %s: no feasible path' % s.name)
        res[s.name]['merged'] = st
    # ---- report
    fresh, kn = {}, {}
    for v in confirmed:
        k = is_known(known, prop, v)
        if k:
            kn.setdefault(k['id'], (k, v))
        else:
            fresh.setdefault((v['scenario'], v['label']), v)
    for i, (k, v) in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
    for k in known:
        if k['property'] == prop and k.get('kind') != 'fixed' and k['id'] not in kn and not only:
            notes.append('listed finding %s did not show in this run' % k['id'])
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    shown = 0
    for (s, l), v in sorted(fresh.items(), key=lambda x: str(x[0])):
        shown += 1
        if shown > 8:
            break
        path = os.path.join(EVIDENCE, 'replay', '%s-%d.json' % (prop, shown))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, **v), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario=%s broken=%s detail=%s inputs=%s' % (s, l, v['detail'], json.dumps(v['values'])[:400]))
    total = engine.Stats.merge([x for n in names for x in res[n]['stats']])
    if mismatched:
        notes.append('%d path models took another course on the real code, e.g. %s' % (
            len(mismatched), json.dumps(dict(case=mismatched[0][0], got=mismatched[0][1]))[:700]))
    if degraded:
        notes.append('scenarios whose encoding did not carry to every path: %s' % json.dumps(degraded)[:1500])
    ok = not fresh
    ev = evidence(mod, prop, tier, seed, scs, res, total, validated, len(cases), mismatched, degraded, kn, fresh,
                  notes, problems, time.time() - t0)
    with open(os.path.join(EVIDENCE, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if verbose:
        for n in names:
            st = res[n]['merged']
            print('  %-34s paths=%d infeasible=%d trunc=%d queries=%d oblig=%d (solver %d) wall=%.1f unexplored=%d %s' % (
                n, st['paths'], st['infeasible'], st['truncated'], st['queries'], st['obligations'],
                st['discharged_by_solver'], res[n]['wall'], res[n]['unexplored'], st['truncations'] or ''))
    for x in notes:
        print('NOTE: ' + x)
    print('%s %s: paths=%d queries=%d solver=%.1fs obligations=%d validated=%d/%d truncated=%d wall=%.1fs' % (
        prop, tier, total['paths'], total['queries'], total['solver_s'], total['obligations'], validated, len(cases),
        total['truncated'], time.time() - t0))
    if fresh:
        return 1
    if problems:
        for p in problems:
            print('ERROR: ' + p)
        return 2
    if mismatched and not degraded and len(mismatched) > len(cases) // 2:
        print('ERROR: the encoding disagrees with the real code')
        return 2
    return 0


def evidence(mod, prop, tier, seed, scs, res, total, validated, ncases, mismatched, degraded, kn, fresh, notes,
             problems, wall):
    samples = []
    for s in scs:
        for vals, labels in res[s.name]['paths'][:2]:
            samples.append(dict(scenario=s.name, inputs=vals, obligations=labels[:12]))
    per = {}
    for s in scs:
        st = res[s.name]['merged']
        skipped = sum(n for k, n in st['truncations'].items() if k.startswith('outside the claim'))
        per[s.name] = dict(bounds=s.bounds, paths=st['paths'], infeasible_prefixes=st['infeasible'],
                           skipped_as_outside_the_claim=skipped,
                           truncated_paths=st['truncated'] - skipped, truncations=st['truncations'],
                           unexplored_prefixes=res[s.name]['unexplored'], branches=st['branches'], forks=st['forks'],
                           queries=st['queries'], solver_s=round(st['solver_s'], 2), obligations=st['obligations'],
                           discharged_by_solver=st['discharged_by_solver'],
                           discharged_without_query=st['discharged_syntactically'],
                           labels=st['labels'], symbolic_branch_sites=st['sites'],
                           complete=not (st['truncated'] > skipped or res[s.name]['unexplored'] or s.name in degraded))
    return dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=total['paths'], transitions=total['branches'], traces_validated_against_impl=validated,
            samples=samples[:20],
            what='states: execution paths of the real code explored symbolically; transitions: branch decisions put '
                 'to the solver on them; traces_validated_against_impl: path models re-executed on the '
                 'uninstrumented code with the same obligations reached and met',
            path_models_tried=ncases, queries=total['queries'], solver_seconds=round(total['solver_s'], 2),
            obligations=total['obligations'], obligations_discharged_by_solver=total['discharged_by_solver'],
            obligations_discharged_without_query=total['discharged_syntactically'],
            solver_unknown=total['unknown'], concretisations=total['concretisations'],
            functions_encoded=sorted(total['funcs']), scenarios=per,
            encoding_gaps=degraded, mismatched_path_models=len(mismatched), notes=notes, problems=problems,
            known_findings=[k for k in kn],
            exhaustive=all(p['complete'] for p in per.values())),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(fresh))
