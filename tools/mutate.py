#!/usr/bin/env python3
"""tools/mutate.py OUT.json [N] [SEED]: make N small mechanical changes to the functions of /repo/dill (each a text edit)
and keep those that pass the stable tests; used to look for behaviour that no check looks at (see DESIGN.md)"""
import ast, json, os, random, subprocess, sys, shutil, tempfile, concurrent.futures as cf

REPO = os.environ.get('SX_REPO', '/repo')
SKIPF = {'dill/__info__.py', 'dill/_objects.py', 'dill/objtypes.py', 'dill/__init__.py', 'dill/settings.py'}
SKIPN = {'Sentinel', 'get_file_type', 'save_socket', '_create_typemap', 'use_diff', 'license', 'citation', 'save_classobj',
         'save_stringi', 'save_stringo', '_create_stringi', '_create_stringo', '_unmarshal', '_create_ftype', 'check',
         'dumpsource', '_enclose', '_wrap', 'getimportable', 'likely_import', '_likely_import', '_isstring', '_matchlambda',
         'isdynamic', '_get_attr', 'Reduce', 'Getattr', 'move_to', 'register_shim', '_imp'}


def seg(src, lines, n):
    def off(l, c):
        return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    out = []

    def put(n, text, op, fn):
        a, b = seg(src, lines, n)
        if src[a:b] != text:
            out.append(dict(file=path, start=a, end=b, new=text, old=src[a:b], op=op, fn=fn, line=n.lineno))

    def text(n):
        a, b = seg(src, lines, n)
        return src[a:b]

    def inside(n, fn):
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIPN:
                return
            fn = (fn + '.' if fn else '') + n.name
            for c in n.body:
                visit(c, fn)
            return
        if not fn:
            inside(n, fn)
            return
        t = text(n) if hasattr(n, 'lineno') else ''
        if isinstance(n, ast.Expr) and ('logger.trace' in t or isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, (ast.If, ast.While)) and t.startswith(('if False', 'while False')):
            return
        if isinstance(n, ast.If) and ('IS_PYPY' in text(n.test) or 'OLD310' in text(n.test) or 'hexversion' in text(n.test)):
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'not (%s)' % text(n.test), 'negate', fn)
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                rest = [x for x in n.values if x is not v]
                j = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(%s)' % j.join('(%s)' % text(x) for x in rest), 'drop operand', fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: '==', ast.IsNot: '!='}.get(type(n.ops[0]))
            if m:
                put(n, '%s %s %s' % (text(n.left), m, text(n.comparators[0])), 'compare', fn)
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, repr(not n.value), 'constant', fn)
            elif isinstance(n.value, int):
                put(n, repr(n.value + 1), 'constant', fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'delete', fn)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                put(n, 'pass', 'delete', fn)
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(n, 'pass', 'delete', fn)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return', fn)
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for v in n.type.elts:
                put(n.type, '(%s,)' % ', '.join(text(x) for x in n.type.elts if x is not v), 'drop exception', fn)
        if isinstance(n, ast.Call) and n.keywords and 'logger' not in text(n.func):
            for k in n.keywords:
                if k.arg:
                    args = [text(x) for x in n.args] + [('%s=%s' % (x.arg, text(x.value)) if x.arg else '**' + text(x.value))
                                                       for x in n.keywords if x is not k]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(args)), 'drop keyword', fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), 'drop slice', fn)
        inside(n, fn)
    for c in tree.body:
        visit(c, '')
    return out


def apply(m, root):
    p = os.path.join(root, m['file'])
    s = open(os.path.join(REPO, m['file'])).read()
    assert s[m['start']:m['end']] == m['old']
    open(p, 'w').write(s[:m['start']] + m['new'] + s[m['end']:])


def tests(m, root):
    """true if the stable tests pass in root, the file is put back"""
    try:
        apply(m, root)
        s = open('/opt/vp/test.sh').read().replace('/repo', root)
        s = '\n'.join(l for l in s.splitlines() if 'build.sh' not in l)
        open(root + '/../test.sh', 'w').write(s)
        o = root + '/../o.json'
        if os.path.exists(o):
            os.unlink(o)
        try:
            subprocess.run(['timeout', '90', 'bash', root + '/../test.sh', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           cwd=root)
            d = json.load(open(o))
        except Exception:
            return False
        return not set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(d['passed'])
    finally:
        shutil.copy(os.path.join(REPO, m['file']), os.path.join(root, m['file']))


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = int(os.environ.get('JOBS', '4'))
    ms = []
    for f in sorted(os.listdir(REPO + '/dill')):
        f = 'dill/' + f
        if f.endswith('.py') and f not in SKIPF:
            ms += mutants(f)
    for m in ms:
        try:
            s = open(os.path.join(REPO, m['file'])).read()
            ast.parse(s[:m['start']] + m['new'] + s[m['end']:])
            m['ok'] = 1
        except SyntaxError:
            m['ok'] = 0
    ms = [m for m in ms if m.pop('ok')]
    only = os.environ.get('ONLY')
    if only:
        ms = [m for m in ms if m['file'] in only.split(',') or m['fn'] in only.split(',')]
    random.Random(seed).shuffle(ms)
    print(len(ms), 'mutants')
    ms = ms[:n]
    base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    roots = []
    for i in range(jobs):
        r = '%s/%d/repo' % (base, i)
        os.makedirs(os.path.dirname(r))
        shutil.copytree(REPO, r, symlinks=True)
        roots.append(r)
    import queue
    q = queue.Queue()
    for r in roots:
        q.put(r)

    def one(m):
        r = q.get()
        try:
            m['tests'] = tests(m, r)
        finally:
            q.put(r)
        return m
    done = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for m in ex.map(one, ms):
            done.append(m)
            json.dump(done, open(out, 'w'), indent=1)
    shutil.rmtree(base)
    print('kept', sum(m['tests'] for m in done), 'of', len(done))


if __name__ == '__main__':
    main()
