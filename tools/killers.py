#!/usr/bin/env python3
"""tools/killers.py MUTANTS.json OUT.json BASE: run the checks that look at the changed function against every mutant that
passed the tests (a patch made against BASE, applied to a copy of /repo), until one reports it"""
import json, os, queue, subprocess, sys, shutil, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {'dill/session.py': 'C13 C12 C11 C14', 'dill/detect.py': 'C17 C15 C21', 'dill/pointers.py': 'C18',
         'dill/source.py': 'C28 C21 C20', 'dill/temp.py': 'C22', 'dill/logger.py': 'C19', 'dill/__diff.py': 'C23',
         'dill/_shims.py': 'C03 C02'}
FNS = {'copy': 'C08', 'dump': 'C08', 'load': 'C08 C09', 'Unpickler': 'C09 C08', 'Pickler.__init__': 'C08', 'Pickler.save': 'C27',
       'MetaCatching': 'C16', 'register': 'C16', 'pickle': 'C16', '_revert': 'C16', '_extend': 'C16', '_load_type': 'C30 C25',
       '_create_type': 'C06', '_create_function': 'C30 C02', 'match': 'C01', '_create_code': 'C01', 'save_code': 'C01',
       'lock': 'C26', 'weak': 'C26', '_proxy_helper': 'C26', '_locate_object': 'C18 C26', 'filehandle': 'C10', 'file': 'C10',
       'helper': 'C24', 'cell': 'C03 C02', '_eval_repr': 'C24', '_create_array': 'C27', 'dtypemeta': 'C27', 'numpy': 'C27',
       'ndarray': 'C27', 'namedtuple': 'C06 C05', 'capsule': 'C24', '_getattr': 'C30 C25', '_import_module': 'C05 C25 C07',
       '_getattribute': 'C05', '_locate_function': 'C05', '_setitems': 'C06', 'postproc': 'C03 C06 C02', 'save_module_dict': 'C07 C12',
       'dict': 'C07 C24 C12', 'alias': 'C24', 'super': 'C24', 'slice': 'C24', 'singleton': 'C24', 'method': 'C24 C25', 'partial': 'C24',
       'lru': 'C24', 'property': 'C24', 'descriptor': 'C25', '_is_builtin_module': 'C25', '_is_imported_module': 'C25',
       'save_module': 'C25 C12', 'typedict': 'C06', 'save_type': 'C06 C05 C25', 'save_function': 'C04 C02 C05', 'dataclass': 'C24',
       'pickles': 'C15', 'is_dill': 'C07 C16', 'context': 'C24', 'getter': 'C24', 'whichmodule': 'C25'}


def relevant(m, ev):
    ps = FILES.get(m['file'], '').split()
    if m['file'] == 'dill/_dill.py':
        for k in sorted(FNS, key=len, reverse=True):
            if k in m['fn']:
                ps += FNS[k].split()
    fn = m['file'].split('/')[1] + ':' + m['fn'].split('.<')[0]
    rest = sorted(p for p in ev if any(f == fn or f.startswith(fn + '.') for f in ev[p]['functions']))
    rest.sort(key=lambda p: ev[p]['wall'])
    out = []
    for p in ps + rest:
        if p not in out:
            out.append(p)
    return out[:int(os.environ.get('MAXP', '7'))]


def main():
    src, out, base = sys.argv[1:]
    ev = {}
    for f in os.listdir(HERE + '/evidence'):
        if f.endswith('.json'):
            d = json.load(open(HERE + '/evidence/' + f))
            ev[d['property']] = dict(functions=d['coverage']['functions_encoded'], wall=d['wall_s'])
    ms = [m for m in json.load(open(src)) if m['tests']]
    seen = {}
    if os.path.exists(out):
        seen = {(m['file'], m['start'], m['new']): m for m in json.load(open(out))}
    tmp = tempfile.mkdtemp(prefix='kil.', dir='/tmp')
    q = queue.Queue()
    for i in range(int(os.environ.get('JOBS', '2'))):
        r = '%s/%d/repo' % (tmp, i)
        os.makedirs(os.path.dirname(r))
        shutil.copytree(os.environ.get('SX_REPO', '/repo'), r, symlinks=True)
        q.put(r)

    def one(m):
        k = (m['file'], m['start'], m['new'])
        if k in seen:
            return seen[k]
        r = q.get()
        d = os.path.dirname(r)
        try:
            s = open(os.path.join(base, m['file'])).read()
            open(d + '/new.py', 'w').write(s[:m['start']] + m['new'] + s[m['end']:])
            p = subprocess.run(['diff', '-u', os.path.join(base, m['file']), d + '/new.py'], capture_output=True, text=True).stdout
            m['patch'] = p
            a = subprocess.run(['patch', os.path.join(r, m['file'])], input=p, text=True, capture_output=True)
            if a.returncode:
                m['killed'] = 'patch does not apply'
                return m
            m['tried'] = []
            m['killed'] = None
            for c in relevant(m, ev):
                e = dict(os.environ, SX_REPO=r, SX_EVIDENCE=d + '/ev')
                x = subprocess.run(['timeout', '600', 'python3-vt', HERE + '/run.py', c], env=e, capture_output=True, text=True, cwd=HERE)
                m['tried'].append((c, x.returncode))
                if x.returncode == 1:
                    m['killed'] = c
                    break
            return m
        finally:
            f = os.path.join(r, m['file'])
            shutil.copy(os.path.join(os.environ.get('SX_REPO', '/repo'), m['file']), f)
            for g in (f + '.rej', f + '.orig'):
                if os.path.exists(g):
                    os.unlink(g)
            q.put(r)
    done = []
    with cf.ThreadPoolExecutor(q.qsize()) as ex:
        for m in ex.map(one, ms):
            done.append(m)
            json.dump(done, open(out, 'w'), indent=1)
    shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
