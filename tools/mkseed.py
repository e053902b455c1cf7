"""mkseed.py FILE: write seeded/<id>/ from a description: a Python file that sets
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (text of demo.py)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    t = tempfile.mkdtemp(dir='/tmp')
    repo = os.path.join(t, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    for fn, old, new in b['edits']:
        p = os.path.join(repo, fn)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(here, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(t)
    print('wrote', b['id'])
