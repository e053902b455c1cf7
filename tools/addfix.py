"""addfix.py PROP SCENARIO LABEL SUBJECT-PART WHAT: note a repaired defect in known_findings.json"""
import json, subprocess, sys, os
prop, scen, label, subj, what = sys.argv[1:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
h = [l.split(' ', 1)[0] for l in log if subj in l]
assert len(h) == 1, h
fn = os.path.join(here, 'known_findings.json')
d = json.load(open(fn))
n = 1 + max(int(x['id'][1:]) for x in d['findings'])
d['findings'].append({"id": "F%02d" % n, "kind": "fixed", "property": prop, "scenario": scen, "label": label,
                      "what": "fixed: property=%s %s %s" % (prop, h[0], what)})
open(fn, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + ']}\n')
