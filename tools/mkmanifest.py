"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')) and i not in NOT:
        checks.append(dict(
            property=i, quick_cmd='python3-vt run.py %s --tier quick' % i,
            thorough_cmd='python3-vt run.py %s --tier thorough' % i,
            technique='symbolic execution of the real code with z3 deciding every branch and obligation within bounds; '
                      'counterexamples replayed on the uninstrumented code',
            level='model_checking',
            level_note='every path of the encoded functions within the bounds stated per scenario in DESIGN.md and in '
                       'the evidence; built from the current source on every run; path models re-executed on the real '
                       'code'))
    else:
        na.append(dict(property=i, reason=NOT.get(i, 'the check is not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt selftest/proxies.py', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
