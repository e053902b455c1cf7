#!/usr/bin/env python3
"""rewrite the tables of findings and of planted bugs at the end of DESIGN.md"""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '\n## Findings (generated'
p = os.path.join(HERE, 'DESIGN.md')
head = open(p).read().split(MARK)[0].rstrip() + '\n'
out = [head, MARK.lstrip('\n') + ' by tools/mkdesign.py from known_findings.json)\n']
F = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
fixed = [f for f in F if f.get('kind') == 'fixed']
known = [f for f in F if f.get('kind') != 'fixed']
out.append('Every one was first reported by the named scenario and replayed on the real code.\n\nNot repaired (the checks '
           'print KNOWN-FINDING for exactly these inputs):\n')
for f in known:
    out.append('* **%s** (%s, `%s`, inputs where `%s`): %s.' % (f['id'], f['property'], f['scenario'], f['when'], f['what']))
out.append('\nRepaired by a `fix:` commit in /repo (reverting one makes the check report it again):\n')
for f in fixed:
    w = f['what'].split(' ', 2)[2]
    out.append('* **%s** %s `%s`: %s (%s).' % (f['id'], f['property'], f['scenario'], w.split(' ', 1)[1], w.split(' ', 1)[0]))
out.append('\n## Planted bugs (generated from seeded/*/meta.json)\n')
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
out.append('All pass the stable tests and fail their demonstration; "first missed" means the check had to be strengthened.\n')
out.append('| change | breaks | needs | caught by |\n|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (i, d['what_it_breaks'], d['needs'], caught.get(i, d['property'])))
open(p, 'w').write('\n'.join(out) + '\n')
