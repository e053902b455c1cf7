"""writes BOUNDS.md: the bounds of every scenario (their docstrings) and what each check assumes"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
out = ['# Bounds of every scenario', '', 'Generated by `python3-vt tools/mkbounds.py` from the scenarios in `props/`. Each scenario is explored '
       'path by path until no feasible side is left open; data called a leaf, symbolic or arbitrary stays a z3 term.', '']
for p in (json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))):
    f = 'props.' + p['id'].lower()
    m = importlib.import_module(f)
    out += ['## %s: %s' % (p['id'], p['title']), '']
    for s in m.SCENARIOS:
        doc = ' '.join((s.fn.__doc__ or '').split())
        tiers = getattr(s, 'tiers', None)
        out.append('* **%s**%s: %s' % (s.name, '' if not tiers or 'quick' in tiers else ' (thorough only)', doc))
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['', 'Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.']
    out.append('')
open(os.path.join(HERE, 'BOUNDS.md'), 'w').write('\n'.join(out))
