"""Writes DESIGN.md from tools/design_head.md, tools/notes.py, the checks and
the planted bugs. Run with the Python of check.sh."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
import notes  # noqa
from vlib import boot  # noqa

props = [json.loads(s) for s in open(os.path.join(ROOT, 'properties.jsonl'))]
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
seeded = {}
d = os.path.join(ROOT, 'seeded')
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    seeded.setdefault(m['property'], []).append((b, m))
out.append('## Properties\n')
for p in props:
    i = p['id']
    n = notes.N[i]
    mod = importlib.import_module('checks.' + i.lower())
    out.append('### {} {}\n'.format(i, p['title']))
    out.append(p['statement'] + '\n')
    out.append('Technique: {}. {}\n'.format(n['technique'], n['oracle']))
    out.append('Why the tests cannot settle it: {}\n'.format(n['why']))
    for a in ([n['out']] if n['out'] else []) + list(
            getattr(mod, 'ASSUMPTIONS', [])):
        out.append('Bounds: {}\n'.format(a))
    out.append('| Facet | Quick cases | Explores |\n|---|---|---|')
    for f in mod.FACETS:
        out.append('| {} | {} | {} |'.format(f.name, int(f.quick * getattr(mod, 'SCALE', 2.5)), f.rule))
    out.append('')
out.append('## Planted bugs and the checks that catch them\n')
out.append('Written from the property texts and the code; each passes the '
           'existing tests and has a demonstration. The last column is the '
           'result of the property\'s own check at `VERIF_SEED=1`. Those '
           'first missed led to stronger generators or facets: c02-eq, '
           'c12-lead, c22-frac, c27-nofit, c28-dayfirst, c29-inputs, '
           'c30-guess, c31-list, c02-nofit, c16-norm, c26-nofcast, '
           'c28-hash, c29-leak, c31-seterr, c31-memo, c12-sparse, among others.\n')
out.append('| Bug | Property | What it breaks | Needs | Check |\n'
           '|---|---|---|---|---|')
for i in sorted(seeded):
    for b, m in seeded[i]:
        out.append('| {} | {} | {} | {} | {} |'.format(
            b, i, m['what_it_breaks'], m['needs'], caught.get(b, '?')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
