"""Writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import notes  # noqa

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(s) for s in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = notes.N
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    n = NOTES.get(i, {})
    checks.append(dict(
        property=i, quick_cmd='bash check.sh ' + i,
        thorough_cmd='VERIF_TIER=thorough bash check.sh ' + i,
        evidence_file='evidence/{}.json'.format(i),
        technique='property-based testing (Hypothesis): ' + n['technique'],
        level='exploration',
        level_note='Generated-input search: shows the absence of violations '
                   'only on the cases explored. Oracle: ' + n['oracle'] + (
                       ' Left out: ' + n['out'] if n['out'] else '')))
json.dump(dict(
    version=1,
    setup_cmd='bash check.sh --selfcheck',
    checks=checks, not_applicable=na,
    notes='See DESIGN.md. known_findings.json lists repaired defects.'),
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
