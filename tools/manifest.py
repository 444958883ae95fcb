#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json'))) if os.path.exists(os.path.join(V, 'tools', 'notes.json')) else {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, 'harness', i + '.cpp')):
        checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick',
                           thorough_cmd=f'python3 tools/check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=n.get('technique', 'property-based testing against a reference model, with choice-sequence shrinking'),
                           level='exploration',
                           level_note=n.get('note', 'Random and structured search over generated cases against an independent oracle; no guarantee beyond the cases explored. Trusts the compiler, OpenMPI and the harness oracle.')))
    else:
        na.append(dict(property=i, reason=n.get('na', 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/vbuild.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks use public headers only. tools/vbuild.py mirrors /repo/src by content and compiles it with exceptions and bounds checks on; tools/check.py drives generated search, replay and shrinking.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
