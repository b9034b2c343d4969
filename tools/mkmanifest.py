#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(R + '/checks.json'))
checks, na = [], []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    c = cfg['checks'].get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': cfg.get('not_applicable', {}).get(p['id'], 'No check is claimed yet.')})
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': f"python3 check.py {p['id']} --tier quick",
                   'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
                   'technique': 'property-based testing: ' + c['title_method'],
                   'level': 'exploration',
                   'level_note': c.get('level_note', 'Holds on every generated case of the run; no proof of absence. Trusts the oracle in harness/props, the clang sanitizers and the case generator.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Each check rebuilds librapidcheck from /repo with ASan+UBSan and its own harness; no hooks in /repo are needed.'},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
