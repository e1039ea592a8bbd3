#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_src.py and the registered check modules."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_src import P
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
TECH = {}
try:
    from techniques import TECH
except ImportError:
    pass
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(root, 'pbt', 'checks', i.lower() + '.py')):
        t = TECH.get(i, ('property-based testing (Hypothesis) against a reference model', 'generated-input search against an independent oracle'))
        checks.append(dict(property=i, quick_cmd='pbt/run.sh %s' % i, thorough_cmd='VERIF_TIER=thorough pbt/run.sh %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=t[0], level='exploration', level_note=t[1]))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='pbt/setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
fixed = [l.rstrip('\n') for l in open(os.path.join(here, 'fixed.txt'))] if os.path.exists(os.path.join(here, 'fixed.txt')) else []
try:
    from findings import KNOWN
except ImportError:
    KNOWN = []
json.dump(dict(findings=KNOWN, fixed=fixed), open(os.path.join(root, 'known_findings.json'), 'w'), indent=1)
