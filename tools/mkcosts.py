#!/usr/bin/env python3
"""Copies the measured cost of the last runs from the evidence files into tools/costs.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'tools', 'costs.json')
d = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(ROOT, 'evidence', 'C*.json')):
    e = json.load(open(f))
    if e['violations'] == 0:
        c = e['coverage']
        d.setdefault(os.path.basename(f)[:-5], {})[e['tier']] = [c['cases'], c['states'], c['queries'], e['wall_s']]
with open(p, 'w') as f:
    json.dump(d, f, indent=1, sort_keys=True)
    f.write('\n')
