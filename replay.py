#!/usr/bin/env python3
"""replay.py <file>: re-run a reported counterexample natively against /repo.  exit 1 when it still fails."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if 'veriftools' not in sys.prefix and os.path.exists(VT):
    os.execv(VT, [VT, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from symx import run
b = json.load(open(sys.argv[1]))
r = run.native('props.' + b['property'].lower(), [b])[0]
print(json.dumps(r, indent=1))
sys.exit(1 if r['status'] == 'violation' else 0)
