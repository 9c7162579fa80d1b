#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness modules present in props/."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_CLAIMED = {}
NOTE = ('Bounded: symbolic execution of the real Python sources; every assertion is decided by z3/cvc5 for all values of the '
        'symbolic inputs within the stated bounds; counterexamples are replayed on plain CPython. ')


def meta(pid):
    src = open(os.path.join(ROOT, 'props', pid.lower() + '.py')).read()
    ns = {}
    m = re.search(r"^META = \{.*?^\}", src, re.S | re.M)
    exec(m.group(0), ns)
    return ns['META']


def main():
    checks, na = [], []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)['id']
        if os.path.exists(os.path.join(ROOT, 'props', p.lower() + '.py')):
            m = meta(p)
            checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                           'technique': 'symbolic execution of the real Python code, assertions decided by SMT (z3, cvc5)',
                           'level': 'model_checking',
                           'level_note': NOTE + 'Bounds (quick): ' + m['bounds']['quick'] + '. Outside: ' + m['outside'] + '.'})
        else:
            na.append({'property': p, 'reason': NOT_CLAIMED.get(p, 'check not built yet')})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
