#!/usr/bin/env python3
"""Writes /verif/DESIGN.md.  Costs come from tools/costs.json (measured by hand-run checks), the
table of planted bugs from tools/caught.json (seed id -> checks that catch it)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import design_text as D
import importlib.util

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import re


def meta(pid):
    src = open(os.path.join(ROOT, 'props', pid.lower() + '.py')).read()
    ns = {}
    exec(re.search(r"^META = \{.*?^\}", src, re.S | re.M).group(0), ns)
    return ns['META']


def main():
    out = [D.HEAD, '## 3. The properties\n']
    costs = json.load(open(os.path.join(ROOT, 'tools', 'costs.json')))
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        pid = p['id']
        m = meta(pid)
        out.append('### %s %s\n' % (pid, p['title']))
        out.append(p['statement'] + '\n')
        out.append('*Decided by.* ' + D.T[pid].replace('\n', ' ') + '\n')
        out.append('*Code.* ' + '; '.join('%s (%s)' % (x['name'], x['where']) for x in p['anchors']['mechanism']) + '\n')
        out.append('*Bounds, quick.* ' + m['bounds']['quick'] + '.\n')
        out.append('*Bounds, thorough.* ' + m['bounds']['thorough'] + '.\n')
        out.append('*Outside.* ' + m['outside'] + '.\n')
        c = costs.get(pid)
        if c:
            s = '*Cost.* ' + '; '.join('%s: %d cases, %d paths, %d queries, %.0f s' % (t, *c[t]) for t in ('quick', 'thorough') if t in c)
            out.append(s + '.\n')
        out.append('*Beyond tests.* ' + p['why_tests_cant'] + '\n')
    out.append(D.LEFT)
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    out.append('## 5. Defects found and repaired\n\nEach was shown by a solver counterexample replayed against the real code, and repaired by one `fix:` commit in /repo:\n')
    out += ['* ' + x[len('fixed: '):] for x in kf['fixed']]
    out.append('\nOpen known findings: %s.\n' % (len(kf['known']) or 'none'))
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    out.append('## 6. Planted bugs\n\n`seeded/<id>/` holds %d changes, each written from a property and the code alone and confirmed in a scratch copy (existing tests pass, demonstration fails). '
               'Those a check missed at first are marked with *; the check was then strengthened.\n' % len(os.listdir(os.path.join(ROOT, 'seeded'))))
    out.append('| planted bug | needs | caught by |\n|---|---|---|')
    for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        mm = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
        out.append('| %s%s | %s | %s |' % (s, '*' if s in caught.get('_missed_at_first', []) else '', mm['needs'].replace('|', '/'), ', '.join(caught.get(s, [mm['property']]))))
    out.append('')
    out.append(D.REFACTOR)
    out.append(D.RUN)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
