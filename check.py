#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   exit 0: held on everything explored; exit 1: VIOLATION."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if 'veriftools' not in sys.prefix and os.path.exists(VT):
    os.execv(VT, [VT, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)


def known(pid):
    """Known findings of the property: list of (match dict, text)."""
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('known', []):
            if k['property'] == pid:
                out.append(k)
    return out


def matches(k, c):
    if k.get('case') and k['case'] != c['case']:
        return False
    if k.get('label') and k['label'] not in (c['label'], c['native'].get('detail')):
        return False
    for n, v in k.get('params', {}).items():
        if c['params'].get(n) != v:
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from symx import run, inst
    rep, cand, wit = run.run_property(a.property, tier, seed)
    mod = run._mod
    meta = getattr(mod, 'META', {})
    ks = known(a.property)
    violations, findings, unconfirmed, mismatch = [], [], [], []
    validated = 0
    for c in cand:
        n = c['native']
        if n['status'] == 'violation':
            k = [x for x in ks if matches(x, c)]
            (findings if k else violations).append((c, k))
        else:
            unconfirmed.append(c)
    for w in wit:
        n = w['native']
        if n['status'] == 'ok':
            if same_log(w['log'], n['log']):
                validated += 1
            else:
                mismatch.append(w)
        elif n['status'] == 'violation':
            w['label'] = n['detail']
            k = [x for x in ks if matches(x, w)]
            (findings if k else violations).append((w, k))
        elif w['approx']:
            pass
        else:
            mismatch.append(w)
    R = rep['results']
    g = lambda f: sum(r.get(f, 0) for r in R)
    inc, conc, reached, fns, labels = {}, {}, {}, set(), {}
    errors = []
    for r in R:
        for k, v in r.get('incomplete', {}).items():
            inc[k] = inc.get(k, 0) + v
        for k, v in r.get('concretised', {}).items():
            conc[k] = conc.get(k, 0) + v
        for k, v in r.get('reached', {}).items():
            reached[k] = reached.get(k, 0) + v
        for k, v in r.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
        fns.update(r.get('functions', ()))
        if 'error' in r:
            errors.append('%s %s: %s' % (r['case'], json.dumps(r['params'], sort_keys=True), r['error']))
    missing = sorted(set(meta.get('reach', ())) - set(reached))
    # -------------------------------------------------------------- evidence
    vio_out = []
    seen = set()
    rdir = os.path.join(HERE, 'evidence', 'replays')
    for c, _k in violations:
        key = (c['label'].split(' [')[0])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        body = {'property': a.property, 'case': c['case'], 'params': c['params'], 'inputs': c['inputs'],
                'label': c['label'], 'native': c['native'].get('detail')}
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(rdir, '%s-%s.json' % (a.property, h))
        with open(path, 'w') as f:
            json.dump(body, f, indent=1)
        vio_out.append({'label': c['label'], 'native': c['native'].get('detail'), 'replay': path, 'case': c['case']})
    inconclusive = []
    if rep.get('load_error'):
        inconclusive.append('load: ' + rep['load_error'])
    inconclusive += errors
    inconclusive += ['%s (x%d)' % kv for kv in sorted(inc.items())]
    inconclusive += ['case label never reached: ' + m for m in missing]
    inconclusive += ['solver candidate not reproduced natively: %s %s' % (c['label'], c['native'].get('status')) for c in unconfirmed[:5]]
    if mismatch:
        inconclusive.append('%d witness runs differ from the native run' % len(mismatch))
    bounds = meta.get('bounds', {})
    samples = []
    for w in wit[:6]:
        samples.append('%s %s inputs=%s' % (w['case'], json.dumps(w['params'], sort_keys=True)[:120], json.dumps(w['inputs'])[:200]))
    ev = {'property': a.property, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': g('paths'), 'transitions': g('decisions'),
              'traces_validated_against_impl': validated,
              'samples': samples or ['no path completed'],
              'technique': 'symbolic execution of the instrumented /repo sources, z3 %s' % __import__('z3').get_version_string(),
              'functions_encoded': sorted(fns), 'sources': dict(inst.sources),
              'bounds': bounds.get(tier, bounds.get('quick', '')) if isinstance(bounds, dict) else bounds,
              'outside_bounds': meta.get('outside', ''),
              'cases': len(R), 'cases_completed': sum(1 for r in R if 'error' not in r and not r.get('incomplete')),
              'violation_details': vio_out, 'paths_completed': g('ended'),
              'queries': g('queries'), 'queries_sat': g('sat'), 'queries_unsat': g('unsat'), 'queries_unknown': g('unknown'), 'queries_also_given_to_cvc5': g('second'),
              'solver_seconds': round(g('solver_time'), 3),
              'longest_query_seconds': round(max([r.get('max_query', 0) for r in R] or [0]), 3),
              'assertions_decided_by_solver': g('checks_solver'), 'assertions_decided_structurally': g('checks_struct'),
              'assertions_unknown': g('checks_unknown'), 'assertion_labels': labels, 'reached': reached,
              'inconclusive': inconclusive, 'concretised_calls': conc,
              'solver_candidates': len(cand), 'candidates_confirmed': len(violations) + len(findings),
          },
          'wall_s': round(rep['wall'], 2),
          'assumptions': meta.get('assumptions', ['fake serial port / socket / device stand in for the hardware as described in DESIGN.md',
                                                  'z3 and the builtin models of symx are correct (witness paths are re-run natively and compared)']),
          'violations': len(vio_out)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ep = os.path.join(HERE, 'evidence', a.property + '.json')
    with open(ep + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(ep + '.tmp', ep)
    # -------------------------------------------------------------- report
    print('%s %s: %d cases, %d paths, %d queries (%.1f s solver, %d unknown), %d+%d assertions, %d natively validated, %.1f s'
          % (a.property, tier, len(R), g('paths'), g('queries'), g('solver_time'), g('unknown'), g('checks_solver'),
             g('checks_struct'), validated, rep['wall']))
    for x in inconclusive[:12]:
        print('INCONCLUSIVE: ' + x)
    if conc and a.v:
        print('concretised:', conc)
    if a.v:
        for r in sorted(R, key=lambda r: -r.get('wall', 0))[:8]:
            print('  %6.1fs paths=%d q=%d solver=%.1f max=%.2f %s %s' % (r.get('wall', 0), r.get('paths', 0), r.get('queries', 0),
                  r.get('solver_time', 0), r.get('max_query', 0), r['case'], json.dumps(r['params'])[:100]))
            if 'trace' in r:
                print(r['trace'])
        for c in unconfirmed[:5]:
            print('  unconfirmed', c['case'], json.dumps(c['params']), c['label'], json.dumps(c['inputs'])[:600], c['native'])
        for w in mismatch[:5]:
            print('  mismatch', w['case'], json.dumps(w['params']), json.dumps(w['inputs'])[:400], w['native'].get('status'),
                  w['native'].get('detail'), [(x, y) for x, y in zip(w['log'], w['native'].get('log', [])) if x != y][:2], len(w['log']), len(w['native'].get('log', [])))
    done = set()
    for c, k in findings:
        for x in k[:1]:
            if x['text'] not in done:
                done.add(x['text'])
                print('KNOWN-FINDING: property=%s %s' % (a.property, x['text']))
    for v in vio_out:
        print('  %s: %s' % (v['case'], v['label']))
        print('    native: %s' % v['native'])
        print('VIOLATION property=%s replay=%s' % (a.property, v['replay']))
    return 1 if vio_out else 0


def same_log(a, b):
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and same_val(x[1], y[1]) for x, y in zip(a, b))


def same_val(a, b):
    if a == ['approx'] or b == ['approx']:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return a == b and type(a) is type(b)


if __name__ == '__main__':
    sys.exit(main())
