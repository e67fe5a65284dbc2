#!/usr/bin/env python3
"""Decide one property: run.py C01 [quick|thorough]"""
import sys
import os
import json
import time
import importlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

MODULES = ('environments', 'records', 'prefixes', 'checksums', 'fetching', 'building',
           'requirements', 'platforms', 'ordering', 'solving', 'indexing', 'cli',
           'variables', 'processes', 'wellformed', 'commands', 'texts', 'places', 'formulas', 'effects',
           'machos', 'directories')


def find(prop):
    for m in MODULES:
        p = os.path.join(HERE, 'checks', m + '.py')
        if os.path.exists(p):
            mod = importlib.import_module('checks.' + m)
            if prop in mod.CHECKS:
                return mod.CHECKS[prop]
    raise SystemExit('no check for %s' % prop)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=Cxx rule=R construct=C -- text
                head, _, text = line[7:].partition(' -- ')
                f = dict(x.split('=', 1) for x in head.split(' '))
                out.append((f['property'], f['rule'], f['construct'], text))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from checks.base import Report, AnalysisError
    R = Report(prop)
    R.tier = tier
    try:
        find(prop)(R)
    except (AnalysisError, Exception) as e:
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        if not R.failures:
            print('ERROR property=%s the analysis gives no answer: %s: %s' % (prop, type(e).__name__, str(e)[:300]))
            sys.exit(2)
    if not R.obligations:
        print('ERROR property=%s nothing was checked' % prop)
        sys.exit(2)
    listed = known_findings()
    fresh, old = [], []
    for f in R.failures:
        hit = [k for k in listed if k[:3] == (prop, f[0], f[1])]
        (old if hit else fresh).append((f, hit))
    total = sum(c[0] for c in R.obligations.values())
    bad = sum(c[1] for c in R.obligations.values())
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'explanation': 'Static analysis of the current source of /repo: abstract interpretation of the '
                       'functions below over all paths; every obligation is an instance of one of the '
                       'rules at one construct on one path.',
        'rules': R.rules,
        'obligations': total,
        'discharged': total - bad,
        'distinct_obligations': len(R.obligations),
        'paths': R.paths,
        'call_sites': len(R.callsites),
        'functions': sorted(R.functions),
        'samples': ['%s at %s (%d instances)' % (k[0], k[1], v[0])
                    for k, v in sorted(R.obligations.items(), key=str)[:12]],
        'violations': ['%s at %s %s: %s' % f for f, h in fresh],
        'known': ['%s at %s %s: %s' % f for f, h in old],
    }
    cov.update(getattr(R, 'extra', {}))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for f, hit in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
    if fresh:
        path = os.path.join(HERE, 'evidence', prop + '.violation.txt')
        with open(path, 'w') as out:
            for f, h in fresh:
                out.write('rule: %s\n  %s\nconstruct: %s\nat: %s\n%s\n\n' % (
                    f[0], R.rules.get(f[0], ''), f[1], f[2], f[3]))
        for f, h in fresh[:12]:
            print('%s: %s [%s] %s' % (f[2], f[1], f[0], f[3][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    print('ok property=%s obligations=%d paths=%d functions=%d %.1fs' % (
        prop, total, R.paths, len(R.functions), time.time() - t0))


if __name__ == '__main__':
    main()
