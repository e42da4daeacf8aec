#!/usr/bin/env python3
"""Decides one property from /repo's current source:  run.py C07 [--tier thorough]

Exit 0: every obligation of every partition that could be decided holds (or fails
only in ways known_findings.txt lists).  Exit 1: VIOLATION.  Exit 2: no answer
(the source cannot be analysed, or nothing could be decided)."""
import argparse
import glob
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import explore  # noqa: E402


def construct(at):
    """a construct without its line number"""
    return re.sub(r':\d+', ':', at or '').strip()


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p, encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) scenario=(\S+) rule=(\S+) at=<([^>]*)>\s*(.*)', line)
        if m and m.group(1) == prop:
            out.append({'scenario': m.group(2), 'rule': m.group(3), 'at': m.group(4), 'what': m.group(5).strip()})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--root', default=os.environ.get('SA_ROOT', '/repo'))
    ap.add_argument('--out', default=HERE)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    check = next(c for c in manifest['checks'] if c['property'] == prop)
    drivers = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'drivers', prop.lower() + '_*.py')))
    if not drivers:
        print('no driver for', prop)
        return 2
    total = 300 if a.tier == 'quick' else 780
    scen, viol, touched, files, errors, nsc = {}, [], set(), set(), [], 0
    for d in drivers:
        budget = max(30, total - (time.time() - t0))
        try:
            r = explore.run(a.root, d, a.tier, budget=budget, jobs=a.jobs)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            msg = str(getattr(e, 'obj', None) and explore_show(e) or e)
            errors.append('%s: cannot analyse: %s: %s' % (d, type(e).__name__, msg[:300]))
            continue
        for n, x in r['scenarios'].items():
            scen['%s.%s' % (d, n)] = x
        viol.extend(r['violations'])
        touched |= r['touched']
        files |= set(r['files'])
    for e in errors:
        print('ERROR', e)
    # group the violations by scenario, rule and construct
    kn = known(prop)
    hit = set()
    groups = {}
    for v in viol:
        k = (v['scenario'], v['rule'], construct(v['at']))
        for i, f in enumerate(kn):
            if k == (f['scenario'], f['rule'], f['at']):
                hit.add(i)
                break
        else:
            g = groups.setdefault(k, dict(v, count=0))
            g['count'] += v['count']
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[i]['what']))
    tot = {k: sum(x['stats'][k] for x in scen.values()) for k in ('partitions', 'ok', 'pruned', 'undecided', 'truncated')}
    checks = sum(x['checks'] for x in scen.values())
    wall = time.time() - t0
    own = sorted('%s:%s' % t for t in touched if t[0].startswith('jschon'))
    reasons = {}
    for x in scen.values():
        for m, c in x['stats']['reasons'].items():
            m = m[:200]
            reasons[m] = reasons.get(m, 0) + c
    dead = sorted(n for n, x in scen.items() if not x['stats']['ok'])
    complete = not (tot['undecided'] or tot['truncated'] or errors)
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': check['level'],
        'coverage': {
            'explanation': 'Abstract interpretation of the source of %d files of %s: every partition of the abstract inputs of %d '
                           'client scenarios was interpreted (finite domains for types, order, text languages, shapes and predicates; '
                           'the code under analysis was neither imported nor executed). %d obligations were evaluated on %d decided '
                           'partitions; %d partitions were infeasible, %d undecided (their obligations are not claimed).'
                           % (len([f for f in files if f.startswith('jschon')]), a.root, len(scen), checks, tot['ok'], tot['pruned'], tot['undecided']),
            'rule': check['technique'],
            'obligations': checks,
            'partitions': tot['partitions'],
            'decided_partitions': tot['ok'],
            'infeasible_partitions': tot['pruned'],
            'undecided_partitions': tot['undecided'],
            'truncated_searches': tot['truncated'],
            'exhaustive': complete,
            'undecided_reasons': reasons,
            'scenarios': {n: {'partitions': x['stats']['partitions'], 'decided': x['stats']['ok'], 'infeasible': x['stats']['pruned'],
                              'undecided': x['stats']['undecided'], 'obligations': x['checks']} for n, x in sorted(scen.items())},
            'files_read': sorted(f for f in files if f.startswith('jschon')),
            'functions_analysed': own,
            'samples': [n for n in sorted(scen)][:5],
        },
        'assumptions': ['models of Python built-ins and of the standard library and third-party functions used (sa/*_model.py, sa/stubs)',
                        'bounds on collection sizes and client call sequences stated in DESIGN.md and in the drivers'],
        'wall_s': round(wall, 2),
        'violations': 0,
    }
    out = os.path.join(a.out, 'out')
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(a.out, 'evidence'), exist_ok=True)
    rc = 0
    if groups:
        gs = sorted(groups.values(), key=lambda g: -g['count'])
        path = os.path.join(out, '%s.json' % prop)
        json.dump({'property': prop, 'violations': gs}, open(path, 'w'), indent=1)
        for g in gs[:10]:
            print('%s: %s at %s [%s %s]' % (g['rule'], g['msg'][:300], g['at'], g['scenario'], g['driver']))
            if g['detail']:
                print('    ', g['detail'][:300])
            print('     path:', '; '.join(g['path'])[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        ev['violations'] = len(gs)
        ev['coverage']['violated'] = ['%s at %s (%s): %s' % (g['rule'], g['at'], g['scenario'], g['msg'][:200]) for g in gs[:20]]
        rc = 1
    json.dump(ev, open(os.path.join(a.out, 'evidence', '%s.json' % prop), 'w'), indent=1)
    print('%s %s: %d scenarios, %d partitions (%d decided, %d infeasible, %d undecided, %d truncated), %d obligations, %d functions, %.1fs'
          % (prop, a.tier, len(scen), tot['partitions'], tot['ok'], tot['pruned'], tot['undecided'], tot['truncated'], checks, len(own), wall))
    for m, c in sorted(reasons.items(), key=lambda kv: -kv[1])[:5]:
        print('  undecided x%d: %s' % (c, m))
    for n in dead:
        print('  nothing decided in', n)
    if rc == 0 and (not scen or not tot['ok'] or (errors and not tot['ok'])):
        print('no answer: nothing could be decided')
        return 2
    return rc


def explore_show(e):
    o = e.obj
    try:
        return '%s%s' % (o.cls.name, [x if isinstance(x, str) else '?' for x in (o.attrs.get('args') or ())])
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.exit(main())
