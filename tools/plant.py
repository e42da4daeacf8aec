#!/usr/bin/env python3
"""Builds and confirms planted bugs:  plant.py [ID...]   (all seeds when no id is given)

Reads tools/seeds/*.py (calls of seed(...)), writes seeded/<id>/, then, in scratch copies
of /repo under /tmp, confirms that the patch applies, that the stable tests pass with it,
that demo.sh passes without and fails with it, and says whether the property's check
catches it."""
import json, os, shutil, subprocess, sys, glob, tempfile
from multiprocessing.pool import ThreadPool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, python='/opt/venv/bin/python'):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def go(a):
    s, check_only = a
    d = os.path.join(HERE, 'seeded', s['id'])
    w = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(w, 'repo')
    out = []
    try:
        shutil.copytree('/repo', r, symlinks=True)
        sh('git checkout -q -- .', r)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                return s['id'], ['EDIT does not match once (%d): %s' % (t.count(old), old[:80])]
            # the changed lines must be the original's
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        rc, diff = sh('git diff', r)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # blame removed lines
        rc, base = sh('git rev-list --max-parents=0 HEAD', r)
        base = base.strip()
        touched_new = 0
        for f in {e[0] for e in s['edits']}:
            rc, bl = sh('git blame -s -l HEAD -- %s' % f, r)
            owner = [l.split()[0].lstrip('^') for l in bl.splitlines()]
            rc, u = sh('git diff -U0 -- %s' % f, r)
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u, re.M):
                a0, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a0, a0 + n):
                    if not base.startswith(owner[i - 1][:30]) and not owner[i - 1].startswith(base[:30]):
                        touched_new += 1
        if touched_new:
            out.append('CHANGES %d LINES OF FIX COMMITS' % touched_new)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# %s\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % s['needs'].replace('\n', ' ')[:100])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc, o = sh('bash %s/demo.sh' % d, r, 300)
        if rc == 0:
            out.append('DEMO PASSES WITH PATCH')
        sh('git stash -q', r)
        rc, o = sh('bash %s/demo.sh' % d, r, 300)
        if rc != 0:
            out.append('DEMO FAILS WITHOUT PATCH: ' + o[-600:])
        sh('git stash pop -q', r)
        if not check_only:
            t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + r)
            open(os.path.join(w, 'test.sh'), 'w').write(t)
            env = dict(os.environ)
            rc, o = sh('bash %s/test.sh %s/o.json' % (w, w), w, 900)
            base = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open(os.path.join(w, 'o.json')))
            ok = set(res.get('passed') or [])
            stable = base.get('stable') or base.get('passed') or base.get('tests') or []
            lost = [x for x in stable if x not in ok]
            if lost:
                out.append('TESTS LOST %d: %s' % (len(lost), lost[:3]))
        rc, o = sh('python3 run.py %s --root %s --jobs 2 --out %s' % (s['prop'], r, w), HERE, 900)
        viol = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        first = o.splitlines()[0] if o.splitlines() else ''
        out.append(('CAUGHT ' if viol else 'MISSED(rc=%d) ' % rc) + first[:200])
        return s['id'], out
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    args = sys.argv[1:]
    check_only = '-c' in args
    args = [x for x in args if x != '-c']
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f, encoding='utf-8').read(), f, 'exec'))
    todo = [s for s in SEEDS.values() if not args or any(s['id'].startswith(x) for x in args)]
    # evidence files must not be overwritten by runs on copies
    with ThreadPool(4) as p:
        for id, out in p.imap(go, [(s, check_only) for s in todo]):
            print(id, '|', ' | '.join(out), flush=True)
