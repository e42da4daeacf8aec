"""Explorer: visits every partition of a scenario of a driver, in parallel."""
import gc
import multiprocessing as mp
import os
import sys
import time
import traceback
from .values import *
from .values import Prune, Unsupported, Diverges, PyExc, Fn
from .interp import Interp

HERE = os.path.dirname(os.path.abspath(__file__))


def make(root, tier='quick'):
    sys.setrecursionlimit(200000)
    I = Interp(root, os.path.join(HERE, 'stubs'), os.path.join(os.path.dirname(HERE), 'drivers'))
    I.tier = tier
    return I


def load(I, driver):
    m = I.import_module(driver)
    sc = [(n, f) for n, f in m.ns.items() if n.startswith('s_') and isinstance(f, Fn)]
    I.in_base = False
    I.kept = I.keep
    gc.collect()
    gc.freeze()
    gc.disable()
    return m, sc


def run_one(I, fn, prefix):
    """interpret one partition -> status, message"""
    I.reset(list(prefix))
    nv = len(I.violations)
    try:
        I.call(fn, [])
        st = ('ok', None)
    except Prune:
        st = ('pruned', None)
        del I.violations[nv:]
    except Diverges as d:
        I.report(I, ['non-termination', 'the loop never ends', d.loc], {})
        st = ('ok', None)
    except Unsupported as u:
        st = ('undecided', '%s @ %s' % (u.args[0], getattr(u, 'loc', None) or '?'))
        del I.violations[nv:]
    except PyExc as e:
        o = e.obj
        I.report(I, ['unexpected-exception', 'exception escapes: %s' % I.show(o), o], {})
        st = ('ok', None)
    except RecursionError:
        st = ('undecided', 'host recursion')
        del I.violations[nv:]
    I.active = False
    return st


def explore(I, fn, fixed, cap, deadline, stats):
    prefix = list(fixed)
    nf = len(fixed)
    while True:
        if stats['partitions'] >= cap or time.time() > deadline:
            stats['truncated'] += 1
            return
        st, msg = run_one(I, fn, prefix)
        stats['partitions'] += 1
        stats[st] += 1
        if st == 'undecided':
            stats['reasons'][msg] = stats['reasons'].get(msg, 0) + 1
        if _FIRST and I.violations:
            return
        if st == 'undecided' and os.environ.get('SA_DEBUG'):
            print('UNDECIDED', msg, [l for l, _, _ in I.decisions])
        dec = I.decisions
        i = len(dec) - 1
        while i >= nf and dec[i][1] >= dec[i][2] - 1:
            i -= 1
        if i < nf:
            return
        prefix = [d[1] for d in dec[:i]] + [dec[i][1] + 1]


def newstats():
    return {'partitions': 0, 'ok': 0, 'pruned': 0, 'undecided': 0, 'truncated': 0, 'reasons': {}}


_G = {}
_FIRST = (os.environ.get('SA_FIRST') or '').split(',') if os.environ.get('SA_FIRST') else None  # development: stop at the first violation, skipping the scenarios named


def _task(t):
    name, fixed, cap, deadline = t
    I = _G['I']
    fn = _G['sc'][name]
    I.violations = []
    I.checks = 0
    I.touched = set()
    stats = newstats()
    t0 = time.time()
    try:
        explore(I, fn, fixed, cap, deadline, stats)
    except Exception:
        stats['undecided'] += 1
        m = 'engine error: ' + traceback.format_exc(limit=-4)
        stats['reasons'][m] = stats['reasons'].get(m, 0) + 1
    # keep one violation per (rule, construct)
    vs, seen = [], {}
    for v in I.violations:
        k = (v['rule'], v['at'])
        if k in seen:
            seen[k]['count'] += 1
        else:
            v['count'] = 1
            v['scenario'] = name
            seen[k] = v
            vs.append(v)
    return name, stats, vs, I.checks, {(os.path.relpath(f, I.root), q) for f, q, _ in I.touched}, time.time() - t0


def run(root, driver, tier, only=None, cap=None, budget=None, jobs=None):
    cap = cap or int(os.environ.get('SA_CAP') or 0) or (40000 if tier == 'quick' else 1000000)
    budget = budget or (240 if tier == 'quick' else 780)
    deadline = time.time() + budget
    I = make(root, tier)
    try:
        m, sc = load(I, driver)
    except PyExc as e:
        # the program fails while the driver sets it up (by public means)
        own = any(str(e.obj.tag or '').startswith(os.path.relpath(f, root) + ':') for f in I.files if f.startswith(root))
        if e.obj.cls.name in ('ImportError', 'ModuleNotFoundError') or (e.obj.cls.name in ('AttributeError', 'NameError') and not own):
            raise
        I.violations = []
        I.report(I, ['setup', 'the program cannot be set up: %s' % I.show(e.obj), e.obj], {})
        st = newstats()
        st['partitions'] = st['ok'] = 1
        return {'scenarios': {'setup': {'stats': st, 'checks': 1, 'wall': 0.0}}, 'violations': [dict(v, scenario='setup', count=1) for v in I.violations], 'touched': set(),
                'files': sorted(os.path.relpath(f, root) for f in I.files)}
    if only:
        sc = [(n, f) for n, f in sc if n in only]
    if _FIRST:
        sc = [(n, f) for n, f in sc if n not in _FIRST]
    _G['I'] = I
    _G['sc'] = dict(sc)
    tasks = []
    for n, f in sc:
        # split on the first decisions for load balance
        fr = [[]]
        for _ in range(2):
            nxt = []
            for p in fr:
                st, msg = run_one(I, f, p)
                if len(I.decisions) > len(p):
                    k = I.decisions[len(p)][2]
                    nxt.extend(p + [j] for j in range(k))
                else:
                    nxt.append(p)
            fr = nxt
            if len(fr) > 12:
                break
        tasks.extend((n, tuple(p), cap, deadline) for p in fr)
    res = {n: {'stats': newstats(), 'checks': 0, 'wall': 0.0} for n, _ in sc}
    viol, touched = [], set()
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs == 1 or len(tasks) == 1:
        it = map(_task, tasks)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(jobs, maxtasksperchild=None)
        it = pool.imap_unordered(_task, tasks, 1)
    for name, st, vs, checks, tch, w in it:
        r = res[name]
        for k in st:
            if k == 'reasons':
                for a, b in st[k].items():
                    r['stats'][k][a] = r['stats'][k].get(a, 0) + b
            else:
                r['stats'][k] += st[k]
        r['checks'] += checks
        r['wall'] += w
        viol.extend(vs)
        touched |= tch
        if _FIRST and viol:
            if pool:
                pool.terminate()
                pool = None
            break
    if pool:
        pool.close()
        pool.join()
    return {'scenarios': res, 'violations': viol, 'touched': touched,
            'files': sorted(os.path.relpath(f, root) for f in I.files)}
