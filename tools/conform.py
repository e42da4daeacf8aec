"""Compares the analysis' model of the language and of the standard library with the real thing, on small closed programs.

usage: tools/conform.py [name-prefix ...]

Every function p_* of tools/conform/*.py is a program without unknowns.  It is interpreted by the analysis and run by
CPython; a DIFF is a transfer function that is wrong, a GAP one that is missing.  (This validates the analyser; no check
of MANIFEST.json depends on it, and no code of the repository is involved.)
"""
import glob
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa import explore
from sa.values import Obj, Cls, Sym, PyExc, Unsupported, Prune, Diverges

REPO = os.environ.get('ROOT', '/repo')


def host(v):
    """a value of CPython in the common form"""
    if isinstance(v, BaseException):
        return ('exc', type(v).__name__)
    if type(v) in (list, tuple):
        return [type(v).__name__] + [host(x) for x in v]
    if type(v) in (set, frozenset):
        return ['set'] + sorted(map(repr, map(host, v)))
    if isinstance(v, dict):
        return ['dict'] + [(host(k), host(x)) for k, x in v.items()]
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return (type(v).__name__, repr(v)) if type(v) in (str, int, float, bool, type(None), bytes) else (type(v).__name__,)
    return (type(v).__name__,)


def model(I, v):
    v = I.norm(v)
    if type(v) is tuple:
        return ['tuple'] + [model(I, x) for x in v]
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return (type(v).__name__, repr(v))
    c = I.typeof(v)
    n = c.name
    if n == 'list':
        return ['list'] + [model(I, x) for x in I.tolist(v)]
    if n in ('set', 'frozenset'):
        return ['set'] + sorted(repr(model(I, x)) for x in I.tolist(v))
    if c.sub(I.B['dict']):
        return ['dict'] + [(model(I, k), model(I, x)) for k, x in I.mapping_items(v)]
    return (n,)


def main():
    I = explore.make(REPO)
    bad = n = 0
    for f in sorted(glob.glob(os.path.join(HERE, 'conform', '*.py'))):
        name = os.path.basename(f)[:-3]
        I.driverdir = os.path.dirname(f)
        spec = importlib.util.spec_from_file_location(name, f)
        real = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(real)
        try:
            m = I.import_module(name)
        except Unsupported as e:
            print('GAP  %s: import: %s' % (name, e.args[0]))
            bad += 1
            continue
        except PyExc as e:
            print('DIFF %s: import raises %s' % (name, I.show(e.obj)))
            bad += 1
            continue
        for p in [x for x in dir(real) if x.startswith('p_')]:
            if sys.argv[1:] and not any(p.startswith(a) for a in sys.argv[1:]):
                continue
            n += 1
            try:
                want = host(getattr(real, p)())
            except Exception as e:
                want = host(e)
            I.reset([])
            try:
                try:
                    got = model(I, I.call(m.ns[p], []))
                except PyExc as e:
                    got = ('exc', e.obj.cls.name)
                    note = I.show(e.obj)
                if I.decisions:
                    got = ('split', I.decisions[0])
            except Unsupported as e:
                print('GAP  %s.%s: %s @ %s' % (name, p, e.args[0], getattr(e, 'loc', None)))
                bad += 1
                continue
            except Exception as e:
                import traceback
                print('GAP  %s.%s: engine %r %s' % (name, p, e, traceback.format_exc(limit=-2).splitlines()[-3:]))
                bad += 1
                continue
            finally:
                I.active = False
            if got != want:
                print('DIFF %s.%s: model %s\n     CPython %s' % (name, p, str(got)[:40000], str(want)[:40000]) + ('\n     ' + note if got[0] == 'exc' else ''))
                bad += 1
    print('%d programs, %d differ or are not modelled' % (n, bad))
    return bad > 0


sys.setrecursionlimit(200000)
sys.exit(main())
