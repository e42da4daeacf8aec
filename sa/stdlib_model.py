"""Models of the standard-library modules (and the two third-party ones) the
analysed program imports.  Pure functions on constants are folded; on unknown
operands they yield memoised terms or case splits."""
import ast
import decimal
import fractions
import json as hjson
import math as hmath
import os
import pathlib as hpath
import re as hre
import urllib.parse as hurl
from .values import *
from .values import MISSING
from .facts import LT, EQ, GT
from . import lang
from . import interp as _i
from . import uri_model

_S = frozenset(['str'])


def install(I):
    B = I.B
    I.absent = {'_bisect', '_heapq'}
    I.fs = {}

    def native_module(name, ns):
        m = Mod(name, dict(ns), None)
        m.native = True
        m.ns.setdefault('__name__', name)
        I.modules[name] = m
        return m
    I.native_module = native_module

    # ---- interpreted reference semantics of the ABC mixins and small helpers
    path = os.path.join(I.stubdir, '_sa_abc.py')
    with open(path, encoding='utf-8') as f:
        src = f.read()
    sm = Mod('_sa_abc', {'__name__': '_sa_abc'}, path)
    sm.native = True
    I.modules['_sa_abc'] = sm
    env = Env(None, sm, None)

    def set_raw(I, a, k):
        (a[0].ns if isinstance(a[0], Cls) else a[0].d)[a[1]] = a[2]

    def first_annotation(I, a, k):
        f = a[0].fn if isinstance(a[0], (SM, CM, Bound)) else a[0]
        args = [x for x in f.node.args.posonlyargs + f.node.args.args]
        if args and args[0].arg in ('self', 'cls'):
            args = args[1:]
        if not args or args[0].annotation is None:
            raise I.exc('TypeError', 'Invalid first argument to register()')
        t = args[0].annotation
        if isinstance(t, ast.Constant) and isinstance(t.value, str):
            t = ast.parse(t.value, mode='eval').body
        return I.ev(t, f.env)
    sm.ns.update({
        '_set_raw': Native('_set_raw', set_raw),
        '_drop_raw': Native('_drop_raw', lambda I, a, k: a[0].ns.pop(a[1], None)),
        '_own': Native('_own', lambda I, a, k: I.dict([(n, v) for n, v in a[0].ns.items() if not n.startswith('\0')])),
        '_annotated': Native('_annotated', lambda I, a, k: I.list(list(dict.fromkeys(a[0].slots_ or ())))),
        '_first_annotation': Native('_first_annotation', first_annotation),
    })
    tree = _i.parse_cached(path, src)
    for n in ('Container', 'Hashable', 'Sized', 'Callable', 'Iterable'):
        pass
    I.frames.append(_i.Frame(Fn(name='<module>', qualname='<module>', module=sm, node=tree, env=None, owner=None, locals=set(),
                                globals_=set(), nonlocals=set(), isgen=False, attrs=None, defaults=[], kwdefaults={}, doc=None), tree))
    for st in tree.body:
        I.ex(st, env)
        if isinstance(st, ast.ClassDef) and st.name in I.virtual:
            I.abc[st.name] = sm.ns[st.name]
    I.frames.pop()
    st = sm.ns
    B['useq'], B['umap'] = st['useq'], st['umap']
    abcnames = ['Container', 'Hashable', 'Sized', 'Callable', 'Iterable', 'Iterator', 'Generator', 'Reversible', 'Collection', 'Sequence',
                'ByteString', 'MutableSequence', 'Set', 'MutableSet', 'Mapping', 'MappingView', 'KeysView', 'ItemsView', 'ValuesView',
                'MutableMapping']
    abc = {n: st[n] for n in abcnames}
    coll = native_module('collections', {'deque': B['deque'], 'OrderedDict': st['OrderedDict'], 'defaultdict': st['defaultdict'],
                                         'ChainMap': st['ChainMap'], 'Counter': st['Counter'], 'UserDict': st['UserDict'],
                                         'UserList': st['UserList']})
    coll.ns['abc'] = native_module('collections.abc', abc)
    def abstractmethod(I, a, k):
        if isinstance(a[0], Fn):
            if a[0].attrs is None:
                a[0].attrs = {}
            a[0].attrs['__isabstractmethod__'] = True
        return a[0]
    native_module('abc', {'ABC': Cls('ABC', [B['object']], {}, None, None, native=True),
                          'abstractmethod': Native('abstractmethod', abstractmethod),
                          'ABCMeta': B['type']})

    coll.ns['namedtuple'] = st['namedtuple']

    # -------------------------------------------------------------- typing
    ty = dict(abc)
    ty['AbstractSet'] = abc['Set']
    ty.pop('Set')
    for n, c in (('List', 'list'), ('Dict', 'dict'), ('Set', 'set'), ('FrozenSet', 'frozenset'), ('Tuple', 'tuple'),
                 ('Deque', 'deque'), ('Type', 'type')):
        ty[n] = B[c]
    ty['DefaultDict'], ty['OrderedDict'] = st['defaultdict'], st['OrderedDict']
    for n in ('Any', 'Union', 'Optional', 'Literal', 'ClassVar', 'Final', 'TypeVar', 'Annotated', 'NoReturn', 'Never', 'Self', 'Text', 'AnyStr',
              'ContextManager', 'IO', 'TextIO', 'Pattern', 'Match', 'NewType', 'TypeAlias', 'ParamSpec', 'Concatenate', 'Required',
              'NotRequired', 'NamedTuple', 'TypedDict', 'LiteralString', 'AsyncIterator', 'Awaitable', 'Coroutine', 'Unpack'):
        ty[n] = Opaque(n)
    ty['Generic'] = Cls('Generic', [B['object']], {}, None, None, native=True)
    ty['Protocol'] = Cls('Protocol', [B['object']], {}, None, None, native=True)
    for n in ('SupportsIndex', 'SupportsInt', 'SupportsFloat'):
        ty[n] = Cls(n, [B['object']], {}, None, None, native=True)
    ty['TYPE_CHECKING'] = False
    ty['overload'] = Native('overload', lambda I, a, k: a[0])
    ty['final'] = Native('final', lambda I, a, k: a[0])
    ty['no_type_check'] = ty['final']
    ty['runtime_checkable'] = ty['final']
    ty['cast'] = Native('cast', lambda I, a, k: a[1])
    ty['assert_never'] = Native('assert_never', lambda I, a, k: I.unsup('assert_never'))
    native_module('typing', ty)
    native_module('typing_extensions', ty)
    native_module('types', {'MappingProxyType': Native('MappingProxyType', lambda I, a, k: a[0]),
                            'NoneType': B['NoneType'], 'FunctionType': B['function'], 'ModuleType': B['module'],
                            'MethodType': Native('MethodType', lambda I, a, k: Bound(a[0], a[1])),
                            'GenericAlias': Native('GenericAlias', lambda I, a, k: a[0]),
                            'SimpleNamespace': Native('SimpleNamespace', lambda I, a, k: _ns(I, k))})

    def _ns(I, k):
        o = I.new(B['object'])
        o.d.update(k)
        return o

    # ----------------------------------------------------------- functools
    cp = Cls('cached_property', [B['object']], {}, None, None, native=True)
    cp.ns['__new__'] = SM(Native('cached_property', lambda I, a, k: CachedProp(a[1])))
    B['cached_property'] = cp
    native_module('functools', {'cached_property': cp, **{n: st[n] for n in ('total_ordering', 'reduce', 'partial', 'lru_cache', 'cache', 'wraps',
                                                                            'cmp_to_key')},
                                **{n: st[n] for n in ('singledispatch', 'singledispatchmethod', 'partialmethod')}})
    native_module('contextlib', {n: st[n] for n in ('contextmanager', 'suppress', 'nullcontext', 'ExitStack', 'AbstractContextManager',
                                                    'ContextDecorator', 'closing')})
    itc = {n: st[n] for n in ('islice', 'takewhile', 'dropwhile', 'filterfalse', 'starmap', 'accumulate', 'pairwise', 'zip_longest',
                              'product', 'combinations', 'count', 'repeat', 'compress', 'groupby', 'tee', 'cycle', 'permutations',
                              'combinations_with_replacement', 'batched')}
    ch = Native('chain', lambda I, a, k: I.call(st['chain'], a, k))
    ch.attrs = {'from_iterable': st['chain_from_iterable']}
    itc['chain'] = ch
    native_module('itertools', itc)

    # ---------------------------------------------------------------- enum
    en = Cls('Enum', [B['object']], {}, None, None, native=True)
    B['Enum'] = en
    en.ns['__hash__'] = Native('object.__hash__', B['object'].ns['__hash__'].fn)
    en.ns['__repr__'] = Native('Enum.__repr__', lambda I, a, k: '<%s.%s: %s>' % (a[0].cls.name, a[0].d['_name_'], I.show(a[0].d['_value_'])))
    en.ns['__str__'] = Native('Enum.__str__', lambda I, a, k: '%s.%s' % (a[0].cls.name, a[0].d['_name_']))
    sen = Cls('StrEnum', [B['str'], en], {}, None, None, native=True)
    sen.ns['__str__'] = Native('StrEnum.__str__', lambda I, a, k: a[0].d['_value_'])
    ien = Cls('IntEnum', [B['int'], en], {}, None, None, native=True)
    fl = Cls('Flag', [en], {}, None, None, native=True)
    B['Flag'] = fl

    def flag(I, c, v):
        known = 0
        for m in c.enum_members.values():
            if m.d['_value_'] == v:
                return m
            known |= m.d['_value_']
        if v < 0:
            return flag(I, c, known & v)
        more = c.ns.setdefault('\0composites', {})
        if v not in more:
            o = I.new(c)
            o.d.update(_value_=v, value=v, name='|'.join(k for k in c.enum_members if c.enum_members[k].d['_value_'] & v) or None)
            o.d['_name_'] = o.d['name']
            more[v] = o
        return more[v]

    def flag_op(f):
        def op(I, a, k):
            b = I.norm(a[1])
            if not isinstance(b, Obj) or b.cls is not a[0].cls:
                return B['NotImplemented']
            return flag(I, a[0].cls, f(a[0].d['_value_'], b.d['_value_']))
        return op
    fl.ns['__or__'] = Native('Flag.__or__', flag_op(lambda x, y: x | y))
    fl.ns['__and__'] = Native('Flag.__and__', flag_op(lambda x, y: x & y))
    fl.ns['__xor__'] = Native('Flag.__xor__', flag_op(lambda x, y: x ^ y))
    fl.ns['__invert__'] = Native('Flag.__invert__', lambda I, a, k: flag(I, a[0].cls, ~a[0].d['_value_']))
    fl.ns['__bool__'] = Native('Flag.__bool__', lambda I, a, k: a[0].d['_value_'] != 0)
    fl.ns['__contains__'] = Native('Flag.__contains__', lambda I, a, k: a[1].d['_value_'] & a[0].d['_value_'] == a[1].d['_value_'])
    fl.ns['__iter__'] = Native('Flag.__iter__', lambda I, a, k: I.iterate([m for m in a[0].cls.enum_members.values() if m.d['_value_'] & a[0].d['_value_']]))
    native_module('enum', {'Enum': en, 'Flag': fl, 'StrEnum': sen, 'IntEnum': ien,
                           'auto': Native('auto', lambda I, a, k: Opaque('auto')), 'unique': Native('unique', lambda I, a, k: a[0])})

    # ------------------------------------------------------------ operator
    ops = {}
    for sym, nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
        ops[nm] = Native(nm, lambda I, a, k, sym=sym: I.compare(sym, a[0], a[1]))
    for cls, nm in ((ast.Add, 'add'), (ast.Sub, 'sub'), (ast.Mult, 'mul'), (ast.Mod, 'mod'), (ast.BitOr, 'or_'), (ast.BitAnd, 'and_'),
                    (ast.Add, 'concat'), (ast.FloorDiv, 'floordiv'), (ast.Div, 'truediv')):
        ops[nm] = Native(nm, lambda I, a, k, cls=cls: I.binop(_i.BINOPS[cls], a[0], a[1]))
    ops['not_'] = Native('not_', lambda I, a, k: not I.truth(a[0]))
    ops['truth'] = Native('truth', lambda I, a, k: I.truth(a[0]))
    ops['is_'] = Native('is_', lambda I, a, k: I.same(a[0], a[1]))
    ops['is_not'] = Native('is_not', lambda I, a, k: not I.same(a[0], a[1]))
    ops['contains'] = Native('contains', lambda I, a, k: I.contains(a[0], a[1]))
    ops['getitem'] = Native('getitem', lambda I, a, k: I.getitem(a[0], a[1]))
    ops['setitem'] = Native('setitem', lambda I, a, k: I.setitem(a[0], a[1], a[2]))
    ops['delitem'] = Native('delitem', lambda I, a, k: I.delitem(a[0], a[1]))
    ops['index'] = Native('index', lambda I, a, k: a[0])

    def igetter(I, a, k):
        keys = list(a)
        return Native('itemgetter', lambda I, b, k2: I.getitem(b[0], keys[0]) if len(keys) == 1 else tuple(I.getitem(b[0], x) for x in keys))

    def agetter(I, a, k):
        keys = [I.norm(x) for x in a]

        def one(o, n):
            for p in n.split('.'):
                o = I.getattr(o, p)
            return o
        return Native('attrgetter', lambda I, b, k2: one(b[0], keys[0]) if len(keys) == 1 else tuple(one(b[0], x) for x in keys))

    def mcaller(I, a, k):
        return Native('methodcaller', lambda I, b, k2: I.call(I.getattr(b[0], I.norm(a[0])), list(a[1:]), k))
    ops['itemgetter'] = Native('itemgetter', igetter)
    ops['attrgetter'] = Native('attrgetter', agetter)
    ops['methodcaller'] = Native('methodcaller', mcaller)
    native_module('operator', ops)
    native_module('numbers', {n: st[n] for n in ('Number', 'Complex', 'Real', 'Rational', 'Integral')})
    for n in ('Number', 'Complex', 'Real', 'Rational', 'Integral', 'PathLike'):
        I.abc[n] = st[n]
    native_module('warnings', {'warn': Native('warn', lambda I, a, k: None), 'catch_warnings': st['nullcontext'],
                               'simplefilter': Native('simplefilter', lambda I, a, k: None), 'filterwarnings': Native('f', lambda I, a, k: None)})
    lg = native_module('logging', {})

    class _L:
        pass
    logger = Cls('Logger', [B['object']], {}, None, None, native=True)
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
        logger.ns[n] = Native(n, lambda I, a, k: None)
        lg.ns[n] = Native(n, lambda I, a, k: None)
    lg.ns['getLogger'] = Native('getLogger', lambda I, a, k: I.new(logger))
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        lg.ns[n] = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}[n]
    native_module('sys', {'maxsize': 2 ** 63 - 1, 'version_info': (3, 12, 0, 'final', 0), 'maxunicode': 0x10ffff,
                          'intern': Native('intern', lambda I, a, k: a[0]), 'platform': 'linux'})

    def isnan(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, (int, float)):
            return v != v
        if isinstance(v, Sym):
            t = I.pick_type(v)
            if t in ('int', 'bool'):
                return False
            return I.nonfinite(v) == 'nan'
        raise I.exc('TypeError', 'must be real number')

    def nonfinite(v):
        """'finite' | 'inf' | 'nan' for an unknown float"""
        k = I.memo.get(('NF', v.sid))
        if k is None:
            if v.attr.get('finite'):
                k = 'finite'
            else:
                k = ('finite', 'inf', '-inf', 'nan')[I.choose('class of %s (finite, inf, -inf, nan)' % v.name, 4)]
            I.memo[('NF', v.sid)] = k
        return k
    I.nonfinite = nonfinite

    def isinf(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, (int, float)):
            return hmath.isinf(v)
        if isinstance(v, Sym):
            t = I.pick_type(v)
            return t == 'float' and nonfinite(v) in ('inf', '-inf')
        raise I.exc('TypeError', 'must be real number')

    def isfinite(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, (int, float)):
            return hmath.isfinite(v)
        if isinstance(v, Sym):
            t = I.pick_type(v)
            return t != 'float' or nonfinite(v) == 'finite'
        raise I.exc('TypeError', 'must be real number')

    def mfun(name):
        def f(I, a, k):
            vs = [I.norm(x) for x in a]
            if all(is_const(v) for v in vs):
                try:
                    return getattr(hmath, name)(*vs)
                except Exception as e:
                    raise I.rethrow(e)
            if name in ('floor', 'ceil', 'trunc'):
                return I.call(B['int'], [a[0]]) if I.integral(vs[0]) else I.term(name, vs, ('int',))
            I.unsup('math.%s' % name)
        return Native('math.' + name, f)
    native_module('math', {'isnan': Native('isnan', isnan), 'isinf': Native('isinf', isinf), 'isfinite': Native('isfinite', isfinite),
                           'inf': hmath.inf, 'nan': hmath.nan, 'pi': hmath.pi, 'e': hmath.e,
                           **{n: mfun(n) for n in ('floor', 'ceil', 'trunc', 'fmod', 'gcd', 'sqrt', 'log10', 'isclose', 'remainder', 'modf',
                                                   'pow', 'fabs', 'copysign')}})

    # ---------------------------------------------------------------- copy
    def deepcopy(v, memo):
        v = I.norm(v)
        if isinstance(v, Sym):
            conts = v.types & frozenset(['list', 'dict', 'tuple', 'useq', 'umap', 'other'])
            if not conts:
                return v
            if not I.narrow(v, conts, 'container'):
                return v
            t = I.pick_type(v)
            if t in ('other',):
                I.unsup('deepcopy of opaque object')
            if v.sid in memo:
                return memo[v.sid]
            kids = I.children(v)
            if t in ('list',):
                if 'obj' in v.attr:
                    return deepcopy(v.attr['obj'], memo)
                r = I.list([])
                memo[v.sid] = r
                r.p.extend(deepcopy(x, memo) for x in kids)
                return r
            if t == 'dict':
                if 'obj' in v.attr:
                    return deepcopy(v.attr['obj'], memo)
                r = I.dict()
                memo[v.sid] = r
                for kk, x in kids:
                    I.dput(r, kk, deepcopy(x, memo))
                return r
            if t == 'tuple':
                return tuple(deepcopy(x, memo) for x in kids)
            nv = Sym('copy(%s)' % v.name, [t])
            nv.attr['kids'] = [deepcopy(x, memo) for x in kids] if t == 'useq' else [(kk, deepcopy(x, memo)) for kk, x in kids]
            memo[v.sid] = nv
            return nv
        if type(v) is tuple:
            r = tuple(deepcopy(x, memo) for x in v)
            return v if all(x is y for x, y in zip(r, v)) else r
        if isinstance(v, Obj):
            if v.oid in memo:
                return memo[v.oid]
            m = v.cls.lookup('__deepcopy__')
            if m is not MISSING:
                hk = I.dfind(memo['lang'], I.identity_number(v)) if 'lang' in memo else None
                if hk is not None:
                    return memo['lang'].p.e[hk][1]
                if 'lang' not in memo:
                    memo['lang'] = I.dict()
                    memo['lang'].d['$memo'] = memo
                r = memo[v.oid] = I.norm(I.call_method(v, m, [memo['lang']]))
                return r
            if v.cls.enum_members is not None:
                return v
            if v.cls.native and v.cls.name in ('generator', 'iterator'):
                raise I.exc('TypeError', 'cannot pickle %s object' % v.cls.name)
            if v.cls is B['list'] or v.cls is B['deque']:
                r = I.new(v.cls, [])
                memo[v.oid] = r
                r.p.extend(deepcopy(x, memo) for x in v.p)
                return r
            r = I.new(v.cls, None)
            memo[v.oid] = r
            if isinstance(v.p, _i.DictP):
                r.p = _i.DictP()
                for kk, x in list(v.p.e.values()):
                    I.dput(r, deepcopy(kk, memo), deepcopy(x, memo))
            elif isinstance(v.p, list):
                r.p = [deepcopy(x, memo) for x in v.p]
            else:
                r.p = v.p
            for n, x in v.d.items():
                r.d[n] = deepcopy(x, memo)
            return r
        return v

    def shallow(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, Sym):
            conts = v.types & frozenset(['list', 'dict', 'useq', 'umap', 'other'])
            if not conts or not I.narrow(v, conts, 'container'):
                return v
            t = I.pick_type(v)
            if t == 'list':
                return I.list(I.tolist(v))
            if t == 'dict':
                return I.dict(I.mapping_items(v))
            I.unsup('copy.copy of unknown')
        if isinstance(v, Obj):
            m = v.cls.lookup('__copy__')
            if m is not MISSING:
                return I.call_method(v, m, [])
            if v.cls.enum_members is not None:
                return v
            r = I.new(v.cls, None)
            r.p = v.p.copy() if isinstance(v.p, _i.DictP) else list(v.p) if isinstance(v.p, list) else v.p
            r.d = dict(v.d)
            return r
        return v
    def deepcopy_(I, a, k):
        given = I.norm(a[1] if len(a) > 1 else k.get('memo'))
        if given is None:
            return deepcopy(a[0], {})
        if not isinstance(given, Obj) or not isinstance(given.p, _i.DictP):
            I.unsup('copy.deepcopy with an unknown memo')
        if '$memo' not in given.d:
            given.d['$memo'] = {'lang': given}
        return deepcopy(a[0], given.d['$memo'])
    I.deepcopy = lambda v: deepcopy(v, {})
    native_module('copy', {'deepcopy': Native('deepcopy', deepcopy_), 'copy': Native('copy', shallow)})

    # ------------------------------------------------------------------ re
    pat = Cls('Pattern', [B['object']], {}, None, None, native=True)
    mat = Cls('Match', [B['object']], {}, None, None, native=True)
    reerr = Cls('error', [B['Exception']], {}, None, None, native=True)

    def re_compile(p, flags=0):
        p = I.norm(p)
        if isinstance(p, Obj) and p.cls is pat:
            return p
        o = I.new(pat)
        if isinstance(p, Obj) and isinstance(p.p, str):
            p = p.p
        if isinstance(p, str):
            try:
                o.p = (p, hre.compile(p, flags), flags)
            except hre.error as e:
                raise I.exc(reerr, str(e))
            return o
        if isinstance(p, Sym):
            if not I.narrow(p, _S, 'str'):
                raise I.exc('TypeError', 'first argument must be string or compiled pattern')
            if not I.pred('is a valid regular expression', p):
                raise I.exc(reerr, 'bad pattern')
            o.p = (p, None, flags)
            return o
        if isinstance(p, (bytes,)):
            I.unsup('bytes pattern')
        raise I.exc('TypeError', 'first argument must be string or compiled pattern')

    def re_apply(meth, p, s):
        s = I.norm(s)
        if isinstance(s, Obj) and isinstance(s.p, str):
            s = s.p
        if not isinstance(s, (str, Sym)):
            raise I.exc('TypeError', 'expected string or bytes-like object')
        if isinstance(s, Sym) and not I.narrow(s, _S, 'str'):
            raise I.exc('TypeError', 'expected string or bytes-like object')
        pp, comp, fl = p.p
        if isinstance(s, str) and comp is not None:
            m = getattr(comp, meth)(s)
            if m is None:
                return None
            o = I.new(mat)
            o.p = m
            return o
        lab = 're.%s' % meth
        if fl:
            lab += '/%d' % fl
        # the empty pattern and patterns matched against themselves need no split
        r = None
        if isinstance(pp, str) and isinstance(s, Sym):
            try:
                L = lang.regex(pp, meth, fl)
                r = I.member(s, L, '%s(%r, %s)' % (lab, pp if len(pp) < 40 else pp[:37] + '...', s.name))
            except lang.NoLang:
                r = None
        if r is None:
            r = I.pred(lab, pp, s)
        if r:
            s2 = I.norm(s)
            if isinstance(s2, str) and comp is not None:
                o = I.new(mat)
                o.p = getattr(comp, meth)(s2)
                return o
            o = I.new(mat)
            if fl and isinstance(pp, str):
                inline = ''.join(c for c, f in (('a', hre.A), ('s', hre.S), ('x', hre.X)) if fl & f)
                pp = '(?%s)%s' % (inline, pp) if inline else pp
                if fl & ~(hre.A | hre.S | hre.X | hre.U):
                    pp = None
            o.p = ('sym', pp, s, meth)
            return o
        return None

    for meth in ('match', 'search', 'fullmatch'):
        pat.ns[meth] = Native('Pattern.' + meth, lambda I, a, k, meth=meth: re_apply(meth, a[0], a[1]))
    pat.ns['pattern'] = Prop(Native('Pattern.pattern', lambda I, a, k: a[0].p[0]))
    pat.ns['flags'] = Prop(Native('Pattern.flags', lambda I, a, k: a[0].p[2]))

    def constfun(meth):
        def f(I, a, k):
            p = a[0]
            args = [I.norm(x) for x in a[1:]]
            if p.p[1] is not None and all(is_const(x) for x in args):
                r = getattr(p.p[1], meth)(*args, **{kk: I.norm(v) for kk, v in k.items()})
                if meth == 'finditer':
                    def wrap(m):
                        o = I.new(mat)
                        o.p = m
                        return o
                    return I.mkiter([wrap(m) for m in r])
                return _i.tolang(I, r)
            if meth == 'sub' and len(args) >= 2 and p.p[1] is not None and isinstance(args[1], str) and not isinstance(args[0], (str, Sym)):
                def rep(m):
                    o = I.new(mat)
                    o.p = m
                    return I.norm(I.call(a[1], [o]))
                return p.p[1].sub(rep, *args[1:], **{kk: I.norm(v) for kk, v in k.items()})
            if meth == 'sub' and len(args) == 2 and isinstance(args[1], Sym) and isinstance(p.p[0], str) and not k:
                try:
                    words = lang.words_of(p.p[0], p.p[2])
                except lang.NoLang:
                    words = None
                if words:
                    table = []
                    for w in words:
                        if isinstance(args[0], str):
                            r = p.p[1].fullmatch(w).expand(args[0])
                        else:
                            o = I.new(mat)
                            o.p = ('word', p.p[0], w, 'fullmatch', p.p[1].fullmatch(w))
                            r = I.norm(I.call(a[1], [o]))
                        if not isinstance(r, str):
                            I.unsup('re.sub with an unknown replacement')
                        table.append((w, r))
                    return I.mkchain('re.multi', [args[1], tuple(sorted(table))])
            if meth == 'sub' and len(args) == 2 and not k and isinstance(args[1], Sym) and is_const(args[0]) and isinstance(p.p[0], str):
                return I.term('re.sub', [p.p[0], args[0], args[1]], ('str',))
            I.unsup('re.%s on unknown text' % meth)
        return Native('Pattern.' + meth, f)
    for meth in ('sub', 'split', 'findall', 'finditer', 'subn'):
        pat.ns[meth] = constfun(meth)

    def mgroup(I, a, k):
        m = a[0].p
        gs = [I.norm(x) for x in a[1:]] or [0]
        if type(m) is tuple and m[0] == 'word':
            try:
                return m[4].group(*gs)
            except Exception as e:
                raise I.rethrow(e)
        if type(m) is tuple and m[0] == 'sym':
            out = []
            if m[3] == 'match' and ends_at_end(m):
                m = m[:3] + ('fullmatch',)
            for g in gs:
                if g == 0 and m[3] == 'fullmatch':
                    out.append(m[2])
                else:
                    out.append(match_group(m, g))
            return out[0] if len(out) == 1 else tuple(out)
        try:
            return m.group(*gs)
        except Exception as e:
            raise I.rethrow(e)

    def ends_at_end(m):
        """does re.match on unknown text reach its end?  refines; False also when not decided"""
        if not isinstance(m[1], str):
            return False
        try:
            return I.member(m[2], lang.ends(m[1]), 're.match(%r, %s) ends at the end' % (m[1], getattr(m[2], 'name', m[2])))
        except lang.NoLang:
            return False

    def match_group(m, g):
        """group of a match on unknown text: an unknown string (or no participation)"""
        if isinstance(m[1], str) and m[3] == 'fullmatch' and isinstance(m[2], Sym):
            r = toplevel_group(m, g)
            if r is not None:
                return r
        I.unsup('group of a match on unknown text')

    def toplevel_group(m, g):
        """the pattern is a concatenation of groups and literals: the text is the concatenation of their matches"""
        key = ('GROUPS', m[1], m[2].sid)
        r = I.memo.get(key)
        if r is None:
            r = I.memo[key] = split_groups(m)
        if r is False:
            return None
        comp = hre.compile(m[1])
        n = comp.groupindex.get(g, g) if isinstance(g, str) else g
        return r.get(n)

    def split_groups(m):
        import re._constants as sc
        try:
            p = lang.sp.parse(m[1])
            names, parts = {}, []
            els = []
            for op, av in p:
                if op is sc.LITERAL:
                    els.append((None, lang.word(chr(av)), chr(av)))
                elif op is sc.SUBPATTERN and av[0] is not None and not av[1] and not av[2]:
                    n = lang.Nfa()
                    i, f = n.state(), n.state()
                    lang.build(n, av[3], i, f, p.state.flags)
                    els.append((av[0], n.lang(i, f), None))
                else:
                    return False
            have = I.strparts(m[2])
            have = [x for y in have for x in (y if isinstance(y, str) else [y])]
            sp = lang.align([I.langof(x) for x in have], [e[1] for e in els])
            if sp is None and len(have) > 1:
                return False
            if sp is not None:
                for q in range(1, len(els)):
                    if not lang.unambiguous(lang.concat([e[1] for e in els[:q]]), lang.concat([e[1] for e in els[q:]])):
                        return False
                for e, (x, y) in zip(els, sp):
                    if e[0] is not None:
                        names[e[0]] = I.cat(have[x:y])
                return names
            for g, L, w in els:
                if g is None:
                    parts.append(w)
                    continue
                t = Sym('%s.group%s' % (m[2].name, g), ('str',))
                I.setlang(t, L)
                names[g] = I.norm(t)
                parts.append(I.norm(t))
        except lang.NoLang:
            return False
        c = I.cat(parts)
        cur = I.langof(m[2])
        if not lang.inter(I.langof(c), cur) is I.langof(c) and not lang.subset(I.langof(c), cur):
            return False
        if isinstance(c, str):
            m[2].attr['val'] = c
        elif 'as' not in m[2].attr and m[2].term is None:
            m[2].attr['as'] = c
        return names
    mat.ns['group'] = Native('Match.group', mgroup)
    mat.ns['__getitem__'] = mat.ns['group']
    mat.ns['__bool__'] = Native('Match.__bool__', lambda I, a, k: True)

    def mconst(meth):
        def f(I, a, k):
            m = a[0].p
            if type(m) is tuple and m[0] == 'word':
                if meth in ('groups', 'groupdict', 'expand'):
                    return _i.tolang(I, getattr(m[4], meth)(*[I.norm(x) for x in a[1:]]))
                I.unsup('Match.%s in a replacement' % meth)
            if type(m) is tuple:
                if m[3] == 'match' and meth in ('end', 'span', 'groups', 'groupdict') and ends_at_end(m):
                    m = m[:3] + ('fullmatch',)
                if meth == 'groupdict' and isinstance(m[1], str):
                    names = list(hre.compile(m[1]).groupindex)
                    return I.dict([(n, match_group(m, n)) for n in names])
                if meth == 'groups' and isinstance(m[1], str):
                    return tuple(match_group(m, i + 1) for i in range(hre.compile(m[1]).groups))
                if meth in ('end', 'start', 'span') and len(a) == 1:
                    if m[3] == 'fullmatch':
                        e = I.length(m[2])
                        return {'end': e, 'start': 0, 'span': (0, e)}[meth]
                    if meth == 'start' and m[3] == 'match':
                        return 0
                    if meth == 'end':
                        e = I.term('match_end', [m[1], m[3], m[2]], ('int',))
                        ln = I.length(m[2])
                        if 'init' not in e.attr:
                            e.attr['init'] = 1
                            I.assume_rel(e, 0, EQ | GT)
                            try:
                                lang.ends(m[1])
                                I.assume_rel(e, ln, LT)
                            except (lang.NoLang, TypeError):
                                I.unsup('end of a match on unknown text')
                        return e
                I.unsup('Match.%s on unknown text' % meth)
            return _i.tolang(I, getattr(m, meth)(*[I.norm(x) for x in a[1:]]))
        return Native('Match.' + meth, f)
    for meth in ('groups', 'groupdict', 'start', 'end', 'span', 'expand'):
        mat.ns[meth] = mconst(meth)
    mat.ns['string'] = Prop(Native('Match.string', lambda I, a, k: a[0].p[2] if type(a[0].p) is tuple else a[0].p.string))
    mat.ns['lastindex'] = Prop(Native('Match.lastindex', lambda I, a, k: I.unsup('lastindex') if type(a[0].p) is tuple else a[0].p.lastindex))
    mat.ns['lastgroup'] = Prop(Native('Match.lastgroup', lambda I, a, k: I.unsup('lastgroup') if type(a[0].p) is tuple else a[0].p.lastgroup))

    def flags_of(a, k, n):
        f = k.get('flags', a[n] if len(a) > n else 0)
        f = I.norm(f)
        return int(f) if f is not None else 0

    rens = {'compile': Native('re.compile', lambda I, a, k: re_compile(a[0], flags_of(a, k, 1))), 'error': reerr, 'PatternError': reerr,
            'Pattern': pat, 'Match': mat,
            'escape': Native('re.escape', lambda I, a, k: hre.escape(a[0]) if isinstance(a[0], str) else I.term('re.escape', [a[0]], ('str',)))}
    for meth in ('match', 'search', 'fullmatch'):
        rens[meth] = Native('re.' + meth, lambda I, a, k, meth=meth: re_apply(meth, re_compile(a[0], flags_of(a, k, 2)), a[1]))
    def re_module(meth, npos):
        def f(I, a, k):
            k = dict(k)
            pattern = k.pop('pattern') if 'pattern' in k else a[0]
            rest = list(a[1:])
            flags = flags_of((), {'flags': k.pop('flags', rest.pop() if len(rest) > npos else 0)}, 9)
            return I.call(pat.ns[meth], [re_compile(pattern, flags)] + rest, k)
        return Native('re.' + meth, f)
    for meth, npos in (('sub', 3), ('subn', 3), ('split', 2), ('findall', 1), ('finditer', 1)):
        rens[meth] = re_module(meth, npos)
    for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
        rens[n] = int(getattr(hre, n))
    native_module('re', rens)

    # ---------------------------------------------------------------- json
    jde = Cls('JSONDecodeError', [B['ValueError']], {}, None, None, native=True)

    class NotConst(Exception):
        pass

    def jsondoc(v, allow_nan, default, depth, skipkeys=False):
        """check serialisability and return an independent document"""
        v = I.norm(v)
        if depth > 60:
            I.unsup('deep document')
        if isinstance(v, Obj) and is_const(v.p) and v.p is not None and v.cls.sub(B['str']):
            v = v.p
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if v != v or v in (hmath.inf, -hmath.inf):
                if not allow_nan:
                    raise I.exc('ValueError', 'Out of range float values are not JSON compliant')
                I.events.append(('json-nonfinite', v, I.repo_loc() or I.loc()))
            return v
        if isinstance(v, Sym):
            t = I.pick_type(v)
            if t in ('NoneType', 'bool', 'int', 'str'):
                return v
            if t == 'float':
                if nonfinite(v) != 'finite':
                    if not allow_nan:
                        raise I.exc('ValueError', 'Out of range float values are not JSON compliant')
                    I.events.append(('json-nonfinite', v, I.repo_loc() or I.loc()))
                return v
            if t in ('list', 'tuple'):
                return I.list([jsondoc(x, allow_nan, default, depth + 1) for x in I.children(v)])
            if t == 'dict':
                return I.dict([(jkey(kk), jsondoc(x, allow_nan, default, depth + 1)) for kk, x in I.mapping_items(v)])
        if type(v) is tuple:
            return I.list([jsondoc(x, allow_nan, default, depth + 1) for x in v])
        if isinstance(v, Obj):
            if v.cls.sub(B['list']):
                return I.list([jsondoc(x, allow_nan, default, depth + 1) for x in v.p])
            if v.cls.sub(B['dict']):
                return I.dict([(jkey(kk), jsondoc(x, allow_nan, default, depth + 1)) for kk, x in list(v.p.e.values())])
        if default is not None:
            return jsondoc(I.call(default, [v]), allow_nan, default, depth + 1)
        raise I.exc('TypeError', 'Object of type %s is not JSON serializable' % I.typeof(v).name)

    def jkey(kk):
        kk = I.norm(kk)
        if isinstance(kk, Obj) and isinstance(kk.p, str):
            kk = kk.p
        if isinstance(kk, str):
            return kk
        if isinstance(kk, Sym):
            if I.narrow(kk, _S, 'str'):
                return kk
            I.unsup('non-string key')
        if kk is True or kk is False or kk is None:
            return {True: 'true', False: 'false', None: 'null'}[kk]
        if isinstance(kk, (int, float)):
            return repr(kk)
        raise I.exc('TypeError', 'keys must be str, int, float, bool or None')

    def tohost(v):
        v = I.norm(v)
        if is_const(v):
            return v
        if isinstance(v, Obj) and isinstance(v.p, list):
            return [tohost(x) for x in v.p]
        if isinstance(v, Obj) and isinstance(v.p, _i.DictP):
            return {tohost(kk): tohost(x) for kk, x in v.p.e.values()}
        raise NotConst
    I.tohost = tohost
    I.NotConst = NotConst

    def dumps(I, a, k):
        obj = a[0]
        an = k.get('allow_nan', True)
        an = I.truth(an)
        ea = I.truth(k.get('ensure_ascii', True))
        for u in ('cls', 'separators', 'skipkeys', 'check_circular'):
            if u in k and k[u] is not None and u == 'cls':
                I.unsup('json.dumps(cls=)')
        if I.truth(k.get('skipkeys', False)):
            I.events.append(('json-skipkeys', None, I.repo_loc() or I.loc()))
        default = I.norm(k.get('default'))
        doc = jsondoc(obj, an, default, 0)
        if I.truth(k.get('sort_keys', False)):
            I.events.append(('json-sort-keys', None, I.repo_loc() or I.loc()))
            if isinstance(doc, Obj) and isinstance(doc.p, _i.DictP) and len(doc.p.e) > 1:
                items = [kk for kk, _ in doc.p.e.values()]
                items = I.do_sort(I, items, None, False)
                doc = I.dict([(kk, I.dget(doc, kk)) for kk in items])
        try:
            h = tohost(doc)
            sep = tuple(I.tolist(k['separators'])) if I.norm(k.get('separators')) is not None else None
            return hjson.dumps(h, ensure_ascii=ea, indent=I.norm(k.get('indent')), separators=sep)
        except NotConst:
            pass
        t = I.term('jsontext', [doc, ea], ('str',), 'jsontext(%s)' % I.show(doc))
        return t

    def parse_doc(h, kw):
        pc = I.norm(kw.get('parse_constant'))
        if isinstance(h, _NF):
            if pc is not None:
                return I.call(pc, [h.name])
            return {'NaN': hmath.nan, 'Infinity': hmath.inf, '-Infinity': -hmath.inf}[h.name]
        if isinstance(h, list):
            return I.list([parse_doc(x, kw) for x in h])
        if isinstance(h, dict):
            return hookobj(I.dict([(kk, parse_doc(x, kw)) for kk, x in h.items()]), kw)
        if isinstance(h, float) and I.norm(kw.get('parse_float')) is not None:
            return I.call(kw['parse_float'], [repr(h)])
        if isinstance(h, int) and not isinstance(h, bool) and I.norm(kw.get('parse_int')) is not None:
            return I.call(kw['parse_int'], [repr(h)])
        return h

    def hookobj(d, kw):
        oph = I.norm(kw.get('object_pairs_hook'))
        if oph is not None:
            return I.call(oph, [I.list([(kk, x) for kk, x in d.p.e.values()])])
        oh = I.norm(kw.get('object_hook'))
        if oh is not None:
            return I.call(oh, [d])
        return d

    class _NF:
        def __init__(self, n):
            self.name = n

    def loads(I, a, k):
        s = I.norm(a[0] if a else k.pop('s'))
        strict = I.truth(k.get('strict', True))
        if not strict:
            I.events.append(('json-not-strict', None, I.repo_loc() or I.loc()))
        if isinstance(s, str):
            try:
                h = hjson.loads(s, parse_constant=_NF, strict=strict)
            except ValueError as e:
                raise I.exc(jde, str(e))
            return parse_doc(h, k)
        if isinstance(s, Sym):
            if not I.narrow(s, frozenset(['str', 'bytes']), 'str'):
                raise I.exc('TypeError', 'the JSON object must be str, bytes or bytearray')
            if s.term and s.term[0] == 'jsontext':
                doc = s.term[1][0]
                return reload_doc(doc, k)
            # unknown text: malformed / contains a non-JSON constant / a JSON document
            key = ('JT', s.sid)
            r = I.memo.get(key)
            if r is None:
                r = I.choose('JSON text %s (malformed, NaN, Infinity, -Infinity, document, overflowing literal)' % s.name, 6)
                I.memo[key] = r
            if r == 0:
                raise I.exc(jde, 'Expecting value')
            if r in (1, 2, 3):
                I.events.append(('json-constant', ('NaN', 'Infinity', '-Infinity')[r - 1], I.repo_loc() or I.loc()))
                nested = I.list([parse_doc(_NF(('NaN', 'Infinity', '-Infinity')[r - 1]), k)])
                return nested
            if r == 5:
                # a grammatical number whose value overflows the float range
                return parse_doc(hmath.inf, k)
            d = Sym('doc(%s)' % s.name, ('NoneType', 'bool', 'int', 'str', 'list', 'dict'))
            if 'shape' in s.attr:
                return I.deepcopy(s.attr['shape'])
            d.attr['elem_types'] = ('NoneType', 'int', 'str')
            return d
        raise I.exc('TypeError', 'the JSON object must be str, bytes or bytearray')

    def reload_doc(v, k):
        v = I.norm(v)
        if isinstance(v, float) and (v != v or v in (hmath.inf, -hmath.inf)):
            return parse_doc(_NF('NaN' if v != v else 'Infinity' if v > 0 else '-Infinity'), k)
        if isinstance(v, Obj) and isinstance(v.p, list):
            return I.list([reload_doc(x, k) for x in v.p])
        if isinstance(v, Obj) and isinstance(v.p, _i.DictP):
            return hookobj(I.dict([(kk, reload_doc(x, k)) for kk, x in v.p.e.values()]), k)
        if isinstance(v, Sym) and 'float' in v.types and I.pick_type(v) == 'float':
            c = nonfinite(v)
            if c != 'finite':
                return parse_doc(_NF({'nan': 'NaN', 'inf': 'Infinity', '-inf': '-Infinity'}[c]), k)
        for hook, ty in (('parse_float', 'float'), ('parse_int', 'int')):
            h = I.norm(k.get(hook))
            if h is None or h is B[ty]:
                continue
            if isinstance(v, Sym) and ty in v.types and I.pick_type(v) == ty or type(v).__name__ == ty:
                return I.call(h, [I.term('numbertext', [v], ('str',)) if isinstance(v, Sym) else repr(v)])
        return v

    def dump(I, a, k):
        fp = a[1] if len(a) > 1 else k.pop('fp')
        text = dumps(I, [a[0]], k)
        I.call(I.getattr(fp, 'write'), [text])

    def load(I, a, k):
        fp = a[0] if a else k.pop('fp')
        text = I.call(I.getattr(fp, 'read'), [])
        return loads(I, [text], k)
    native_module('json', {'dumps': Native('json.dumps', dumps), 'loads': Native('json.loads', loads), 'dump': Native('json.dump', dump),
                           'load': Native('json.load', load), 'JSONDecodeError': jde,
                           'JSONEncoder': Opaque('JSONEncoder'), 'JSONDecoder': Opaque('JSONDecoder')})
    I.json_loads = loads

    # --------------------------------------------------------------- files
    fcls = Cls('TextIOWrapper', [B['object']], {}, None, None, native=True)

    def fskey(p):
        p = I.norm(p)
        if isinstance(p, Obj) and p.cls.name in ('Path', 'PurePath'):
            p = I.norm(p.p)
        elif isinstance(p, Obj):
            m = p.cls.lookup('__fspath__')
            if m is not MISSING:
                p = I.norm(I.call_method(p, m, []))
        return p
    I.fskey = fskey

    def fs_exists(p):
        key = I.tkey(p)
        fs = I.memo.setdefault('FS', {})
        if key not in fs:
            known = I.memo.setdefault('FSEXISTS', {})
            if key not in known:
                h = I.memo.get('FSHOOK')
                content = I.call(h, [p]) if h is not None else None
                known[key] = content is not None if h is not None else I.choose('file %s: absent, present' % I.show(p), 2) == 1
                if known[key]:
                    fs[key] = (content if content is not None else Sym('old(%s)' % I.show(p), ['str']), 'utf-8')
            return known[key] or key in fs
        return True
    I.fs_exists = fs_exists

    def model_open(a, k):
        p = fskey(a[0] if a else k['file'])
        mode = I.norm(a[1] if len(a) > 1 else k.get('mode', 'r'))
        encoding = I.norm(k.get('encoding', a[3] if len(a) > 3 else None))
        if not isinstance(p, (str, Sym)):
            raise I.exc('TypeError', 'expected str, bytes or os.PathLike object')
        if isinstance(encoding, str):
            encoding = encoding.lower().replace('_', '-')
            encoding = {'utf8': 'utf-8', 'u8': 'utf-8'}.get(encoding, encoding)
        I.events.append(('open', (p, mode, encoding), I.repo_loc() or I.loc()))
        lenient = I.norm(k.get('errors', a[4] if len(a) > 4 else None))
        if lenient is not None and lenient != 'strict':
            I.events.append(('lenient', (p, lenient), I.repo_loc() or I.loc()))
        o = I.new(fcls)
        o.p = {'path': p, 'mode': mode, 'enc': encoding, 'open': True, 'buf': [], 'key': I.tkey(p)}
        key = o.p['key']
        if not isinstance(mode, str):
            I.unsup('open mode')
        if 'r' in mode and '+' not in mode:
            if key not in I.memo.get('FS', {}):
                h = I.memo.get('FSHOOK')
                content = I.call(h, [p]) if h is not None else None
                if content is None:
                    e = I.exc('FileNotFoundError', 2, 'No such file or directory')
                    e.obj.d.update(errno=2, strerror='No such file or directory', filename=p)
                    raise e
                I.memo.setdefault('FS', {})[key] = (content, 'utf-8')
        elif 'w' in mode or 'x' in mode:
            if 'x' in mode and fs_exists(p):
                raise I.exc('FileExistsError', 17, 'File exists')
            I.memo.setdefault('FS', {})[key] = ('', encoding)
        elif 'a' in mode or '+' in mode:
            # whatever an existing file holds stays, before or after what is written
            if fs_exists(p):
                if I.memo.setdefault('FS', {})[key][0] != '':
                    I.events.append(('kept-content', (p, mode), I.repo_loc() or I.loc()))
            elif 'r' in mode:
                raise I.exc('FileNotFoundError', 2, 'No such file or directory')
            else:
                I.memo.setdefault('FS', {})[key] = ('', encoding)
        return o
    I.model_open = model_open

    def f_write(I, a, k):
        f = a[0].p
        if not f['open']:
            raise I.exc('ValueError', 'I/O operation on closed file.')
        old, enc = I.memo.setdefault('FS', {}).get(f['key'], ('', f['enc']))
        new = I.cat([old, a[1]])
        if 'b' not in f['mode'] and f['enc'] != 'utf-8':
            I.events.append(('write-locale', (f['path'], f['enc']), I.repo_loc() or I.loc()))
        f['written'] = True
        I.memo['FS'][f['key']] = (new, f['enc'])
        return I.length(a[1]) if isinstance(I.norm(a[1]), (str, bytes)) else I.term('written', [a[1]], ('int',))

    def f_read(I, a, k):
        f = a[0].p
        if not f['open']:
            raise I.exc('ValueError', 'I/O operation on closed file.')
        text, enc = I.memo['FS'][f['key']]
        if 'b' not in f['mode'] and f['enc'] not in ('utf-8', 'utf-8-sig'):
            I.events.append(('read-locale', (f['path'], f['enc']), I.repo_loc() or I.loc()))
        return text

    def f_close(I, a, k):
        a[0].p['open'] = False
        I.events.append(('close', a[0].p['path'], I.repo_loc() or I.loc()))

    def f_exit(I, a, k):
        f_close(I, a, k)
        return False
    def f_truncate(I, a, k):
        f = a[0].p
        I.events[:] = [e for e in I.events if not (e[0] == 'kept-content' and I.tkey(e[1][0]) == f['key'])]
        if not f.get('written'):
            I.memo['FS'][f['key']] = ('', f['enc'])

    def f_move(I, a, k):
        src, dst = fskey(a[0]), fskey(a[1])
        fs = I.memo.setdefault('FS', {})
        if not fs_exists(src):
            raise I.exc('FileNotFoundError', 2, 'No such file or directory')
        fs[I.tkey(dst)] = fs.pop(I.tkey(src))
        I.memo.setdefault('FSEXISTS', {})[I.tkey(src)] = False
        return a[1]

    def f_remove(I, a, k):
        p = fskey(a[0])
        if not fs_exists(p):
            if I.norm(k.get('missing_ok', False)) is True:
                return None
            raise I.exc('FileNotFoundError', 2, 'No such file or directory')
        I.memo['FS'].pop(I.tkey(p))
        I.memo.setdefault('FSEXISTS', {})[I.tkey(p)] = False
    I.fs_ops = f_move, f_remove
    for n, f in (('truncate', f_truncate), ('seek', lambda I, a, k: 0), ('write', f_write), ('read', f_read), ('close', f_close), ('__exit__', f_exit), ('flush', lambda I, a, k: None)):
        fcls.ns[n] = Native('file.' + n, f)
    fcls.ns['__enter__'] = Native('file.__enter__', lambda I, a, k: a[0])
    native_module('io', {'open': Native('open', lambda I, a, k: model_open(a, k)), 'StringIO': Opaque('StringIO'),
                         'TextIOWrapper': fcls})
    native_module('codecs', {'open': Native('codecs.open', lambda I, a, k: model_open([a[0], a[1] if len(a) > 1 else 'r'],
                                                                                      {'encoding': a[2] if len(a) > 2 else k.get('encoding')}))})

    # ------------------------------------------------------------- pathlib
    pcls = Cls('Path', [B['object']], {}, None, None, native=True)

    def mkpath(s):
        o = I.new(pcls)
        o.p = s
        return o

    def pjoin(x, y):
        x, y = fskey(x), fskey(y)
        if not isinstance(y, (str, Sym)) or not isinstance(x, (str, Sym)):
            raise I.exc('TypeError', 'expected str or os.PathLike object')
        if isinstance(y, Sym) and not I.narrow(y, _S, 'str'):
            raise I.exc('TypeError', 'expected str or os.PathLike object')
        if isinstance(x, str) and isinstance(y, str):
            return str(hpath.PurePosixPath(x) / y)
        if isinstance(y, str) and y.startswith('/'):
            return str(hpath.PurePosixPath(y))
        if isinstance(y, Sym):
            if not I.norm_is_cat_const_head(y) and y.attr.get('maybe_abs', False) and I.pred('is an absolute path', y):
                return y
            if isinstance(y.term[1][0] if y.term and y.term[0] == 'cat' else None, str) and y.term[1][0].startswith('/'):
                return y
        sep = '' if isinstance(x, str) and x.endswith('/') else '/'
        return I.cat([x, sep, y])
    I.norm_is_cat_const_head = lambda y: bool(y.term and y.term[0] == 'cat' and isinstance(y.term[1][0], str))

    def pnew(I, a, k):
        if len(a) == 1:
            return mkpath('.')
        p = fskey(a[1])
        if isinstance(p, str):
            p = str(hpath.PurePosixPath(p))
        elif not isinstance(p, Sym):
            raise I.exc('TypeError', 'expected str, bytes or os.PathLike object')
        for x in a[2:]:
            p = pjoin(p, x)
        return mkpath(p)
    pcls.ns['__new__'] = SM(Native('Path.__new__', pnew))
    pcls.ns['__truediv__'] = Native('Path.__truediv__', lambda I, a, k: mkpath(pjoin(a[0].p, a[1])))
    pcls.ns['__rtruediv__'] = Native('Path.__rtruediv__', lambda I, a, k: mkpath(pjoin(a[1], a[0].p)))

    def joinpath(I, a, k):
        p = a[0].p
        for x in a[1:]:
            p = pjoin(p, x)
        return mkpath(p)
    pcls.ns['joinpath'] = Native('Path.joinpath', joinpath)
    pcls.ns['__str__'] = Native('Path.__str__', lambda I, a, k: a[0].p)
    pcls.ns['__fspath__'] = pcls.ns['__str__']
    pcls.ns['as_posix'] = pcls.ns['__str__']
    pcls.ns['__hash__'] = Native('Path.__hash__', lambda I, a, k: I.hash_value(a[0].p))
    pcls.ns['__eq__'] = Native('Path.__eq__', lambda I, a, k: I.eq(a[0].p, a[1].p) if isinstance(a[1], Obj) and a[1].cls is pcls else NotImplemented)

    def pc(name):
        def f(I, a, k):
            p = I.norm(a[0].p)
            if not isinstance(p, str):
                I.unsup('Path.%s on unknown path' % name)
            h = hpath.PurePosixPath(p)
            r = getattr(h, name)
            if callable(r):
                try:
                    r = r(*[fskey(x) for x in a[1:]])
                except Exception as e:
                    raise I.rethrow(e)
            if isinstance(r, hpath.PurePath):
                return mkpath(str(r))
            if isinstance(r, (str, bool)) or r is None:
                return r
            if isinstance(r, tuple):
                return r
            return tuple(mkpath(str(x)) for x in r)
        return f
    for n in ('parent', 'name', 'suffix', 'stem', 'parts', 'parents'):
        pcls.ns[n] = Prop(Native('Path.' + n, pc(n)))
    for n in ('with_suffix', 'with_name', 'is_absolute', 'relative_to', 'is_relative_to'):
        pcls.ns[n] = Native('Path.' + n, pc(n))
    exists = lambda I, a, k: fs_exists(fskey(a[0]))
    for n in ('exists', 'is_file'):
        pcls.ns[n] = Native('Path.' + n, exists)
    for n in ('replace', 'rename'):
        pcls.ns[n] = Native('Path.' + n, I.fs_ops[0])
    pcls.ns['unlink'] = Native('Path.unlink', I.fs_ops[1])
    pcls.ns['resolve'] = Native('Path.resolve', lambda I, a, k: mkpath(os.path.normpath(a[0].p)) if isinstance(I.norm(a[0].p), str) else mkpath(I.term('resolve', [a[0].p], ('str',))))
    pcls.ns['absolute'] = pcls.ns['resolve']
    pcls.ns['open'] = Native('Path.open', lambda I, a, k: model_open([a[0]] + list(a[1:]), k))

    def p_read_text(I, a, k):
        f = model_open([a[0], 'r'], {'encoding': k.get('encoding', a[1] if len(a) > 1 else None), 'errors': k.get('errors', a[2] if len(a) > 2 else None)})
        r = f_read(I, [f], {})
        f_close(I, [f], {})
        return r

    def p_read_bytes(I, a, k):
        f = model_open([a[0], 'rb'], {})
        r = f_read(I, [f], {})
        f_close(I, [f], {})
        return r

    def p_write_text(I, a, k):
        f = model_open([a[0], 'w'], {'encoding': k.get('encoding', a[2] if len(a) > 2 else None), 'errors': k.get('errors', a[3] if len(a) > 3 else None)})
        r = f_write(I, [f, a[1]], {})
        f_close(I, [f], {})
        return r
    pcls.ns['read_text'] = Native('Path.read_text', p_read_text)
    pcls.ns['read_bytes'] = Native('Path.read_bytes', p_read_bytes)
    pcls.ns['write_text'] = Native('Path.write_text', p_write_text)
    native_module('pathlib', {'Path': pcls, 'PurePath': pcls, 'PurePosixPath': pcls, 'PosixPath': pcls})
    osm = native_module('os', {'PathLike': st['PathLike'], 'sep': '/', 'linesep': '\n', 'name': 'posix',
                               'fspath': Native('fspath', lambda I, a, k: fskey(a[0])), 'environ': I.dict(),
                               'replace': Native('os.replace', I.fs_ops[0]), 'rename': Native('os.rename', I.fs_ops[0]),
                               'remove': Native('os.remove', I.fs_ops[1]), 'unlink': Native('os.unlink', I.fs_ops[1]),
                               'getcwd': Native('getcwd', lambda I, a, k: '/cwd')})

    def opjoin(I, a, k):
        p = a[0]
        for x in a[1:]:
            p = pjoin(p, x)
        return p

    def opconst(name):
        def f(I, a, k):
            vs = [fskey(x) for x in a]
            if all(isinstance(v, str) for v in vs):
                return _i.tolang(I, getattr(os.path, name)(*vs))
            I.unsup('os.path.%s' % name)
        return Native('os.path.' + name, f)
    osm.ns['path'] = native_module('os.path', {'join': Native('os.path.join', opjoin), 'sep': '/',
                                               'exists': Native('os.path.exists', exists), 'isfile': Native('os.path.isfile', exists),
                                               **{n: opconst(n) for n in ('dirname', 'basename', 'normpath', 'isabs', 'splitext', 'split')},
                                               'abspath': opconst('normpath'), 'realpath': opconst('normpath')})

    # ----------------------------------------------------------- urllib etc
    def quote(I, a, k):
        s = I.norm(a[0])
        safe = I.norm(k.get('safe', a[1] if len(a) > 1 else '/'))
        if isinstance(s, str):
            try:
                return hurl.quote(s, safe=safe)
            except Exception as e:
                raise I.rethrow(e)
        if isinstance(s, Sym):
            parts = s.term[1] if s.term and s.term[0] == 'cat' else (s,)
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(hurl.quote(p, safe=safe))
                elif p.attr.get('plain'):
                    out.append(p)
                elif p.term and p.term[0] == 'str' or p.types == frozenset(['int']):
                    out.append(p)
                else:
                    out.append(I.term('quote', [p, ''.join(sorted(set(safe)))], ('str',)))
            return I.cat(out)
        raise I.exc('TypeError', 'quote_from_bytes() expected bytes')

    def unquote(I, a, k):
        s = I.norm(a[0])
        if isinstance(s, str):
            return hurl.unquote(s)
        if isinstance(s, Sym):
            parts = s.term[1] if s.term and s.term[0] == 'cat' else (s,)
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(hurl.unquote(p))
                elif p.term and p.term[0] == 'quote':
                    if '%' in p.term[1][1]:
                        out.append(I.term('unquote', [p], ('str',)))
                    else:
                        out.append(p.term[1][0])
                elif p.attr.get('plain') or lang.inter(I.langof(p), lang.containing('%')).empty():
                    out.append(p)
                else:
                    out.append(I.term('unquote', [p], ('str',)))
            return I.cat(out)
        raise I.exc('TypeError', 'argument of type %s is not iterable' % I.show(s))
    up = native_module('urllib', {})

    def hfold(name):
        def f(I, a, k):
            vs = [I.norm(x) for x in a]
            if all(is_const(v) for v in vs):
                r = getattr(hurl, name)(*vs)
                if isinstance(r, str):
                    return r
            I.unsup('urllib.parse.%s' % name)
        return Native('urllib.parse.' + name, f)
    up.ns['parse'] = native_module('urllib.parse', {'quote': Native('quote', quote), 'unquote': Native('unquote', unquote),
                                                    **{n: hfold(n) for n in ('quote_plus', 'unquote_plus', 'urljoin', 'urldefrag')}})

    ucls = Cls('UUID', [B['object']], {}, None, None, native=True)

    def uuid4(I, a, k):
        I.uniq += 1
        o = I.new(ucls)
        o.p = '%08x-0000-4000-8000-%012x' % (I.uniq, I.uniq)
        return o
    ucls.ns['__str__'] = Native('UUID.__str__', lambda I, a, k: a[0].p)
    ucls.ns['hex'] = Prop(Native('UUID.hex', lambda I, a, k: a[0].p.replace('-', '')))
    ucls.ns['urn'] = Prop(Native('UUID.urn', lambda I, a, k: 'urn:uuid:' + a[0].p))
    native_module('uuid', {'uuid4': Native('uuid4', uuid4), 'uuid1': Native('uuid1', uuid4), 'UUID': ucls})

    # ------------------------------------------------------------- decimal
    dc = Cls('Decimal', [B['object']], {}, None, None, native=True)
    B['Decimal'] = dc
    derr = Cls('DecimalException', [B['ArithmeticError']], {}, None, None, native=True)
    inv = Cls('InvalidOperation', [derr], {}, None, None, native=True)
    dzero = Cls('DivisionByZero', [derr, B['ZeroDivisionError']], {}, None, None, native=True)

    def exactkey(v):
        if isinstance(v, decimal.Decimal):
            v = fractions.Fraction(v) if v.is_finite() else v
        return str(v) if not isinstance(v, Sym) else v

    def mkdec(p):
        o = I.new(dc)
        o.p = p
        return o

    def dnew(I, a, k):
        v = I.norm(a[1]) if len(a) > 1 else 0
        if isinstance(v, Obj) and v.cls is dc:
            return v
        if isinstance(v, (str, int, float)):
            try:
                return mkdec(decimal.Decimal(v))
            except decimal.InvalidOperation:
                raise I.exc(inv, 'ConversionSyntax')
        if isinstance(v, Sym):
            t = I.pick_type(v)
            if t == 'str':
                if v.term and v.term[0] in ('str', 'repr') and isinstance(v.term[1][0], Sym):
                    return mkdec(v.term[1][0])
                if v.term and v.term[0] == 'cat' and len(v.term[1]) == 1:
                    return mkdec(v.term[1][0])
                if I.pred('is a decimal literal', v):
                    return mkdec(v)
                raise I.exc(inv, 'ConversionSyntax')
            if t in ('int', 'bool'):
                return mkdec(v)
            if t == 'float':
                # the binary value, not the decimal text
                return mkdec(I.term('binary-exact', [v], ('float',)))
        raise I.exc('TypeError', 'conversion to Decimal is not supported')
    dc.ns['__new__'] = SM(Native('Decimal.__new__', dnew))

    def dval(x):
        x = I.norm(x)
        if isinstance(x, Obj) and x.cls is dc:
            return x.p
        if isinstance(x, int):
            return decimal.Decimal(x)
        if isinstance(x, Sym) and x.types <= frozenset(['int', 'bool']):
            return x
        return MISSING

    def dop(name, f):
        def g(I, a, k, rev=False):
            x, y = dval(a[0]), dval(a[1])
            if y is MISSING:
                return NotImplemented
            if rev:
                x, y = y, x
            if isinstance(x, decimal.Decimal) and isinstance(y, decimal.Decimal):
                try:
                    return mkdec(f(x, y))
                except decimal.InvalidOperation:
                    raise I.exc(inv, 'InvalidOperation')
                except decimal.DivisionByZero:
                    raise I.exc(dzero, 'DivisionByZero')
            if name in ('mod', 'floordiv', 'truediv'):
                ys = I.rel(y, 0, EQ, 'zero divisor') if not isinstance(y, decimal.Decimal) else y == 0
                if ys:
                    raise I.exc(inv, 'InvalidOperation')
                if name == 'mod' and I.pred('decimal quotient exceeds the context precision', x, y):
                    raise I.exc(inv, 'DivisionImpossible')
            return mkdec(I.exactmod(exactkey(x), exactkey(y)) if name == 'mod' else I.term('dec' + name, [exactkey(v) for v in (x, y)], ('float',)))
        return g
    for n, f in (('mod', lambda x, y: x % y), ('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y),
                 ('truediv', lambda x, y: x / y), ('floordiv', lambda x, y: x // y)):
        dc.ns['__%s__' % n] = Native('Decimal.__%s__' % n, dop(n, f))
        dc.ns['__r%s__' % n] = Native('Decimal.__r%s__' % n, lambda I, a, k, h=dop(n, f): h(I, a, k, True))

    def dcmp(op):
        def g(I, a, k):
            x, y = dval(a[0]), dval(a[1])
            if y is MISSING:
                return NotImplemented
            if isinstance(x, decimal.Decimal) and isinstance(y, decimal.Decimal):
                return _i.HOSTCMP[op](x, y)
            xs, ys = [float(v) if isinstance(v, decimal.Decimal) else v for v in (x, y)]
            return I.compare(op, xs, ys)
        return g
    for op, n in (('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'), ('>=', '__ge__'), ('==', '__eq__')):
        dc.ns[n] = Native('Decimal.' + n, dcmp(op))
    dc.ns['__bool__'] = Native('Decimal.__bool__', lambda I, a, k: bool(a[0].p) if isinstance(a[0].p, decimal.Decimal) else I.truth(I.compare('!=', a[0].p, 0)))
    dc.ns['__hash__'] = Native('Decimal.__hash__', lambda I, a, k: hash(a[0].p) if isinstance(a[0].p, decimal.Decimal) else I.unsup('hash of Decimal'))
    dc.ns['__str__'] = Native('Decimal.__str__', lambda I, a, k: str(a[0].p) if isinstance(a[0].p, decimal.Decimal) else I.str(a[0].p))
    dc.ns['is_nan'] = Native('Decimal.is_nan', lambda I, a, k: a[0].p.is_nan() if isinstance(a[0].p, decimal.Decimal) else False)
    native_module('decimal', {'Decimal': dc, 'InvalidOperation': inv, 'DivisionByZero': dzero, 'DecimalException': derr,
                              'localcontext': st['nullcontext']})

    # ------------------------------------------------------------- fractions
    fc = Cls('Fraction', [B['object']], {}, None, None, native=True)
    B['Fraction'] = fc

    def mkfrac(p):
        o = I.new(fc)
        o.p = p
        return o

    def fnew(I, a, k):
        v = I.norm(a[1]) if len(a) > 1 else 0
        if len(a) > 2:
            w = I.norm(a[2])
            if isinstance(v, int) and isinstance(w, int):
                try:
                    return mkfrac(fractions.Fraction(v, w))
                except ZeroDivisionError as e:
                    raise I.exc('ZeroDivisionError', str(e))
            I.unsup('Fraction of two unknowns')
        if isinstance(v, Obj) and v.cls is fc:
            return v
        if isinstance(v, Obj) and v.cls is dc:
            if isinstance(v.p, decimal.Decimal):
                v = v.p
            else:
                return mkfrac(v.p)
        if isinstance(v, (str, int, float, decimal.Decimal)):
            try:
                return mkfrac(fractions.Fraction(v))
            except ValueError as e:
                raise I.exc('ValueError', str(e))
            except OverflowError as e:
                raise I.exc('OverflowError', str(e))
            except ZeroDivisionError as e:
                raise I.exc('ZeroDivisionError', str(e))
        if isinstance(v, Sym):
            t = I.pick_type(v)
            if t == 'str':
                n = None
                if v.term and v.term[0] in ('str', 'repr') and isinstance(v.term[1][0], Sym):
                    n = v.term[1][0]
                elif v.term and v.term[0] == 'cat' and len(v.term[1]) == 1:
                    n = v.term[1][0]
                if isinstance(n, Sym):
                    if 'float' in n.types and not n.attr.get('finite') and I.pred('is infinite', n):
                        raise I.exc('ValueError', 'Invalid literal for Fraction')
                    return mkfrac(n)
                if I.pred('is a fraction literal', v):
                    return mkfrac(v)
                raise I.exc('ValueError', 'Invalid literal for Fraction')
            if t in ('int', 'bool'):
                return mkfrac(v)
            if t == 'float':
                return mkfrac(I.term('binary-exact', [v], ('float',)))
        raise I.exc('TypeError', 'argument should be a string or a number')
    fc.ns['__new__'] = SM(Native('Fraction.__new__', fnew))

    def fval(x):
        x = I.norm(x)
        if isinstance(x, Obj) and x.cls is fc:
            return x.p
        if isinstance(x, int):
            return fractions.Fraction(x)
        if isinstance(x, Sym) and x.types <= frozenset(['int', 'bool']):
            return x
        return MISSING

    def fop(name, f):
        def g(I, a, k, rev=False):
            x, y = fval(a[0]), fval(a[1])
            if y is MISSING:
                return NotImplemented
            if rev:
                x, y = y, x
            if isinstance(x, fractions.Fraction) and isinstance(y, fractions.Fraction):
                try:
                    r = f(x, y)
                    return mkfrac(r) if isinstance(r, fractions.Fraction) else r
                except ZeroDivisionError as e:
                    raise I.exc('ZeroDivisionError', str(e))
            if name in ('mod', 'floordiv', 'truediv'):
                if I.rel(y, 0, EQ, 'zero divisor') if not isinstance(y, fractions.Fraction) else y == 0:
                    raise I.exc('ZeroDivisionError', 'Fraction division by zero')
            return mkfrac(I.exactmod(exactkey(x), exactkey(y)) if name == 'mod' else I.term('frac' + name, [exactkey(v) for v in (x, y)], ('float',)))
        return g
    for n, f in (('mod', lambda x, y: x % y), ('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y),
                 ('truediv', lambda x, y: x / y), ('floordiv', lambda x, y: x // y)):
        fc.ns['__%s__' % n] = Native('Fraction.__%s__' % n, fop(n, f))
        fc.ns['__r%s__' % n] = Native('Fraction.__r%s__' % n, lambda I, a, k, h=fop(n, f): h(I, a, k, True))

    def fcmp(op):
        def g(I, a, k):
            x, y = fval(a[0]), fval(a[1])
            if y is MISSING:
                return NotImplemented
            if isinstance(x, fractions.Fraction) and isinstance(y, fractions.Fraction):
                return _i.HOSTCMP[op](x, y)
            xs, ys = [(int(v) if v.denominator == 1 else float(v)) if isinstance(v, fractions.Fraction) else v for v in (x, y)]
            return I.compare(op, xs, ys)
        return g
    for op, n in (('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'), ('>=', '__ge__'), ('==', '__eq__')):
        fc.ns[n] = Native('Fraction.' + n, fcmp(op))

    def fdenominator(I, a, k):
        if isinstance(a[0].p, fractions.Fraction):
            return a[0].p.denominator
        # the quotient is whole exactly if it is a multiple
        t = a[0].p
        if t.term and t.term[0] == 'fractruediv':
            if I.truth(I.compare('==', I.exactmod(*t.term[1]), 0)):
                return 1
            d = I.term('denominator', [t], ('int',))
            I.assume_rel(d, 1, GT)
            return d
        I.unsup('denominator')
    fc.ns['denominator'] = Prop(Native('Fraction.denominator', fdenominator))
    fc.ns['__bool__'] = Native('Fraction.__bool__', lambda I, a, k: bool(a[0].p) if isinstance(a[0].p, fractions.Fraction) else I.truth(I.compare('!=', a[0].p, 0)))
    fc.ns['__hash__'] = Native('Fraction.__hash__', lambda I, a, k: hash(a[0].p) if isinstance(a[0].p, fractions.Fraction) else I.unsup('hash of Fraction'))
    fc.ns['__str__'] = Native('Fraction.__str__', lambda I, a, k: str(a[0].p) if isinstance(a[0].p, fractions.Fraction) else I.str(a[0].p))
    native_module('fractions', {'Fraction': fc})

    # ------------------------------------------------------------- others
    native_module('inspect', {'getmro': Native('getmro', lambda I, a, k: tuple(a[0].mro)),
                              'isclass': Native('isclass', lambda I, a, k: isinstance(I.norm(a[0]), Cls)),
                              'isfunction': Native('isfunction', lambda I, a, k: isinstance(I.norm(a[0]), Fn)),
                              'ismethod': Native('ismethod', lambda I, a, k: isinstance(I.norm(a[0]), Bound))})
    native_module('importlib', {'import_module': Native('import_module', lambda I, a, k: I.import_module(I.norm(a[0])))})

    class _Imp:
        pass
    native_module('threading', {'Lock': Native('Lock', lambda I, a, k: I.call(st['nullcontext'], [])),
                                'RLock': Native('RLock', lambda I, a, k: I.call(st['nullcontext'], []))})
    native_module('time', {n: Native(n, lambda I, a, k: I.term('time', [], ('float',))) for n in ('time', 'monotonic', 'perf_counter')})
    native_module('string', {'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', 'digits': '0123456789',
                             'hexdigits': '0123456789abcdefABCDEF'})
    wk = {}
    for n in ('WeakValueDictionary', 'WeakKeyDictionary'):
        wk[n] = B['dict']
    wk['ref'] = Native('ref', lambda I, a, k: Native('weakref', lambda I, b, k2, o=a[0]: o))
    native_module('weakref', wk)

    # ------------------------------------------------------------ requests
    rexc = Cls('RequestException', [B['OSError']], {}, None, None, native=True)
    herr = Cls('HTTPError', [rexc], {}, None, None, native=True)
    cerr = Cls('ConnectionError', [rexc], {}, None, None, native=True)
    rjde = Cls('JSONDecodeError', [rexc, jde], {}, None, None, native=True)
    resp = Cls('Response', [B['object']], {}, None, None, native=True)

    def rget(I, a, k):
        url = I.norm(a[0] if a else k['url'])
        I.events.append(('http-get', url, I.repo_loc() or I.loc()))
        if I.choose('network(%s): reachable, unreachable' % I.show(url), 2) == 1:
            raise I.exc(cerr, 'connection failed')
        o = I.new(resp)
        o.p = {'url': url, 'ok': I.choose('http status of %s: success, error' % I.show(url), 2) == 0}
        h = I.memo.get('HTTPHOOK')
        body = I.call(h, [url]) if h is not None else None
        o.p['text'] = body if body is not None else Sym('body(%s)' % I.show(url), ['str'])
        return o

    def rstatus(I, a, k):
        if not a[0].p['ok']:
            raise I.exc(herr, 'http error')
        a[0].p['checked'] = True
        return None

    def rjson(I, a, k):
        if not a[0].p['ok']:
            I.events.append(('http-error-body-used', a[0].p['url'], I.repo_loc() or I.loc()))
        return loads(I, [a[0].p['text']], k)
    resp.ns['raise_for_status'] = Native('Response.raise_for_status', rstatus)
    resp.ns['json'] = Native('Response.json', rjson)
    resp.ns['ok'] = Prop(Native('Response.ok', lambda I, a, k: a[0].p['ok']))
    resp.ns['status_code'] = Prop(Native('Response.status_code', lambda I, a, k: 200 if a[0].p['ok'] else 404))
    resp.ns['encoding'] = None

    def rtext(I, a, k):
        if not a[0].p['ok']:
            I.events.append(('http-error-body-used', a[0].p['url'], I.repo_loc() or I.loc()))
        return a[0].p['text']

    def rtext_guess(I, a, k):
        # without a charset in the headers the text is decoded by guesswork
        e = I.norm(a[0].d.get('encoding'))
        if not isinstance(e, str) or e.lower() not in ('utf-8', 'utf8', 'utf-8-sig'):
            I.events.append(('read-guess', a[0].p['url'], I.repo_loc() or I.loc()))
        return rtext(I, a, k)
    resp.ns['text'] = Prop(Native('Response.text', rtext_guess))
    resp.ns['content'] = Prop(Native('Response.content', rtext))
    resp.ns['__enter__'] = Native('Response.__enter__', lambda I, a, k: a[0])
    resp.ns['__exit__'] = Native('Response.__exit__', lambda I, a, k: False)
    rq = native_module('requests', {'get': Native('requests.get', rget), 'RequestException': rexc, 'HTTPError': herr, 'ConnectionError': cerr,
                                    'Response': resp, 'JSONDecodeError': rjde})
    rq.ns['exceptions'] = native_module('requests.exceptions', {'RequestException': rexc, 'HTTPError': herr, 'ConnectionError': cerr,
                                                                'JSONDecodeError': rjde})

    # ---------------------------------------------------------- dataclasses
    native_module('dataclasses', {'dataclass': st['dataclass'], 'field': st['field'], 'fields': st['dataclass_fields'], 'replace': st['dataclass_replace'],
                                  'asdict': st['dataclass_asdict'], 'astuple': st['dataclass_astuple'],
                                  'is_dataclass': st['is_dataclass'], 'FrozenInstanceError': st['FrozenInstanceError'], 'MISSING': st['_MISSING'],
                                  'Field': st['Field'], 'KW_ONLY': Opaque('KW_ONLY')})

    uri_model.install(I)
    from . import driver_api
    driver_api.install(I)
