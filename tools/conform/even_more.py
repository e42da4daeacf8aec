import collections
import contextlib
import copy
import enum
import functools
import itertools
import operator
import re
import string
import textwrap
import types
from abc import ABC, abstractmethod
from collections import ChainMap, OrderedDict, defaultdict, deque, namedtuple
from collections.abc import Mapping, MutableMapping, Sequence, Set
from dataclasses import dataclass, field, replace, asdict, astuple
from functools import cached_property, partial, partialmethod, reduce, singledispatch, singledispatchmethod, total_ordering, wraps
from typing import NamedTuple, Optional, Union, Generic, TypeVar, Protocol, ClassVar, Final, cast


def p_itertools():
    return [list(itertools.chain([1], (2,), 'ab')), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.islice(range(10), 2, 8, 3)),
            list(itertools.takewhile(lambda x: x < 3, [1, 2, 5, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 5, 1])), list(itertools.zip_longest([1, 2], 'a', fillvalue=0)),
            [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 1])], list(itertools.accumulate([1, 2, 3])), list(itertools.product('ab', [1, 2])), list(itertools.starmap(pow, [(2, 3), (3, 2)])),
            list(itertools.filterfalse(None, [0, 1, 2])), list(itertools.pairwise([1, 2, 3])), list(itertools.compress('abc', [1, 0, 1])), list(itertools.repeat(1, 2)), list(itertools.permutations([1, 2, 3], 2)), list(itertools.combinations([1, 2, 3], 2)),
            [list(x) for x in itertools.tee([1, 2])], list(zip(itertools.count(3), 'ab'))]


def p_operator():
    g = operator.itemgetter(1, 0)
    class X:
        a = 1
        def m(self, x):
            return x + 1
    return [g([5, 6]), operator.itemgetter('k')({'k': 1}), operator.attrgetter('a')(X()), operator.methodcaller('m', 3)(X()), operator.add(1, 2), operator.not_([]), operator.contains([1], 1),
            reduce(operator.mul, [1, 2, 3], 1), reduce(operator.or_, [{1}, {2}]), reduce(operator.getitem, ['a', 0], {'a': [7]}), operator.is_(None, None), operator.truth('x'), operator.eq(1, 1.0)]


def p_chainmap():
    c = ChainMap({'a': 1}, {'a': 2, 'b': 3})
    d = c.new_child({'b': 4})
    return [c['a'], c['b'], sorted(c), len(c), d['b'], 'z' in d, c.get('z', 9), dict(d)]


def p_ordered():
    o = OrderedDict(a=1, b=2)
    o.move_to_end('a')
    x = list(o.items())
    o.move_to_end('a', last=False)
    return [x, list(o), o.popitem(), o.popitem(last=False), len(o), OrderedDict([(1, 2)]) == {1: 2}]


def p_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    d['b']
    e = defaultdict(lambda: 5, x=1)
    return [dict(d), 'c' in d, d.get('c'), e['q'], e['x'], len(e), sorted(d)]


def p_deque():
    d = deque([1, 2, 3], maxlen=3)
    d.append(4)
    d.appendleft(0)
    d.rotate(1)
    e = deque('ab')
    e.extend('cd')
    e.extendleft('yz')
    return [list(d), d.maxlen, e.pop(), e.popleft(), list(e), list(reversed(e)), e.index('a'), e.count('a'), len(e), 'a' in e, e[0], deque([1]) == deque([1])]


def p_namedtuple():
    P = namedtuple('P', 'x y')
    class Q(NamedTuple):
        a: int
        b: str = 'z'
        def both(self):
            return (self.b, self.a)
    p = P(1, y=2)
    q = Q(3)
    x, y = p
    return [p.x, p[1], x, y, p == (1, 2), p._replace(x=5), q, q.both(), p._asdict(), Q._fields, len(q), isinstance(q, tuple), q + (1,), {p: 1}[(1, 2)]]


def p_dataclasses():
    @dataclass(frozen=True, order=True)
    class A:
        x: int
        y: list = field(default_factory=list, compare=False)
    @dataclass
    class B(A.__class__ if False else object):
        a: int
        b: str = 'q'
        c: ClassVar[int] = 4
        def __post_init__(self):
            self.d = self.a + 1
    r = []
    try:
        A(1).x = 3
    except Exception as e:
        r.append(type(e).__name__)
    b = B(1)
    return r + [A(1, [2]) == A(1, [3]), A(1) < A(2), replace(b, a=5).d, asdict(b), astuple(b), repr(b), B(1) == B(1), B(1) != B(2), hash(A(1, ())) == hash(A(1, ()))]


def p_enum():
    class E(enum.Enum):
        A = 'a'
        B = enum.auto()
        @property
        def up(self):
            return self.value.upper() if isinstance(self.value, str) else self.value
    class S(str, enum.Enum):
        X = 'x'
        Y = 'y'
    class I(enum.IntEnum):
        ONE = 1
        TWO = 2
    r = []
    try:
        E('zz')
    except ValueError as e:
        r.append('ve')
    return r + [E.A.up, E('a') is E.A, E['A'].name, [m.name for m in E], S.X == 'x', S('y') is S.Y, 'x' in [s.value for s in S], I.TWO > 1, I(1) is I.ONE, len(S), isinstance(S.X, str), S.X in {'x': 1}, E.A in (E.A,), E.A == 'a']


def p_singledispatch():
    @singledispatch
    def f(x):
        return 'o'
    @f.register
    def _(x: int):
        return 'i'
    @f.register(list)
    @f.register(tuple)
    def _(x):
        return 'l'
    @f.register(Mapping)
    def _(x):
        return 'm'
    class C:
        @singledispatchmethod
        def g(self, x):
            return 'o'
        @g.register
        def _(self, x: str):
            return 's'
    return [f(1), f(True), f([]), f(()), f({}), f('x'), f(None), C().g('a'), C().g(1)]


def p_total_ordering():
    @total_ordering
    class T:
        def __init__(self, x):
            self.x = x
        def __eq__(self, o):
            return self.x == o.x if isinstance(o, T) else NotImplemented
        def __lt__(self, o):
            return self.x < o.x if isinstance(o, T) else NotImplemented
    r = []
    try:
        T(1) <= 3
    except TypeError:
        r.append('te')
    return r + [T(1) <= T(1), T(2) > T(1), T(1) >= T(2), T(1) != T(2), sorted([T(2), T(1)])[0].x, max(T(1), T(3)).x]


def p_partial():
    def f(a, b, *c, d=0, **e):
        return (a, b, c, d, sorted(e.items()))
    class C:
        def m(self, x, y=1):
            return x * 10 + y
        n = partialmethod(m, 4)
        o = partialmethod(m, y=7)
    g = partial(f, 1, d=5)
    return [g(2), g(2, 3, d=6, z=1), partial(g, 9)(8), C().n(), C().n(2), C().o(1), g.args, g.keywords, g.func is f]


def p_exitstack():
    log = []
    @contextlib.contextmanager
    def cm(n, swallow=False):
        log.append('+' + n)
        try:
            yield n
        except ValueError:
            log.append('!' + n)
            if not swallow:
                raise
        finally:
            log.append('-' + n)
    with contextlib.ExitStack() as st:
        st.enter_context(cm('a', True))
        st.callback(log.append, 'cb')
        st.enter_context(cm('b'))
        raise ValueError
    with contextlib.suppress(KeyError, IndexError):
        [][1]
    with contextlib.nullcontext(5) as x:
        log.append(x)
    with cm('c') as c, cm('d') as d:
        log.append(c + d)
    return log


def p_try_flow():
    log = []
    def f(n):
        for i in range(3):
            try:
                if n == 0:
                    continue
                if n == 1:
                    break
                if n == 2:
                    return 'r'
                if n == 3:
                    raise KeyError(n)
            except KeyError as e:
                log.append(e.args)
                return 'k'
            else:
                log.append('else')
            finally:
                log.append(('f', i))
                if n == 5:
                    return 'override'
        else:
            return 'exhausted'
        return 'broke'
    return [[f(i) for i in range(6)], log]


def p_exc_chain():
    r = []
    try:
        try:
            {}['x']
        except KeyError as e:
            raise ValueError('v') from e
    except ValueError as e:
        r += [type(e.__cause__).__name__, type(e.__context__).__name__, e.__suppress_context__]
    try:
        try:
            {}['x']
        except KeyError:
            raise ValueError('v') from None
    except ValueError as e:
        r += [e.__cause__, type(e.__context__).__name__, e.__suppress_context__]
    try:
        raise LookupError('a', 2)
    except (KeyError, LookupError) as e:
        r += [e.args, str(e), repr(e)]
    return r


def p_strings():
    s = 'Hello, World'
    return [s.partition(', '), s.rpartition('o'), s.removeprefix('Hell'), s.removesuffix('x'), s.swapcase(), s.center(16, '*'), s.find('o', 5), s.rfind('o'), s.index('W'), s.count('l'), s.expandtabs(),
            'a\nb\r\nc'.splitlines(), 'a\nb'.splitlines(True), '7'.zfill(3), '-7'.zfill(4), 'a,b,,c'.split(',', 2), 'a,b,,c'.rsplit(',', 1), '  x '.split(), 'x'.ljust(3) + '|', 'abc'.translate({97: 'z', 98: None}), 'ß'.casefold(), 'aXb'.title(), 'x-y'.replace('-', '', 1),
            s[::-1], s[-5:], s[1:8:2], 'ab' * 2, 'a' < 'b', 'abc'.startswith(('x', 'ab')), 'abc'.endswith('c', 0, 2), '%s-%d-%5.2f-%r-%%' % ('a', 3, 2.5, 'q'), '{0}{1!r:>5}{k[a]}'.format('x', 'y', k={'a': 1}), f'{3:05d}|{2.5:.2f}|{"x":>3}|{s!r}|{1_000:,}|{255:#x}', ''.join(sorted('bca')), 'é'.isascii(), '²'.isdigit(), '²'.isdecimal(), 'a1'.isalnum(), ''.isalpha()]


def p_slices():
    a = list(range(8))
    a[1:3] = ['x', 'y', 'z']
    b = list(a)
    del b[::2]
    c = list(range(6))
    c[::2] = [9, 9, 9]
    d = [1, 2, 3]
    d[3:] = [4]
    d[:0] = [0]
    d += (5,)
    d *= 1
    e = [3, 1, 2]
    e.sort(key=lambda x: -x)
    f = list(a)
    f.reverse()
    r = []
    try:
        c[::2] = [1]
    except ValueError:
        r.append('ve')
    return [a, b, c, d, e, f, r, a[slice(1, None, 3)], slice(1, -1, 2).indices(6), list(range(10))[-3:], range(10)[2:8:3], range(0, 10, 3)[-1], 6 in range(0, 10, 3), range(3) == range(0, 3), list(reversed(range(3))), range(5).index(3)]


def p_unpack():
    a, *b, c = range(5)
    (x, y), z = (1, 2), 3
    *p, = 'ab'
    d = {**{'a': 1}, 'b': 2, **{'a': 3}}
    def f(*args, **kw):
        return args, sorted(kw.items())
    e = {'a': 1} | {'b': 2}
    e |= {'c': 3}
    for i, (j, *k) in enumerate([(1, 2, 3), (4,)], start=5):
        d[i] = (j, k)
    return [a, b, c, x, y, z, p, d, f(*[1, 2], 3, *(4,), k=1, **{'m': 2}), e, [*range(2), *'x'], {*'aa'} == {'a'}, (*(), 1)]


def p_walrus_comp():
    r = [y for x in range(5) if (y := x * 2) > 3]
    n = [(i, j) for i in range(3) for j in range(i) if (i + j) % 2]
    d = {k: v for k, v in zip('ab', [1, 2])}
    s = sum(x for x in (1, 2, 3) if x != 2)
    t = any((hit := x) > 1 for x in [1, 2, 3])
    return [r, y, n, d, s, t, hit, all([]), [[c for c in w] for w in ('ab', 'c')], {x % 2 for x in range(4)} == {0, 1}, next((x for x in [1, 2] if x > 5), None)]


def p_closures():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    def counter():
        n = 0
        def inc(by=1):
            nonlocal n
            n += by
            return n
        return inc
    c = counter()
    def dflt(x, acc=[]):
        acc.append(x)
        return list(acc)
    return [[f() for f in fs], [g() for g in gs], c(), c(5), counter()(), dflt(1), dflt(2)]


def p_descriptors():
    class D:
        def __set_name__(self, owner, name):
            self.n = '_' + name
        def __get__(self, o, t=None):
            return self if o is None else getattr(o, self.n, 'unset')
        def __set__(self, o, v):
            setattr(o, self.n, v * 2)
        def __delete__(self, o):
            delattr(o, self.n)
    class C:
        a = D()
        @property
        def b(self):
            return self._a + 1
        @b.setter
        def b(self, v):
            self._a = v
        @classmethod
        def make(cls, *a):
            return cls()
        @staticmethod
        def st(x):
            return x
        @cached_property
        def cp(self):
            self.count = getattr(self, 'count', 0) + 1
            return self.count
        def __getattr__(self, name):
            if name == 'dyn':
                return 'D'
            raise AttributeError(name)
    c = C.make(1)
    r = [c.a]
    c.a = 3
    r += [c.a, c.b, isinstance(C.a, D)]
    c.b = 9
    r += [c.a, c.st(1), c.cp, c.cp, c.dyn, hasattr(c, 'nope'), getattr(c, 'zz', 5)]
    del c.cp
    r.append(c.cp)
    del c.a
    r.append(c.a)
    return r


def p_inherit():
    class A:
        def f(self):
            return ['A']
        def __init_subclass__(cls, tag=None, **kw):
            super().__init_subclass__(**kw)
            cls.tag = tag
    class B(A, tag='b'):
        def f(self):
            return ['B'] + super().f()
    class C(A, tag='c'):
        def f(self):
            return ['C'] + super().f()
    class D(B, C):
        def f(self):
            return ['D'] + super().f()
    class Abs(ABC):
        @abstractmethod
        def g(self): ...
    class Con(Abs):
        def g(self):
            return 1
    r = []
    try:
        Abs()
    except TypeError:
        r.append('abstract')
    return r + [D().f(), [k.__name__ for k in D.__mro__], B.tag, D.tag, Con().g(), issubclass(D, A), isinstance(D(), (int, C)), type(D()).__name__, D.__bases__ == (B, C), D.f.__qualname__.split('.')[-1]]


def p_special():
    class V:
        def __init__(self, *x):
            self.x = list(x)
        def __add__(self, o):
            return V(*self.x, *o.x) if isinstance(o, V) else NotImplemented
        def __radd__(self, o):
            return ('r', o)
        def __iadd__(self, o):
            self.x.append(o)
            return self
        def __contains__(self, i):
            return i in self.x
        def __getitem__(self, i):
            return self.x[i]
        def __len__(self):
            return len(self.x)
        def __call__(self, y):
            return y
        def __neg__(self):
            return 'neg'
        def __bool__(self):
            return True
        def __eq__(self, o):
            return isinstance(o, V) and self.x == o.x
        def __hash__(self):
            return hash(tuple(self.x))
        def __format__(self, spec):
            return 'F' + spec
        def __index__(self):
            return 1
        def __reversed__(self):
            return iter('rev')
        def __truediv__(self, o):
            return ('div', o)
        def __matmul__(self, o):
            return 'mm'
    v = V(1, 2)
    w = v
    w += 3
    return [(v + V(4)).x, 5 + v, v.x, 2 in v, list(v), v[0], len(v), v(7), -v, bool(v), v == V(1, 2, 3), {v: 1}[V(1, 2, 3)], f'{v:abc}', [5, 6, 7][v], list(reversed(v)), v / 3, v @ 1, v != V(1), sorted(V(3, 1, 2)), sum([V(1), V(2)], V()).x, max(V(1, 5, 2)), ' '.join(map(str, v))]


def p_copying():
    class N:
        def __init__(self, v):
            self.v = v
        def __copy__(self):
            return N('shallow')
        def __deepcopy__(self, memo):
            n = N(copy.deepcopy(self.v, memo))
            memo[id(self)] = n
            return n
    a = [1, [2]]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    b[1].append(3)
    n = N([1])
    shared = [n, n]
    d = copy.deepcopy(shared)
    cyc = []
    cyc.append(cyc)
    e = copy.deepcopy(cyc)
    return [a, c, copy.copy(n).v, d[0] is d[1], d[0].v, d[0] is n, e[0] is e, copy.deepcopy((1, 'x')) == (1, 'x'), copy.copy({1: 2}), copy.deepcopy({'a': {1}}) == {'a': {1}}]


def p_dicts():
    d = {'a': 1, 'b': 2}
    r = [d.pop('a'), d.pop('z', 0), d.setdefault('c', []), d.popitem(), list(d)]
    d.update(x=1, **{'y': 2})
    d.update([('z', 3)])
    k = d.keys()
    d['new'] = 4
    r += [list(k), k & {'x', 'q'} == {'x'}, k - {'x'} == {'b', 'y', 'z', 'new'}, ('x', 1) in d.items(), list(reversed(d)), dict.fromkeys('ab', 0), dict(zip('ab', 'cd')), d.get('nope'), {1: 'a', True: 'b', 1.0: 'c'}, list(d.values()), len(d.items()), {**d}.keys() == d.keys(), {'a': 1, 'b': 2} == {'b': 2, 'a': 1}]
    try:
        for q in d:
            d['more'] = 1
    except RuntimeError:
        r.append('changed')
    return r


def p_sets():
    a, b = {1, 2, 3}, frozenset([2, 3, 4])
    r = [a & b == {2, 3}, a | b == {1, 2, 3, 4}, a - b == {1}, a ^ b == {1, 4}, a <= {1, 2, 3, 4}, a < a, a.isdisjoint([9]), a.issuperset([1]), sorted(a.union([7], (8,))), len(b), hash(b) == hash(frozenset([4, 3, 2]))]
    a.discard(9)
    a.add(5)
    a -= {1}
    a.intersection_update([2, 5])
    r.append(sorted(a))
    try:
        a.remove(77)
    except KeyError as e:
        r.append(e.args)
    return r


def p_numbers():
    return [7 // 2, -7 // 2, 7 % -3, -7 % 3, divmod(-7, 2), 2 ** -1, 2 ** 10, round(2.5), round(3.5), round(2.675, 2), round(1234, -2), int('  12 '), int('0x1f', 16), int('-0b11', 0), float('1e3'), float('-inf') < 0, int(3.9), int(-3.9), abs(-2), 10 ** 20, 0.1 + 0.2 == 0.3, 1e16 + 1 == 1e16, 2 ** 53 + 1 == float(2 ** 53 + 1), (5).bit_length(), 3.0.is_integer(), (2.5).as_integer_ratio(), True + True, bool('0'), 1 < 2 < 3 > 2, 5 & 3 | 8, ~5, 1 << 4, 6 ^ 3, min(3, 1, 2), max([1, 5], key=lambda x: -x), sum([0.5, 1]), pow(3, 4, 5), hash(1) == hash(1.0), 1 == True, float('nan') != float('nan'), str(1e22), str(1.0), repr(0.1), hex(255), oct(8), bin(5), chr(97), ord('a')]


def p_regex():
    m = re.match(r'(?P<a>\w+)-(\d+)?', 'ab-')
    n = re.search(r'b+', 'abbc')
    return [m.group('a'), m.group(2), m.groups(), m.groupdict(), n.span(), n.start(), n.group(), re.sub('a|b', lambda x: x.group().upper(), 'cab'), re.sub(r'(a)(b)', r'\2\1', 'abab', count=1), re.split(r',\s*', 'a, b,c'), re.findall(r'\d', 'a1b2'), bool(re.fullmatch('a', 'ab')), re.compile('x', re.I).pattern, [x.group() for x in re.finditer('.', 'ab')], re.escape('a.b'), re.match('a(?=b)', 'ab').group(), re.search(r'^b', 'a\nb', re.M) is not None, m['a'], m.lastindex]


def p_gen_delegate():
    def inner():
        try:
            x = yield 1
            return ('got', x)
        finally:
            log.append('closed')
    def outer():
        r = yield from inner()
        yield r
    log = []
    g = outer()
    a = next(g)
    b = g.send('v')
    h = outer()
    next(h)
    h.close()
    k = outer()
    next(k)
    try:
        k.throw(KeyError('t'))
    except KeyError as e:
        log.append(e.args)
    return [a, b, log, next(g, 'end')]


def p_mapping_abc():
    class M(MutableMapping):
        def __init__(self):
            self.d = {}
        def __getitem__(self, k):
            return self.d[k]
        def __setitem__(self, k, v):
            self.d[k] = v
        def __delitem__(self, k):
            del self.d[k]
        def __iter__(self):
            return iter(self.d)
        def __len__(self):
            return len(self.d)
    class S(Sequence):
        def __init__(self, *x):
            self.x = x
        def __getitem__(self, i):
            return self.x[i]
        def __len__(self):
            return len(self.x)
    m = M()
    m.update(a=1, b=2)
    m.setdefault('c', 3)
    s = S(1, 2, 2)
    return [m.pop('a'), 'b' in m, m.get('z', 0), list(m.items()), dict(m), m == {'b': 2, 'c': 3}, list(m.keys()), s.index(2), s.count(2), 3 in s, list(reversed(s)), list(s), isinstance(m, Mapping), isinstance(s, Sequence), isinstance([], Sequence), isinstance('', Sequence), isinstance(b'', Sequence), isinstance(range(1), Sequence), isinstance({}.keys(), Set), isinstance({1}, Set), isinstance(types.MappingProxyType({}), Mapping)]


def p_typing_generic():
    T = TypeVar('T')
    class Box(Generic[T]):
        def __init__(self, v: T):
            self.v = v
    class Pr(Protocol):
        def f(self) -> int: ...
    X: Final = 3
    y: Optional[Union[int, str]] = cast(int, 4)
    return [Box[int](3).v, X, y, Box.__name__]


def p_match_all():
    class Pt:
        __match_args__ = ('x', 'y')
        def __init__(self, x, y):
            self.x, self.y = x, y
    def f(v):
        match v:
            case None:
                return 'none'
            case True | False as b:
                return ('bool', b)
            case int(n) if n > 10:
                return ('big', n)
            case int() | float():
                return 'num'
            case '' | 'a':
                return 'sa'
            case str():
                return 'str'
            case [] | ():
                return 'empty'
            case [1, *rest]:
                return ('one', rest)
            case [_, _]:
                return 'two'
            case {'k': v, **rest}:
                return ('k', v, rest)
            case {}:
                return 'map'
            case Pt(0, y=yy):
                return ('pt', yy)
            case Pt(x=xx):
                return ('ptx', xx)
            case _:
                return 'other'
    return [f(x) for x in (None, True, 11, 3, 2.5, 'a', 'b', [], (1, 2, 3), [5, 6], [7, 8, 9], {'k': 1, 'z': 2}, {'q': 1}, Pt(0, 5), Pt(3, 4), {1}, range(2))]
