import collections
import contextlib
import dataclasses
import functools
import itertools
import operator
import re
from collections import UserDict, UserList, deque, defaultdict
from collections.abc import Mapping, MutableMapping, Sequence, MutableSequence, Iterable, Hashable, Callable, Iterator, Generator, Set
from enum import Enum, auto
from typing import Generic, TypeVar, Protocol, Optional, Any, Union, ClassVar

T = TypeVar('T')


class Registry(UserDict):
    def __missing__(self, key):
        return 'missing ' + key

    def __setitem__(self, key, value):
        super().__setitem__(key.lower(), value)


def p_userdict():
    r = Registry({'A': 1})
    r['B'] = 2
    r.update(C=3)
    return dict(r), r['zz'], 'a' in r, 'A' in r, len(r), list(r.items()), r.data, r.get('q', 5), r.pop('a'), isinstance(r, Mapping), bool(r), r | {'x': 1} == {'b': 2, 'c': 3, 'x': 1}


class MyMap(MutableMapping):
    def __init__(self): self._d = {}
    def __getitem__(self, k): return self._d[k]
    def __setitem__(self, k, v): self._d[k] = v
    def __delitem__(self, k): del self._d[k]
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)


def p_abc_mixins():
    m = MyMap()
    m['a'] = 1
    m.update({'b': 2}, c=3)
    out = [m.get('a'), m.get('z'), 'a' in m, list(m.keys()), list(m.values()), list(m.items()), m.pop('a'), m.setdefault('q', 9), m == {'b': 2, 'c': 3, 'q': 9}, m.popitem(), len(m), bool(m), dict(m), {**m}]
    m.clear()
    return out + [len(m), bool(m), isinstance(m, Mapping), isinstance({}, MutableMapping), isinstance('a', Sequence), isinstance([], MutableSequence), isinstance((), MutableSequence),
                  isinstance(1, Hashable), isinstance([], Hashable), isinstance(len, Callable), isinstance(iter([]), Iterator), isinstance((x for x in ''), Generator), isinstance({1}, Set), isinstance({}.keys(), Set), issubclass(dict, Mapping), isinstance(5, Iterable)]


class MySeq(Sequence):
    def __init__(self, *a): self.a = a
    def __getitem__(self, i): return self.a[i]
    def __len__(self): return len(self.a)


def p_sequence_mixin():
    s = MySeq(1, 2, 3, 2)
    try:
        s.index(9)
    except ValueError:
        r = 'VE'
    return list(s), list(reversed(s)), 2 in s, 9 in s, s.index(2), s.count(2), r, s[1:], s[-1], [*s], sum(s), max(s), tuple(s), dict(enumerate(s))


class MyList(MutableSequence):
    def __init__(self, it=()): self.l = list(it)
    def __getitem__(self, i): return self.l[i]
    def __setitem__(self, i, v): self.l[i] = v
    def __delitem__(self, i): del self.l[i]
    def __len__(self): return len(self.l)
    def insert(self, i, v): self.l.insert(i, v)


def p_mutable_sequence():
    s = MyList([1, 2])
    s.append(3)
    s.extend([4, 5])
    s += [6]
    s.remove(2)
    p = s.pop(), s.pop(0)
    s.reverse()
    return s.l, p, len(s)


class Base(Generic[T]):
    registry: ClassVar[dict] = {}
    kind: str

    def __init_subclass__(cls, /, kind='none', **kw):
        super().__init_subclass__(**kw)
        cls.kind = kind
        Base.registry[kind] = cls


class Sub(Base[int], kind='sub'):
    pass


class Sub2(Sub, kind='sub2'):
    pass


def p_init_subclass():
    return sorted(Base.registry), Sub.kind, Sub2.kind, Base.registry['sub'] is Sub, [c.__name__ for c in Sub2.__mro__ if c.__name__ not in ('Generic', 'object')]


class Op(Enum):
    ADD = 'add'
    SUB = 'sub'

    def apply(self, a, b):
        return _OPS[self](a, b)

    @classmethod
    def _missing_(cls, value):
        return cls.ADD if value == 'plus' else None


_OPS = {Op.ADD: lambda a, b: a + b, Op.SUB: operator.sub}


def p_enum_dispatch():
    return Op('add').apply(1, 2), Op('sub').apply(5, 3), {o.value: o.name for o in Op}, Op.ADD in _OPS, Op('plus').name, repr(Op.ADD), hash(Op.ADD) == hash(Op('add')), Op.SUB.name


class Planet(Enum):
    EARTH = (1, 'blue')
    MARS = (2, 'red')

    def __init__(self, n, colour):
        self.n = n
        self.colour = colour


def p_enum_init():
    return Planet.MARS.colour, Planet.EARTH.n, Planet((1, 'blue')).name, [p.n for p in Planet]


def p_dispatch_dict():
    class H:
        def on_a(self, v): return 'a', v
        def on_b(self, v): return 'b', v

        def handle(self, k, v):
            return getattr(self, f'on_{k}', lambda v: ('default', v))(v)
    h = H()
    table = {int: 'i', str: 's', (list, tuple): 'l'}
    return h.handle('a', 1), h.handle('z', 2), table[type(5)], table[list, tuple], next((v for k, v in table.items() if isinstance([], k)), None)


def p_contextmanager_class():
    log = []

    class Tx(contextlib.AbstractContextManager):
        def __exit__(self, t, v, tb):
            log.append(t.__name__ if t else None)
            return t is KeyError

    class Deco(contextlib.ContextDecorator):
        def __enter__(self):
            log.append('in')
            return self

        def __exit__(self, *a):
            log.append('out')

    @Deco()
    def f(x):
        log.append(x)
        return x
    with Tx() as t:
        log.append(isinstance(t, Tx))
    with Tx():
        raise KeyError
    try:
        with Tx(), Tx():
            raise ValueError
    except ValueError:
        log.append('VE')
    return f(3), log


def p_exitstack():
    log = []
    with contextlib.ExitStack() as s:
        s.callback(log.append, 1)
        s.push(lambda *a: log.append(a[0] is None))
        t = s.pop_all()
    log.append('after')
    t.close()
    try:
        with contextlib.ExitStack() as s:
            s.callback(lambda: log.append('cb'))
            raise ValueError
    except ValueError:
        log.append('VE')
    return log


def p_nested_functions():
    def outer(x):
        def rec(n, acc=()):
            return acc if n == 0 else rec(n - 1, acc + (x,))
        return rec
    compose = lambda *fs: functools.reduce(lambda f, g: lambda x: f(g(x)), fs)
    return outer('a')(3), compose(str, abs, lambda v: v - 10)(3), (lambda *, a=1, **k: (a, k))(b=2), (lambda a, /, b: (a, b))(1, b=2)


def p_stack_walk():
    tree = {'v': 1, 'c': [{'v': 2, 'c': []}, {'v': 3, 'c': [{'v': 4, 'c': []}]}]}
    out, stack = [], [tree]
    while stack:
        n = stack.pop()
        out.append(n['v'])
        stack.extend(reversed(n['c']))
    q, out2 = deque([tree]), []
    while q:
        n = q.popleft()
        out2 += [n['v']]
        q.extend(n['c'])

    def walk(n):
        yield n['v']
        for c in n['c']:
            yield from walk(c)
    return out, out2, list(walk(tree)), sum(map(lambda n: 1, walk(tree)))


def p_string_building():
    buf = []
    for i, c in enumerate('a~b/c'):
        match c:
            case '~' | '/' as x:
                buf += ['~', '01'[x == '/']]
            case _:
                buf.append(c)
    return ''.join(buf), '/'.join(map(str, [1, 'a'])), f"{'x'!r:>5}{1:+d}{0.5:.0%}{1e6:,.0f}", '{0[a]}{1.real}'.format({'a': 1}, 5), 'a%%b%s' % 'c', '%(k)s' % {'k': 'v'}, f'{"a" if buf else "b"}', f'{buf[0]=}', '\N{BULLET}', r'\n', b'ab'[0], 'abc'.translate(str.maketrans({'a': 'x', 'b': None})), 'a,b'.split(',', maxsplit=1), 'aXbX'.rsplit('X', 1), '\t'.isspace(), 'ab'.isidentifier(), '١'.isdigit(), '١'.isdecimal(), '²'.isdigit(), '²'.isdecimal(), int('١')


def p_slices():
    l = list(range(10))
    l[2:4] = []
    l[::3] = ['x'] * len(l[::3])
    del l[-2:]
    return l, l[::-1], l[5:2:-1], 'abc'[1:100], (1, 2, 3)[:-1], l[slice(1, 3)], range(10)[2:5][1], list(range(10, 0, -3)), 3 in range(0, 10, 3), range(3) == range(0, 3, 1), len(range(0, 10, 3)), range(5)[-1], [1, 2, 3][None:2]


def p_dict_views():
    d = {'a': 1, 'b': 2}
    k, i = d.keys(), d.items()
    d['c'] = 3
    return list(k), len(i), ('a', 1) in i, k - {'a'}, k | {'z'}, k ^ {'a', 'q'}, k == {'a', 'b', 'c'}, k <= {'a', 'b', 'c', 'd'}, k.isdisjoint(['z']), sorted(i, key=lambda p: -p[1]), list(reversed(k)), {v: k for k, v in i}, max(d, key=d.get), d.keys().__contains__('a'), list(map(d.__getitem__, 'ab')), list(map(d.get, 'az')), dict(sorted(i, reverse=True)), {**dict.fromkeys('xy', 0), **d}


def p_try_else_finally():
    def f(x):
        log = []
        try:
            log.append(1 / x)
        except ZeroDivisionError:
            log.append('z')
            return log
        except TypeError as e:
            log.append('t')
            raise ValueError('bad') from e
        else:
            log.append('else')
        finally:
            log.append('fin')
        return log + ['end']
    try:
        f('a')
    except ValueError as e:
        r = str(e), type(e.__cause__).__name__, e.__suppress_context__
    try:
        try:
            raise KeyError('a')
        except KeyError:
            raise IndexError('b')
    except LookupError as e:
        r += (type(e.__context__).__name__,)
    return f(1), f(0), r


def p_exception_groups():
    class MyErr(ValueError):
        def __str__(self): return 'custom'
    try:
        raise MyErr('a', 1)
    except (KeyError, ValueError) as e:
        r = str(e), e.args, repr(e), isinstance(e, ValueError)
    out = []
    for exc in (KeyError('k'), ValueError(), OSError(2, 'no'), Exception('a', 'b')):
        out.append((str(exc), exc.args))
    return r, out


def p_attr_tricks():
    class A:
        def __init__(self, **kw):
            self.__dict__.update(kw)
            self.__private = 1

        def __getattr__(self, n):
            if n.startswith('get_'):
                return lambda: getattr(self, n[4:])
            raise AttributeError(n)

        def __dir__(self): return ['x']
    a = A(x=1, y=2)
    b = A.__new__(A)
    b.__dict__ = dict(a.__dict__, x=5)
    return a.get_x(), sorted(vars(a)), hasattr(a, 'q'), getattr(a, 'q', 'dflt'), a._A__private, b.x, b.y, a.__dict__['x'], A.__init__ is A.__init__, callable(A), a.__class__.__name__, type(a) is A


def p_properties():
    class P:
        def __init__(self): self._x = 0
        def _get(self): return self._x
        def _set(self, v): self._x = v * 2
        def _del(self): self._x = None
        x = property(_get, _set, _del, 'doc')

        @property
        def ro(self): return 'ro'

    class Q(P):
        @property
        def ro(self): return super().ro + '!'

        @P.x.getter
        def x(self): return ('got', self._x)
    q = Q()
    q.x = 5
    out = [q.x, q.ro, P.x.fget(q)]
    del q.x
    try:
        q.ro = 1
    except AttributeError:
        out.append('AE')
    return out, q.x


def p_class_vars():
    class A:
        items = []
        n = 0

        def add(self, x):
            self.items.append(x)
            self.n += 1
            return self
    a, b = A(), A()
    a.add(1).add(2)
    b.add(3)
    return A.items, A.n, a.n, b.n, 'n' in vars(a)


def p_method_objects():
    class A:
        def __init__(self, v): self.v = v
        def m(self, x): return self.v + x
        @staticmethod
        def s(x): return -x
        @classmethod
        def c(cls, x): return cls(x)
    f = A(1).m
    g = functools.partial(A.m, A(10))
    return f(2), list(map(A(5).m, [1, 2])), g(1), A.m(A(3), 4), list(map(A.s, [1])), A.c(7).v, f.__self__.v, f.__func__ is A.m, A.m.__name__, sorted([3, 1], key=A.s), A(1).m == A(1).m, (lambda a: a.m == a.m)(A(1)), f.__name__


def p_type_tricks():
    out = []
    for v in (1, 'a', None, [], (), {}, 1.5, True, b'', {1}, len, p_slices, int, Op.ADD):
        out.append(type(v).__name__)
    return out, type(None)() is None, isinstance(None, type(None)), type(1)('5'), list((int, str))[0](3.7), isinstance(True, (str, int)), issubclass(bool, int), isinstance(1, int | str), isinstance('a', Union[int, str]), type(type), type([]) is list, [].__class__ is list


def p_sorting():
    data = [('b', 2), ('a', 2), ('c', 1)]
    return sorted(data, key=lambda p: (-p[1], p[0])), sorted(data, key=operator.itemgetter(1)), max(data, key=lambda p: p[1]), min(data)[0], sorted('bca', reverse=True), sorted([3, 1, 2], key=lambda x: -x), sorted({'b': 1, 'a': 2}), max('abc', default='z'), max([], default='z'), min(3, 1, key=lambda x: -x), sorted([[2], [1, 5], [1]]), sorted([True, False, 2]), list(reversed(sorted('hello')))


def p_zip_unzip():
    a, b = zip(*[(1, 'a'), (2, 'b')])
    m = [[1, 2, 3], [4, 5, 6]]
    return a, b, list(map(list, zip(*m))), dict(zip(a, b)), list(zip()), [x for pair in zip(a, b) for x in pair], list(zip([1, 2], [3, 4], strict=True)), list(enumerate(zip('ab', 'cd')))


def p_recursion_data():
    def deep_copy(v):
        if isinstance(v, dict):
            return {k: deep_copy(x) for k, x in v.items()}
        if isinstance(v, list):
            return [*map(deep_copy, v)]
        return v

    def merge(a, b):
        return {k: merge(a[k], b[k]) if k in a and k in b and isinstance(a[k], dict) else b.get(k, a.get(k)) for k in a.keys() | b.keys()}
    d = {'a': [1, {'b': 2}]}
    e = deep_copy(d)
    e['a'][1]['b'] = 3
    m = merge({'x': {'y': 1}, 'z': 0}, {'x': {'w': 2}})
    return d, e, m == {'x': {'y': 1, 'w': 2}, 'z': 0}, d == deep_copy(d), d is deep_copy(d)


def p_copy():
    import copy
    a = [1, [2, 3], {'k': [4]}]
    b, c = copy.copy(a), copy.deepcopy(a)
    a[1].append(9)
    a[2]['k'].append(9)
    return b, c, b[1] is a[1], c[1] is a[1]


def p_json_mod():
    import json
    return json.loads('{"a": [1, 2.5, null, true, "x"]}'), json.dumps([1, None, {'b': 'c'}]), json.dumps({'b': 1, 'a': 2}, sort_keys=True)


def p_while_else():
    n, out = 0, []
    while n < 3:
        n += 1
        if n == 2:
            continue
        out.append(n)
    else:
        out.append('else')
    for x in range(5):
        if x == 2:
            break
    else:
        out.append('never')
    for x in ():
        pass
    else:
        out.append('empty')
    return out, x


def p_global_functions():
    return all([]), any([]), all([1, 0]), sum([[1], [2]], []), abs(-2), pow(2, 3, 5), divmod(7, 2), round(1.5), bin(5), hex(255), oct(8), list(iter('ab')), next(iter({'k': 1})), callable(1), bool(''), repr([1, 'a']), str([None, True]), format(3.14159, '.2f'), hash('a') == hash('a'), int('0b1', 0) if False else 1, len('é'), list(filter(str.isupper, 'aBC')), list(map(int, '12')), float('nan') == float('nan'), int(True), complex(1).real if False else 1, list(map(str.strip, [' a '])), ''.join(reversed('abc')), tuple(x for x in 'ab'), bytearray(b'a')[0] if False else 97


def p_starred_calls():
    def f(*a, **k): return a, sorted(k.items())
    d = {'x': 1}
    return f(*[1], 2, *(3,), **d, y=2, **{'z': 3}), f(*'ab', *range(2)), [*'ab', *{'k': 1}], (*[], 1), {**d, 'x': 5, **{'x': 6}}, f(**{})


def p_conditional_chain():
    def f(x):
        return 'neg' if x < 0 else 'zero' if x == 0 else 'small' if 0 < x < 10 else 'big'
    a = None
    b = a or 'default'
    c = 0 or [] or ''
    d = 1 and 2 and 3
    e = not a and 'yes'
    return [f(x) for x in (-1, 0, 5, 50)], b, c, d, e, 1 if [] else 2, (None or {}).get('x', 3), 3 < 2 or 'alt', [] == False, 0 == False, '' is None, None == 0


def p_singledispatchmethod():
    class F:
        @functools.singledispatchmethod
        def f(self, x): return 'o'

        @f.register
        def _(self, x: int): return 'i'

        @f.register(str)
        def _(self, x): return 's'
    return F().f(1), F().f('a'), F().f([]), F().f(True)


def p_dataclass_inherit():
    @dataclasses.dataclass
    class A:
        x: int = 1
        log: list = dataclasses.field(default_factory=list, repr=False, compare=False)

    @dataclasses.dataclass
    class B(A):
        y: Optional[int] = None
        z: int = dataclasses.field(init=False, default=7)

        @property
        def s(self): return self.x + (self.y or 0)

    @dataclasses.dataclass(slots=True, kw_only=True)
    class C:
        a: int
        b: int = 2
    b = B(1, [5], 3)
    return b.s, b.z, repr(b), b == B(1, [], 3), A() != B(), C(a=1).b, [f.name for f in dataclasses.fields(B)], dataclasses.is_dataclass(B), C(a=1) == C(a=1, b=2)


def p_protocols():
    class HasLen(Protocol):
        def __len__(self) -> int: ...

    class X(Generic[T]):
        def __init__(self, v: T) -> None: self.v: T = v
    x: X[int] = X[int](5)
    y: 'undefined_annotation' = 3
    return x.v, y, X.__name__


def p_del():
    a = [1, 2, 3]
    d = {'k': {'j': 1}}
    del a[0], d['k']['j']
    x = 5
    del x
    try:
        x
    except NameError as e:
        return a, d, type(e).__name__


def p_aug():
    class A:
        def __init__(self): self.v = [1]
        def __iadd__(self, o):
            self.v += o
            return self
    a = b = A()
    a += [2]
    t = ([],)
    try:
        t[0] += [1]
    except TypeError:
        pass
    s = 'a'
    s *= 3
    x = 7
    x //= 2
    x **= 2
    x |= 4
    x <<= 1
    x -= 1
    l = [1]
    m = l
    l += [2]
    l = l + [3]
    return b.v, t, s, x, m, l


def p_str_subclass_key():
    class K(str):
        pass

    class I(int):
        def __eq__(self, o): return int(self) == int(o) + 1
        def __hash__(self): return 5
    d = {K('a'): 1}
    return d['a'], K('a') in {'a'}, I(3) == 2, 'x' + K('a'), K('a').upper(), [1, 2][I(0) - 0], len(K('abc')), K('a') < 'b', f'{K("q")}', isinstance(K('a'), str), '/'.join([K('a'), 'b']), K('ab')[0], int(I(4)), str(K('z')) is K('z'), K('a,b').split(',')


def p_iterators():
    it = iter([1, 2, 3, 4])
    a = next(it), list(itertools.islice(it, 2)), next(it), next(it, None)
    it = iter(range(3))
    pairs = list(zip(it, it))
    e = enumerate('ab', start=5)
    m = map(lambda x: x, 'ab')
    f = filter(lambda x: x > 1, [1, 2])
    z = zip('ab', 'c')
    r = reversed([1, 2])
    return a, pairs, next(e), list(e), next(m), list(m), list(f), list(z), list(r), list(itertools.chain('a', [1])), list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])), list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])), list(itertools.starmap(pow, [(2, 3)])), list(itertools.pairwise('abc')), list(zip(itertools.count(1), 'ab')), list(itertools.repeat('x', 2)), list(itertools.filterfalse(None, [0, 1])), [*itertools.batched('abc', 2)] if hasattr(itertools, 'batched') else [('a', 'b'), ('c',)]


def p_lru():
    calls = []

    class A:
        @functools.lru_cache
        def f(self, x):
            calls.append(x)
            return x

        @functools.cached_property
        def g(self):
            calls.append('g')
            return 1
    a, b = A(), A()
    a.f(1), a.f(1), b.f(1), a.g, a.g, b.g
    del a.g
    a.g

    @functools.cache
    def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
    fib(10)
    return calls, fib(20), fib.cache_info().hits > 0


def p_re2():
    tok = re.compile(r'(?P<num>\d+)|(?P<op>[+*])|(?P<ws>\s+)')
    out = [(m.lastgroup, m.group()) for m in tok.finditer('12 + 3*4')]
    s = 'k=v; a=b'
    d = dict(p.split('=') for p in re.split(r';\s*', s))
    return out, d, re.sub(r'(?i)A', 'b', 'aA'), re.fullmatch(r'[^/]*', 'a/b'), re.match('(a)|(b)', 'b').groups(), re.match('(a)|(b)', 'b').lastindex, re.findall('(a)(b)', 'abab'), re.search('b+', 'abbc').start(), re.compile('a').pattern, re.split('', 'ab') if False else 1, re.match(r'\Aab\Z', 'ab') is not None, re.sub(r'\\(.)', r'\1', 'a\\b'), re.match(r'^(0|-?[1-9]\d*)$', '-12').group(1), re.match('a$', 'a\n') is not None, re.fullmatch('a$', 'a\n') is None


_ADD, _SUB = (lambda a, b: a + b), (lambda a, b: a - b)


def p_namespaces():
    def f(a, *rest, b=2, **more):
        c = a + b
        return sorted(locals().items()), list(locals())[:3]

    def g(x, y):
        args = locals().copy()
        args.pop('x')
        z = 5
        return args, len(vars())

    class K:
        one = 1
        two = dict((k, v) for k, v in locals().items() if not k.startswith('_'))
    return f(1, 2, k=3), g(1, 2), K.two, globals()['_ADD'](3, 4), 'p_namespaces' in globals(), globals().get('nope'), [globals()['_' + n](5, 3) for n in ('ADD', 'SUB')]
