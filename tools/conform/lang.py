import functools, re, operator, enum, dataclasses, contextlib, collections
from typing import NamedTuple


def p_closures():
    def mk():
        n = 0

        def inc(by=1):
            nonlocal n
            n += by
            return n
        return inc
    a, b = mk(), mk()
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return a(), a(5), b(), [f() for f in fs], [g() for g in gs]


def p_unpack():
    a, *b = 'hello'
    *c, d = [1, 2, 3]
    (e, f), g = (1, 2), 3
    h = i = []
    h.append(1)
    return a, b, c, d, e, f, g, i, [*b, *c], {**{'a': 1}, 'b': 2}, {*c}, (*c,)


def p_unpack_errors():
    out = []
    for v in ([1], [1, 2, 3], 5, {1: 2, 3: 4}):
        try:
            a, b = v
            out.append((a, b))
        except (ValueError, TypeError) as e:
            out.append(type(e).__name__)
    return out


def p_args():
    def f(a, b=2, /, c=3, *args, d, e=5, **kw):
        return a, b, c, args, d, e, kw
    out = [f(1, d=4), f(1, 2, 3, 4, d=5, x=6), f(*[1, 2], **{'d': 1, 'y': 2})]
    for call in (lambda: f(), lambda: f(1), lambda: f(a=1, d=2), lambda: f(1, 2, c=3, d=4, **{'d': 5})):
        try:
            out.append(call())
        except TypeError:
            out.append('TypeError')
    return out


def p_classes():
    class A:
        x = 1
        log = []

        def __init_subclass__(cls, tag=None, **kw):
            A.log.append((cls.__name__, tag))

        def __class_getitem__(cls, k):
            return (cls.__name__, k)

        @property
        def p(self):
            return self._p

        @p.setter
        def p(self, v):
            self._p = v + 1

        @classmethod
        def c(cls):
            return cls.__name__

        @staticmethod
        def s():
            return 's'

        def __repr__(self):
            return f'<{type(self).__name__}>'

    class B(A, tag='t'):
        x = 2

        def who(self):
            return super().c(), __class__.__name__
    b = B()
    b.p = 5
    return A.log, A[int][0], b.p, B.c(), b.s(), repr(b), f'{b!r:>5}', b.who(), isinstance(b, A), issubclass(B, A), B.__mro__[1].__name__, vars(b)


def p_mro():
    class A:
        def f(self): return ['A']

    class B(A):
        def f(self): return ['B'] + super().f()

    class C(A):
        def f(self): return ['C'] + super().f()

    class D(B, C):
        def f(self): return ['D'] + super().f()
    return D().f(), [c.__name__ for c in D.__mro__]


def p_dunder():
    class V:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return isinstance(o, V) and self.v == o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self, o): return self.v < o.v
        def __add__(self, o): return V(self.v + (o.v if isinstance(o, V) else o))
        __radd__ = __add__
        def __bool__(self): return self.v != 0
        def __len__(self): return 7
        def __contains__(self, x): return x == self.v
        def __getitem__(self, k): return (k, self.v)
        def __call__(self, *a): return a
        def __iter__(self): yield from range(self.v)
        def __getattr__(self, n):
            if n == 'dyn':
                return 'd'
            raise AttributeError(n)
    a, b = V(1), V(2)
    return (a == V(1), a != b, a < b, b > a, (a + b).v, (1 + a).v, sum([a, b], 0).v, bool(V(0)), len(a), 1 in a, a[1:2, 3], a(4), list(b), a.dyn,
            getattr(a, 'zz', None), hasattr(a, 'dyn'), len({a, V(1), b}), max(a, b).v, sorted([b, a])[0].v, min([b, a], key=lambda x: -x.v).v)


def p_getattribute():
    class A:
        def __new__(cls, *a):
            o = super().__new__(cls)
            o.new = a
            return o

        def __init__(self, *a):
            self.init = a
    a = A(1, 2)
    return a.new, a.init, type(A).__name__


def p_exceptions():
    out = []

    class E(Exception):
        def __init__(self, code, *a):
            super().__init__(code, *a)
            self.code = code
    try:
        try:
            raise E(1, 'x')
        except E as e:
            out.append((e.code, e.args, str(e)))
            raise ValueError('v') from e
        finally:
            out.append('fin')
    except (KeyError, ValueError) as e:
        out.append((type(e.__cause__).__name__, str(e)))
    else:
        out.append('no')

    def f():
        try:
            return 1
        finally:
            out.append('ret')

    def g():
        for _ in range(2):
            try:
                continue
            finally:
                out.append('c')
        return 'done'
    out += [f(), g()]
    try:
        {}['k']
    except LookupError as e:
        out.append((type(e).__name__, e.args, str(e)))
    try:
        raise KeyError
    except KeyError as e:
        out.append(e.args)
    return out


def p_with():
    log = []

    @contextlib.contextmanager
    def cm(n, swallow=False):
        log.append(('enter', n))
        try:
            yield n
        except ValueError:
            log.append(('exc', n))
            if not swallow:
                raise
        finally:
            log.append(('exit', n))
    with cm(1) as a, cm(2) as b:
        log.append((a, b))
    with cm(3, True):
        raise ValueError
    with contextlib.suppress(ValueError):
        with cm(4):
            raise ValueError
    with contextlib.ExitStack() as st:
        st.enter_context(cm(5))
        st.callback(log.append, 'cb')
    with contextlib.closing(open('/dev/null')) if False else contextlib.nullcontext(6) as x:
        log.append(x)
    return log


def p_comprehensions():
    return ([x for x in range(5) if x % 2 if x > 1], {x: y for x, y in enumerate('ab')}, {x % 2 for x in range(5)},
            [(x, y) for x in range(2) for y in range(x, 2)], [y := 1, y ** 2], [last for last in 'ab'], [[c for c in r] for r in ('ab', 'c')])


def p_walrus():
    out = []
    it = iter([1, 2, 0, 3])
    while (v := next(it)):
        out.append(v)
    if (n := len(out)) > 1:
        out.append(n)
    return out, any((hit := x) > 1 for x in out), hit


def p_match():
    @dataclasses.dataclass
    class P:
        x: int
        y: int = 0

    class C(enum.Enum):
        A = 1

    def f(v):
        match v:
            case 0 | 1:
                return 'small'
            case bool():
                return 'bool'
            case P(0, y):
                return ('P0', y)
            case P(x=x, y=1):
                return ('P', x)
            case C.A:
                return 'enum'
            case [1, *rest]:
                return ('seq', rest)
            case [x, [y, z]]:
                return ('nest', x, y, z)
            case {'k': v, **rest}:
                return ('map', v, rest)
            case str() as s if s:
                return ('str', s)
            case '' | None:
                return 'empty'
            case int(n) | float(n):
                return ('num', n)
            case (a, b) | (a, _, b):
                return ('ab', a, b)
            case _:
                return 'other'
    return [f(v) for v in (0, True, 1, P(0, 4), P(3, 1), P(3, 3), C.A, [1, 2, 3], (5, [6, 7]), {'k': 1, 'z': 2}, 'hi', '', None, 7, 1.5, [2, 3], [2, 3, 4], {}, b'xx', {1})]


def p_strings():
    s = ' Hello, World '
    return (s.strip(), s.lower(), s.split(), s.split(','), 'a.b.c'.rsplit('.', 1), 'a.b.c'.partition('.'), 'a.b'.rpartition('x'), 'abc'.replace('b', 'x'),
            'abc'.find('c'), 'abc'.startswith(('x', 'a')), 'abc'.endswith('bc'), 'a-b'.join('xyz'), 'abc'[::-1], 'abc'[-2:], 'x'.center(5, '*'), 'abc'.index('b'),
            '%s=%d' % ('a', 3), '{}-{x}'.format(1, x=2), f'{3.14159:.2f}|{5:03d}|{"a":>3}|{"b"!r}', 'Ab'.swapcase(), 'ab cd'.title(), 'abc'.isalpha(), '12'.isdigit(),
            'a\nb'.splitlines(), 'abcabc'.count('b'), 'xxabcxx'.strip('x'), 'abc'.removeprefix('a'), 'abc'.removesuffix('bc'), '7'.zfill(3), 'a,b,,c'.split(','),
            'tEST'.capitalize(), 'abc' * 2, 'b' in 'abc', 'abc' < 'abd', ord('a'), chr(98), 'é'.encode(), b'abc'.decode(), 'ab'.ljust(4) + '|', 'a b'.translate({32: '_'}),
            str.maketrans('ab', 'xy'), 'x=1;y=2'.split(';', 1), ascii('é'), repr("a'b"), 'ß'.casefold(), 'abc'.rfind('z'))


def p_ints():
    return (7 // 2, -7 // 2, -7 % 3, 7 % -3, divmod(-7, 2), 2 ** 10, 2 ** -1, 1 << 4, 6 & 3, 6 | 1, 6 ^ 3, ~5, 10 / 4, abs(-3), round(2.5), round(3.14159, 2), int('42'), int('ff', 16),
            int(3.9), float('1e3'), bool([]), 1 == 1.0, hash(1) == hash(1.0), True + 1, min(3, 1, 2), max([1, 5, 3]), sum([1, 2], 10), (5).bit_length(), 3 .__add__(4),
            complex(1, 2) == 1 + 2j if False else 0, 1 < 2 < 3, 1 < 3 < 2, isinstance(True, int), 0.1 + 0.2 == 0.3, float('inf') > 1, str(1e20), str(1.0), repr(0.1), 5 .__class__.__name__)


def p_lists():
    a = [3, 1, 2]
    b = a[:]
    b.sort()
    c = sorted(a, reverse=True)
    a[1:2] = [9, 9]
    d = list(range(5))
    del d[1:3]
    d.insert(1, 'x')
    e = [1, 2, 3]
    e.extend('ab')
    e += (4,)
    e.remove(2)
    f = e.pop(), e.pop(0)
    g = [[0] * 2 for _ in range(2)]
    g[0][0] = 1
    h = [1, 2, 3, 4][::2], [1, 2, 3][-1], list(reversed([1, 2])), [1, 2].index(2), [1, 1].count(1), [1, 2] < [1, 3], [1] * 3, [1, 2] == [1, 2]
    i = [1, 2, 3]
    i[::2] = ['a', 'b']
    i.reverse()
    k = list(zip('ab', [1, 2, 3])), list(enumerate('ab', 1)), list(map(str, [1, 2])), list(filter(None, [0, 1])), list(map(lambda x, y: x + y, [1, 2], [3, 4]))
    return a, b, c, d, e, f, g, h, i, k, [1, [2]].copy(), bool([0])


def p_list_errors():
    out = []
    for f in (lambda: [][0], lambda: [1].remove(2), lambda: [].pop(), lambda: [1].index(3), lambda: [1]['a'], lambda: [1] + (2,), lambda: (1,)[5], lambda: 'a'[3],
              lambda: next(iter([])), lambda: max([]), lambda: {}[1], lambda: {}.popitem(), lambda: set().pop(), lambda: {[]: 1}, lambda: int('x'),
              lambda: 1 / 0, lambda: None.x, lambda: 'a' + 1, lambda: [1] < ['a'], lambda: len(5), lambda: sorted([1, 'a']), lambda: range(1, 2, 0), lambda: chr(-1), lambda: 'abc'.index('z'),
              lambda: list(zip([1], [2, 3], strict=True)), lambda: {1: 2}.pop(3), lambda: undefined_name, lambda: ''.join([1]), lambda: float('x'), lambda: ord('ab')):
        try:
            out.append(f())
        except Exception as e:
            out.append(type(e).__name__)
    return out


def p_dicts():
    d = {'a': 1, 'b': 2}
    d['c'] = 3
    x = d.pop('a'), d.get('zz'), d.get('zz', 0), d.setdefault('n', []), 'b' in d
    d.update({'b': 9}, z=1)
    d |= {'q': 0}
    e = d | {'b': 'x'}
    f = dict(zip('ab', [1, 2])), dict([('k', 'v')]), dict(a=1), dict.fromkeys('ab', 0)
    g = list(d), list(d.values()), list(d.items()), d.keys() & {'b', 'c'}, d.keys() - {'b'}, d.items() >= {('b', 9)}
    h = {1: 'a', True: 'b', 1.0: 'c'}
    p = d.popitem()
    k = [k for k in reversed(d)], len(d), d == dict(reversed(list(d.items()))), {**d, 'b': 0}
    d2 = d.copy()
    d2.clear()
    del d['c']
    return x, d, e, f, g, h, p, k, d2, min(d, key=str), sorted(d.items(), key=lambda kv: str(kv[1]))


def p_dict_mutation():
    d = {'a': 1, 'b': 2}
    out = []
    try:
        for k in d:
            d[k + 'x'] = 1
    except RuntimeError:
        out.append('RuntimeError')
    for k in list(d):
        if k.endswith('x'):
            del d[k]
    l = [1, 2, 3]
    for x in l:
        if x < 3:
            l.append(x + 2)
    return out, d, l


def p_sets():
    a, b = {1, 2, 3}, {2, 3, 4}
    c = a.copy()
    c.add(9)
    c.discard(1)
    c -= {2}
    return a & b, a | b, a - b, a ^ b, a <= {1, 2, 3, 4}, a.isdisjoint({7}), c, len(a), 1 in a, frozenset([1]) in {frozenset([1])}, a.union([7], [8]), a.intersection([1]), a.issubset(b), sorted(a), a == {3, 2, 1}, set('aab'), a.symmetric_difference(b), a > {1}


def p_functools():
    @functools.lru_cache(maxsize=None)
    def f(n):
        calls.append(n)
        return n * 2
    calls = []
    r = f(1), f(1), f(2)

    @functools.wraps(f)
    def g():
        pass

    @functools.singledispatch
    def h(x):
        return 'obj'

    @h.register
    def _(x: int):
        return 'int'

    @h.register(list)
    def _(x):
        return 'list'

    @functools.total_ordering
    class T:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __lt__(self, o): return self.v < o.v

    class P:
        n = 0

        @functools.cached_property
        def c(self):
            P.n += 1
            return [P.n]
    p = P()
    return (r, calls, functools.reduce(lambda a, b: a + b, [1, 2, 3]), functools.reduce(lambda a, b: a + [b], 'ab', []), functools.partial(divmod, 7)(2), h(1), h([]), h('x'), h(True),
            T(1) <= T(2), T(2) >= T(3), p.c is p.c, p.c, sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a)))


def p_operator():
    return (operator.itemgetter(1, 0)('ab'), operator.attrgetter('real')(5), operator.methodcaller('upper')('a'), operator.add(1, 2), operator.not_(0), operator.contains([1], 1), operator.getitem({'a': 1}, 'a'),
            sorted({'b': 1, 'a': 2}.items(), key=operator.itemgetter(0)), operator.truth([]), operator.is_(None, None))


def p_enum():
    class C(enum.Enum):
        A = 'a'
        B = 'b'

        @property
        def up(self):
            return self.value.upper()

        @classmethod
        def first(cls):
            return next(iter(cls))

    class F(enum.Flag):
        X = enum.auto()
        Y = enum.auto()

    class I(enum.IntEnum):
        ONE = 1
    out = [C.A.value, C('b').name, C['A'] is C.A, [m.name for m in C], C.A == 'a', C.A.up, C.first().name, len(C), C.A in C, (F.X | F.Y).value, F.X in (F.X | F.Y), bool(F.X & F.Y), I.ONE + 1, I.ONE == 1, isinstance(C.A, C), str(C.A), C.__members__['B'].value]
    try:
        C('z')
    except ValueError:
        out.append('VE')
    return out


def p_dataclass():
    @dataclasses.dataclass
    class D:
        a: int
        b: list = dataclasses.field(default_factory=list)
        c: str = 'x'

        def __post_init__(self):
            self.d = self.a * 2

    @dataclasses.dataclass(frozen=True, order=True)
    class E:
        a: int
        b: int = 0
    out = [D(1).d, D(1) == D(1), D(1, [2]) == D(1), repr(D(1)), D(1).b is D(1).b, dataclasses.asdict(D(3, [1])), dataclasses.replace(D(1), a=5).a, E(1) < E(2), hash(E(1)) == hash(E(1)), [f.name for f in dataclasses.fields(D)], dataclasses.astuple(E(1))]
    try:
        E(1).a = 2
    except AttributeError as e:
        out.append(type(e).__name__)
    try:
        D()
    except TypeError:
        out.append('TE')
    return out


def p_namedtuple():
    P = collections.namedtuple('P', 'x y', defaults=[7])

    class Q(NamedTuple):
        a: int
        b: str = 'z'

        def both(self):
            return (self.a, self.b)
    q = Q(1)
    x, y = P(3)
    return x, y, P(1, 2) == (1, 2), P(1)._replace(x=9).x, q.both(), q[0], list(q), q._asdict(), q == (1, 'z'), len(q), Q._fields, isinstance(q, tuple), P(1, 2) < P(1, 3), repr(P(1, 2))


def p_collections():
    d = collections.deque([1, 2, 3], maxlen=3)
    d.append(4)
    d.appendleft(0)
    dd = collections.defaultdict(list)
    dd['a'].append(1)
    od = collections.OrderedDict([('b', 1), ('a', 2)])
    od.move_to_end('b')
    cm = collections.ChainMap({'a': 1}, {'a': 2, 'b': 3})
    return list(d), d.pop(), d.popleft(), dict(dd), 'zz' in dd, list(od), cm['a'], cm['b'], sorted(cm), len(cm), dd.get('q'), list(dd)


def p_re():
    m = re.match(r'(?P<a>\d+)-(?P<b>\w*)', '12-xy!')
    return (m['a'], m.group(2), m.groups(), m.groupdict(), m.end(), m.span('b'), re.search('z', 'abc'), re.sub('b', 'X', 'abcb'), re.split(r'[,;]', 'a,b;c'), re.findall(r'\d', 'a1b2'),
            re.sub(r'(\w)1', lambda m: m[1] + '!', 'a1b1'), bool(re.fullmatch('a*', 'aab')), [x.group() for x in re.finditer('[a-c]', 'axb')], re.escape('a.b'), re.compile('x', re.I).match('X').group(),
            re.sub(r'~0|~1', lambda m: {'~0': '~', '~1': '/'}[m[0]], 'a~0b~1c~01'), re.compile(r'''
               a   # letter
               \d+ ''', re.VERBOSE).match('a12').group(), re.sub('(a)(b)?', r'<\1>', 'ab a'), re.split('(x)', 'axb'))


def p_iter_protocol():
    class R:
        def __getitem__(self, i):
            if i > 2:
                raise IndexError
            return i * 10

    class It:
        def __init__(self): self.n = 0
        def __iter__(self): return self
        def __next__(self):
            self.n += 1
            if self.n > 3:
                raise StopIteration
            return self.n
    it = iter(lambda l=[1, 2, 0]: l.pop(0), 0)
    return list(R()), 20 in R(), list(It()), list(it), next(iter([]), 'd'), list(zip(It(), 'ab')), [*map(lambda x: x, It())], 2 in It(), sum(It()), tuple(It()), max(It())


def p_scoping():
    x = 'outer'

    class A:
        x = 'cls'
        y = [x for _ in range(1)]

        def f(self):
            return x

    def g():
        try:
            return z
        except NameError as e:
            return type(e).__name__
        z = 1
    return A.y, A().f(), g()


def p_descriptors():
    class D:
        def __set_name__(self, owner, name):
            self.name = name

        def __get__(self, obj, owner=None):
            return self if obj is None else obj.__dict__.get('_' + self.name, 'unset')

        def __set__(self, obj, v):
            obj.__dict__['_' + self.name] = v

        def __delete__(self, obj):
            del obj.__dict__['_' + self.name]

    class A:
        d = D()
    a = A()
    out = [a.d]
    a.d = 5
    out.append(a.d)
    out.append(dict(a.__dict__))
    del a.d
    out.append(a.d)
    out.append(A.d.name)
    setattr(a, 'k', 1)
    out.append(getattr(a, 'k'))
    delattr(a, 'k')
    out.append(hasattr(a, 'k'))
    return out


def p_decorators():
    def deco(n):
        def d(f):
            def w(*a, **k):
                return n, f(*a, **k)
            return w
        return d

    @deco(1)
    @deco(2)
    def f(x):
        return x

    def cls_deco(c):
        c.tag = 'T'
        return c

    @cls_deco
    class A:
        pass
    return f(5), A.tag


def p_global_state():
    global _counter
    _counter = 1

    def bump():
        global _counter
        _counter += 1
    bump()
    bump()
    return _counter, callable(bump)


def p_slots_type():
    A = type('A', (), {'x': 1, 'f': lambda self: self.x})
    B = type('B', (A,), {})

    class S:
        __slots__ = ('a', 'b')
    s = S()
    s.a = 1
    out = [A().f(), B.__name__, B().x, type(B()) is B, s.a]
    try:
        s.c = 1
    except AttributeError:
        out.append('AE')
    try:
        s.b
    except AttributeError:
        out.append('AE')
    return out


def p_subclass_builtins():
    class L(list):
        def append(self, x):
            super().append(x * 2)

    class D(dict):
        def __missing__(self, k):
            return k + '!'

        def __setitem__(self, k, v):
            super().__setitem__(k, v + 1)

    class S(str):
        def __new__(cls, v):
            return super().__new__(cls, v.upper())

        def dbl(self):
            return self + self

    class I(int):
        pass
    l = L([1])
    l.append(2)
    d = D(a=1)
    d['b'] = 1
    return list(l), len(l), l == [1, 4], d['zz'], dict(d), str(S('a').dbl()), S('a') == 'A', I(3) + 1, type(I(3) + 1).__name__, isinstance(l, list), d.get('q'), type(l).__name__, type(S('x').lower()).__name__


def p_identity():
    a = [1]
    b = a
    c = [1]
    return a is b, a is c, a == c, a is not c, None is None, () is (), id(a) == id(b)


def p_chained():
    d = {}
    d['x'] = y = d.setdefault('z', 1)
    i = 0
    l = [0, 0]
    i, l[i] = 1, 5
    a = b, c = 1, 2
    return d, y, l, a, b, c
