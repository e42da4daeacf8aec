# Semantics of the collections.abc mixin methods (CPython 3.12 reference), in the
# analysed language so that the interpreter treats them like any other code.


class Container:
    pass


class Hashable:
    pass


class Sized:
    pass


class Callable:
    pass


class Iterable:
    pass


class Iterator(Iterable):
    def __iter__(self):
        return self


class Generator(Iterator):
    pass


class Reversible(Iterable):
    pass


class Collection(Sized, Iterable, Container):
    pass


class Sequence(Reversible, Collection):
    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        if start is not None and start < 0:
            start = max(len(self) + start, 0)
        if stop is not None and stop < 0:
            stop += len(self)
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)


class ByteString(Sequence):
    pass


class MutableSequence(Sequence):
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Set(Collection):
    def __le__(self, other):
        if not isinstance(other, Set):
            return NotImplemented
        if len(self) > len(other):
            return False
        for elem in self:
            if elem not in other:
                return False
        return True

    def __lt__(self, other):
        if not isinstance(other, Set):
            return NotImplemented
        return len(self) < len(other) and self.__le__(other)

    def __gt__(self, other):
        if not isinstance(other, Set):
            return NotImplemented
        return len(self) > len(other) and self.__ge__(other)

    def __ge__(self, other):
        if not isinstance(other, Set):
            return NotImplemented
        if len(self) < len(other):
            return False
        for elem in other:
            if elem not in self:
                return False
        return True

    def __eq__(self, other):
        if not isinstance(other, Set):
            return NotImplemented
        return len(self) == len(other) and self.__le__(other)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __and__(self, other):
        if not isinstance(other, Iterable):
            return NotImplemented
        return self._from_iterable(value for value in other if value in self)

    __rand__ = __and__

    def isdisjoint(self, other):
        for value in other:
            if value in self:
                return False
        return True

    def __or__(self, other):
        if not isinstance(other, Iterable):
            return NotImplemented
        chain = (e for s in (self, other) for e in s)
        return self._from_iterable(chain)

    __ror__ = __or__

    def __sub__(self, other):
        if not isinstance(other, Set):
            if not isinstance(other, Iterable):
                return NotImplemented
            other = self._from_iterable(other)
        return self._from_iterable(value for value in self if value not in other)

    def __rsub__(self, other):
        if not isinstance(other, Set):
            if not isinstance(other, Iterable):
                return NotImplemented
            other = self._from_iterable(other)
        return self._from_iterable(value for value in other if value not in self)

    def __xor__(self, other):
        if not isinstance(other, Set):
            if not isinstance(other, Iterable):
                return NotImplemented
            other = self._from_iterable(other)
        return (self - other) | (other - self)

    __rxor__ = __xor__


class MutableSet(Set):
    def remove(self, value):
        if value not in self:
            raise KeyError(value)
        self.discard(value)


class Mapping(Collection):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return KeysView(self)

    def items(self):
        return ItemsView(self)

    def values(self):
        return ValuesView(self)

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    __reversed__ = None


class MappingView(Sized):
    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)


class KeysView(MappingView, Set):
    @classmethod
    def _from_iterable(cls, it):
        return set(it)

    def __contains__(self, key):
        return key in self._mapping

    def __iter__(self):
        yield from self._mapping


class ItemsView(MappingView, Set):
    @classmethod
    def _from_iterable(cls, it):
        return set(it)

    def __contains__(self, item):
        key, value = item
        try:
            v = self._mapping[key]
        except KeyError:
            return False
        else:
            return v is value or v == value

    def __iter__(self):
        for key in self._mapping:
            yield (key, self._mapping[key])


class ValuesView(MappingView, Collection):
    def __contains__(self, value):
        for key in self._mapping:
            v = self._mapping[key]
            if v is value or v == value:
                return True
        return False

    def __iter__(self):
        for key in self._mapping:
            yield self._mapping[key]


_marker = object()


class MutableMapping(Mapping):
    def pop(self, key, default=_marker):
        try:
            value = self[key]
        except KeyError:
            if default is _marker:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError from None
        value = self[key]
        del self[key]
        return key, value

    def clear(self):
        try:
            while True:
                self.popitem()
        except KeyError:
            pass

    def update(self, other=(), /, **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class PathLike:
    pass


class Number:
    pass


class Complex(Number):
    pass


class Real(Complex):
    pass


class Rational(Real):
    pass


class Integral(Rational):
    pass


class SupportsIndex:
    pass


# a user-defined sequence / mapping that is neither list/tuple nor dict
class useq(Sequence):
    pass


class umap(Mapping):
    pass


class _GeneratorContextManager:
    def __init__(self, func, args, kwds):
        self.gen = func(*args, **kwds)
        self.func = func

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield") from None

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            else:
                raise RuntimeError("generator didn't stop")
        else:
            try:
                self.gen.throw(value)
            except StopIteration as exc:
                return exc is not value
            except BaseException as exc:
                if exc is not value:
                    raise
                return False
            raise RuntimeError("generator didn't stop after throw()")

    def __call__(self, func):
        def inner(*args, **kwds):
            with _GeneratorContextManager(self.func, (), {}):
                return func(*args, **kwds)
        return inner


def contextmanager(func):
    def helper(*args, **kwds):
        return _GeneratorContextManager(func, args, kwds)
    return helper


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, traceback):
        return None


class ContextDecorator:
    def __call__(self, func):
        def inner(*args, **kwds):
            with self:
                return func(*args, **kwds)
        return inner


class closing(AbstractContextManager):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc_info):
        self.thing.close()


class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        pass

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and issubclass(exctype, self._exceptions)


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *excinfo):
        pass


class ExitStack:
    def __init__(self):
        self._cbs = []

    def __enter__(self):
        return self

    def callback(self, f, *args, **kwds):
        self._cbs.append((0, f, args, kwds))
        return f

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append((1, cm.__exit__, None, None))
        return r

    def push(self, exit):
        self._cbs.append((1, exit.__exit__ if hasattr(exit, '__exit__') else exit, None, None))
        return exit

    def pop_all(self):
        new = ExitStack()
        new._cbs = self._cbs
        self._cbs = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        sup = False
        while self._cbs:
            kind, f, a, k = self._cbs.pop()
            if kind == 0:
                f(*a, **k)
            elif f(typ, value, tb):
                typ = value = tb = None
                sup = True
        return sup


def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        if '__gt__' not in cls.__dict__:
            def __gt__(self, other):
                r = type(self).__lt__(self, other)
                if r is NotImplemented:
                    return r
                return not r and self != other
            cls.__gt__ = __gt__
        if '__le__' not in cls.__dict__:
            def __le__(self, other):
                r = type(self).__lt__(self, other)
                if r is NotImplemented:
                    return r
                return r or self == other
            cls.__le__ = __le__
        if '__ge__' not in cls.__dict__:
            def __ge__(self, other):
                r = type(self).__lt__(self, other)
                if r is NotImplemented:
                    return r
                return not r
            cls.__ge__ = __ge__
    elif '__le__' in cls.__dict__:
        if '__ge__' not in cls.__dict__:
            def __ge__(self, other):
                r = type(self).__le__(self, other)
                if r is NotImplemented:
                    return r
                return not r or self == other
            cls.__ge__ = __ge__
        if '__lt__' not in cls.__dict__:
            def __lt__(self, other):
                r = type(self).__le__(self, other)
                if r is NotImplemented:
                    return r
                return r and self != other
            cls.__lt__ = __lt__
        if '__gt__' not in cls.__dict__:
            def __gt__(self, other):
                r = type(self).__le__(self, other)
                if r is NotImplemented:
                    return r
                return not r
            cls.__gt__ = __gt__
    return cls


def reduce(function, sequence, *initial):
    it = iter(sequence)
    if initial:
        value = initial[0]
    else:
        try:
            value = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for element in it:
        value = function(value, element)
    return value


class partial:
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __call__(self, *args, **kw):
        return self.func(*self.args, *args, **{**self.keywords, **kw})


def lru_cache(maxsize=128, typed=False):
    def deco(f):
        cache = {}
        counts = [0, 0]

        def wrapper(*args, **kw):
            key = (args, tuple(kw.items()))
            if key in cache:
                counts[0] += 1
                return cache[key]
            counts[1] += 1
            r = cache[key] = f(*args, **kw)
            return r

        def cache_clear():
            cache.clear()
            counts[0] = counts[1] = 0
        wrapper.cache_clear = cache_clear
        wrapper.cache_info = lambda: _CacheInfo(counts[0], counts[1], maxsize, len(cache))
        wrapper.__wrapped__ = f
        return wrapper
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def cache(f):
    return lru_cache(None)(f)


class _CacheInfo:
    def __init__(self, hits, misses, maxsize, currsize):
        self.hits = hits
        self.misses = misses
        self.maxsize = maxsize
        self.currsize = currsize


def wraps(wrapped, *a, **k):
    def deco(f):
        return f
    return deco


def cmp_to_key(mycmp):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0

        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0
    return K


def chain(*its):
    for it in its:
        yield from it


def chain_from_iterable(its):
    for it in its:
        yield from it


def islice(it, *args):
    s = slice(*args)
    start, stop, step = s.start or 0, s.stop, s.step or 1
    i = 0
    nexti = start
    for x in it:
        if stop is not None and i >= stop:
            return
        if i == nexti:
            yield x
            nexti += step
        i += 1
        if stop is not None and i >= stop:
            return


def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x


def dropwhile(p, it):
    drop = True
    for x in it:
        if drop and p(x):
            continue
        drop = False
        yield x


def filterfalse(p, it):
    for x in it:
        if not (p(x) if p is not None else x):
            yield x


def starmap(f, it):
    for a in it:
        yield f(*a)


def accumulate(it, func=None, *, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        else:
            total = func(total, x) if func else total + x
        yield total


def pairwise(it):
    prev = _marker
    for x in it:
        if prev is not _marker:
            yield prev, x
        prev = x


def zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max([len(x) for x in lists]) if lists else 0
    for i in range(n):
        yield tuple(x[i] if i < len(x) else fillvalue for x in lists)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def groupby(iterable, key=None):
    # (key, group) pairs; the groups are read as they are reached, so a group is exhausted once the next one is asked for
    it = iter(iterable)
    state = [_marker, _marker, 0]       # the value read ahead, its key, the number of the current group

    def read():
        for x in it:
            state[0], state[1] = x, x if key is None else key(x)
            return True
        state[0] = _marker
        return False

    def members(number, k):
        while state[2] == number and state[0] is not _marker and state[1] == k:
            x = state[0]
            read()
            yield x

    read()
    while state[0] is not _marker:
        state[2] += 1
        number, k = state[2], state[1]
        yield k, members(number, k)
        while state[2] == number and state[0] is not _marker and state[1] == k:
            read()


def tee(iterable, n=2):
    it = iter(iterable)
    read = []

    def branch():
        i = 0
        while True:
            if i == len(read):
                for x in it:
                    read.append(x)
                    break
                else:
                    return
            yield read[i]
            i += 1
    return tuple([branch() for _ in range(n)])


def cycle(iterable):
    saved = []
    for x in iterable:
        saved.append(x)
        yield x
    while saved:
        yield from saved


def permutations(iterable, r=None):
    pool = tuple(iterable)
    n = len(pool) if r is None else r

    def go(used):
        if len(used) == n:
            yield tuple([pool[i] for i in used])
            return
        for i in range(len(pool)):
            if i not in used:
                yield from go(used + [i])
    yield from go([])


def combinations_with_replacement(iterable, r):
    pool = tuple(iterable)

    def go(start, left):
        if left == 0:
            yield ()
            return
        for i in range(start, len(pool)):
            for rest in go(i, left - 1):
                yield (pool[i],) + rest
    yield from go(0, r)


def batched(iterable, n):
    batch = []
    for x in iterable:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


def product(*its, repeat=1):
    pools = [tuple(i) for i in its] * repeat
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    yield from result


def combinations(it, r):
    pool = tuple(it)
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in combinations(pool[i + 1:], r - 1):
            yield (pool[i],) + rest


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x


class defaultdict(dict):
    def __init__(self, default_factory=None, *a, **k):
        dict.__init__(self, *a, **k)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = self.default_factory()
        return v

    def __getitem__(self, key):
        if key in self:
            return dict.__getitem__(self, key)
        return self.__missing__(key)


class OrderedDict(dict):
    def move_to_end(self, key, last=True):
        v = dict.pop(self, key)
        if last:
            dict.__setitem__(self, key, v)
        else:
            items = list(dict.items(self))
            dict.clear(self)
            dict.__setitem__(self, key, v)
            for k, x in items:
                dict.__setitem__(self, k, x)


class ChainMap(MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)

    def __len__(self):
        return len(set().union(*self.maps))

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __bool__(self):
        return any(self.maps)

    def new_child(self, m=None, **kw):
        if m is None:
            m = kw
        elif kw:
            m.update(kw)
        return self.__class__(m, *self.maps)

    @property
    def parents(self):
        return self.__class__(*self.maps[1:])

    def copy(self):
        return self.__class__(self.maps[0].copy(), *self.maps[1:])

    __copy__ = copy


class UserDict(MutableMapping):
    def __init__(self, dict=None, /, **kw):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kw:
            self.update(kw)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(type(self), '__missing__'):
            return type(self).__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def get(self, key, default=None):
        if key in self:
            return self[key]
        return default

    def __or__(self, other):
        if isinstance(other, UserDict):
            return type(self)(self.data | other.data)
        if isinstance(other, dict):
            return type(self)(self.data | other)
        return NotImplemented

    def __ror__(self, other):
        if isinstance(other, UserDict):
            return type(self)(other.data | self.data)
        if isinstance(other, dict):
            return type(self)(other | self.data)
        return NotImplemented

    def __ior__(self, other):
        if isinstance(other, UserDict):
            self.data |= other.data
        else:
            self.data |= other
        return self

    def __repr__(self):
        return repr(self.data)

    def copy(self):
        return type(self)(self.data)

    @classmethod
    def fromkeys(cls, iterable, value=None):
        d = cls()
        for key in iterable:
            d[key] = value
        return d

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data


class UserList(MutableSequence):
    def __init__(self, initlist=None):
        self.data = list(initlist) if initlist is not None else []

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def insert(self, i, item):
        self.data.insert(i, item)


class Counter(dict):
    def __init__(self, iterable=None, /, **kwds):
        dict.__init__(self)
        self.update(iterable, **kwds)

    def __missing__(self, key):
        return 0

    def __getitem__(self, key):
        return dict.get(self, key, 0)

    def update(self, iterable=None, /, **kwds):
        if iterable is not None:
            if isinstance(iterable, Mapping) or isinstance(iterable, dict):
                for k, n in iterable.items():
                    self[k] = self[k] + n
            else:
                for x in iterable:
                    self[x] = self[x] + 1
        for k, n in kwds.items():
            self[k] = self[k] + n

    def subtract(self, iterable=None, /, **kwds):
        if iterable is not None:
            if isinstance(iterable, Mapping) or isinstance(iterable, dict):
                for k, n in iterable.items():
                    self[k] = self[k] - n
            else:
                for x in iterable:
                    self[x] = self[x] - 1
        for k, n in kwds.items():
            self[k] = self[k] - n

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def most_common(self, n=None):
        pairs = sorted(self.items(), key=lambda p: p[1], reverse=True)
        return pairs if n is None else pairs[:n]

    def total(self):
        return sum(self.values())

    def copy(self):
        return Counter(self)


# ------------------------------------------------------------ named tuples
class _NamedTuple(tuple):
    _fields = ()
    _field_defaults = {}

    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        if len(args) > len(cls._fields):
            raise TypeError('__new__() takes too many arguments')
        values = list(args)
        for name in cls._fields[len(args):]:
            if name in kw:
                values.append(kw.pop(name))
            elif name in cls._field_defaults:
                values.append(cls._field_defaults[name])
            else:
                raise TypeError('__new__() missing a required argument: ' + name)
        if kw:
            raise TypeError('__new__() got an unexpected keyword argument')
        _set_raw(self, '_values', tuple(values))
        for name, value in zip(cls._fields, values):
            _set_raw(self, name, value)
        return self

    @classmethod
    def _make(cls, values):
        return cls(*values)

    def _replace(self, **kw):
        for name in kw:
            if name not in self._fields:
                raise ValueError('Got unexpected field names')
        return type(self)(*[kw.get(name, value) for name, value in zip(self._fields, self._values)])

    def _asdict(self):
        return dict(zip(self._fields, self._values))

    def __setattr__(self, name, value):
        raise AttributeError("can't set attribute")

    def __iter__(self):
        return iter(self._values)

    def __len__(self):
        return len(self._values)

    def __bool__(self):
        return len(self._values) > 0

    def __getitem__(self, index):
        return self._values[index]

    def __contains__(self, value):
        return value in self._values

    def __reversed__(self):
        return reversed(self._values)

    def __eq__(self, other):
        return self._values == _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __ne__(self, other):
        return self._values != _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __lt__(self, other):
        return self._values < _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __le__(self, other):
        return self._values <= _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __gt__(self, other):
        return self._values > _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __ge__(self, other):
        return self._values >= _plain_tuple(other) if isinstance(other, tuple) else NotImplemented

    def __hash__(self):
        return hash(self._values)

    def __add__(self, other):
        return self._values + _plain_tuple(other)

    def __mul__(self, n):
        return self._values * n

    def index(self, *args):
        return self._values.index(*args)

    def count(self, value):
        return self._values.count(value)

    def __repr__(self):
        return type(self).__name__ + '(' + ', '.join([n + '=' + repr(v) for n, v in zip(self._fields, self._values)]) + ')'


def _plain_tuple(t):
    return t._values if isinstance(t, _NamedTuple) else t


def namedtuple(typename, field_names, *, rename=False, defaults=(), module=None):
    if isinstance(field_names, str):
        field_names = field_names.replace(',', ' ').split()
    names = tuple(field_names)
    defaults = tuple(defaults or ())
    return type(typename, (_NamedTuple,), {'_fields': names, '_field_defaults': dict(zip(names[len(names) - len(defaults):], defaults))})


# ------------------------------------------------------------- dataclasses
class _Missing:
    pass


_MISSING = _Missing()


class FrozenInstanceError(AttributeError):
    pass


class Field:
    def __init__(self, default, default_factory, init, repr, hash, compare, metadata, kw_only):
        self.name = None
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.repr = repr
        self.hash = hash
        self.compare = compare
        self.metadata = metadata
        self.kw_only = kw_only


def field(*, default=_MISSING, default_factory=_MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
    return Field(default, default_factory, init, repr, hash, compare, metadata, kw_only)


def dataclass(cls=None, /, **options):
    if cls is None:
        return lambda c: _dataclass(c, **options)
    return _dataclass(cls)


def _dataclass(cls, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, match_args=True, kw_only=False, slots=False,
               weakref_slot=False):
    fields = {}
    for base in reversed(cls.__mro__[1:]):
        if '__dataclass_fields__' in _own(base):
            fields.update(_own(base)['__dataclass_fields__'])
    own = _own(cls)
    for name in _annotated(cls):
        default = own.get(name, _MISSING)
        if isinstance(default, Field):
            f = default
            if f.default is _MISSING:
                _drop_raw(cls, name)
            else:
                _set_raw(cls, name, f.default)
        else:
            f = Field(default, _MISSING, True, True, None, True, None, kw_only)
        f.name = name
        fields[name] = f
    fieldlist = list(fields.values())

    def __init__(self, *args, **kw):
        positional = [f for f in fieldlist if f.init and not f.kw_only]
        if len(args) > len(positional):
            raise TypeError('__init__() takes too many positional arguments')
        given = {f.name: a for f, a in zip(positional, args)}
        for f in fieldlist:
            name = f.name
            if name in given:
                if name in kw:
                    raise TypeError('__init__() got multiple values for an argument')
                value = given[name]
            elif f.init and name in kw:
                value = kw.pop(name)
            elif f.default is not _MISSING:
                value = f.default
            elif f.default_factory is not _MISSING:
                value = f.default_factory()
            elif f.init:
                raise TypeError('__init__() missing a required argument: ' + name)
            else:
                continue
            if frozen:
                _set_raw(self, name, value)
            else:
                setattr(self, name, value)
        if kw:
            raise TypeError('__init__() got an unexpected keyword argument')
        if hasattr(self, '__post_init__'):
            self.__post_init__()

    def astuple(self):
        return tuple([getattr(self, f.name) for f in fieldlist if f.compare])

    def __eq__(self, other):
        if self is other:
            return True
        if type(self) is type(other):
            return astuple(self) == astuple(other)
        return NotImplemented

    def __lt__(self, other):
        return astuple(self) < astuple(other) if type(self) is type(other) else NotImplemented

    def __le__(self, other):
        return astuple(self) <= astuple(other) if type(self) is type(other) else NotImplemented

    def __gt__(self, other):
        return astuple(self) > astuple(other) if type(self) is type(other) else NotImplemented

    def __ge__(self, other):
        return astuple(self) >= astuple(other) if type(self) is type(other) else NotImplemented

    def __hash__(self):
        return hash(tuple([getattr(self, f.name) for f in fieldlist if (f.compare if f.hash is None else f.hash)]))

    def __repr__(self):
        return type(self).__qualname__ + '(' + ', '.join([f.name + '=' + _repr(getattr(self, f.name)) for f in fieldlist if f.repr]) + ')'

    def __setattr__(self, name, value):
        if type(self) is cls or name in fields:
            raise FrozenInstanceError('cannot assign to field')
        object.__setattr__(self, name, value)

    def __delattr__(self, name):
        raise FrozenInstanceError('cannot delete field')

    _set_raw(cls, '__dataclass_fields__', fields)
    if init and '__init__' not in own:
        _set_raw(cls, '__init__', __init__)
    if repr and '__repr__' not in own:
        _set_raw(cls, '__repr__', __repr__)
    if eq and ('__eq__' not in own):
        _set_raw(cls, '__eq__', __eq__)
    if order:
        _set_raw(cls, '__lt__', __lt__)
        _set_raw(cls, '__le__', __le__)
        _set_raw(cls, '__gt__', __gt__)
        _set_raw(cls, '__ge__', __ge__)
    if frozen:
        _set_raw(cls, '__setattr__', __setattr__)
        _set_raw(cls, '__delattr__', __delattr__)
    if '__hash__' not in own or own['__hash__'] is None:
        if unsafe_hash or eq and frozen:
            _set_raw(cls, '__hash__', __hash__)
        elif eq:
            _set_raw(cls, '__hash__', None)
    if match_args and '__match_args__' not in own:
        _set_raw(cls, '__match_args__', tuple([f.name for f in fieldlist if f.init and not f.kw_only]))
    return cls


def _repr(v):
    return repr(v)


def dataclass_fields(obj):
    return tuple(obj.__dataclass_fields__.values())


def dataclass_replace(obj, /, **changes):
    kw = {f.name: getattr(obj, f.name) for f in obj.__dataclass_fields__.values() if f.init}
    kw.update(changes)
    return type(obj)(**kw)


def is_dataclass(obj):
    return hasattr(obj, '__dataclass_fields__')


# ---------------------------------------------------------- singledispatch
def _best(registry, arg):
    best = None
    for cls in registry:
        if cls is not object and isinstance(arg, cls):
            if best is None or issubclass(cls, best) and not issubclass(best, cls):
                best = cls
    return registry[object if best is None else best]


def _register(registry, cls, func):
    if func is None:
        if isinstance(cls, type):
            return lambda f: _register(registry, cls, f)
        func, cls = cls, _first_annotation(cls)
    registry[cls] = func
    return func


def singledispatch(func):
    registry = {object: func}

    def wrapper(*args, **kw):
        if not args:
            raise TypeError('requires at least 1 positional argument')
        return _best(registry, args[0])(*args, **kw)

    def register(cls, func=None):
        return _register(registry, cls, func)

    def dispatch(cls):
        for c in cls.__mro__:
            if c in registry:
                return registry[c]
        return registry[object]
    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    return wrapper


class singledispatchmethod:
    def __init__(self, func):
        self.func = func
        self.registry = {object: func}

    def register(self, cls, method=None):
        return _register(self.registry, cls, method)

    def __get__(self, obj, cls=None):
        registry = self.registry

        def method(*args, **kw):
            f = _best(registry, args[0])
            if hasattr(f, '__get__'):
                f = f.__get__(obj, cls)
            return f(*args, **kw)
        return method


class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __get__(self, obj, cls=None):
        return partial(self.func.__get__(obj, cls), *self.args, **self.keywords)


def _plain(v, tuples):
    if hasattr(type(v), '__dataclass_fields__'):
        pairs = [(f.name, _plain(getattr(v, f.name), tuples)) for f in dataclass_fields(v)]
        return tuple([x for _, x in pairs]) if tuples else dict(pairs)
    if isinstance(v, _NamedTuple):
        return type(v)(*[_plain(x, tuples) for x in v])
    if isinstance(v, (list, tuple)):
        return type(v)([_plain(x, tuples) for x in v])
    if isinstance(v, dict):
        return type(v)([(_plain(k, tuples), _plain(x, tuples)) for k, x in v.items()])
    return v


def dataclass_asdict(obj, *, dict_factory=dict):
    if dict_factory is not dict:
        return dict_factory([(f.name, _plain(getattr(obj, f.name), False)) for f in dataclass_fields(obj)])
    return _plain(obj, False)


def dataclass_astuple(obj, *, tuple_factory=tuple):
    return tuple_factory(_plain(obj, True))
