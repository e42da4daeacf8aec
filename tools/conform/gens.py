import itertools
from collections import Counter


def p_match_yield():
    def g(v):
        match v:
            case {'a': x} if (yield 'q'):
                yield x
            case [a, b]:
                yield from (a, b)
            case str(s):
                yield s
            case _:
                yield None
    return [list(g({'a': 1})), list(g([1, 2])), list(g('x')), list(g(3))]


def p_send():
    def g():
        x = yield 1
        y = 10 + (yield x)
        z = [(yield y), (yield 'b')]
        return z
    it = g()
    out = [next(it), it.send(5), it.send(7), it.send(8)]
    try:
        it.send(9)
    except StopIteration as e:
        out.append(e.value)
    return out


def p_yield_expr():
    def g():
        d = {}
        d['k'] = (yield 1) or 'z'
        d['f'] = f'{(yield 2)}!'
        d['t'] = (yield 3), (yield 4)
        d['c'] = max((yield 5), 2, key=lambda v: -v)
        d['i'] = 'a' if (yield 6) else 'b'
        n = 0
        n += yield 7
        d['n'] = n
        while (yield 8):
            n += 1
        d['m'] = n
        yield d
    it = g()
    out = [next(it)]
    for v in (None, 3, 4, 5, 6, 0, 3, 1, 1, 0):
        out.append(it.send(v))
    return out


def p_throw():
    def g():
        try:
            yield 1
        except ValueError as e:
            yield str(e)
        finally:
            yield 'f'
    it = g()
    return [next(it), it.throw(ValueError('boo')), next(it), next(it, 'end')]


def p_close():
    log = []

    def g():
        try:
            yield 1
            yield 2
        finally:
            log.append('closed')
    it = g()
    next(it)
    it.close()
    return log, list(it)


def p_yield_from_return():
    def inner():
        x = yield 1
        return x * 2

    def outer():
        r = yield from inner()
        yield r
    it = outer()
    return [next(it), it.send(21)]


def p_for_else():
    def g(n):
        for i in range(3):
            if i == n:
                yield 'break'
                break
            yield i
        else:
            yield 'else'
    return list(g(1)), list(g(9))


def p_with_yield():
    log = []

    class C:
        def __enter__(self):
            log.append('in')
            return 5

        def __exit__(self, *a):
            log.append(a[0] is None)
            return True

    def g():
        with C() as c:
            yield c
            raise KeyError
        yield 'after'
    return list(g()), log


def p_groupby():
    d = [(k, list(g)) for k, g in itertools.groupby('aaabbc')]
    e = [k for k, g in itertools.groupby([1, 3, 2, 4, 5], lambda v: v % 2)]
    f = {k: len(list(g)) for k, g in itertools.groupby(sorted('hello'))}
    return d, e, f, [list(g) for g in [g for _, g in itertools.groupby('aabb')]]


def p_itertools():
    a, b = itertools.tee(iter([1, 2, 3]))
    return [list(a), list(b), list(itertools.compress('abcd', [1, 0, 1, 0])), list(itertools.permutations([1, 2, 3], 2)),
            list(itertools.product('ab', repeat=2)), list(itertools.combinations_with_replacement('abc', 2)),
            list(itertools.islice(itertools.cycle('ab'), 5)), list(itertools.accumulate([1, 2, 3])), list(itertools.islice(range(10), 2, 8, 3)),
            list(itertools.chain.from_iterable([[1], (2, 3), 'x'])), list(itertools.zip_longest([1, 2], 'a', fillvalue='-'))]


def p_counter():
    c = Counter('hello')
    c.update('l')
    return dict(c), c['zz'], c.most_common(1), sorted(c.elements()), 'zz' in c, c.total(), Counter(a=2) == {'a': 2}, len(c)


def p_genexp():
    n = 3
    g = (x * n for x in range(3))
    n = 5
    return list(g), sum(x for x in [1, 2]), any(x > 1 for x in []), dict((x, y) for x, y in zip('ab', 'cd')), sorted((x for x in 'cab'), reverse=True)


def p_gen_methods():
    def g():
        return 5
        yield
    try:
        next(g())
    except StopIteration as e:
        return e.value, list(g())


def p_nested_try():
    log = []

    def g():
        for i in range(2):
            try:
                yield i
                continue
            finally:
                log.append(i)
    return list(g()), log
