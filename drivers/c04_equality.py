"""C04: equality and ordering of documents are those of the JSON data model."""
from jschon import JSON
from sa import *
from spec_json import jequal, jtype

SCALARS = ('NoneType', 'bool', 'int', 'float', 'str')


def compare(a, b):
    want = jequal(a, b)
    mode = choose('json-json', 'json-plain', 'plain-json', 'not-equal')
    x, y = JSON(a), JSON(b)
    if mode == 'json-json':
        got = x == y
    elif mode == 'json-plain':
        got = x == b
    elif mode == 'plain-json':
        got = a == y
    else:
        got = not (x != y)
    if want:
        check(got, 'equal', 'equal JSON values compare unequal', JSON.__eq__, a, b, mode)
    else:
        check(not got, 'unequal', 'different JSON values compare equal', JSON.__eq__, a, b, mode)


def s_scalars():
    compare(sym('a', *SCALARS), sym('b', *SCALARS))


def s_scalar_collection():
    compare(sym('a', *SCALARS), sym('b', 'list', 'dict', depth=1, maxlen=1, elem_types=('int', 'bool')))


def s_arrays():
    compare(sym('a', 'list', depth=1, maxlen=2, elem_types=('int', 'bool')),
            sym('b', 'list', depth=1, maxlen=2, elem_types=('int', 'bool')))


def s_array_items():
    """items of any type, at any position, in arrays of equal length"""
    compare([sym('a0', *SCALARS), sym('a1', 'int')], [sym('b0', *SCALARS), sym('b1', 'int')])


def s_sequences():
    """tuples, and the user's own sequences and mappings"""
    compare(sym('a', 'tuple', 'useq', 'umap', depth=1, maxlen=2, elem_types=('int',)),
            sym('b', 'list', 'dict', depth=1, maxlen=2, elem_types=('int',)))


def s_objects():
    compare(sym('a', 'dict', depth=1, maxlen=2, elem_types=('int',)), sym('b', 'dict', depth=1, maxlen=2, elem_types=('int',)))


def s_object_values():
    k, l = string('k'), string('l')
    distinct(k, l)
    compare({k: sym('a', *SCALARS), l: 1}, choose({k: sym('b', *SCALARS), l: 1}, {l: 1, k: sym('b', *SCALARS)}))


def s_object_keys():
    """same size, different keys, with values that a missing property could be taken for"""
    compare({string('k'): sym('a', *SCALARS), 'c': 1}, {string('l'): sym('b', *SCALARS), 'c': 1})


def s_nested():
    k, l = string('k'), string('l')
    distinct(k, l)
    x = [{k: [sym('a', 'bool', 'int', 'NoneType')], l: {}}]
    y = choose([{l: {}, k: [sym('b', 'bool', 'int', 'NoneType')]}],
               [{k: [sym('b', 'bool', 'int', 'NoneType')], l: []}],
               [{k: {'0': sym('b', 'bool', 'int')}, l: {}}],
               [{k: [], l: {}}])
    compare(x, y)


def s_three_items():
    xs = [integer('a0'), integer('a1'), integer('a2')]
    ys = [integer('b0'), integer('b1'), integer('b2')]
    compare(xs, ys)


def s_same_document():
    """a document equals itself and its own value"""
    v = sym('v', 'list', 'dict', depth=2, maxlen=1, elem_types=('NoneType', 'bool', 'int', 'str', 'list', 'dict'))
    j = JSON(v)
    check(j == j, 'reflexive', 'a document differs from itself', JSON.__eq__)
    check(j == j.value, 'reflexive', 'a document differs from its value', JSON.__eq__)
    check(j == JSON(v), 'reflexive', 'documents built from one value differ', JSON.__eq__)


def s_order():
    if flag('strings'):
        a, b = string('a'), string('b')
    else:
        a, b = sym('a', 'int', 'float'), sym('b', 'int', 'float')
    mode = choose('json', 'plain')
    x = JSON(a)
    y = JSON(b) if mode == 'json' else b
    check((x < y) == (a < b), 'order', '< disagrees with the data', JSON.__lt__, mode)
    check((x <= y) == (a <= b), 'order', '<= disagrees with the data', JSON.__le__, mode)
    check((x > y) == (a > b), 'order', '> disagrees with the data', JSON.__gt__, mode)
    check((x >= y) == (a >= b), 'order', '>= disagrees with the data', JSON.__ge__, mode)


def s_order_refused():
    """kinds that have no order among each other"""
    k, l = choose('number', 'string', 'null', 'object', 'array'), choose('number', 'string', 'null', 'object', 'array')
    assume(k != l or k in ('null', 'object'))
    a, b = of_kind(k, 'a'), of_kind(l, 'b')
    x = JSON(a)
    y = JSON(b) if flag('json') else b
    op = choose('<', '<=', '>', '>=')
    try:
        if op == '<':
            x < y
        elif op == '<=':
            x <= y
        elif op == '>':
            x > y
        else:
            x >= y
    except TypeError:
        return
    check(False, 'no-order', '%s %s %s has an answer' % (k, op, l), JSON.__lt__, a, b)


def of_kind(k, name):
    if k == 'number':
        return sym(name, 'int', 'float')
    return string(name) if k == 'string' else None if k == 'null' else choose({}, {'k': 1}) if k == 'object' else choose([], [1])


PRECISE = ((2 ** 53, 2 ** 53 + 1), (2 ** 53, 2.0 ** 53), (2 ** 53 + 1, 2.0 ** 53), (10 ** 400, 10 ** 400 + 1), (10 ** 400, 1.0), (-10 ** 400, 1.5),
           (0.1 + 0.2, 0.3), (1e308, 1e308), (0, -0.0), (1e-320, 0), (3, 3.0), (3, 3.0000000001), (1, 1 + 2.0 ** -52), (2 ** 63, 2 ** 63 - 1), (True, 1), (0, False))


def s_precise():
    """numbers compare by their exact values"""
    a, b = choose(*PRECISE)
    if flag('swap'):
        a, b = b, a
    compare(a, b)
    if not isinstance(a, bool) and not isinstance(b, bool):
        x, y = JSON(a), JSON(b)
        check((x < y) == (a < b) and (x <= y) == (a <= b), 'order', 'the order disagrees with the data', JSON.__lt__, a, b)
        check((x > y) == (a > b) and (x >= y) == (a >= b), 'order', 'the order disagrees with the data', JSON.__gt__, a, b)


def s_many():
    """beyond a handful of items, levels and characters"""
    n = choose(20, 70, 130)
    form = choose('array', 'object', 'text', 'deep')
    where = choose(None, 0, n // 2, n - 1)
    if form == 'array':
        a, b = list(range(n)), list(range(n))
        if where is not None:
            b[where] = -1
    elif form == 'object':
        a, b = {'p%d' % i: i for i in range(n)}, {'p%d' % i: i for i in reversed(range(n))}
        if where is not None:
            b['p%d' % where] = -1
    elif form == 'text':
        a, b = 'x' * n, 'x' * n
        if where is not None:
            b = b[:where] + 'y' + b[where + 1:]
    else:
        a, b = 1, 1
        for i in range(n // 2):
            a, b = [a], [b]
            if where is not None and i == where // 2:
                b = [b]
    compare(a, b)
