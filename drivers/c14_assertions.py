"""C14: the assertion keywords accept exactly the instances the specification names,
and every other type of instance."""
from schemas import *
from spec_schema import *


def check_verdict(v, sval, inst):
    res = schema(v, sval).evaluate(JSON(inst))
    valid, a, e = ev(Env(v), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, list(sval)[-1]), sval, inst)


def anything():
    return choose(None, True, 1, 'x', [], ['x', 'x', 1], {}, {'a': 1, 'b': 2, 'c': 3})


def s_bounds():
    """numeric bounds, any instance and bound"""
    v = dialect()
    k = choose('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum')
    check_verdict(v, {k: number('bound')}, number('x'))


def s_bounds_other_types():
    v = dialect()
    k = choose('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'multipleOf')
    check_verdict(v, {k: 0.5}, choose(None, True, 'x', [1], {'a': 1}, '5'))


def s_two_bounds():
    v = '2020-12'
    lo, hi = choose(('minimum', 'maximum'), ('exclusiveMinimum', 'maximum'), ('minimum', 'exclusiveMaximum'), ('exclusiveMinimum', 'exclusiveMaximum'))
    check_verdict(v, {lo: number('lo'), hi: number('hi')}, number('x'))


def s_lengths():
    """length limits of any size"""
    v = dialect()
    k = choose('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties')
    n = integer('limit', ge=0)
    if k.endswith('Length'):
        inst = choose('', 'a', 'ab', 'abc', string('text'))
    elif k.endswith('Items'):
        inst = choose([], [1], [1, 'x'], [1, 1, 1])
    else:
        inst = choose({}, {'a': 1}, {'a': 1, 'b': 1}, {'a': [], 'b': {}, '': None})
    check_verdict(v, {k: n}, inst)


def s_lengths_other_types():
    v = dialect()
    k = choose('maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties')
    check_verdict(v, {k: choose(0, 2)}, anything())


def s_type():
    v = dialect()
    t = choose('null', 'boolean', 'number', 'string', 'array', 'object', 'integer',
               [], ['null', 'string'], ['integer'], ['string', 'integer'], ['number', 'integer'], ['boolean', 'array'])
    inst = choose(None, True, False, 'x', [], [1], {}, {'a': 1}, 0, number('n'))
    check_verdict(v, {'type': t}, inst)


def value(i):
    return choose(None, True, False, 0, 1, 1.0, 'a', '', [], {}, [1], [True], ['a', 'b'], {'k': 1}, {'k': True}, {'k': 1, 'l': 2})


def s_const():
    v = choose('2019-09', '2020-12')
    check_verdict(v, {'const': value(0)}, value(1))


def s_const_any():
    """equality of any two values of one shape"""
    v = '2020-12'
    shape = choose('string', 'number', 'array', 'object')
    if shape == 'string':
        a, b = string('a'), string('b')
    elif shape == 'number':
        a, b = number('a'), number('b')
    elif shape == 'array':
        a, b = [string('a'), 1], [string('b'), number('n')]
    else:
        a, b = {string('k'): 1}, {string('l'): number('n')}
    if flag('enum'):
        check_verdict(v, {'enum': ['z', a, None]}, b)
    else:
        check_verdict(v, {'const': a}, b)


def s_enum():
    v = choose('2019-09', '2020-12')
    check_verdict(v, {'enum': choose([], [1], [True, 'a'], [None, 0], [[1], {'k': 1}], ['', False], [[True]], ['ab', ['a', 'b']])}, value(1))


def s_unique():
    v = choose('2019-09', '2020-12')
    check_verdict(v, {'uniqueItems': choose(True, False)},
                  choose([], [1], [1, 1.0], [1, True], [0, False], ['a', 'b'], ['a', 'b', 'a'], [[1], [1]], [[1], [True]], [{'a': 1}, {'a': 1}],
                         [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}], [{'a': 1}, {'a': 2}], ['1', 1], [None, None], [[], {}], [string('p'), string('q'), string('r')],
                         [number('x'), number('y')], [None, 1, None], ['a', None, 'a', None], [True, 1, 'b', True], [[], {}, 0, []], [{}, 1, {}, False], 'aa', {'a': 1, 'b': 1}, 5))


def s_pattern():
    v = dialect()
    check_verdict(v, {'pattern': choose('^a', 'b', 'a$', '^$', '', 'x|y', '^[0-9]+$')}, choose(string('text'), 1, None, ['a'], {'a': 'b'}))


def s_required():
    v = dialect()
    check_verdict(v, {'required': choose([], ['a'], ['a', 'b'], ['b', 'a', 'c'])}, choose({}, {'a': None}, {'b': 0}, {'a': 1, 'b': False}, {'c': 1, 'a': '', 'b': []}, ['a', 'b'], 'ab', 1))


def s_dependent_required():
    v = dialect()
    check_verdict(v, {'dependentRequired': choose({}, {'a': []}, {'a': ['b']}, {'a': ['b', 'c']}, {'a': ['b'], 'b': ['a']}, {'a': ['b'], 'c': ['d']}, {'a': ['a']})},
                  choose({}, {'a': 1}, {'b': 1}, {'a': None, 'b': None}, {'c': 1, 'a': 1}, {'b': 1, 'a': 1, 'c': 1}, {'c': 0}, ['a'], 'a', 1))


def s_multiple_of():
    """multipleOf accepts exactly the exact multiples, of any size and precision"""
    v = dialect()
    m = choose(number('divisor'), integer('divisor'), 1, 2, 0.1, 1e-8)
    n = choose(number('x'), integer('x'))
    assume(m > 0)
    res = schema(v, {'multipleOf': m}).evaluate(JSON(n))
    want = multiple(n, m)
    check(res.valid == want, 'verdict', 'multipleOf: the verdict is %s where the specification says %s' % (res.valid, want), kw(v, 'multipleOf'), m, n)


def s_huge():
    """numbers outside the range of floats"""
    v = '2020-12'
    x = JSON.loads(choose('1e999', '-1e999'))
    k = choose('type', 'maximum', 'minimum', 'const', 'multipleOf', 'enum')
    sval = {k: 'integer' if k == 'type' else [1] if k == 'enum' else 5}
    schema(v, sval).evaluate(x)


def s_texts():
    """lengths count characters; patterns look for a match anywhere, an empty one included"""
    v = '2020-12'
    text = choose('\U0001f600', 'a\U0001f600', '\U0001f600\U0001f600', 'e\u0301', '\u00df', '\ufb01', 'a\x00b', 'a\nb', ' a ', 'A', '\u0130', '\ud800')
    k, n = choose(('maxLength', 0), ('maxLength', 1), ('maxLength', 2), ('minLength', 1), ('minLength', 2), ('minLength', 3),
                  ('pattern', 'x*'), ('pattern', ''), ('pattern', '^'), ('pattern', 'b'), ('pattern', '^b'), ('pattern', 'a'), ('pattern', '^a$'), ('pattern', '(?=a)'),
                  ('const', 'a'), ('enum', ['A', ' a ', 'ss', 'fi']))
    check_verdict(v, {k: n}, text)


def s_many():
    """beyond a handful of items"""
    v = choose('2019-09', '2020-12')
    n = 300 if v == '2020-12' else 40
    more_steps(100 * n * n)
    same = choose(None, 0, n // 2)
    items = list(range(n))
    if same is not None:
        items[-1] = same
    check_verdict(v, {'uniqueItems': True}, items)


def s_many_counted():
    v = choose('2019-09', '2020-12')
    n = 12
    items = list(range(n))
    k = choose('maxItems', 'minItems', 'maxProperties', 'minProperties', 'maxLength', 'minLength', 'required', 'enum', 'dependentRequired')
    x = choose(9, 11, 12, 13, 100)
    if k == 'required':
        check_verdict(v, {k: ['p%d' % i for i in range(x)]}, {'p%d' % i: i for i in range(n)})
    elif k == 'dependentRequired':
        check_verdict(v, {k: {'p0': ['p%d' % i for i in range(x)], 'p11': ['p%d' % (x - 1)]}}, {'p%d' % i: i for i in range(n)})
    elif k == 'enum':
        check_verdict(v, {k: items}, x)
    else:
        check_verdict(v, {k: x}, items if k.endswith('Items') else {'p%d' % i: i for i in items} if k.endswith('Properties') else 'ab' * 6)


def s_precise():
    """bounds and equality are those of the exact values"""
    v = '2020-12'
    a, b = choose((2 ** 53, 2 ** 53 + 1), (2 ** 53, 2.0 ** 53), (2 ** 53 + 1, 2.0 ** 53), (10 ** 400, 10 ** 400 + 1), (10 ** 400, 1.5), (0.1 + 0.2, 0.3), (0, -0.0),
                  (1e-320, 0), (3, 3.0), (3, 3.0000000001), (2 ** 63, 2 ** 63 - 1), (1e300, 1e300), (10 ** 22, 1e22), (10 ** 23, 1e23))
    if flag('swap'):
        a, b = b, a
    k = choose('maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'const', 'enum', 'uniqueItems', 'type')
    if k == 'uniqueItems':
        check_verdict(v, {k: True}, [a, b])
    else:
        check_verdict(v, {k: [b] if k == 'enum' else 'integer' if k == 'type' else b}, a)
