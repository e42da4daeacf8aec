"""C12: allOf, anyOf, oneOf, not, if/then/else, dependentSchemas and references apply
every subschema to the instance itself and combine the verdicts as prescribed."""
from schemas import *
from spec_schema import *


def instance():
    return choose(None, True, 1, 'x', [], ['x'], {}, {'a': 'x'})


def s_all_any_one():
    v = dialect()
    key = choose('allOf', 'anyOf', 'oneOf')
    n = choose(1, 2, 3)
    subs = [V('a'), V('b'), V('c')][:n]
    evaluate(v, {key: subs}, instance(), kw(v, key))


def s_booleans():
    v = dialect()
    key = choose('allOf', 'anyOf', 'oneOf')
    subs = choose([True], [False], [True, True], [False, True], [True, False], [False, False], [True, V('a')], [False, V('a')], [{}, V('a')], [{}, {}])
    evaluate(v, {key: subs}, instance(), kw(v, key))


def s_not():
    v = dialect()
    evaluate(v, {'not': choose(V('a'), True, False, {})}, instance(), kw(v, 'not'))


def s_conditional():
    v = dialect()
    parts = choose(['if', 'then', 'else'], ['else', 'then', 'if'], ['then', 'if', 'else'], ['if', 'then'], ['then', 'if'],
                   ['if', 'else'], ['else', 'if'], ['if'], ['then'], ['else'], ['then', 'else'])
    sval = {}
    for p in parts:
        sval[p] = V(p)
    evaluate(v, sval, choose(1, ['x'], {'a': 'x'}), kw(v, parts[-1]))


def s_conditional_booleans():
    v = choose('2019-09', '2020-12')
    sval = {'if': choose(True, False, {}), 'then': choose(V('a'), False), 'else': choose(V('b'), False)}
    evaluate(v, sval, 1, kw(v, 'if'))


def s_dependent_schemas():
    v = dialect()
    deps = choose({'a': V('p')}, {'a': V('p'), 'b': V('q')}, {'a': V('p'), 'b': V('q'), 'c': V('r')}, {}, {'a': False, 'b': True})
    evaluate(v, {'dependentSchemas': deps}, choose(1, 'ab', ['a'], {}, {'a': 1}, {'b': 1, 'a': 2}, {'b': None}, {'a': 1, 'b': 2, 'c': 3}, {'x': 1}), kw(v, 'dependentSchemas'))


def inner(i):
    a, b = 'a%d' % i, 'b%d' % i
    return choose({'allOf': [V(a), V(b)]}, {'anyOf': [V(a), V(b)]}, {'oneOf': [V(a), V(b)]}, {'not': V(a)},
                  {'if': V(a), 'then': V(b)}, {'if': V(a), 'else': V(b)}, {'dependentSchemas': {'k': V(a)}}, {'$ref': '#/$defs/d'})


def s_nested():
    """one in-place keyword within another, with a sibling"""
    v = choose('2019-09', '2020-12') if thorough() else '2020-12'
    i = inner(1)
    outer = choose('allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', '$ref')
    refs = {'#/$defs/d': V('d')}
    sval = {'$defs': {'d': V('d')}}
    if outer in ('allOf', 'anyOf', 'oneOf'):
        sval[outer] = choose([i, V('x')], [V('x'), i])
    elif outer == 'if':
        sval.update({'if': i, 'then': V('x'), 'else': V('y')})
    elif outer == 'then':
        sval.update({'if': V('x'), 'then': i})
    elif outer == 'else':
        sval.update({'if': V('x'), 'else': i})
    elif outer == 'dependentSchemas':
        sval[outer] = {'k': i, 'n': V('x')}
    elif outer == '$ref':
        sval['$defs']['e'] = i
        sval[outer] = '#/$defs/e'
        refs['#/$defs/e'] = i
    else:
        sval[outer] = i
    evaluate(v, sval, {'k': 1}, kw(v, outer), refs)


def s_siblings():
    """two in-place keywords of one schema are independent"""
    v = '2020-12'
    one = choose({'allOf': [V('a'), V('b')]}, {'anyOf': [V('a'), V('b')]}, {'oneOf': [V('a'), V('b')]}, {'not': V('a')}, {'if': V('a')})
    two = choose({'x-v': 'c'}, {'not': V('c')}, {'$ref': '#/$defs/d'}, {'dependentSchemas': {'k': V('c')}}, {'then': V('c')}, {'else': V('c')}, {'anyOf': [V('c'), V('d')]})
    sval = {'$defs': {'d': V('d')}}
    if flag('swap'):
        sval.update(two)
        sval.update(one)
    else:
        sval.update(one)
        sval.update(two)
    evaluate(v, sval, {'k': 1}, kw(v, list(one)[0]), {'#/$defs/d': V('d')})


def s_each_item():
    """the same in-place keyword applied to several items, one after another"""
    v = choose('2019-09', '2020-12')
    i = inner(1)
    sval = {'$defs': {'d': V('d')}, choose('items', 'additionalProperties'): i}
    evaluate(v, sval, [{'k': 1}, {'k': 2}] if 'items' in sval else {'x': {'k': 1}, 'y': {'k': 2}}, kw(v, list(i)[0]), {'#/$defs/d': V('d')})


def s_ref():
    v = dialect()
    d = choose(V('d'), True, False, {'$ref': '#/$defs/e'})
    sval = {'$ref': '#/$defs/d', '$defs': {'d': d, 'e': V('e')}}
    if flag('sibling'):
        sval['x-v'] = 's'
    evaluate(v, sval, choose(1, ['x']), kw(v, '$ref'), {'#/$defs/d': d, '#/$defs/e': V('e')})


def s_shared_target():
    """one schema referred to for several instances, and several times for one"""
    v = dialect()
    d = choose({'type': 'string'}, {'type': 'integer', 'title': 'd'})
    r = {'$ref': '#/$defs/d'}
    parts = [('properties', {'a': r}), ('propertyNames', r), ('additionalProperties', r), ('not', r), ('allOf', [r, r]), ('dependentSchemas', {'a': {'properties': {'a': r}}})]
    i, j = choose(0, 1, 2, 3, 4, 5), choose(0, 1, 2, 3, 4, 5)
    assume(i != j)
    sval = {parts[i][0]: parts[i][1], parts[j][0]: parts[j][1], '$defs': {'d': d}}
    evaluate(v, sval, choose({'a': 1}, {'a': 'x'}, {'b': 1, 'a': 'x'}, 'x', 1), kw(v, '$ref'), {'#/$defs/d': d})


def s_many():
    """many subschemas"""
    v = choose('2019-09', '2020-12')
    n = choose(20, 70)
    k = choose('allOf', 'anyOf', 'oneOf', 'dependentSchemas')
    x = choose(0, 9, n - 1, n + 5)
    if k == 'allOf':
        sval = {k: [{'not': {'const': i}} for i in range(n)]}
    elif k == 'dependentSchemas':
        sval = {k: {'p%d' % i: {'required': ['p%d' % (i + 1)]} for i in range(n)}}
    else:
        sval = {k: [{'const': i} for i in range(n)]}
    inst = x
    if k == 'dependentSchemas':
        inst = {'p%d' % i: 1 for i in range(n + 1) if i != x}
    elif k == 'oneOf' and flag('twice'):
        sval[k][-1] = {'const': x}
    more_steps(20000 * n)
    res = schema(v, sval).evaluate(JSON(inst))
    valid, anns, errs = ev(Env(v), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, k), sval, inst)


def s_deep():
    """a schema that refers to itself, deep below the root"""
    v = choose('2019-09', '2020-12')
    n = choose(12, 24)
    leaf = choose('leaf', 'wrong')
    sval = choose({'properties': {'c': {'$ref': '#'}, 'v': {'const': 'leaf'}}},
                  {'additionalProperties': {'anyOf': [{'$ref': '#'}, {'const': 'never'}]}, 'properties': {'v': {'const': 'leaf'}}},
                  {'if': {'required': ['c']}, 'then': {'properties': {'c': {'$ref': '#'}}}, 'else': {'properties': {'v': {'const': 'leaf'}}}},
                  {'allOf': [{'properties': {'c': {'$ref': '#'}}}, {'not': {'properties': {'v': {'const': 'wrong'}}, 'required': ['v']}}]})
    inst = {'v': leaf}
    for i in range(n):
        inst = {'c': inst}
    more_steps(3000000)
    res = schema(v, sval).evaluate(JSON(inst))
    check(res.valid == (leaf == 'leaf'), 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, leaf == 'leaf'), kw(v, '$ref'), sval, n)


def s_deep_schema():
    """keywords nested many levels deep"""
    v = choose('2019-09', '2020-12')
    n = choose(12, 24)
    k = choose('allOf', 'anyOf', 'not', 'if', 'oneOf', 'items')
    sval, want = {'const': 'x'}, True
    x = choose('x', 'y')
    inst = x
    for i in range(n):
        if k == 'items':
            sval, inst = {k: sval}, [inst]
        elif k == 'not':
            sval = {k: sval}
        elif k == 'if':
            sval = {'if': sval, 'else': False}
        else:
            sval = {k: [sval]}
    more_steps(2000000)
    res = schema(v, sval).evaluate(JSON(inst))
    check(res.valid == (x == 'x'), 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, x == 'x'), kw(v, k), sval, inst)
