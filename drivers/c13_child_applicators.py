"""C13: array and object applicators apply the right subschema to every item or
property they are responsible for, and to no other."""
from schemas import *
from spec_schema import *


def array(n):
    return [['x'], 'y', None, {'k': 1}][:n]


def sized(*ns):
    return array(choose(*ns))


def nonarray():
    return choose(None, 1, 'abc', {}, {'0': 'x', 'a': 'y'})


def nonobject():
    return choose(None, 1, 'abc', [], ['a'])


def s_prefix_items():
    v = choose('2020-12', 'next')
    subs = [V('a'), V('b'), V('c')][:choose(1, 2, 3)]
    evaluate(v, {'prefixItems': subs}, sized(0, 1, 2, 3, 4), kw(v, 'prefixItems'))


def s_items():
    v = dialect()
    evaluate(v, {'items': choose(V('a'), True, False, {})}, sized(0, 1, 2, 3), kw(v, 'items'))


def s_items_after_prefix():
    v = choose('2020-12', 'next')
    n = choose(1, 2)
    sval = {'prefixItems': [V('a'), V('b')][:n], 'items': choose(V('c'), False)}
    if flag('reverse'):
        sval = {'items': sval['items'], 'prefixItems': sval['prefixItems']}
    evaluate(v, sval, sized(0, 1, 2, 3, 4), kw(v, 'items'))


def s_items_arrays():
    """2019-09: items as an array, and additionalItems"""
    v = '2019-09'
    n = choose(1, 2)
    items = {'items': [V('a'), V('b')][:n]}
    add = choose({}, {'additionalItems': V('c')}, {'additionalItems': False}, {'additionalItems': True})
    sval = {}
    if flag('additional first'):
        sval.update(add)
        sval.update(items)
    else:
        sval.update(items)
        sval.update(add)
    evaluate(v, sval, sized(0, 1, 2, 3, 4), kw(v, 'additionalItems' if add else 'items'))


def s_additional_items_alone():
    v = '2019-09'
    sval = choose({'additionalItems': V('c')}, {'additionalItems': False}, {'items': V('a'), 'additionalItems': V('c')},
                  {'additionalItems': V('c'), 'items': True}, {'items': False, 'additionalItems': False})
    evaluate(v, sval, sized(0, 1, 2, 3, 4) if thorough() else sized(0, 2, 3), kw(v, 'additionalItems'))


def s_contains():
    v = dialect()
    evaluate(v, {'contains': choose(V('a'), True, False)}, sized(0, 1, 2, 3), kw(v, 'contains'))


def s_contains_limits():
    v = dialect()
    sval = {}
    for k in choose(['contains', 'minContains'], ['minContains', 'contains'], ['contains', 'maxContains'], ['maxContains', 'contains'],
                    ['contains', 'minContains', 'maxContains'], ['maxContains', 'minContains', 'contains'], ['minContains'], ['maxContains'], ['maxContains', 'minContains']):
        sval[k] = V('a') if k == 'contains' else choose(0, 1, 2) if k == 'minContains' else choose(0, 1, 2)
    evaluate(v, sval, sized(0, 1, 2, 3) if thorough() else sized(0, 1, 2), kw(v, list(sval)[-1]))


def s_contains_limits_any():
    """limits of any size"""
    v = '2020-12'
    lo, hi = integer('min', ge=0), integer('max', ge=0)
    evaluate(v, {'contains': V('a'), 'minContains': lo, 'maxContains': hi}, sized(0, 1, 2), kw(v, 'minContains'))


def s_not_arrays():
    v = dialect()
    k = choose('prefixItems', 'items', 'additionalItems', 'contains', 'unevaluatedItems')
    sval = {k: False}
    if k == 'prefixItems':
        sval = {'items' if v == '2019-09' else k: [False]}
    elif k == 'additionalItems':
        sval = {'items': [], k: False} if v == '2019-09' else {}
    evaluate(v, sval, nonarray(), kw(v, k))


def s_not_objects():
    v = dialect()
    k = choose('properties', 'patternProperties', 'additionalProperties', 'unevaluatedProperties', 'propertyNames', 'dependentSchemas')
    evaluate(v, {k: False if k in ('additionalProperties', 'unevaluatedProperties', 'propertyNames') else {'a': False, '0': False}}, nonobject(), kw(v, k))


def object_():
    return choose({}, {'a': 1}, {'b': 1}, {'a': [], 'b': 2}, {'b': 'x', 'a': None, 'c': 3}, {'c': 1, 'cc': 2, 'a': 3})


PATTERNS = ('b', '^b', 'b$', '^b$', 'bb', '[^a]', 'a|c', '^a.b', '.', '^$', 'B', 'a.*c', '\\W', '^.b')


def s_pattern_semantics():
    '''patterns are searched for in the name, for patternProperties and additionalProperties alike'''
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    p = choose(*PATTERNS)
    sval = choose({'patternProperties': {p: V('p')}}, {'patternProperties': {p: True}, 'additionalProperties': V('r')}, {'additionalProperties': False, 'patternProperties': {p: True, 'z': True}})
    evaluate(v, sval, choose({'b': 1}, {'ab': 1}, {'bc': 1}, {'abc': 1}, {'a b': 1}, {'': 1}, {'zz': 1}, {'a\nb': 1}, {'B': 1}, {'bb': 1}), kw(v, 'patternProperties'))


def s_properties():
    v = dialect()
    sval = {'properties': choose({'a': V('p')}, {'a': V('p'), 'b': V('q')}, {}, {'b': False, 'a': V('p')})}
    evaluate(v, sval, object_(), kw(v, 'properties'))


def s_pattern_properties():
    v = dialect()
    sval = {'patternProperties': choose({'^a': V('p')}, {'b': V('p'), '^c': V('q')}, {'^c': V('p'), 'c$': V('q')}, {'c': V('p'), 'cc': V('q')}, {'': V('p')}, {'x': False})}
    evaluate(v, sval, choose({}, {'a': 1}, {'ba': [], 'ab': 2}, {'c': 'x', 'cc': None}, {'xa': 1, 'c': 2}), kw(v, 'patternProperties'))


def s_additional_properties():
    v = dialect()
    sval = choose({'additionalProperties': V('r')},
                  {'properties': {'a': V('p')}, 'additionalProperties': V('r')},
                  {'additionalProperties': V('r'), 'patternProperties': {'^c': V('q')}},
                  {'additionalProperties': V('r'), 'properties': {'a': V('p'), 'b': True}, 'patternProperties': {'c': True}},
                  {'patternProperties': {'b': True, 'cc': True}, 'additionalProperties': False},
                  {'patternProperties': {'': {}}, 'additionalProperties': False},
                  {'properties': {'a': {}, 'c': {}}, 'additionalProperties': False},
                  {'allOf': [{'properties': {'a': {}}}], 'additionalProperties': V('r')})
    evaluate(v, sval, object_(), kw(v, 'additionalProperties'))


def s_property_names():
    v = dialect()
    evaluate(v, {'propertyNames': choose(V('n'), False, True, {'maxLength': 1}, {'type': 'string'}, {'const': 'a'})}, object_(), kw(v, 'propertyNames'))


def s_any_names():
    """property names of any text"""
    v = choose('2019-09', '2020-12')
    k1, k2, n1 = string('k1'), string('k2'), string('n1')
    distinct(k1, k2)
    k = choose('properties', 'additionalProperties', 'dependentSchemas', 'required', 'dependentRequired', 'propertyNames', 'unevaluatedProperties')
    if k == 'properties':
        sval = {'properties': {n1: False}}
    elif k == 'additionalProperties':
        sval = {'properties': {n1: True}, 'additionalProperties': False}
    elif k == 'unevaluatedProperties':
        sval = {'properties': {n1: True}, 'unevaluatedProperties': False}
    elif k == 'dependentSchemas':
        sval = {k: {n1: False}}
    elif k == 'required':
        sval = {k: [n1]}
    elif k == 'dependentRequired':
        sval = {k: {n1: [k2]}}
    else:
        sval = {k: {'const': n1}}
    inst = choose({}, {k1: 1}, {k1: 1, k2: 2})
    res = schema(v, sval).evaluate(JSON(inst))
    valid, a, e = ev(Env(v), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, k), sval, inst)


def s_nested():
    """items within properties within items: each instance location by its own subschema"""
    v = dialect()
    inner = choose({'items': V('a')}, {'properties': {'k': V('a')}}, {'contains': V('a')}, {'additionalProperties': V('a')}, {'propertyNames': V('a')})
    outer = choose({'items': inner}, {'contains': inner}, {'properties': {'p': inner, 'q': V('b')}}, {'additionalProperties': inner}, {'patternProperties': {'p': inner}})
    inst = {'k': 1, 'l': 2} if 'properties' in inner or 'additionalProperties' in inner or 'propertyNames' in inner else ['x', 'y']
    evaluate(v, outer, [inst, inst] if 'items' in outer or 'contains' in outer else {'p': inst, 'q': 1}, kw(v, list(outer)[0]))


def s_together():
    """adjacent keywords are independent, in any order"""
    v = dialect()
    pair = choose(('items', 'contains'), ('contains', 'items'))
    sval = {}
    for k in pair:
        sval[k] = V(k)
    if flag('objects'):
        sval = {}
        for k in choose(('properties', 'patternProperties', 'propertyNames'), ('propertyNames', 'patternProperties', 'properties')):
            sval[k] = V('n') if k == 'propertyNames' else {'a': V(k)}
        evaluate(v, sval, {'a': 1, 'ab': 2}, kw(v, 'properties'))
    else:
        evaluate(v, sval, array(2), kw(v, 'items'))


def s_many():
    """more than ten items or properties: places are numbers, not texts"""
    v = dialect()
    n = 12
    wrong = choose(None, 1, 2, 9, 10, 11)
    inst = ['wrong' if i == wrong else i for i in range(n)]
    subs = [{'const': i, 'title': 't%d' % i} for i in range(n)]
    m = choose(2, 10, 11, 12)
    k = choose('tuple', 'contains', 'properties', 'patternProperties', 'propertyNames')
    if k == 'tuple' and v == '2019-09':
        sval = {'items': subs[:m], 'additionalItems': {'type': 'integer', 'title': 'more'}}
    elif k == 'tuple':
        sval = {'prefixItems': subs[:m], 'items': {'type': 'integer', 'title': 'more'}}
    elif k == 'contains':
        sval = {'contains': {'type': 'integer', 'maximum': m}, 'minContains': 10, 'maxContains': 11}
    else:
        inst = {'p%d' % i: x for i, x in enumerate(inst)}
        if k == 'properties':
            sval = {'properties': {'p%d' % i: subs[i] for i in range(m)}, 'additionalProperties': {'type': 'integer', 'title': 'more'}}
        elif k == 'patternProperties':
            sval = {'patternProperties': {'^p1': {'type': 'integer'}, 'p.$': {'maximum': m}, '^p%d$' % (m - 1): {'const': m - 1}}, 'additionalProperties': {'type': 'integer', 'title': 'more'}}
        else:
            sval = {'propertyNames': {'pattern': choose('^p', '^p.$')}}
    res = schema(v, sval).evaluate(JSON(inst))
    valid, anns, errs = ev(Env(v), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, list(sval)[0]), sval, inst)


def s_very_many():
    """beyond any fixed number of items or properties"""
    v = choose('2019-09', '2020-12')
    n = choose(40, 130) if thorough() else choose(20, 70)
    wrong = choose(None, 0, 17, n - 1)
    k = choose('items', 'tuple', 'contains', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames')
    name = 'p%d'
    inst = ['wrong' if i == wrong else i for i in range(n)]
    if k == 'items':
        sval = {'items': {'type': 'integer'}}
    elif k == 'tuple':
        sval = {'items' if v == '2019-09' else 'prefixItems': [{'const': i} for i in range(n)]}
    elif k == 'contains':
        sval = {'contains': {'const': 'wrong'}}
    else:
        inst = {'p%d' % i: x for i, x in enumerate(inst)}
        if k == 'properties':
            sval = {k: {'p%d' % i: {'const': i} for i in range(n)}}
        elif k == 'patternProperties':
            sval = {k: {'.': {'type': 'integer'}}}
        elif k == 'propertyNames':
            sval = {k: {'not': {'const': 'p%s' % wrong}}}
        else:
            sval = {k: {'type': 'integer'}}
    more_steps(20000 * n)
    res = schema(v, sval).evaluate(JSON(inst))
    want = (wrong is None) != (k == 'contains')
    check(res.valid == want, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, want), kw(v, list(sval)[0]), n, wrong)
