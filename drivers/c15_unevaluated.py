"""C15: unevaluatedItems and unevaluatedProperties apply exactly to what no adjacent
keyword and no passing in-place subschema has evaluated."""
from schemas import *
from spec_schema import *

P = {'properties': {'a': V('a')}}
Q = {'patternProperties': {'^b': V('q')}}


def dialects():
    return dialect() if thorough() else choose('2019-09', '2020-12')


def dialects_2020():
    return choose('2020-12', 'next') if thorough() else '2020-12'


def order(sval, u, x):
    """the schema with the unevaluated keyword first or last"""
    out = {}
    if flag('unevaluated first'):
        out[u] = x
        out.update(sval)
    else:
        out.update(sval)
        out[u] = x
    return out


def inplace(s, t):
    """in-place keywords over two subschemas"""
    return choose({'allOf': [s, t]}, {'anyOf': [s, t]}, {'oneOf': [s, t]}, {'not': s}, {'not': {'not': s}}, {'if': s, 'then': t}, {'if': s, 'else': t}, {'if': s},
                  {'if': {'allOf': [s]}, 'then': t, 'else': True}, {'dependentSchemas': {'a': s, 'z': t}}, {'$ref': '#/$defs/s'}, {'allOf': [{'anyOf': [s, t]}]},
                  {'anyOf': [{'not': s}, t]}, {'oneOf': [{'if': s, 'then': t}, False]})


def both(s, extra):
    """s, with a further requirement of its own that may fail"""
    out = {}
    out.update(s)
    out.update(extra)
    return out


def s_adjacent_properties():
    v = dialects()
    sval = choose({}, P, Q, {'properties': {'a': True, 'b': V('b')}, 'patternProperties': {'c': True}}, {'properties': {'a': True}, 'additionalProperties': V('r')},
                  {'additionalProperties': V('r')}, {'patternProperties': {'a': V('p'), 'ab': V('q')}}, {'propertyNames': V('n')}, {'required': ['a']}, {'dependentRequired': {'a': ['b']}})
    evaluate(v, order(sval, 'unevaluatedProperties', choose(False, V('u'), True)), choose({}, {'a': 1}, {'b': 1, 'a': 2}, {'ab': 0, 'c': 1}), kw(v, 'unevaluatedProperties'))


def s_inplace_properties():
    v = dialect()
    s, t = both(P, V('s')), Q
    sval = inplace(s, t)
    refs = {'#/$defs/s': s}
    sval['$defs'] = {'s': s}
    evaluate(v, order(sval, 'unevaluatedProperties', False), choose({'a': 1}, {'a': 1, 'b': 2}), kw(v, 'unevaluatedProperties'), refs)


def s_inplace_and_adjacent():
    v = choose('2019-09', '2020-12')
    sval = choose({'allOf': [P], 'patternProperties': {'b': V('b')}}, {'properties': {'c': V('c')}, 'anyOf': [P, Q]}, {'additionalProperties': V('c'), 'not': P},
                  {'$ref': '#/$defs/s', 'properties': {'c': True}})
    sval['$defs'] = {'s': P}
    evaluate(v, order(sval, 'unevaluatedProperties', V('u')), choose({'a': 1, 'c': 1}, {'c': 1, 'b': 2}), kw(v, 'unevaluatedProperties'), {'#/$defs/s': P})


def s_nested_properties():
    """unevaluatedProperties of a subschema: sees only its own schema; what it evaluates counts outside"""
    v = dialects()
    x = choose(False, V('u'), True)
    sval = choose({'allOf': [P, {'unevaluatedProperties': x}]}, {'allOf': [{'properties': {'b': True}, 'unevaluatedProperties': x}]},
                  {'properties': {'b': True}, 'allOf': [{'unevaluatedProperties': x}]}, {'anyOf': [{'unevaluatedProperties': x}, Q]},
                  {'if': {'unevaluatedProperties': x}, 'then': P}, {'$ref': '#/$defs/s'})
    s = {'patternProperties': {'b': True}, 'unevaluatedProperties': x}
    sval['$defs'] = {'s': s}
    evaluate(v, order(sval, 'unevaluatedProperties', choose(False, V('w'))), choose({'a': 1}, {'a': 1, 'b': 2}), kw(v, 'unevaluatedProperties'), {'#/$defs/s': s})


def s_other_locations():
    """annotations of other instance locations do not count"""
    v = dialect()
    sval = choose({'properties': {'o': {'properties': {'a': True}}}, 'unevaluatedProperties': False},
                  {'properties': {'o': {'unevaluatedProperties': False}}, 'additionalProperties': True},
                  {'allOf': [{'properties': {'o': {'properties': {'a': V('a')}}}}], 'properties': {'o': {'unevaluatedProperties': False}}},
                  {'properties': {'o': {'properties': {'a': V('a')}, 'unevaluatedProperties': False}}, 'unevaluatedProperties': False},
                  {'additionalProperties': {'allOf': [P], 'unevaluatedProperties': False}})
    evaluate(v, sval, choose({'o': {'a': 1}}, {'o': {'a': 1, 'b': 2}}, {'o': {}, 'a': {}}, {'o': {'a': 1}, 'a': 2}, {'o': {'a': {'a': 1}}, 'p': {'a': 1}}), kw(v, 'unevaluatedProperties'))


def s_each_item():
    """per item of an array, independent of the items before it"""
    v = dialects()
    s = both(P, V('s'))
    sub = choose({'anyOf': [s, Q]}, {'not': s}, {'if': s, 'then': Q}, {'properties': {'a': V('a')}}, {'allOf': [s]})
    sub['unevaluatedProperties'] = False
    evaluate(v, {choose('items', 'contains'): sub}, choose([{'a': 1}, {'a': 1}], [{'b': 1}, {'a': 1}], [{'c': 1}, {'a': 1}]), kw(v, 'unevaluatedProperties'))


def arr():
    return choose([], ['x'], ['x', 'y'], ['x', 'y', 'z'])


def s_adjacent_items():
    v = dialects_2020()
    sval = choose({}, {'prefixItems': [V('a')]}, {'prefixItems': [V('a'), True]}, {'items': V('i')}, {'prefixItems': [V('a')], 'items': V('i')}, {'contains': V('c')},
                  {'prefixItems': [True], 'contains': V('c')}, {'contains': V('c'), 'minContains': 0}, {'contains': V('c'), 'maxContains': 1}, {'maxItems': 2}, {'uniqueItems': True})
    evaluate(v, order(sval, 'unevaluatedItems', choose(False, V('u'), True)), arr(), kw(v, 'unevaluatedItems'))


def s_adjacent_items_2019():
    v = '2019-09'
    sval = choose({}, {'items': [V('a')]}, {'items': [V('a'), True]}, {'items': V('i')}, {'items': True}, {'items': [V('a')], 'additionalItems': V('i')},
                  {'additionalItems': V('i')}, {'contains': V('c')}, {'items': [True], 'contains': V('c')}, {'maxItems': 2})
    evaluate(v, order(sval, 'unevaluatedItems', choose(False, V('u'), True)), arr(), kw(v, 'unevaluatedItems'))


def tuple_schema(v, *subs):
    return {'items' if v == '2019-09' else 'prefixItems': list(subs)}


def s_inplace_items():
    v = dialect()
    s, t = both(tuple_schema(v, True), V('s')), tuple_schema(v, True, V('t'))
    sval = inplace(s, t)
    sval['$defs'] = {'s': s}
    evaluate(v, order(sval, 'unevaluatedItems', False), choose(['x'], ['x', 'y'], ['x', 'y', 'z']), kw(v, 'unevaluatedItems'), {'#/$defs/s': s})


def s_two_contains():
    """items matching the contains of any in-place subschema are evaluated"""
    v = choose('2020-12', 'next')
    a, b = {'contains': V('s')}, {'contains': V('t')}
    sval = choose({'allOf': [a, b]}, {'anyOf': [a, b]}, both(a, {'allOf': [b]}), both(a, {'if': b}), {'$ref': '#/$defs/s', 'contains': V('t')})
    sval['$defs'] = {'s': a}
    evaluate(v, order(sval, 'unevaluatedItems', False), choose(['x', 'y'], ['x', 'y', 'z']) if thorough() else ['x', 'y'], kw(v, 'unevaluatedItems'), {'#/$defs/s': a})


def s_two_tuples():
    """the longest prefix that any keyword evaluated counts, wherever it stands"""
    v = dialect()
    a, b = tuple_schema(v, True, V('a')), tuple_schema(v, V('b'))
    one, two = choose((a, b), (b, a))
    inst, u = choose((['x', 'y'], False), (['x', 'y', 'z'], V('u')))
    if u or thorough():
        sval = choose({'allOf': [one, two]}, both(one, {'$ref': '#/$defs/s'}))
    if not u or thorough() and flag('all'):
        sval = choose({'allOf': [one, two]}, {'anyOf': [one, two]}, both(one, {'allOf': [two]}), both({'allOf': [two]}, one), {'allOf': [one], 'if': two}, {'if': one, 'then': two}, both(one, {'$ref': '#/$defs/s'}))
    sval['$defs'] = {'s': two}
    if thorough() and flag('false'):
        u = False
    evaluate(v, order(sval, 'unevaluatedItems', u), inst, kw(v, 'unevaluatedItems'), {'#/$defs/s': two})


def s_references():
    """what a reference of any kind leads to is in place, wherever the reference is written"""
    v = dialect()
    items = flag('items')
    u = 'unevaluatedItems' if items else 'unevaluatedProperties'
    s = tuple_schema(v, V('d')) if items else {'properties': {'a': V('d')}}
    kind = choose('$ref', '$dynamicRef', '$recursiveRef')
    assume(kind == '$ref' or (kind == '$recursiveRef') == (v == '2019-09'))
    inst = choose(['x'], ['x', 'y']) if items else choose({'a': 1}, {'a': 1, 'b': 2})
    if kind == '$recursiveRef':
        # the whole is what it refers to, from a subschema
        sub = both({'$recursiveRef': '#'}, {u: False}) if flag('reference first') else both({u: False}, {'$recursiveRef': '#'})
        sval = both(s, {'anyOf': [True, {'type': 'null', 'not': True}], 'properties': {'q': sub}} if not items else {'properties': {'q': sub}})
        if not items:
            sval['properties']['a'] = V('d')
        evaluate(v, sval, {'q': inst}, kw(v, u), {'#': sval})
        return
    ref = choose('#/$defs/s', '#s')
    sval = {'$defs': {'s': both({'$anchor' if kind == '$ref' else '$dynamicAnchor': 's'}, s)}}
    for k in choose(*((kind, u), (u, kind))):
        sval[k] = False if k == u else ref
    evaluate(v, sval, inst, kw(v, u), {ref: sval['$defs']['s']})


def s_inplace_contains():
    """2020-12: items matching contains are evaluated, wherever contains stands"""
    v = choose('2019-09', dialects_2020())
    s, t = {'contains': V('s')}, tuple_schema(v, V('t'))
    sval = inplace(s, t)
    sval['$defs'] = {'s': s}
    evaluate(v, order(sval, 'unevaluatedItems', False), choose(['x'], ['x', 'y']), kw(v, 'unevaluatedItems'), {'#/$defs/s': s})


def s_nested_items():
    v = dialects()
    x = choose(False, V('u'), True)
    t = tuple_schema(v, True)
    sval = choose({'allOf': [t, {'unevaluatedItems': x}]}, {'allOf': [both(t, {'unevaluatedItems': x})]}, both(t, {'allOf': [{'unevaluatedItems': x}]}),
                  {'anyOf': [{'unevaluatedItems': x}, t]}, {'if': {'unevaluatedItems': x}, 'then': t}, {'anyOf': [{'items': V('i')}, t]}, {'not': {'items': V('i')}})
    evaluate(v, order(sval, 'unevaluatedItems', choose(False, V('w'))), choose(['x'], ['x', 'y']), kw(v, 'unevaluatedItems'))


def s_item_locations():
    v = dialect()
    t = tuple_schema(v, True)
    sval = choose({'items': both(t, {'unevaluatedItems': False})}, {'contains': both(t, {'unevaluatedItems': False})}, {'items': both({'not': both(t, V('n'))}, {'unevaluatedItems': False})},
                  {'allOf': [{'items': t}], 'unevaluatedItems': False}, {'allOf': [{'contains': t}], 'items': {'unevaluatedItems': False}},
                  both(tuple_schema(v, tuple_schema(v, True, True)), {'unevaluatedItems': False}))
    evaluate(v, sval, choose([['x', 'y'], 'z'], [['x'], ['y']], [['x', 'y'], ['z']], [[], ['x']], [['x'], ['y', 'z']]), kw(v, 'unevaluatedItems'))


def s_many():
    """more than ten items or properties"""
    v = dialect()
    n = 12
    m = choose(2, 9, 10, 11)
    inst = ['x' if i >= m else i for i in range(n)]
    rest = {'unevaluatedItems': choose({'type': 'string'}, {'type': 'integer'})}
    tuples = ('items', 'items') if v == '2019-09' else ('prefixItems', 'prefixItems')
    k = choose('tuple', 'two tuples', 'contains', 'properties')
    if k == 'tuple':
        sval = {tuples[0]: [True] * m, **rest}
    elif k == 'two tuples':
        sval = {'allOf': [{tuples[0]: [True] * m}, {tuples[1]: [True] * choose(1, 9, 10)}], **rest}
    elif k == 'contains':
        sval = {'contains': {'type': 'integer'}, **rest}
    else:
        inst = {'p%d' % i: x for i, x in enumerate(inst)}
        sval = {'properties': {'p%d' % i: True for i in range(m)}, 'patternProperties': {'p1.': True}, 'unevaluatedProperties': rest['unevaluatedItems']}
    res = schema(v, sval).evaluate(JSON(inst))
    valid, anns, errs = ev(Env(v), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, list(sval)[-1]), sval, inst)


def s_shared_target():
    """one schema referred to from branches that fail and branches that pass"""
    v = dialect()
    d = {'properties': {'a': V('d')}}
    r = {'$ref': '#/$defs/d'}
    failing = {'allOf': [r, False]} if flag('nested') else {'$ref': '#/$defs/d', 'not': True}
    one = choose({'anyOf': [failing, r]}, {'anyOf': [r, failing]}, {'anyOf': [failing, True]}, {'oneOf': [failing, r]}, {'not': failing, 'allOf': [r]}, {'allOf': [r], 'not': failing},
                 {'if': failing, 'else': r}, {'if': r, 'then': r}, {'properties': {'x': r}, 'allOf': [r]}, {'anyOf': [failing, {'allOf': [{'not': {'not': r}}]}]})
    sval = {'$defs': {'d': d}, 'unevaluatedProperties': False}
    sval.update(one)
    evaluate(v, sval, choose({'a': 1}, {'a': 1, 'b': 2}, {'x': {'a': 1}, 'a': 1}), kw(v, 'unevaluatedProperties'), {'#/$defs/d': d})
