"""C17: evaluation is a function of schema and instance: it changes neither, does not
depend on what was evaluated before, nor on the order of the schema's keywords."""
from schemas import *
from spec_schema import *


def permutations(xs):
    if len(xs) <= 1:
        return [xs]
    out = []
    for i in range(len(xs)):
        for p in permutations(xs[:i] + xs[i + 1:]):
            out.append([xs[i]] + p)
    return out


def order(sval):
    keys = choose(*permutations(list(sval)))
    return {k: sval[k] for k in keys}


def s_order_2020():
    v = choose('2020-12', 'next') if thorough() else '2020-12'
    sval, inst = choose(({'if': V('i'), 'then': V('t'), 'else': V('e')}, 1),
                        ({'contains': V('c'), 'minContains': 2, 'maxContains': 1}, ['x', 'y']),
                        ({'contains': V('c'), 'minContains': 0, 'unevaluatedItems': False}, ['x']),
                        ({'properties': {'a': V('a')}, 'additionalProperties': V('r'), 'patternProperties': {'b': V('b')}}, {'a': 1, 'b': 2}),
                        ({'properties': {'a': V('a')}, 'unevaluatedProperties': False, '$ref': '#/$defs/d'}, {'a': 1, 'b': 2}),
                        ({'patternProperties': {'a': True}, 'unevaluatedProperties': False, 'dependentSchemas': {'a': {'properties': {'b': V('b')}}}}, {'a': 1, 'b': 2}),
                        ({'additionalProperties': V('a'), 'unevaluatedProperties': False, 'properties': {'a': V('p')}}, {'a': 1, 'b': 2}),
                        ({'prefixItems': [V('a')], 'items': V('i'), 'unevaluatedItems': False}, ['x', 'y']),
                        ({'prefixItems': [V('a')], 'contains': V('c'), 'unevaluatedItems': V('u')}, ['x', 'y']),
                        ({'contentMediaType': 'm', 'contentSchema': True, 'contentEncoding': 'e'}, 'text'),
                        ({'title': 't', 'x-v': 'v', 'x-other': 1}, 1))
    d = {'properties': {'b': V('d')}}
    if '$ref' in sval:
        sval['$defs'] = {'d': d}
    evaluate(v, order(sval), inst, kw(v, list(sval)[-1]), {'#/$defs/d': d})


def s_order_in_place():
    """unevaluated* after every in-place keyword"""
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    p = {'properties': {'a': V('p')}}
    one = choose({'allOf': [p]}, {'anyOf': [p, True]}, {'oneOf': [p]}, {'not': {'not': p}}, {'if': p}, {'if': True, 'then': p}, {'if': False, 'else': p}, {'dependentSchemas': {'a': p}}, {'$ref': '#/$defs/d'})
    sval = {'unevaluatedProperties': False, 'title': 't'}
    sval.update(one)
    sval = order(sval)
    sval['$defs'] = {'d': p}
    evaluate(v, sval, {'a': 1}, kw(v, 'unevaluatedProperties'), {'#/$defs/d': p})


def s_order_items():
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    p = {'items': [V('p')]} if v == '2019-09' else {'prefixItems': [V('p')]}
    one = choose({'allOf': [p]}, {'anyOf': [p, True]}, {'oneOf': [p]}, {'not': {'not': p}}, {'if': p}, {'if': True, 'then': p}, {'if': False, 'else': p}, {'$ref': '#/$defs/d'})
    sval = {'unevaluatedItems': False, 'title': 't'}
    sval.update(one)
    sval = order(sval)
    sval['$defs'] = {'d': p}
    evaluate(v, sval, ['x'], kw(v, 'unevaluatedItems'), {'#/$defs/d': p})


def s_order_2019():
    v = '2019-09'
    sval, inst = choose(({'items': [V('a')], 'additionalItems': V('i'), 'unevaluatedItems': False}, ['x', 'y']),
                        ({'items': V('a'), 'additionalItems': V('i'), 'unevaluatedItems': False}, ['x', 'y']),
                        ({'if': V('i'), 'then': V('t'), 'else': V('e')}, 1),
                        ({'contains': V('c'), 'minContains': 2, 'maxContains': 1}, ['x', 'y']),
                        ({'properties': {'a': V('a')}, 'additionalProperties': V('r'), 'unevaluatedProperties': False}, {'a': 1, 'b': 2}),
                        ({'contentMediaType': 'm', 'contentSchema': True, 'contentEncoding': 'e'}, 'text'))
    evaluate(v, order(sval), inst, kw(v, list(sval)[-1]))


class Late(Keyword):
    """a user's keyword that depends on another"""
    key = 'x-late'
    depends_on = 'x-mid', 'x-v'

    def evaluate(self, instance, result):
        result.annotate([result.sibling(instance, k) is not None for k in ('x-v', 'x-mid', 'x-late')])


class Mid(Keyword):
    key = 'x-mid'
    depends_on = 'x-v',

    def evaluate(self, instance, result):
        result.annotate(result.sibling(instance, 'x-v') is not None)


for _v in ('2019-09', '2020-12', 'next'):
    DIALECTS.get_metaschema(URI(uri_of(_v))).kwclasses.update({'x-late': Late, 'x-mid': Mid})


def s_dependencies():
    """a keyword is evaluated after all keywords of the schema it depends on"""
    v = dialect()
    keys = choose(*permutations(['x-v', 'x-mid', 'x-late', 'title']))
    res = schema(v, {k: 'x' for k in keys}).evaluate(JSON(1))
    notes = {a['keywordLocation']: a['annotation'] for a in res.output('basic')['annotations']} if res.valid else None
    if notes is not None:
        check(notes['/x-late'] == [True, True, True] and notes['/x-mid'] is True, 'dependency', 'a keyword was evaluated before one it depends on', JSONSchema, keys, notes)


def s_dependencies_partial():
    """keywords a schema does not have are no obstacle"""
    keys = choose(['x-late'], ['x-late', 'x-mid'], ['x-late', 'x-v'], ['unevaluatedProperties', 'x-v'], ['then', 'title'], ['maxContains', 'x-late', 'minContains'])
    s = schema('2020-12', {k: True if k in ('unevaluatedProperties', 'then') else 1 for k in keys})
    check(sorted(s.keywords) == sorted(keys) and sorted(s.value) == sorted(keys), 'keyword-lost', 'keywords are lost', JSONSchema, keys, list(s.keywords))


D = {'properties': {'b': V('d')}}
WIDE = [
    ({'allOf': [V('a'), {'type': 'number', 'enum': [1, 2]}], 'not': V('c'), '$ref': '#/$defs/x', '$defs': {'x': {'title': ['t']}}}, 1, 5),
    ({'prefixItems': [V('a')], 'items': V('b'), 'contains': V('c'), 'unevaluatedItems': False}, ['x', 'y'], [['p']]),
    ({'properties': {'k': {'propertyNames': {'pattern': 'x'}}}, 'additionalProperties': {'$ref': '#'}}, {'k': {'x': 1}, 'l': {'k': {'y': 1}}}, {'z': {}}),
    ({'anyOf': [V('a'), {'properties': {'p': V('p')}}], 'oneOf': [V('o'), {'required': ['q']}], 'unevaluatedProperties': V('u')}, {'p': 1, 'q': 2}, {'p': 2}),
    ({'if': {'minProperties': 2}, 'then': V('t'), 'else': {'dependentSchemas': {'p': V('d')}, 'dependentRequired': {'p': ['q']}}}, {'p': 1}, {'p': 1, 'q': 1}),
    ({'examples': [['e']], 'default': {'d': [1]}, 'x-other': [[]], 'const': [1], 'uniqueItems': True, 'contains': {'maximum': 5, 'multipleOf': 2}, 'minContains': 0}, [1], [2, 2]),
    ({'$dynamicRef': '#m', '$defs': {'m': {'$dynamicAnchor': 'm', 'x-v': 'm'}}}, 1, 'x'),
    ({'format': 'json-pointer', 'maxLength': 3, 'contentMediaType': 'm', 'contentSchema': {'title': 't'}, 'minLength': 1, 'pattern': 'a'}, '/a', 'bbbb'),
]


def s_no_writes():
    """evaluation and output write nothing to the schema, the instance or the catalog"""
    v = choose('2019-09', '2020-12') if thorough() else '2020-12'
    i = choose(len(WIDE))
    sval, one, two = WIDE[i]
    assume(v != '2019-09' or '$dynamicRef' not in sval)
    s = schema(v, sval)
    inst = JSON(choose(one, two))
    before, text = repr(s.value), str(inst)
    mark()
    res = s.evaluate(inst)
    for f in ('flag', 'basic', 'detailed', 'verbose', 'hierarchical'):
        res.output(f)
    list(res.collect_annotations())
    list(res.collect_errors())
    ws = overwrites()
    unmark()
    for o, what, where in ws:
        fail('write', 'evaluation changes %s of an existing %s' % (what, typename(o)), where)
    check(repr(s.value) == before and str(inst) == text, 'changed', 'evaluation changes the schema or the instance', JSONSchema.evaluate)


def s_again():
    """what was evaluated before makes no difference: neither to another instance nor to
    the same one; compared with the same schema built anew"""
    v = choose('2019-09', '2020-12') if thorough() else '2020-12'
    i = choose(len(WIDE))
    sval, one, two = WIDE[i]
    assume(v != '2019-09' or '$dynamicRef' not in sval)
    s = schema(v, sval, uri=URI('http://h.example/'), cacheid='one')
    a, b = JSON(one), JSON({'other': two})['other']
    form = 'verbose' if thorough() else 'basic'
    first = s.evaluate(a).output(form)
    after = s.evaluate(b).output(form)
    again = s.evaluate(a).output(form)
    fresh = schema(v, sval, uri=URI('http://h.example/'), cacheid='two').evaluate(JSON({'other': two})['other']).output(form)
    check(first == again, 'history', 'a second evaluation of the same instance has another result', JSONSchema.evaluate, first, again)
    check(after == fresh, 'history', 'the same schema built anew gives another result', JSONSchema.evaluate, after, fresh)


SMALL = [
    ({'contains': V('c')}, ['x', 'y'], ['p', 'q']),
    ({'contains': V('c'), 'minContains': 2}, ['x', 'y'], ['p', 'q', 'r']),
    ({'contains': V('c'), 'maxContains': 1}, ['x', 'y'], ['p']),
    ({'items': V('i')}, ['x', 'y'], ['p']),
    ({'prefixItems': [V('a'), V('b')], 'unevaluatedItems': V('u')}, ['x', 'y', 'z'], ['p']),
    ({'properties': {'a': V('a')}, 'additionalProperties': V('r')}, {'a': 1, 'b': 2}, {'c': 1, 'a': 2}),
    ({'patternProperties': {'a': V('a'), 'b': V('b')}, 'additionalProperties': False}, {'ab': 1}, {'c': 2, 'a': 1}),
    ({'propertyNames': V('n')}, {'a': 1, 'b': 2}, {'c': 1}),
    ({'properties': {'a': V('a')}, 'unevaluatedProperties': False}, {'a': 1}, {'c': 1}),
    ({'anyOf': [V('a'), V('b')]}, 1, 2), ({'oneOf': [V('a'), V('b')]}, 1, 2), ({'allOf': [V('a'), V('b')]}, 1, 2), ({'not': V('a')}, 1, 2),
    ({'if': V('i'), 'then': V('t'), 'else': V('e')}, 1, 2),
    ({'dependentSchemas': {'a': V('d')}, 'dependentRequired': {'a': ['b']}}, {'a': 1, 'b': 1}, {'b': 1}),
    ({'uniqueItems': True}, [1, 2], [1, 1]), ({'uniqueItems': True}, [1, 1], [2, 1]), ({'required': ['a']}, {}, {'a': 1}), ({'enum': [1, 'x']}, 1, 2), ({'const': {'a': []}}, {'a': []}, 2),
    ({'type': ['string', 'null']}, None, 1), ({'pattern': 'a'}, 'a', 'b'), ({'format': 'json-pointer'}, 'a', '/b'),
    ({'contentMediaType': 'm', 'contentSchema': True}, 'a', 1), ({'x-v': 'v', 'x-other': 1, 'title': 't'}, 1, 2),
    ({'minLength': 2, 'maxLength': 3, 'minimum': 1, 'maximum': 2, 'multipleOf': 2}, 'a', 3), ({'minItems': 1, 'maxItems': 1, 'minProperties': 1, 'maxProperties': 1}, [], {}),
    ({'$ref': '#/$defs/a', '$defs': {'a': V('a')}}, 1, 2),
]


def s_again_keywords():
    """... for each keyword"""
    v = choose('2020-12', 'next') if thorough() else '2020-12'
    i = choose(len(SMALL))
    sval, one, two = SMALL[i]
    s = schema(v, sval, uri=URI('http://h.example/'), cacheid='one')
    if flag('the same instance'):
        two = one
    a, b = JSON(one), JSON({'other': two})['other']
    s.evaluate(a)
    after = s.evaluate(b).output('basic')
    fresh = schema(v, sval, uri=URI('http://h.example/'), cacheid='two').evaluate(JSON({'other': two})['other']).output('basic')
    check(after == fresh, 'history', 'the same schema built anew gives another result', JSONSchema.evaluate, after, fresh)


def s_shared_instance():
    """evaluating parts of an instance, and other schemas on it, in between"""
    v = choose('2019-09', '2020-12')
    inst = JSON({'p': {'p': 1}, 'q': ['x']})
    s = schema(v, {'properties': {'p': {'properties': {'p': V('a')}, 'unevaluatedProperties': False}}, 'unevaluatedProperties': V('u')})
    t = schema(v, {'additionalProperties': {'x-v': 't'}})
    first = s.evaluate(inst).output('verbose')
    t.evaluate(inst)
    s.evaluate(inst['p'])
    s['properties']['p'].evaluate(inst['p'])
    check(s.evaluate(inst).output('verbose') == first, 'history', 'a second evaluation of the same instance has another result', JSONSchema.evaluate)


def has_prefix(v):
    return 'items' if v == '2019-09' else 'prefixItems'


def s_again_unevaluated():
    """... for the unevaluated keywords with boolean subschemas"""
    v = dialect()
    k = choose('unevaluatedProperties', 'additionalProperties', 'unevaluatedItems', 'items', 'contains')
    sval = {k: True}
    if k == 'unevaluatedProperties' and flag('more'):
        sval.update(choose({'properties': {'a': True}}, {'anyOf': [{'required': ['a'], 'properties': {'b': {}}}, True]}, {'if': {'required': ['a']}, 'then': {'additionalProperties': True}}))
    if k == 'unevaluatedItems' and flag('more'):
        sval['anyOf'] = [{'minItems': 2, has_prefix(v): [{}, {}]}, True]
    one, two = choose(({'a': 1}, {'b': 2, 'c': 3}), ({'a': 1, 'b': 2}, {'b': 2}), ({}, {'a': 1})) if k.endswith('Properties') else choose((['x'], ['y', 'z']), (['x', 'y'], ['z']), ([], [1]))
    s = schema(v, sval, uri=URI('http://h.example/'), cacheid='one')
    s.evaluate(JSON(one))
    after = s.evaluate(JSON(two)).output('basic')
    fresh = schema(v, sval, uri=URI('http://h.example/'), cacheid='two').evaluate(JSON(two)).output('basic')
    check(after == fresh, 'history', 'the same schema built anew gives another result', JSONSchema.evaluate, after, fresh)


def s_after_change():
    """an instance that was changed since it was evaluated is evaluated as it is now"""
    v = choose('2019-09', '2020-12')
    sval, key, val = choose(({'properties': {'a': {'type': 'integer', 'title': 't'}}, 'additionalProperties': False}, 'a', 'x'),
                            ({'properties': {'a': {'properties': {'b': {'type': 'integer'}}}}}, 'a', {'b': 'x'}),
                            ({'required': ['a'], 'minProperties': 2}, 'b', 1), ({'enum': [{'a': 1}]}, 'a', 2), ({'const': {'a': 1}}, 'b', 1), ({'unevaluatedProperties': False, 'properties': {'a': {}}}, 'b', 1))
    s = schema(v, sval, uri=URI('http://h.example/'), cacheid='one')
    doc = JSON({'a': 1})
    first = s.evaluate(doc)
    before = first.output('basic')
    doc[key] = val
    again = s.evaluate(doc).output('basic')
    fresh = schema(v, sval, uri=URI('http://h.example/'), cacheid='two').evaluate(JSON(doc.value)).output('basic')
    check(again == fresh, 'history', 'a changed instance is evaluated as it was before', JSONSchema.evaluate, again, fresh)
    check(first.output('basic') == before, 'history', 'an earlier result is changed by a later evaluation', JSONSchema.evaluate)


def s_order_of_many():
    """... for schemas with many keywords, in the least convenient order"""
    v = choose('2019-09', '2020-12')
    first, inst = choose((['unevaluatedProperties', 'additionalProperties'], {'a': 1, 'b': 2}), (['unevaluatedProperties'], {'a': 1, 'b': 2}), (['then', 'else'], {'a': 1}), (['unevaluatedItems'], ['x', 'y']),
                         (['minContains', 'maxContains'], ['x', 'y', 'x']), (['contentSchema'], 'text'))
    sval = {}
    more = {'unevaluatedProperties': False, 'additionalProperties': {'type': 'integer', 'title': 'a'}, 'then': V('t'), 'else': V('e'), 'unevaluatedItems': False, 'minContains': 2, 'maxContains': 2, 'contentSchema': True}
    for k in first:
        sval[k] = more[k]
    for i in range(choose(0, 6, 20, 60)):
        sval['x-other-%d' % i] = i
    sval.update({'title': 't', 'description': 'd', 'examples': [], 'default': 1, 'type': ['object', 'array', 'string'], 'contentMediaType': 'm', 'contentEncoding': 'e', 'contains': {'const': 'x'},
                 'properties': {'a': {'title': 'p'}}, 'patternProperties': {'b': {'title': 'q'}}, 'if': V('i'), 'prefixItems' if v == '2020-12' else 'items': [True] if v == '2020-12' else [True, True]})
    if v == '2020-12':
        sval['items'] = {'title': 'i'}
    more_steps(2000000)
    evaluate(v, sval, inst, kw(v, first[0]))
