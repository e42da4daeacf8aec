"""C16: annotations are reported exactly for what passed: with the keyword's value, at
the location of the instance, and never from anything that failed."""
from schemas import *
from spec_schema import *


def instance():
    return choose(None, True, 1, 'x', ['y'], {'a': 1})


def s_plain():
    """annotation keywords apply to every instance of their types, and never fail"""
    v = dialect()
    k = choose('title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', 'contentMediaType', 'contentEncoding', 'x-unknown', 'y')
    x = choose('t', False, 0, [], {'k': [1]}, string('text'))
    evaluate(v, {k: x}, instance(), kw(v, k))


def s_null():
    """a null annotation value is no annotation, and no failure"""
    v = dialect()
    res = schema(v, {choose('title', 'default', 'examples', 'x-unknown'): None}).evaluate(JSON(1))
    check(res.valid, 'verdict', 'an annotation fails', kw(v, 'title'))


def s_content():
    v = dialect()
    sval = {}
    for k in choose(['contentSchema'], ['contentMediaType', 'contentSchema'], ['contentSchema', 'contentMediaType'], ['contentSchema', 'contentEncoding', 'contentMediaType']):
        sval[k] = {'type': 'null', 'title': 't'} if k == 'contentSchema' else choose('m', '')
    evaluate(v, sval, instance(), kw(v, 'contentSchema'))


def s_format():
    """format annotates unless enabled"""
    v = dialect()
    evaluate(v, {'format': choose('json-pointer', 'date', 'unheard-of')}, instance(), kw(v, 'format'))


def s_static():
    v = dialect()
    evaluate(v, choose({'$comment': 'c'}, {'$defs': {'a': False, 'b': V('b')}}, {'$anchor': 'a'}, {'$id': 'http://x.example/'}), instance(), kw(v, '$comment'))


def s_near_known():
    """keywords that merely resemble known ones are unknown"""
    v = dialect()
    k = choose('type', 'minimum', 'not', 'properties', '$ref', '$id', 'unevaluatedItems') if thorough() else choose('type', 'not', '$id')
    k = choose(' ' + k, k + ' ', k + '\n', k.upper(), k.capitalize(), k + 's', k[1:], '$' + k, 'x-' + k, k + '\u200b', k.replace('t', '\u0442'), k.title() + '$', '/' + k, '"' + k + '"')
    assume(k != 'not' and k not in DIALECTS.get_metaschema(URI(uri_of(v))).kwclasses)
    evaluate(v, {k: choose({}, 'string', '#/$defs/x', False)}, instance(), kw(v, 'type'))


def s_unknown_twice():
    """schemas with different unknown keywords do not influence one another"""
    v = dialect()
    schema(v, {'x-one': 1})
    schema(v, {'x-two': {'a': [2]}, 'X-one': 0})
    evaluate(v, {'x-one': 5, 'x-two': [6], 'X-one': 7}, instance(), kw(v, 'x-one'))


def leaf(i):
    """a schema with an annotation that may fail, in either order"""
    if i == 1 and flag('annotation last'):
        return {'x-v': 'v%d' % i, 'title': 't%d' % i}
    return {'title': 't%d' % i, 'x-v': 'v%d' % i}


def s_dropped_in_place():
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    a, b = leaf(1), leaf(2)
    sval = choose({'allOf': [a, b]}, {'anyOf': [a, b]}, {'oneOf': [a, b]}, {'not': a}, {'not': {'not': a}}, {'if': a, 'then': b}, {'if': a, 'else': b}, {'if': a}, {'dependentSchemas': {'k': a}},
                  {'$ref': '#/$defs/a'}, {'anyOf': [{'allOf': [a]}, {'title': 'u'}]}, {'not': {'anyOf': [a, b]}}, {'oneOf': [{'title': 'u'}, {'not': a}]}, {'if': {'not': a}, 'then': b})
    sval['$defs'] = {'a': a}
    if flag('sibling'):
        sval['description'] = 'd'
        sval['x-v'] = 's'
    evaluate(v, sval, {'k': 1}, kw(v, list(sval)[0]), {'#/$defs/a': a})


def s_dropped_children():
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    a, b = leaf(1), leaf(2)
    sval = choose({'contains': a}, {'items': a}, {'contains': a, 'minContains': 0}, {'contains': a, 'items': b}, {'anyOf': [{'items': a}, {'title': 'u'}]},
                  {'if': {'contains': a}, 'then': True}, {'not': {'items': a}}, {'unevaluatedItems': a})
    evaluate(v, sval, [1, 'x'], kw(v, list(sval)[0]))


def s_dropped_properties():
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    a, b = leaf(1), leaf(2)
    sval = choose({'properties': {'p': a, 'q': b}}, {'patternProperties': {'p': a, 'q': b}}, {'additionalProperties': a}, {'properties': {'p': a}, 'additionalProperties': b},
                  {'anyOf': [{'properties': {'p': a}}, {'properties': {'q': b}}]}, {'unevaluatedProperties': a}, {'not': {'properties': {'p': a, 'q': b}}},
                  {'if': {'properties': {'p': a}}, 'then': {'properties': {'q': b}}})
    evaluate(v, sval, {'p': 1, 'q': 2}, kw(v, list(sval)[0]))


def s_several():
    """keywords that annotate with names and indices name all of them"""
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    a = leaf(1)
    key = choose('patternProperties', 'additionalProperties', 'unevaluatedProperties', 'properties', 'contains', 'dependentSchemas')
    if key == 'contains':
        evaluate(v, {'contains': choose({'type': 'null'}, {'type': ['null', 'string']}), 'title': 't'}, choose([None, None, None], [1, None, 'x', None], [None, 1, 2, None, 3]), kw(v, key))
        return
    arg = {'p': a} if key == 'patternProperties' else {'p': a, 'pq': {}, 'ap': {}, 'z': {}} if key in ('properties', 'dependentSchemas') else a
    evaluate(v, {key: arg}, {'p': 1, 'pq': 1, 'ap': 1, 'Pp': 1} if flag('four') else {'p': 1, 'ap': 1}, kw(v, key))


def s_dropped_deep():
    """nothing of what lies below a dropped keyword survives, at any depth"""
    v = dialect() if thorough() else choose('2019-09', '2020-12')
    a = {'title': 't'}
    sub = choose({'properties': {'p': {'properties': {'q': {'properties': {'r': a}}}}}}, {'additionalProperties': {'allOf': [{'additionalProperties': {'patternProperties': {'r': a}}}]}},
                 {'allOf': [{'title': 'u', 'properties': {'p': {'title': 'u', 'dependentSchemas': {'q': {'title': 'u', 'properties': {'q': a}}}}}}]})
    sub['x-v'] = 's'
    inst = {'p': {'q': {'r': 1}}}
    how = choose('not', 'contains', 'not not')
    if how == 'contains':
        evaluate(v, {'contains': sub, 'minContains': 0}, [inst, inst], kw(v, 'contains'))
    elif how == 'not':
        evaluate(v, {'not': sub}, inst, kw(v, 'not'))
    else:
        evaluate(v, {'not': {'not': sub}}, inst, kw(v, 'not'))


def s_collect():
    """collect_annotations: what survived, by instance and keyword"""
    v = choose('2019-09', '2020-12')
    a = leaf(1)
    sval = choose({'properties': {'p': a, 'q': {'title': 'u'}}, 'title': 'r'}, {'anyOf': [a, {'title': 'u'}], 'title': 'r'}, {'not': a, 'title': 'r'}, {'if': a, 'title': 'r'})
    inst = JSON({'p': 1, 'q': 2})
    res = schema(v, sval).evaluate(inst)
    valid, anns, errs = ev(Env(v), sval, {'p': 1, 'q': 2})
    where, at = choose((None, None), (inst, ()), (inst['p'], ('p',)), (inst['q'], ('q',)))
    key = choose(None, 'title', 'x-v', 'properties', 'default')
    want = [x for k, l, x in anns if (at is None or l == at) and (key is None or k[-1] == key)]
    if where is None and key is None and flag('no arguments'):
        got = list(res.collect_annotations())
    elif key is None:
        got = list(res.collect_annotations(where))
    else:
        got = list(res.collect_annotations(where, key))
    check(len(got) == len(want) and all(any(x == y for y in got) for x in want), 'collect-annotations', 'collect_annotations yields other annotations', 'Result.collect_annotations', got, want)
    errors = list(res.collect_errors())
    check(bool(errors) == (not res.valid), 'collect-errors', 'collect_errors yields errors of a valid result, or none of an invalid one', 'Result.collect_errors', errors)
