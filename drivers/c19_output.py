"""C19: every output format reports the verdict, and exactly the annotations or errors
of the evaluation, each with the right locations."""
from jschon import JSONPointer
from schemas import *
from spec_schema import *

REFS = ('$ref', '$dynamicRef', '$recursiveRef')
APPLICATORS = ('allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'dependentSchemas', '$ref', '$dynamicRef', '$recursiveRef', 'prefixItems', 'items', 'additionalItems', 'contains', 'minContains', 'maxContains',
               'unevaluatedItems', 'unevaluatedProperties', 'properties', 'patternProperties', 'additionalProperties', 'propertyNames')
# below these a failure need not make the whole fail, or need not be looked for
UNSURE = ('if', 'not', 'oneOf', 'contains', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties', 'additionalItems')


def example():
    a, b = {'title': 't', 'x-v': 'a'}, {'x-v': 'b', 'description': ['d']}
    sval = choose({'x-v': 'a', 'title': 't'}, {'allOf': [a, b]}, {'anyOf': [a, {'not': b}]}, {'oneOf': [a, b]}, {'if': a, 'then': b, 'else': {'title': 'e', 'not': {}}},
                  {'properties': {'p': a, 'q': b}, 'additionalProperties': {'title': 'u', 'type': 'null'}}, {'patternProperties': {'p|q': a, '/~': b}, 'propertyNames': {'x-v': 'n'}},
                  {'$ref': '#/$defs/a', 'properties': {'p': {'$ref': '#/$defs/b'}}}, {'properties': {'p': {'properties': {'': {'$ref': '#/$defs/a~1~0%25 '}}}}, 'title': 'x'},
                  {'dependentSchemas': {'p': a, 'nope': b, 'q': {'required': ['z']}}}, {'unevaluatedProperties': a, 'properties': {'q': b}},
                  {'$ref': '#/$defs/f'}, {'properties': {'p': {'$ref': '#/$defs/f'}, 'q': {'$ref': '#/$defs/t'}}}, {'anyOf': [{'$ref': '#/$defs/t'}, {'$ref': '#/$defs/f'}], '$ref': '#/$defs/e'})
    sval['$defs'] = {'f': False, 't': True, 'e': {}, 'a': a, 'b': b, 'a/~% ': {'title': 'odd', 'x-v': 'o'}}
    inst = choose({'p': {'': 1}, 'q': 2, '/~': 3}, {}) if flag('object') else 'x'
    return sval, inst


def example_items():
    a, b = {'title': 't', 'x-v': 'a'}, {'x-v': 'b', 'description': ['d']}
    sval = choose({'items': a}, {'contains': a, 'title': 'c'}, {'items': {'items': a, 'title': 'i'}}, {'allOf': [{'items': {'$ref': '#/$defs/b'}}, {'maxItems': 1}]}, {'unevaluatedItems': b}, {'items': False})
    sval['$defs'] = {'a': a, 'b': b}
    return sval, choose([], [1], [[1], [2, 3]])


def example_many():
    """more than ten items, and properties called alike"""
    sval = choose({'items': {'$ref': '#/$defs/a'}}, {'items': {'items': {'x-v': 'a'}, 'title': 'i'}}, {'contains': {'maximum': 10, 'title': 'c'}}, {'maxItems': 10})
    sval['$defs'] = {'a': {'type': 'integer', 'title': 't'}, 'b': {}}
    return sval, choose([i for i in range(12)], [None if i in (1, 10) else i for i in range(12)])


def example_embedded():
    """references to what has several units of its own, in the same resource and in another"""
    a, b = {'title': 't', 'x-v': 'a'}, {'x-v': 'b'}
    to = choose('http://y.example/emb', '#/$defs/m')
    sval = choose({'$ref': to}, {'properties': {'p': {'$ref': to}}}, {'title': 'u', 'allOf': [{'$ref': to}]})
    sval['$defs'] = {'a': a, 'b': b, 'e': {'$id': 'http://y.example/emb', 'allOf': [a, b]}, 'm': {'properties': {'p': {'anyOf': [a, b]}}, 'anyOf': [b, a]}}
    return sval, {'p': 1}


def refs_of(sval):
    d = sval['$defs']
    return {'http://y.example/emb': d.get('e'), '#/$defs/m': d.get('m'), '#/$defs/a': d['a'], '#/$defs/b': d['b'], '#/$defs/a~1~0%25 ': d.get('a/~% '), '#/$defs/f': d.get('f', None), '#/$defs/t': d.get('t', None), '#/$defs/e': d.get('e', None)}


def made(v, sval):
    """with and without an own URI"""
    if flag('has an $id'):
        sval['$id'] = 'http://x.example/s'
    return schema(v, sval)


def node_at(s, path):
    """the schema node a keyword location leads to, through references"""
    node = s
    for token in JSONPointer(path):
        if isinstance(node, JSONSchema) and token in REFS and isinstance(node.keywords[token].json.value, str):
            node = node.keywords[token].refschema
        elif node.type == 'array':
            node = node[int(token)]
        else:
            node = node[token]
    return node


def check_locations(s, inst, keyword_location, instance_location, absolute):
    node = node_at(s, keyword_location)
    uri = URI(absolute)
    root = DIALECTS.get_schema(uri.copy(fragment=False))
    got = root
    if uri.fragment:
        got = JSONPointer.parse_uri_fragment(uri.fragment).evaluate(root)
    check(got is node, 'absolute-location', 'the absolute location is not that of the keyword', 'Result.absolute_uri', keyword_location, absolute)
    if not isinstance(node, JSONSchema) or keyword_location.split('/')[-1] in REFS:
        holder = node
        while not (isinstance(holder, JSONSchema) and (holder.parent is None or '$id' in holder.data if holder.type == 'object' else holder.parent is None)):
            holder = holder.parent
        check(uri.copy(fragment=False) == holder.uri.copy(fragment=False), 'absolute-location', 'the absolute location is not the canonical one', 'Result.absolute_uri', keyword_location, absolute)
    JSONPointer(instance_location).evaluate(inst)


def run(v, sval, inst):
    s = made(v, sval)
    doc = JSON(inst)
    res = s.evaluate(doc)
    valid, anns, errs = ev(Env(v, refs_of(sval)), sval, inst)
    check(res.valid == valid, 'verdict', 'the verdict is %s where the specification says %s' % (res.valid, valid), kw(v, list(sval)[0]), sval, inst)
    return s, doc, res, valid, anns, errs


def units(node, msgkey, valid, at='keywordLocation'):
    """the units of the basic output, from a verbose output"""
    out = []
    if node['valid'] == valid:
        if msgkey in node:
            out = [{'instanceLocation': node['instanceLocation'], 'keywordLocation': node['keywordLocation'], 'absoluteKeywordLocation': node['absoluteKeywordLocation'], msgkey: node[msgkey]}]
        for child in node.get('annotations' if valid else 'errors', []):
            out = out + units(child, msgkey, valid)
    return out


def condensed(node, msgkey, listkey, valid):
    """a unit of the detailed output, from a verbose output"""
    inner = [condensed(child, msgkey, listkey, valid) for child in node.get(listkey, []) if child['valid'] == valid]
    out = {'instanceLocation': node['instanceLocation'], 'keywordLocation': node['keywordLocation'], 'absoluteKeywordLocation': node['absoluteKeywordLocation']}
    if len(inner) == 1:
        return inner[0]
    if inner:
        out[listkey] = inner
    elif msgkey in node:
        out[msgkey] = node[msgkey]
    return out


def without(xs, ys):
    return [x for x in xs if not any(x == y for y in ys)]


def check_flag_and_basic(v, sval, inst):
    s, doc, res, valid, anns, errs = run(v, sval, inst)
    check(res.output('flag') == {'valid': valid}, 'flag', 'the flag output is not just the verdict', 'jschon/output.py: flag', res.output('flag'))
    out = res.output('basic')
    listkey = 'annotations' if valid else 'errors'
    check(set(out) == {'valid', listkey} and out['valid'] == valid, 'basic', 'the basic output does not report the verdict', 'jschon/output.py: basic', out)
    seen = []
    for unit in out[listkey]:
        check(set(unit) == {'instanceLocation', 'keywordLocation', 'absoluteKeywordLocation', listkey[:-1]}, 'basic', 'a unit of the basic output has other members', 'jschon/output.py: basic', unit)
        check_locations(s, doc, unit['keywordLocation'], unit['instanceLocation'], unit['absoluteKeywordLocation'])
        at = (unit['keywordLocation'], unit['instanceLocation'])
        check(at not in seen, 'basic', 'a location is reported twice', 'jschon/output.py: basic', at)
        seen = seen + [at]
    if valid:
        for k, l, value in anns:
            if 'propertyNames' not in k and not (k[-1] in NAMES + ('contains',) and len(value) == 0):
                check((text(k), text(l)) in seen, 'missing', 'an annotation is missing', 'jschon/output.py: basic', k, l)
    else:
        for k, l in errs:
            if k and k[-1] not in APPLICATORS and not any(x in UNSURE for x in k):
                check((text(k), text(l)) in seen, 'missing', 'the error of a failed keyword is missing', 'jschon/output.py: basic', k, l)
        where = [(text(k), text(l)) for k, l in errs] + [('', '')]
        for at in seen:
            check(at in where, 'error-location', 'an error is reported where nothing failed', 'jschon/output.py: basic', at)


def dialects():
    return dialect() if thorough() else '2020-12'


def s_basic():
    check_flag_and_basic(dialect() if thorough() else choose('2019-09', '2020-12'), *example())


def s_basic_items():
    check_flag_and_basic(dialects(), *example_items())


def s_basic_many():
    check_flag_and_basic('2020-12', *example_many())


def s_basic_embedded():
    check_flag_and_basic(dialects(), *example_embedded())


def s_references_alike():
    """schemas that are equal, one leading to the other, are still told apart"""
    v = dialect()
    key = choose('$ref', 'allOf')
    def doc(last):
        if last:
            return {'x-v': 'end', 'title': 't'}
        return {'$ref': 'd/x', 'title': 't'} if key == '$ref' else {'allOf': [{'$ref': 'd/x'}]}
    for path, last in (('d/d/d/x', True), ('d/d/x', False), ('d/x', False), ('x', False)):
        doc_ = doc(last)
        doc_['$id'] = 'http://x.example/' + path
        if path != 'x' and not last and flag('told apart by the URI only'):
            del doc_['$id']
            s = schema(v, doc_, uri=URI('http://x.example/' + path))
        else:
            s = schema(v, doc_)
    # the schemas without an $id are equal
    if flag('first, too'):
        s = schema(v, doc(False), uri=URI('http://x.example/x'))
    inst = JSON(1)
    out = s.evaluate(inst).output('basic')
    units = out['annotations'] if 'annotations' in out else out['errors']
    tree = s.evaluate(inst).output('verbose')
    while True:
        units.append(tree)
        parts = tree['annotations'] if 'annotations' in tree else tree['errors'] if 'errors' in tree else []
        if not parts:
            break
        for part in parts:
            if part is not parts[0]:
                units.append(part)
        tree = parts[0]
    step = '/$ref' if key == '$ref' else '/allOf/0/$ref'
    paths = {}
    for n, base in ((0, 'x'), (1, 'd/x'), (2, 'd/d/x'), (3, 'd/d/d/x')):
        for at in ('', '/$ref', '/allOf', '/allOf/0', '/allOf/0/$ref', '/title', '/x-v', '/$id'):
            paths[step * n + at] = (base, at)
    ends = [u for u in units if u['keywordLocation'] in (step * 3 + '/title', step * 3 + '/x-v')]
    check(len(ends) >= 1, 'reported', 'a unit is missing behind the references', 'Result.collect', units)
    for u in units:
        base, at = paths[u['keywordLocation']]
        got = u['absoluteKeywordLocation']
        check(got == 'http://x.example/' + base + '#' + at or at == '' and got == 'http://x.example/' + base, 'absolute-location', 'the absolute location is not that of the keyword', 'Result.absolute_uri', u)


def s_filter():
    """basic output with only the annotations named; errors are never filtered"""
    v = dialects()
    a = {'title': 't', 'x-v': 'a'}
    sval, inst = choose(({'properties': {'p': a, 'q': V('b')}}, {'p': 1, 'q': 2}), ({'anyOf': [a, {'not': V('b')}], 'title': 'x'}, 1), ({'if': a, 'then': V('b'), 'title': 't', 'else': {'title': 'e', 'not': {}}}, 1))
    sval['$defs'] = {'a': a, 'b': a}
    names = choose([], ['title'], ('title', 'properties'), {'description', 'x-v'})
    s, doc, res, valid, anns, errs = run(v, sval, inst)
    everything = res.output('basic')
    out = res.output('basic', annotations=names)
    if valid:
        want = [u for u in everything['annotations'] if u['keywordLocation'].split('/')[-1] in names]
        check(out == {'valid': True, 'annotations': want}, 'filter', 'not exactly the named annotations', 'jschon/output.py: basic', out, names)
    else:
        check(out == everything, 'filter', 'errors are left out because of the names of annotations', 'jschon/output.py: basic', out, names)


def check_trees(v, sval, inst):
    s, doc, res, valid, anns, errs = run(v, sval, inst)
    msgkey = 'annotation' if valid else 'error'
    listkey = msgkey + 's'
    basic, detailed, verbose = res.output('basic'), res.output('detailed'), res.output('verbose')
    check(verbose['valid'] == valid, 'verbose', 'the verbose output does not report the verdict', 'jschon/output.py: verbose', verbose)
    flat = units(verbose, msgkey, valid)
    check(not without(flat, basic[listkey]), 'verbose', 'the verbose output reports more than the basic one', 'jschon/output.py: verbose', without(flat, basic[listkey]))
    check(not without(basic[listkey], flat), 'verbose', 'the verbose output reports less than the basic one', 'jschon/output.py: verbose', without(basic[listkey], flat))
    check_verbose(s, doc, verbose)
    want = {'valid': valid, 'instanceLocation': '', 'keywordLocation': '', 'absoluteKeywordLocation': verbose['absoluteKeywordLocation'],
            listkey: [condensed(child, msgkey, listkey, valid) for child in verbose.get(listkey, []) if child['valid'] == valid]}
    check(detailed == want, 'detailed', 'the detailed output is not the verbose output condensed', 'jschon/output.py: detailed', detailed, want)


def check_verbose(s, doc, node):
    check_locations(s, doc, node['keywordLocation'], node['instanceLocation'], node['absoluteKeywordLocation'])
    valid = node['valid']
    check('error' not in node and 'errors' not in node if valid else 'annotation' not in node and 'annotations' not in node, 'verbose', 'a unit mixes annotations and errors', 'jschon/output.py: verbose', node)
    for child in node.get('annotations' if valid else 'errors', []):
        check(child['keywordLocation'].startswith(node['keywordLocation'] + '/'), 'verbose', 'a unit is not below the unit that contains it', 'jschon/output.py: verbose', child['keywordLocation'])
        check_verbose(s, doc, child)


def s_trees():
    check_trees(dialects(), *example())


def s_trees_embedded():
    check_trees(dialects(), *example_embedded())


def s_trees_items():
    check_trees(dialects(), *example_items())


def flatten(unit, valid):
    """(evaluation path of the keyword, instance location, value) of a hierarchical output"""
    out = []
    msg = unit.get('annotations' if valid else 'errors', {})
    for k in msg:
        out = out + [(unit['evaluationPath'] + '/' + escape(k), unit['instanceLocation'], msg[k])]
    for child in unit.get('details', []):
        if child['valid'] == valid:
            out = out + flatten(child, valid)
    return out


def check_hierarchical(v, sval, inst):
    s, doc, res, valid, anns, errs = run(v, sval, inst)
    out = res.output('hierarchical')
    check(out['valid'] == valid and out['evaluationPath'] == '' and out['instanceLocation'] == '', 'hierarchical', 'the hierarchical output does not report the verdict', 'jschon/output.py: hierarchical', out)
    msgkey = 'annotation' if valid else 'error'
    got = flatten(out, valid)
    basic = [(u['keywordLocation'], u['instanceLocation'], u[msgkey]) for u in res.output('basic')[msgkey + 's'] if u['keywordLocation'] != '']
    check(not without(got, basic), 'hierarchical', 'the hierarchical output reports more than the basic one', 'jschon/output.py: hierarchical', without(got, basic))
    check(not without(basic, got), 'hierarchical', 'the hierarchical output reports less than the basic one', 'jschon/output.py: hierarchical', without(basic, got))


def s_hierarchical():
    sval, inst = example()
    assume('additionalProperties' not in sval and 'propertyNames' not in sval and 'unevaluatedProperties' not in sval)
    check_hierarchical(dialects(), sval, inst)


def s_hierarchical_children():
    """keywords whose one subschema applies to several items or properties"""
    a = {'title': 't', 'x-v': 'a'}
    sval, inst = choose(({'items': a}, [1, 2]), ({'additionalProperties': a}, {'p': 1, 'q': 2}), ({'contains': a}, [1, 2]))
    sval['$defs'] = {'a': a, 'b': a}
    check_hierarchical('2020-12', sval, inst)


def s_false():
    """boolean schemas"""
    v = dialect()
    s = JSONSchema(choose(True, False), catalog=DIALECTS, metaschema_uri=URI(uri_of(v)), uri=URI('http://b.example/'))
    res = s.evaluate(JSON(1))
    valid = s.value
    unit = {'instanceLocation': '', 'keywordLocation': '', 'absoluteKeywordLocation': 'http://b.example/#'}
    basic = res.output('basic')
    check(res.output('flag') == {'valid': valid} and basic['valid'] == valid and res.output('verbose')['valid'] == valid and res.output('detailed')['valid'] == valid and res.output('hierarchical')['valid'] == valid,
          'verdict', 'an output does not report the verdict', 'jschon/output.py: basic')
    if valid:
        check(basic['annotations'] == [], 'basic', 'an annotation of a boolean schema', 'jschon/output.py: basic', basic)
    else:
        check(len(basic['errors']) == 1 and basic['errors'][0]['keywordLocation'] == '' and basic['errors'][0]['instanceLocation'] == '', 'basic', 'the error of a false schema is not reported', 'jschon/output.py: basic', basic)


def s_registered():
    """formats registered by the user, with their arguments, beside the standard ones"""
    def mine(result, *args, **kwargs):
        return [result.valid, kwargs]
    f = jschon.output.output_formatter('mine')(mine)
    check(f is mine, 'registered', 'the decorator does not return the function', 'jschon/output.py: output_formatter')
    res = schema('2020-12', {'x-v': 'a'}).evaluate(JSON(1))
    check(res.output('mine', a=1, b=None) == [verdict('a', ''), {'a': 1, 'b': None}], 'registered', 'a registered format is not used', 'jschon/output.py: create_output')
    check(jschon.output.create_output(res, 'mine') == [verdict('a', ''), {}] and res.output('flag') == {'valid': verdict('a', '')}, 'registered', 'a registered format is not used', 'jschon/output.py: create_output')
    name = choose('no such', 'Basic', '')
    try:
        res.output(name)
        fail('unknown-format', 'an unknown output format is accepted', 'jschon/output.py: create_output', name)
    except KeyError:
        pass


def s_pure():
    """making an output changes nothing"""
    v = dialects()
    sval, inst = choose(({'properties': {'p': {'x-v': 'a', 'title': 't'}}, 'anyOf': [{'x-v': 'b'}, {'title': ['x']}]}, {'p': 1}), ({'items': {'if': V('a'), 'then': V('b')}, 'x-k': {'a': []}}, [1, 2]))
    f, g = choose('flag', 'basic', 'detailed', 'verbose', 'hierarchical'), choose('flag', 'basic', 'detailed', 'verbose', 'hierarchical')
    assume(f != g or f == 'basic')
    res = schema(v, sval).evaluate(JSON(inst))
    first = res.output(f)
    before = snapshot(res)
    res.output(g)
    check(snapshot(res) == before, 'changed', 'an output changed the result', 'jschon/output.py: ' + g)
    check(res.output(f) == first, 'changed', 'an output depends on an earlier one', 'jschon/output.py: ' + f)


def snapshot(res):
    return [res.valid, res.passed, str(res.path), str(res.instance.path), res.annotation, res.error, [snapshot(c) for c in res.children.values()]]
