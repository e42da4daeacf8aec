"""C18: every reference leads to exactly the schema its URI identifies, resolved
against the base URI of the schema that contains it (statically, or through the
dynamic scope where the keyword says so)."""
import json as hostjson
from jschon.exc import JschonError, CatalogError, JSONSchemaError
from schemas import *
from spec_schema import *


def leads_to(v, s, label, at, inst=1, where=''):
    """the schema accepts exactly what the schema with the label accepts"""
    res = s.evaluate(JSON(inst))
    if label is True or label is False:
        want = label
    else:
        want = verdict(label, where)
    check(res.valid == want, 'target', 'a reference leads to another schema than the one it identifies', at, label, res.valid)


def s_pointer():
    """fragments that are JSON pointers, from the root of the containing resource"""
    v = dialect()
    doc = {'$defs': {'d': V('d'), 'a/b': V('slash'), 'a~b': V('tilde'), 'a b%': V('space'), '~1': V('t1'), '': V('empty'), '0': V('zero'),
                     'n': {'allOf': [V('n0'), {'properties': {'p': V('np')}}], 'not': False}, 't': True, 'f': False}}
    ref, label = choose(('#/$defs/d', 'd'), ('#/$defs/a~1b', 'slash'), ('#/$defs/a~0b', 'tilde'), ('#/$defs/a%20b%25', 'space'), ('#/$defs/~01', 't1'), ('#/$defs/', 'empty'),
                        ('#/$defs/0', 'zero'), ('#/$defs/n/allOf/0', 'n0'), ('#/$defs/n/allOf/1/properties/p', 'np'), ('#/$defs/t', True), ('#/$defs/f', False), ('#/$defs/n/not', False))
    base = choose('none', '$id', 'uri')
    if base == '$id':
        doc['$id'] = 'http://base.example/dir/doc'
    how = choose('$ref', 'dynamic')
    assume(how == '$ref' or v != '2019-09')
    doc['$ref' if how == '$ref' else '$dynamicRef'] = ref
    s = schema(v, doc, uri=URI('http://base.example/given')) if base == 'uri' else schema(v, doc)
    leads_to(v, s, label, kw(v, '$ref' if how == '$ref' else '$dynamicRef'))


def s_anchors():
    v = dialect()
    doc = {'$id': 'http://base.example/doc', '$defs': {'d': {'$anchor': 'here', 'x-v': 'd'}, 'e': {'$id': 'other', '$anchor': 'here', 'x-v': 'e', '$defs': {'f': {'$anchor': 'deep', 'x-v': 'f'}}}}}
    ref, label = choose(('#here', 'd'), ('other#here', 'e'), ('other#deep', 'f'), ('http://base.example/other#here', 'e'), ('doc#here', 'd'), ('http://base.example/doc#here', 'd'),
                        ('/other', 'e'), ('other#', 'e'), ('other', 'e'), ('other#/$defs/f', 'f'), ('doc#/$defs/e', 'e'), ('#/$defs/e/$defs/f', 'f'), ('./x/../other#deep', 'f'), ('?q', None), ('#nowhere', None), ('other#/$defs/g', None), ('elsewhere', None))
    doc['$ref'] = ref
    if label is None:
        try:
            schema(v, doc)
            fail('unresolvable', 'a reference to nothing is accepted', kw(v, '$ref'), ref)
        except JschonError:
            pass
        return
    leads_to(v, schema(v, doc), label, kw(v, '$ref'))


def s_base_uris():
    """references resolve against the nearest enclosing $id, whatever the depth"""
    v = dialect()
    a = {'$id': 'http://one.example/a/', '$defs': {'x': {'$id': 'x', 'x-v': 'one-x'}, 'b': {'$id': 'http://two.example/b/', '$defs': {'x': {'$id': 'x', 'x-v': 'two-x'}, 'c': {'$id': 'c/', '$defs': {'x': {'$id': 'x', 'x-v': 'c-x'}}}}}}}
    where, label = choose(('root', 'one-x'), ('b', 'two-x'), ('c', 'c-x'), ('in b', 'two-x'), ('in c', 'c-x'))
    b = a['$defs']['b']
    c = b['$defs']['c']
    top = '$ref'
    if where == 'root':
        a['allOf'] = [{'$ref': 'x'}]
    elif where == 'b':
        b['$ref'] = 'x'
        a['$ref'] = 'http://two.example/b/'
    elif where == 'c':
        c['$ref'] = 'x'
        a['$ref'] = 'http://two.example/b/c/'
    elif where == 'in b':
        b['anyOf'] = [{'not': {'not': {'$ref': 'x'}}}]
        a['$ref'] = 'http://two.example/b/'
    else:
        c['properties'] = {'p': {'$ref': 'x'}}
        c['allOf'] = [{'$ref': 'x'}]
        a['$ref'] = 'http://two.example/b/c/'
    leads_to(v, schema(v, a), label, kw(v, '$ref'))


def s_forward_and_recursive():
    """references to what comes later, to the whole, and around"""
    v = dialect()
    sval, inst = choose(({'properties': {'c': {'$ref': '#'}}, 'x-v': 'r'}, {'c': {'c': {}}}),
                        ({'properties': {'c': {'$ref': '#/$defs/n'}}, '$defs': {'n': {'properties': {'c': {'$ref': '#/$defs/m'}}}, 'm': {'x-v': 'm', 'additionalProperties': {'$ref': '#/$defs/n'}}}}, {'c': {'c': {'c': {}}}}),
                        ({'$id': 'http://r.example/', 'items': {'$ref': 'http://r.example/'}, 'x-v': 'r'}, [[[]], []]))
    refs = {'#': sval, 'http://r.example/': sval}
    if '$defs' in sval:
        for k in sval['$defs']:
            refs['#/$defs/' + k] = sval['$defs'][k]
    evaluate(v, sval, inst, kw(v, '$ref'), refs)


LIB = {'http://lib.example/one': '{"$id": "http://lib.example/one", "$defs": {"d": {"x-v": "lib-d"}, "a": {"$anchor": "anc", "x-v": "lib-a"}, "r": {"$ref": "two"}}, "x-v": "lib-one"}',
       'http://lib.example/two': '{"x-v": "lib-two", "$defs": {"s": {"$ref": "one#/$defs/d"}, "back": {"$ref": "#/$defs/s"}}}',
       'http://lib.example/bool': 'true', 'http://lib.example/num': '5'}


class Library(Source):
    def __call__(self, path):
        try:
            return hostjson.loads(LIB['http://lib.example/' + path])
        except KeyError:
            raise FileNotFoundError(2, 'No such file', path)


def s_loaded():
    """references to documents loaded from a source, which refer to one another"""
    v = dialect()
    DIALECTS.add_uri_source(URI('http://lib.example/'), Library())
    ref, label = choose(('http://lib.example/one', 'lib-one'), ('http://lib.example/one#', 'lib-one'), ('http://lib.example/one#/$defs/d', 'lib-d'), ('http://lib.example/one#anc', 'lib-a'),
                        ('http://lib.example/one#/$defs/r', 'lib-two'), ('http://lib.example/two#/$defs/s', 'lib-d'), ('http://lib.example/two#/$defs/back', 'lib-d'), ('http://lib.example/bool', True),
                        ('http://lib.example/num', None), ('http://lib.example/none', None), ('http://lib.example/one#/$defs', None), ('http://lib.example/one#/x-v', None), ('http://lib.example/one#/$defs/q', None), ('http://lib.example/one#q', None))
    try:
        s = schema(v, {'$ref': ref})
    except JschonError as e:
        check(label is None, 'unresolved', 'a reference is refused that leads somewhere', e, ref)
        return
    except TypeError:
        check(ref == 'http://lib.example/num', 'unresolved', 'a reference is refused that leads somewhere', kw(v, '$ref'), ref)
        return
    if not check(label is not None, 'unresolvable', 'a reference to nothing is accepted', kw(v, '$ref'), ref):
        return
    leads_to(v, s, label, kw(v, '$ref'))
    # again, from the cache
    leads_to(v, schema(v, {'$ref': ref}), label, kw(v, '$ref'))


def s_canonical():
    """every subschema is found under its canonical URI, and under its URI by pointer"""
    v = dialect()
    doc = {'$defs': {'d': V('d'), 'i': {'$id': 'http://in.example/x', 'not': V('i'), '$defs': {'a b': {'$anchor': 'an', 'x-v': 'n'}}}},
           'allOf': [True, {'properties': {'p': V('p'), 'q/~': V('q')}}], 'items': V('it')}
    k = choose('none', '$id', 'uri')
    if k == '$id':
        doc['$id'] = 'http://base.example/doc'
    s = schema(v, doc, uri=URI('http://base.example/given')) if k == 'uri' else schema(v, doc)
    sub = choose(s, s['$defs']['d'], s['$defs']['i'], s['$defs']['i']['not'], s['$defs']['i']['$defs']['a b'], s['allOf'][0], s['allOf'][1], s['allOf'][1]['properties']['p'], s['allOf'][1]['properties']['q/~'], s['items'])
    uri = sub.canonical_uri
    check(uri is not None and uri.has_absolute_base(), 'canonical-uri', 'a subschema has no absolute canonical URI', JSONSchema.canonical_uri, uri)
    got = DIALECTS.get_schema(uri, metaschema_uri=URI(uri_of(v)))
    check(got is sub, 'canonical-uri', 'a subschema is not what its canonical URI identifies', JSONSchema.canonical_uri, uri)
    check(sub.base_uri == uri.copy(fragment=False), 'base-uri', 'the base URI is not that of the containing resource', JSONSchema.base_uri, sub.base_uri, uri)
    i = s['$defs']['i']
    inside = sub is i or sub is i['not'] or sub is i['$defs']['a b']
    check(sub.resource_rootschema is (i if inside else s), 'resource-root', 'the resource root is not the nearest schema with an $id', JSONSchema.resource_rootschema)
    check(sub.document_rootschema is s, 'document-root', 'the document root is not the root', JSONSchema.document_rootschema)


def s_fragment_uri():
    """a schema that is given the URI of a location within another document"""
    v = dialect()
    where = choose('/$defs/a%20b', '/$defs/a~1b', '', '/%25', '/%C3%A9~0')
    s = schema(v, {'$defs': {'x y': V('d')}, 'not': {'allOf': [V('n')]}}, uri=URI('http://base.example/given#' + where))
    sub, rel = choose((s, ''), (s['$defs']['x y'], '/$defs/x%20y'), (s['not'], '/not'), (s['not']['allOf'][0], '/not/allOf/0'))
    uri = sub.canonical_uri
    check(str(uri) == 'http://base.example/given#' + where + rel, 'canonical-uri', 'the canonical URI is not that of the location', JSONSchema.canonical_uri, uri)
    node = s.evaluate(JSON(1)).children['not', JSON(1).path]
    check(str(node.absolute_uri) == 'http://base.example/given#' + where + '/not', 'absolute-uri', 'the absolute URI of a result is not that of the keyword', 'jschon/jsonschema.py: Result.absolute_uri', node.absolute_uri)


def s_dynamic():
    """$dynamicRef: the outermost resource of the dynamic scope that has the anchor"""
    v = choose('2020-12', 'next')
    tree = {'$id': 'http://t.example/tree', '$dynamicAnchor': 'node', 'x-v': 'tree', 'properties': {'c': {'$dynamicRef': choose('#node', 'tree#node', 'http://t.example/tree#node')}}}
    strict = {'$id': 'http://t.example/strict', 'x-v': 'strict', '$ref': 'tree'}
    anchored = flag('the outer schema has the anchor')
    if anchored:
        strict['$dynamicAnchor'] = 'node'
    strict['$defs'] = {'tree': tree}
    s = schema(v, strict)
    inst = {'c': {'c': {}}}
    res = s.evaluate(JSON(inst))
    want = True
    for where in ('', '/c', '/c/c'):
        want = want and verdict('tree', where)
        if where == '' or anchored:
            want = want and verdict('strict', where)
    check(res.valid == want, 'target', '$dynamicRef leads to another schema than the dynamic scope says', kw(v, '$dynamicRef'), anchored)
    # the same inner schema, entered directly
    res = s['$defs']['tree'].evaluate(JSON({'c': {}}))
    check(res.valid == (verdict('tree', '') and verdict('tree', '/c')), 'target', '$dynamicRef depends on an earlier evaluation', kw(v, '$dynamicRef'))


def s_dynamic_chain():
    """three resources: the outermost one in scope wins, and only those in scope count"""
    v = choose('2020-12', 'next')
    a, b, c = flag('a has the anchor'), flag('b has the anchor'), flag('bystander has the anchor')
    leaf = {'$id': 'http://t.example/leaf', '$dynamicRef': '#T', '$defs': {'T': {'$dynamicAnchor': 'T', 'x-v': 'leaf-T'}}}
    mid = {'$id': 'http://t.example/mid', '$ref': 'leaf', '$defs': {'T': {'x-v': 'mid-T'}}}
    top = {'$id': 'http://t.example/top', '$ref': 'mid', '$defs': {'T': {'x-v': 'top-T'}, 'leaf': leaf, 'mid': mid, 'by': {'$id': 'by', '$defs': {'T': {'x-v': 'by-T'}}}}}
    if a:
        top['$defs']['T']['$dynamicAnchor'] = 'T'
    elif flag('a has a plain anchor'):
        top['$defs']['T']['$anchor'] = 'T'
    if b:
        mid['$defs']['T']['$dynamicAnchor'] = 'T'
    if c:
        top['$defs']['by']['$defs']['T']['$dynamicAnchor'] = 'T'
    s = schema(v, top)
    leads_to(v, s, 'top-T' if a else 'mid-T' if b else 'leaf-T', kw(v, '$dynamicRef'))
    leads_to(v, s['$defs']['mid'], 'mid-T' if b else 'leaf-T', kw(v, '$dynamicRef'))
    leads_to(v, s['$defs']['leaf'], 'leaf-T', kw(v, '$dynamicRef'))


def s_bases_with_query():
    """the query of a base is part of the resource's URI, but not of what relative references lead to"""
    v = dialect()
    doc = {'$id': choose('http://q.example/d/s?v=1', 'urn:s?=q', 'http://q.example?x', 'http://q.example/d/s?'), '$defs': {'a': V('a'), 'n': {'$anchor': 'n', 'x-v': 'n'}, 'e': {'$id': 'http://q.example/d/s', 'x-v': 'e', '$defs': {'a': V('ea')}}, 'r': {'$id': 'http://q.example/d/s?v=2', 'allOf': [V('r'), {'$ref': '#/$defs/a'}], '$defs': {'a': V('ra')}}}}
    ref, label = choose(('#/$defs/a', 'a'), ('#n', 'n'), ('http://q.example/d/s', 'e'), ('http://q.example/d/s#/$defs/a', 'ea'), ('http://q.example/d/s?v=2#/allOf/0', 'r'), ('http://q.example/d/s?v=2#/allOf/1', 'ra'), ('http://q.example/d/s?v=2#/$defs/a', 'ra'))
    doc['$ref'] = ref
    leads_to(v, schema(v, doc), label, kw(v, '$ref'))


def s_relative_ids():
    """relative $id values resolve against the nearest enclosing one, at any depth"""
    v = dialect()
    deep = {'$id': choose('c/t', '../t', '/t', '?t', 't'), 'x-v': 't', '$defs': {'n': {'$anchor': 'n', 'x-v': 'n'}, 'w': {'not': {'not': {'$ref': '#n'}}}}}
    want = {'c/t': 'http://x.example/a/b/c/t', '../t': 'http://x.example/a/t', '/t': 'http://x.example/t', '?t': 'http://x.example/a/b/s?t', 't': 'http://x.example/a/b/t'}[deep['$id']]
    mid = {'$id': choose('b/s', '/a/b/s', './b/./s'), 'allOf': [{'properties': {'p': deep}}]}
    doc = {'$id': 'http://x.example/a/r', '$defs': {'m': mid}}
    ref, label = choose((want, 't'), (want + '#n', 'n'), (want + '#/$defs/w', 'n'), ('b/s#/allOf/0/properties/p', 't'), ('b/s#/allOf/0/properties/p/$defs/n', 'n'), ('#/$defs/m/allOf/0/properties/p/$defs/w', 'n'))
    doc['$ref'] = ref
    s = schema(v, doc)
    leads_to(v, s, label, kw(v, '$ref'))
    t = s['$defs']['m']['allOf'][0]['properties']['p']
    check(str(t.uri) == want and str(t['$defs']['w']['not'].canonical_uri) == want + '#/$defs/w/not', 'canonical-uri', 'an embedded schema has another URI', JSONSchema.canonical_uri, str(t.uri), want)


def s_scope_chain():
    """three nested resources: the outermost in scope that has the anchor"""
    v = dialect()
    recursive = v == '2019-09'
    A = {'$recursiveAnchor': True} if recursive else {'$dynamicAnchor': 'n'}
    ref = {'$recursiveRef': '#'} if recursive else {'$dynamicRef': '#n'}
    a = {'$id': 'http://t.example/a', 'x-v': 'a', 'properties': {'c': ref}}
    b = {'$id': 'http://t.example/b', 'x-v': 'b', '$ref': 'a'}
    c = {'$id': 'http://t.example/c', 'x-v': 'c', '$ref': 'b', '$defs': {'a': a, 'b': b}}
    on = []
    a.update(A)
    on.append('a')
    if flag('b has the anchor'):
        b.update(A)
        on.append('b')
    if flag('c has the anchor'):
        c.update(A)
        on.append('c')
    s = schema(v, c)
    start, names = choose(('c', ['a', 'b', 'c']), ('b', ['a', 'b']), ('a', ['a']))
    res = (s if start == 'c' else s['$defs'][start]).evaluate(JSON({'c': {}}))
    last = [n for n in names if n in on][-1]
    want = True
    for n in names:
        want = want and verdict(n, '')
    for n in ('a', 'b', 'c'):
        if n <= last:
            want = want and verdict(n, '/c')
    check(res.valid == want, 'target', 'a dynamic reference leads to another schema than the dynamic scope says', kw(v, '$recursiveRef' if recursive else '$dynamicRef'), on, start)


def s_dynamic_plain():
    """without a dynamic anchor at its static target, $dynamicRef is an ordinary reference"""
    v = choose('2020-12', 'next')
    leaf = {'$id': 'http://t.example/leaf', '$dynamicRef': choose('#T', '#/$defs/T', 'leaf#T', '#/$defs/U'), '$defs': {'T': {'$anchor': 'T', 'x-v': 'leaf-T'}, 'U': {'$dynamicAnchor': 'V', 'x-v': 'leaf-U'}}}
    other = choose(None, 'TT', 't', 'xT')
    if other:
        leaf['$defs']['T']['$dynamicAnchor'] = other
    top = {'$id': 'http://t.example/top', '$ref': 'leaf', '$defs': {'T': {'$dynamicAnchor': 'T', 'x-v': 'top-T'}, 'W': {'$dynamicAnchor': 'V', 'x-v': 'top-V'}, 'leaf': leaf}}
    leads_to(v, schema(v, top), 'leaf-U' if leaf['$dynamicRef'].endswith('U') else 'leaf-T', kw(v, '$dynamicRef'))


def s_recursive():
    """$recursiveRef: the outermost schema of the dynamic scope, if both ends have the anchor"""
    v = '2019-09'
    inner_anchor, outer_anchor = flag('inner anchor'), flag('outer anchor')
    tree = {'$id': 'http://t.example/tree', 'x-v': 'tree', 'properties': {'c': {'$recursiveRef': '#'}}}
    strict = {'$id': 'http://t.example/strict', 'x-v': 'strict', '$ref': 'tree', '$defs': {'tree': tree}}
    if inner_anchor:
        tree['$recursiveAnchor'] = True
    elif flag('inner anchor is false'):
        tree['$recursiveAnchor'] = False
    if outer_anchor:
        strict['$recursiveAnchor'] = True
    elif flag('outer anchor is false'):
        strict['$recursiveAnchor'] = False
    s = schema(v, strict)
    res = s.evaluate(JSON({'c': {'c': {}}}))
    want = True
    for where in ('', '/c', '/c/c'):
        want = want and verdict('tree', where)
        if where == '' or inner_anchor and outer_anchor:
            want = want and verdict('strict', where)
    check(res.valid == want, 'target', '$recursiveRef leads to another schema than the dynamic scope says', kw(v, '$recursiveRef'))


def s_recursive_value():
    """$recursiveRef takes no other value"""
    try:
        schema('2019-09', {'$recursiveRef': choose('', '#a', 'x', '##', 'http://x.example/#')})
        fail('accepted', 'a $recursiveRef other than # is accepted', kw('2019-09', '$recursiveRef'))
    except JSONSchemaError:
        pass


def s_scope_below_applicators():
    """the dynamic scope reaches through any applicators, to the outermost resource"""
    v = choose('2019-09', '2020-12')
    recursive = v == '2019-09'
    A = {'$recursiveAnchor': True} if recursive else {'$dynamicAnchor': 'n'}
    ref = {'$recursiveRef': '#'} if recursive else {'$dynamicRef': '#n'}
    a = {'$id': 'http://t.example/a', 'x-v': 'a', 'properties': {'c': ref}}
    b = {'$id': 'http://t.example/b', 'x-v': 'b', 'allOf': [{'anyOf': [{'$ref': 'a'}]}]}
    how = choose('allOf', 'if', 'properties', 'two') if thorough() else choose('allOf', 'properties')
    inner = {'$ref': 'b'}
    c = {'$id': 'http://t.example/c', 'x-v': 'c', '$defs': {'a': a, 'b': b}}
    if how == 'allOf':
        c['allOf'] = [True, {'allOf': [inner]}]
    elif how == 'if':
        c['if'], c['then'] = True, inner
    elif how == 'properties':
        c['properties'] = {'p': inner}
    else:
        c['allOf'] = [{'$id': 'http://t.example/d', 'allOf': [inner]}]
    a.update(A)
    with_b, with_c = flag('b has the anchor'), flag('c has the anchor')
    if with_b:
        b.update(A)
    if with_c:
        c.update(A)
    at = '/p' if how == 'properties' else ''
    inst = {'c': {}}
    res = schema(v, c).evaluate(JSON({'p': inst} if at else inst))
    want = verdict('c', '') and verdict('b', at) and verdict('a', at)
    for n in ['a', 'b', 'c'][:3 if with_c else 2 if with_b else 1]:
        if n == 'c' or not (at and with_c):
            want = want and verdict(n, at + '/c')
    check(res.valid == want, 'target', 'a dynamic reference leads to another schema than the dynamic scope says', kw(v, '$recursiveRef' if recursive else '$dynamicRef'), how, with_b, with_c)


def s_embedded_root():
    """the empty fragment is the root of the nearest resource, not of the document"""
    v = dialect()
    eid = choose('http://e.example/in', 'in', 'urn:uuid:0a', 'urn:x:y')
    how = choose('#', '', eid, '#/$defs/d', '#an')
    node = {'$ref': how} if flag('directly') else {'allOf': [{'not': {'not': {'$ref': how}}}]}
    e = {'$id': eid, '$defs': {'w': node, 'd': {'x-v': 'd', '$anchor': 'an'}}, 'x-v': 'e'}
    if flag('order'):
        doc = {'$id': 'http://o.example/out', '$defs': {'e': e, 'd': {'x-v': 'od', '$anchor': 'an'}}, 'not': {'x-v': 'o'}, '$ref': '%s#/$defs/w' % eid}
    else:
        doc = {'$id': 'http://o.example/out', 'not': {'x-v': 'o'}, '$ref': '%s#/$defs/w' % eid, '$defs': {'d': {'x-v': 'od', '$anchor': 'an'}, 'e': e}}
    s = schema(v, doc)
    leads_to(v, s['$defs']['e']['$defs']['w'], 'd' if how in ('#/$defs/d', '#an') else 'e', kw(v, '$ref'))
    res = s.evaluate(JSON(1))
    want = not verdict('o', '') and verdict('d' if how in ('#/$defs/d', '#an') else 'e', '')
    check(res.valid == want, 'target', 'a reference leads to another schema than the one it identifies', kw(v, '$ref'), how)


def s_between_resources():
    """references between embedded resources, before and after each other, by anchor, pointer and URI"""
    v = dialect()
    one, two = choose(('http://e.example/1', 'http://e.example/2'), ('urn:x:1', 'urn:x:2'), ('1', '2'))
    ref, label = choose(('', 'two'), ('#an', 'two-an'), ('#/$defs/d', 'two-d'))
    a = {'$id': one, '$ref': two + ref, '$defs': {'d': V('one-d'), 'n': {'$anchor': 'an', 'x-v': 'one-an'}}}
    b = {'$id': two, 'x-v': 'two', '$defs': {'d': V('two-d'), 'n': {'$anchor': 'an', 'x-v': 'two-an'}, 'back': {'$ref': one + '#an'}}}
    k = choose('$defs', 'allOf')
    if k == '$defs':
        doc = {'$id': 'http://o.example/out', '$defs': {'b': b, 'a': a} if flag('later first') else {'a': a, 'b': b}}
        s = schema(v, doc)
        x, y = s['$defs']['a'], s['$defs']['b']
    else:
        f = flag('later first')
        s = schema(v, {'$id': 'http://o.example/out', k: [b, a] if f else [a, b]})
        x, y = s[k][1 if f else 0], s[k][0 if f else 1]
    leads_to(v, x, label, kw(v, '$ref'))
    leads_to(v, y['$defs']['back'], 'one-an', kw(v, '$ref'))


def s_scope_again():
    """a resource that is entered twice counts from the first time"""
    v = choose('2020-12', 'next')
    anchored = {n: flag('%s has the anchor' % n) for n in ('a', 'b', 'c')}

    def resource(n, to):
        r = {'$id': 'http://t.example/%s' % n, '$defs': {'T': {'x-v': n + '-T'}, 'to': {'$ref': to}, 'use': {'$dynamicRef': '#T' if n == 'a' else 'a#T'}}, '$ref': '#/$defs/to'}
        r['$defs']['T']['$dynamicAnchor' if anchored[n] else '$anchor'] = 'T'
        return r
    chain = choose(['a', 'b', 'a'], ['b', 'a'], ['c', 'b', 'c', 'a'], ['b', 'c', 'b'], ['a', 'c'], ['c', 'a', 'b'])
    # each resource in the chain, except the last, leads to the next
    doc = {'$id': 'http://t.example/doc', '$defs': {}}
    made = {}
    for i, n in enumerate(chain):
        r = made.get(n)
        if r is None:
            r = made[n] = resource(n, '#/$defs/T')
            r['$defs']['to'] = True
            doc['$defs'][n] = r
        last = i == len(chain) - 1
        r['$defs']['step%d' % i] = {'$ref': '#/$defs/use'} if last else {'$ref': '%s#/$defs/step%d' % (chain[i + 1], i + 1)}
    if 'a' not in made:
        doc['$defs']['a'] = resource('a', '#/$defs/T')
        doc['$defs']['a']['$defs']['to'] = True
    for n in doc['$defs']:
        del doc['$defs'][n]['$ref']
    doc['$ref'] = chain[0] + '#/$defs/step0'
    in_scope = [n for n in chain if anchored[n]]
    want = in_scope[0] if anchored['a'] and in_scope else 'a'
    leads_to(v, schema(v, doc), want + '-T', kw(v, '$dynamicRef'))
