"""C23: a schema holds exactly the value it was built from, as a tree of schemas and
plain nodes that are linked, registered and inherit as documented."""
from jschon import JSONPointer
from jschon.catalog import Catalog
from jschon.exc import JschonError, CatalogError, JSONSchemaError
from schemas import *
from spec_schema import *

INIT = 'jschon/jsonschema.py: JSONSchema.__init__'
JSONIFY = 'jschon/vocabulary/__init__.py: Keyword.__init__'

ONE = ('not', 'if', 'then', 'else', 'items', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedItems', 'unevaluatedProperties', 'additionalItems')
MANY = ('allOf', 'anyOf', 'oneOf', 'prefixItems')
NAMED = ('$defs', 'properties', 'patternProperties', 'dependentSchemas')
PLAIN = ('const', 'enum', 'default', 'examples', 'x-k', 'title', 'type', 'minimum', 'required', 'dependentRequired', '$comment', 'format', 'definitions', 'contentSchema')


def sub(i):
    return {'x-v': i, 'x-k': [None, {'a': i}]}


def same_value(a, b):
    """same JSON value, with the same types and order of names"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_value(a[i], b[i]) for i in range(len(a)))
    return type(a) is type(b) and a == b


def copied(x):
    if isinstance(x, dict):
        return {k: copied(x[k]) for k in x}
    return [copied(y) for y in x] if isinstance(x, list) else x


def has(v, key):
    if key in ('prefixItems',):
        return v != '2019-09'
    if key == 'additionalItems':
        return v == '2019-09'
    return True


def subschemas(v, key, x):
    """the subschema values of a keyword, by relative path; None: the keyword has none"""
    if isinstance(x, bool) or isinstance(x, dict) and key in ONE:
        return [((key,), x)] if key in ONE else []
    if isinstance(x, list) and (key in MANY or key == 'items' and v == '2019-09'):
        return [((key, i), x[i]) for i in range(len(x)) if isinstance(x[i], (bool, dict))]
    if isinstance(x, dict) and key in NAMED:
        return [((key, n), x[n]) for n in x if isinstance(x[n], (bool, dict))]
    return []


def at(node, path):
    for k in path:
        node = node[k]
    return node


def check_tree(v, s, sval, parent=None, key=None, path=()):
    """the schema node is what it should be for its value"""
    check(isinstance(s, JSONSchema), 'subschema', 'a subschema is no schema', JSONIFY, path)
    check(s.parent is parent and s.key == key, 'links', 'a subschema is not linked to its parent', JSONIFY, path, s.key)
    check(str(s.path) == text(path), 'links', 'a subschema has another path', JSONIFY, path, str(s.path))
    if isinstance(sval, bool):
        check(s.data is sval and s.type == 'boolean' and s.keywords == {}, 'value', 'a boolean schema has another value', INIT, path)
        return
    check(s.type == 'object' and set(s.data) == set(sval) and set(s.keywords) == set(sval), 'value', 'a schema has other keywords than its value', INIT, path, list(s.data), list(sval))
    for k in sval:
        node = s.data[k]
        check(s.keywords[k].json is node and s.keywords[k].parentschema is s and s.keywords[k].key == k, 'keyword', 'a keyword belongs to another schema or value', JSONIFY, path, k)
        subs = subschemas(v, k, sval[k]) if has(v, k) else []
        for rel, value in subs:
            x = at(s, rel)
            check_tree(v, x, value, s if len(rel) == 1 else node, str(rel[-1]), path + rel)
            if isinstance(x, JSONSchema):
                check(x.parentschema is s, 'links', 'a subschema has another parent schema', 'jschon/jsonschema.py: JSONSchema.parentschema', path + rel)
                check(x.catalog is s.catalog and x.cacheid == s.cacheid, 'inherited', 'a subschema belongs to another catalog or cache', JSONIFY, path + rel)
                check(x.metaschema is s.metaschema and x.metaschema_uri == s.metaschema_uri, 'inherited', 'a subschema has another metaschema', 'jschon/jsonschema.py: JSONSchema.metaschema_uri', path + rel)
        if not (subs and len(subs[0][0]) == 1):
            check_plain(node, sval[k], s, k, path + (k,), [p for p, _ in subs])


def check_plain(node, value, parent, key, path, subs):
    if any(len(p) == 2 and p == path[-2:] for p in subs):
        return
    check(not isinstance(node, JSONSchema), 'subschema', 'what is no subschema became one', JSONIFY, path)
    check(node.parent is parent and node.key == str(key) and str(node.path) == text(path), 'links', 'a node is not linked to its parent', JSONIFY, path, node.key)
    if isinstance(value, dict):
        for k in value:
            check_plain(node[k], value[k], node, k, path + (k,), subs)
    elif isinstance(value, list):
        for i in range(len(value)):
            check_plain(node[i], value[i], node, i, path + (i,), subs)


def check_schema(v, sval, **kw):
    before = copied(sval)
    s = schema(v, sval, **kw)
    check(same_value(sval, before), 'changed', 'building a schema changes the value', INIT, sval)
    got = s.value
    check(isinstance(got, dict) and set(got) == set(sval) and all(same_value(got[k], sval[k]) for k in sval), 'value', 'a schema has another value than the one it was built from', INIT, got, sval)
    check(s == JSON(sval) and JSON(sval) == s, 'value', 'a schema does not equal its value', INIT)
    check_tree(v, s, sval)
    return s


def s_one():
    """keywords with one subschema"""
    v = dialect()
    key = choose(*ONE)
    check_schema(v, {key: choose(True, False, {}, sub(1), {'not': sub(2)})})


def s_many():
    v = dialect()
    key = choose(*(MANY + ('items',)))
    check_schema(v, {key: choose([], [True], [False, sub(1)], [sub(1), {'allOf': [sub(2)]}, {}])})


def s_named():
    v = dialect()
    key = choose(*NAMED)
    check_schema(v, {key: choose({}, {'a': True}, {'a': sub(1), '': False, 'a/~b': sub(2)}, {'0': {'properties': {'0': sub(3)}}, 'not': sub(1), '$id': sub(2), '$ref': True})})


VALUES = (None, True, False, 0, 1.5, -0.0, '', 'x', [], [1], {}, {'a': 1}, [{'$id': 'x'}, [True]], {'$ref': 'nowhere', '$anchor': '!', 'allOf': [False]}, {'properties': {'a': {'$id': 'y'}}})


def s_plain():
    """keywords without subschemas keep any value, which is not looked into"""
    v = dialect()
    key = choose('const', 'enum', 'default', 'x-k', 'definitions', '$comment', 'examples', 'contentSchema')
    s = check_schema(v, {key: choose(*VALUES), 'x-v': 's'}, uri=URI('http://x.example/s'))
    for u in ('x', 'y'):
        try:
            DIALECTS.get_schema(URI(u).resolve(s.uri))
            fail('looked-into', 'the value of a keyword without subschemas is taken for a schema', JSONIFY, key)
        except CatalogError:
            pass


def s_not_subschemas():
    """values of applicator keywords that are no schemas are kept as they are"""
    v = dialect()
    if flag('one'):
        check_schema(v, {choose('not', 'if', 'contains', 'propertyNames', 'additionalProperties', 'unevaluatedProperties'): choose(None, 5, 'x')})
    else:
        check_schema(v, {choose('allOf', 'anyOf', 'prefixItems') if flag('list') else choose('properties', '$defs', 'dependentSchemas'): choose(None, 5, True)})


def s_any_json():
    """unknown keywords with any name and any value"""
    v = choose('2019-09', '2020-12')
    k = choose('', ' ', 'x', 'X', '0', 'a/b', '~', '$', 'é', '\x00', 'a\nb', 'self', '__class__', 'class', 'properties2', 'Type')
    x = choose(None, 0, 'x', [], {'': []})
    s = schema(v, {k: x})
    check(s.type == 'object' and list(s.keywords) == [k] and list(s) == [k], 'value', 'a schema has other keywords than its value', INIT, k)
    got = s.value
    check(type(got[k]) is type(x) and got[k] == x, 'value', 'the value of an unknown keyword is changed', INIT, k)
    out = s.evaluate(JSON(1)).output('basic')
    check(out['valid'] and len(out['annotations']) == (0 if x is None else 1), 'unknown', 'an unknown keyword is more than an annotation', 'jschon/vocabulary/__init__.py: Metaschema.get_kwclass', k)


def s_not_schema():
    """what is neither a boolean nor an object is no schema"""
    try:
        JSONSchema(choose(None, 5, 0, 1, 'x', '', [], [True], 1.5), catalog=DIALECTS, metaschema_uri=URI(uri_of('2020-12')))
        fail('accepted', 'a value that is no schema is accepted', INIT)
    except TypeError:
        pass


def s_not_shared():
    """later changes of the value do not change the schema, nor the other way round"""
    v = choose('2019-09', '2020-12')
    inner = {'x-v': 'a', 'enum': [1, [2]]}
    sval = {'allOf': [inner], 'properties': {'p': inner}, 'not': inner, 'const': inner}
    s, t = schema(v, sval), schema(v, sval)
    a, before = s['allOf'][0], s.value
    check(not shares(s.value, sval), 'shared', 'the value of a schema shares containers with what it was built from', INIT)
    check(s['properties']['p'] is not a and s['not'] is not a and t['not'] is not s['not'], 'shared', 'two places share a subschema', INIT)
    check(s.uri != t.uri, 'shared', 'two schemas without an own URI share one', INIT)
    what = choose(0, 1, 2, 3)
    if what == 0:
        inner['x-v'] = 'b'
    elif what == 1:
        inner['enum'].append(3)
    elif what == 2:
        sval['allOf'].append(False)
    else:
        del sval['properties']['p']
    check(same_value(s.value, before), 'shared', 'changing the value a schema was built from changes the schema', INIT, what)
    check_text = s.evaluate(JSON(1)).valid
    s.value['allOf'].append(False)
    check(same_value(s.value, before), 'shared', 'changing the value of a schema changes the schema', INIT, what)


def s_uris():
    """the URI of a schema: $id over the URI given, resolved; otherwise one of its own"""
    v = dialect()
    given = choose(None, 'http://g.example/dir/x', 'urn:g')
    id = choose(None, 'http://i.example/i', 'rel', '/abs', '../up/', 'urn:i', '?q', '//h.example/')
    assume(id is None or id == 'http://i.example/i' or id == 'urn:i' or given == 'http://g.example/dir/x')
    sval = {'x-v': 's', '$defs': {'a': {'x-v': 'a', 'not': {}}}}
    if id is not None:
        sval['$id'] = id
    s = schema(v, sval) if given is None else schema(v, sval, uri=URI(given))
    want = {'rel': 'http://g.example/dir/rel', '/abs': 'http://g.example/abs', '../up/': 'http://g.example/up/', '?q': 'http://g.example/dir/x?q', '//h.example/': 'http://h.example/'}.get(id, id if id is not None else given)
    if want is None:
        check(s.uri is not None and s.uri.is_absolute(), 'uri', 'a schema has no URI of its own', INIT, s.uri)
    else:
        check(str(s.uri) == want, 'uri', 'a schema has another URI', 'jschon/vocabulary/core.py: IdKeyword.__init__', str(s.uri), want)
    check(DIALECTS.get_schema(s.uri) is s, 'registered', 'a schema is not registered under its URI', INIT, str(s.uri))
    a = s['$defs']['a']
    check(a.uri is None and a.base_uri == s.uri and a['not'].base_uri == s.uri, 'uri', 'a subschema has another base URI', 'jschon/jsonschema.py: JSONSchema.base_uri', str(a.base_uri))
    check(str(a['not'].canonical_uri) == str(s.uri) + '#/$defs/a/not', 'uri', 'a subschema has another canonical URI', 'jschon/jsonschema.py: JSONSchema.canonical_uri', str(a['not'].canonical_uri))


def s_nested_ids():
    """a relative $id is resolved against the nearest enclosing one, below any keyword"""
    v = dialect()
    inner = {'$id': choose('c', '/c', '../c', 'urn:c', '?c'), 'not': {}}
    key, wrap = choose(('not', lambda x: x), ('allOf', lambda x: [True, x]), ('properties', lambda x: {'p': x}), ('$defs', lambda x: {'d': x}), ('items', lambda x: x), ('if', lambda x: x))
    mid = {'$id': choose('b/', 'http://m.example/b/'), key: wrap({'anyOf': [inner]} if flag('deeper') else inner)}
    s = schema(v, {'$id': 'http://x.example/a/', '$defs': {'m': mid}})
    m = s['$defs']['m']
    got = m[key] if key in ('not', 'items', 'if') else m[key][1] if key == 'allOf' else m[key]['p' if key == 'properties' else 'd']
    if '$id' not in got:
        got = got['anyOf'][0]
    base = 'http://x.example/a/b/' if mid['$id'] == 'b/' else mid['$id']
    want = {'c': base + 'c', '/c': base[:base.index('/', 8)] + '/c', '../c': base[:-2] + 'c', 'urn:c': 'urn:c', '?c': base + '?c'}[inner['$id']]
    check(str(got.uri) == want, 'uri', 'a schema has another URI', 'jschon/vocabulary/core.py: IdKeyword.__init__', str(got.uri), want)
    check(DIALECTS.get_schema(URI(want)) is got, 'registered', 'a schema is not registered under its URI', INIT, want)
    check(str(got['not'].canonical_uri) == want + '#/not' and got['not'].base_uri == got.uri, 'uri', 'a subschema has another canonical URI', 'jschon/jsonschema.py: JSONSchema.canonical_uri', str(got['not'].canonical_uri))


def s_id_fragment():
    """an $id may have no fragment but an empty one, and in the next draft none at all"""
    v = dialect()
    id, ok = choose(('http://i.example/i#', v != 'next'), ('http://i.example/i#a', False), ('http://i.example/i#/a', False), ('#', v != 'next'), ('#a', False))
    where = flag('root')
    sval = {'$id': id, 'x-v': 's'} if where else {'$id': 'http://i.example/r', 'not': {'$id': id, 'x-v': 's'}}
    try:
        s = schema(v, sval, uri=URI('http://g.example/'))
        check(ok, 'id-fragment', 'an $id with a fragment is accepted', 'jschon/vocabulary/core.py: IdKeyword.__init__', id)
    except JschonError:
        check(not ok, 'id-fragment', 'an $id without a fragment is refused', 'jschon/vocabulary/core.py: IdKeyword.__init__', id)


def s_anchors():
    """each anchor is registered with the URI of its resource"""
    v = dialect()
    kind = choose('$anchor', '$dynamicAnchor') if v != '2019-09' else '$anchor'
    name = choose('a', 'A-b.c_1', '_a')
    res = choose('root', 'embedded', 'sub')
    sval = {'$id': 'http://x.example/r', '$defs': {'s': {'x-v': 's', 'items': {'x-v': 't'}}, 'e': {'$id': 'e', 'items': {'x-v': 'i'}}}}
    if res == 'root':
        sval[kind] = name
    elif res == 'sub':
        sval['$defs']['s']['items'][kind] = name
    else:
        sval['$defs']['e']['items'][kind] = name
    s = schema(v, sval)
    want = s if res == 'root' else s['$defs']['s']['items'] if res == 'sub' else s['$defs']['e']['items']
    base, other = ('http://x.example/e', 'http://x.example/r') if res == 'embedded' else ('http://x.example/r', 'http://x.example/e')
    check(DIALECTS.get_schema(URI(base + '#' + name)) is want, 'registered', 'an anchor is not registered with the URI of its resource', 'jschon/vocabulary/core.py: AnchorKeyword.__init__', name)
    try:
        DIALECTS.get_schema(URI(other + '#' + name))
        fail('registered', 'an anchor is registered with the URI of another resource', 'jschon/vocabulary/core.py: AnchorKeyword.__init__', name)
    except CatalogError:
        pass


def s_inherited():
    """catalog and cache, from the schema to all subschemas"""
    v = choose('2019-09', '2020-12')
    cid = choose('default', 'mine')
    key, x = choose(('not', sub(1)), ('allOf', [sub(1)]), ('properties', {'a': sub(1)}), ('items', {'items': sub(1)}), ('if', {'then': {'else': sub(1)}}))
    s = check_schema(v, {key: x}, cacheid=cid)
    check(s.cacheid == cid and s.catalog is DIALECTS, 'inherited', 'a schema belongs to another catalog or cache than the one given', INIT)


def s_roots():
    """parent schema, resource root and document root of every schema"""
    v = dialect()
    key, wrap, get = choose(('not', lambda x: x, lambda s: s), ('allOf', lambda x: [True, x], lambda s: s[1]), ('properties', lambda x: {'p': x}, lambda s: s['p']))
    inner = {'x-v': 'i', 'if': {'not': {}}}
    mid = {'x-v': 'm', key: wrap(inner)}
    root = {'x-v': 'r', '$defs': {'d': mid}}
    ids = []
    for n, x in (('root', root), ('mid', mid), ('inner', inner)):
        if flag(n + ' has an $id'):
            x['$id'] = 'http://%s.example/' % n
            ids.append(n)
    s = schema(v, root)
    m = s['$defs']['d']
    i = get(m[key])
    leaf = i['if']['not']
    nodes = {'root': s, 'mid': m, 'inner': i}
    res = s
    late = flag('leaf first')
    if late:
        want = nodes[ids[-1]] if ids else s
        check(leaf.resource_rootschema is want, 'root', 'a schema has another resource root', 'jschon/jsonschema.py: JSONSchema.resource_rootschema', ids)
    for n, node, parent in (('root', s, None), ('mid', m, s), ('inner', i, m), ('', i['if'], i), ('', leaf, i['if'])):
        if n in ids:
            res = node
        check(node.parentschema is parent, 'root', 'a schema has another parent schema', 'jschon/jsonschema.py: JSONSchema.parentschema', n)
        check(node.resource_rootschema is res, 'root', 'a schema has another resource root', 'jschon/jsonschema.py: JSONSchema.resource_rootschema', n, ids)
        check(node.document_rootschema is s, 'root', 'a schema has another document root', 'jschon/jsonschema.py: JSONSchema.document_rootschema', n)
        check(node.base_uri == res.uri, 'uri', 'a subschema has another base URI', 'jschon/jsonschema.py: JSONSchema.base_uri', n)
