UT = 'jschon/utils.py'

seed('c15-prefix-last', 'C15', [(APP, "            if prefix_items_annotation > last_evaluated_item:\n                last_evaluated_item = prefix_items_annotation", "            last_evaluated_item = prefix_items_annotation")], SPRE + '''
s = {'allOf': [{'prefixItems': [True, True, True]}, {'prefixItems': [True]}], 'unevaluatedItems': {'type': 'integer'}}
assert ok('2020-12', s, ['a', 'b', 'c', 4])
assert ok('2020-12', {**s, 'allOf': s['allOf'][::-1]}, ['a', 'b', 'c', 4])
''', 'two prefixItems of different length, the shorter applied last', 'items that the longer evaluated count as unevaluated')

seed('c06-empty-patch', 'C06', [(PT, "        result = deepcopy(document)\n", "        result = deepcopy(document) if self._operations else document\n")], PRE + '''
from jschon import JSONPatch
d = {'a': [1]}
r = JSONPatch().evaluate(d)
r['a'].append(2)
assert d == {'a': [1]}, d
''', 'a patch without operations whose result is changed afterwards', 'the given document changes')

seed('c20-anchor-first', 'C20', [(COR, """            raise JSONSchemaError(f'No base URI for "$anchor" value "{value}"')

        parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)""", """            raise JSONSchemaError(f'No base URI for "$anchor" value "{value}"')

        parentschema.catalog._schema_cache.setdefault(parentschema.cacheid, {}).setdefault(uri, parentschema)""")], SPRE + '''
S('2020-12', {'$id': 'http://x/s', '$defs': {'a': {'$anchor': 'n', 'title': 'old'}}})
S('2020-12', {'$id': 'http://x/s', '$defs': {'a': {'$anchor': 'n', 'title': 'new'}}})
assert cat.get_schema(URI('http://x/s#n'))['title'].data == 'new'
''', 'a schema with an anchor created twice, with a change', 'its anchor leads to the replaced one')

seed('c20-fragment-cached', 'C20', [(CT, "                ptr = JSONPointer.parse_uri_fragment(uri.fragment)\n                schema = ptr.evaluate(schema)", "                ptr = JSONPointer.parse_uri_fragment(uri.fragment)\n                schema = ptr.evaluate(schema)\n                self.add_schema(uri, schema, cacheid=cacheid)")], SPRE + '''
S('2020-12', {'$id': 'http://x/s', '$defs': {'a': {'title': 'old'}}})
assert cat.get_schema(URI('http://x/s#/$defs/a'))['title'].data == 'old'
S('2020-12', {'$id': 'http://x/s', '$defs': {'a': {'title': 'new'}}})
assert cat.get_schema(URI('http://x/s#/$defs/a'))['title'].data == 'new'
''', 'a place asked for with a pointer fragment, before and after its schema is replaced', 'the place in the replaced schema is given')

seed('c18-fragment-decode', 'C18', [(JS, "                if fragment := node._uri.fragment:\n                    relpath = JSONPointer.parse_uri_fragment(fragment) / keys", "                if fragment := node._uri.fragment:\n                    relpath = JSONPointer(fragment) / keys")], SPRE + '''
s = JSONSchema({'properties': {'a': True}}, uri=URI('http://x/s#/%24defs/a%25b'), metaschema_uri=URI('https://json-schema.org/draft/2020-12/schema'))
assert s['properties']['a'].canonical_uri == URI('http://x/s#/$defs/a%25b/properties/a'), s['properties']['a'].canonical_uri
''', 'a schema whose URI has a pointer fragment with escapes', 'the URI of a part is escaped twice')

seed('c27-relpath-by-equality', 'C27', [(JS, "self.relpath = parent.relpath / key if schema is parent.schema else JSONPointer((key,))", "self.relpath = parent.relpath / key if schema == parent.schema else JSONPointer((key,))")], SPRE + '''
from jschon.jsonschema import Result
A = S('2020-12', {'title': 'same'}); B = S('2020-12', {'title': 'same'})
r = Result(A, JSON(1))
with r(JSON(1), 'k', B) as child:
    assert str(child.relpath) == '/k', child.relpath
    with child(JSON(1), 'l', A) as grand:
        assert str(grand.relpath) == '/l', grand.relpath
''', 'two different schemas that are equal', 'the relative path of a result goes through both')

seed('c14-unique-window', 'C14', [(VAL, "            if item not in uniquified:\n", "            if item not in uniquified[-256:]:\n")], SPRE + '''
assert not ok('2020-12', {'uniqueItems': True}, list(range(300)) + [0])
''', 'more than 256 items between two equal ones', 'the array passes as unique')

seed('c15-other-location', 'C15', [(JS, "                    (key is None or key == self.key) and \\\n                    (instance is None or instance.path == self.instance.path):\n                yield self.annotation", "                    (key is None or key == self.key) and \\\n                    (instance is None or str(self.instance.path).startswith(str(instance.path))):\n                yield self.annotation")], SPRE + '''
s = {'properties': {'o': {'properties': {'a': True}}}, 'unevaluatedProperties': False}
assert not ok('2020-12', s, {'o': {'a': 1}, 'a': 2})
assert ok('2020-12', s, {'o': {'a': 1}})
''', 'a nested object with an evaluated property of the same name as an unevaluated one of the outer object', 'the outer property passes as evaluated')

seed('c21-case-prefix', 'C21', [(CT, "            if uristr.startswith(prefix)", "            if uristr.lower().startswith(prefix.lower())")], PRE + '''
from jschon import URI
from jschon.catalog import Catalog, Source
class Src(Source):
    def __init__(s, n):
        super().__init__(); s.n = n
    def __call__(s, path):
        return s.n + path
c = Catalog('c')
c.add_uri_source(URI('http://a.example/'), Src('root:'))
c.add_uri_source(URI('http://a.example/X/'), Src('X:'))
assert c.load_json(URI('http://a.example/X/q')) == 'X:q'
assert c.load_json(URI('http://a.example/x/q')) == 'root:x/q'
''', 'two paths that differ in the case of a letter', 'a document is loaded from a source that is not for its URI')

seed('c22-default-cache-meta', 'C22', [(CT, "            metaschema = self._schema_cache['__meta__'][uri]", "            metaschema = self._schema_cache['__meta__'].get(uri) or self._schema_cache['default'][uri]")], SPRE + '''
class One(Source):
    def __call__(s, path):
        return {'$schema': 'https://json-schema.org/draft/2020-12/schema', '$id': 'http://m.example/m', '$vocabulary': {'https://json-schema.org/draft/2020-12/vocab/core': True, 'https://json-schema.org/draft/2020-12/vocab/validation': True}}
cat.add_uri_source(URI('http://m.example/'), One())
cat.get_schema(URI('http://m.example/m'))
s = JSONSchema({'minimum': 5}, metaschema_uri=URI('http://m.example/m'))
assert not s.evaluate(JSON(1)).valid
''', 'a metaschema that was asked for as an ordinary schema before', 'schemas cannot be built with it')

seed('c27-collect-noassert', 'C27', [(JS, "        if not self._valid and not self._discard:\n            if self.error", "        if not self.passed and not self._discard:\n            if self.error")], SPRE + '''
from jschon.jsonschema import Result
r = Result(S('2020-12', {}), JSON(1))
with r(JSON(1), 'k') as child:
    child.fail('why')
    child.noassert()
assert list(child.collect_errors()) == ['why'], list(child.collect_errors())
''', 'a keyword that fails but does not assert', 'its error is not collected')

seed('c28-subschema-by-name', 'C28', [(VI, "                parent=parentschema,\n                key=key,\n                catalog=parentschema.catalog,\n                cacheid=parentschema.cacheid,\n            )\n\n\nclass ArrayOf", "                parent=parentschema,\n                key=key,\n                catalog=parentschema.catalog.name,\n                cacheid=parentschema.cacheid,\n            )\n\n\nclass ArrayOf")], SPRE + '''
one = create_catalog('2020-12', name='c')
two = create_catalog('2020-12', name='c')
s = JSONSchema({'not': {}}, catalog=one, metaschema_uri=URI('https://json-schema.org/draft/2020-12/schema'))
assert s['not'].catalog is one
''', 'a schema built in a catalog after another one took its name', 'its subschemas belong to the other catalog')


seed('c14-utf16-length', 'C14', [(VAL, "        if len(instance) > self.json:\n            result.fail(f\"The text", "        if len(instance.data.encode('utf-16-le', 'surrogatepass')) // 2 > self.json:\n            result.fail(f\"The text")], SPRE + '''
assert ok('2020-12', {'maxLength': 2}, chr(0x1F4A9) * 2)
assert not ok('2020-12', {'maxLength': 1}, chr(0x1F4A9) * 2)
''', 'a character outside the basic plane', 'it counts as two')

seed('c14-pattern-empty-match', 'C14', [(VAL, "        if self.regex.search(instance.data) is None:", "        if not (m := self.regex.search(instance.data)) or not m.group():")], SPRE + '''
assert ok('2020-12', {'pattern': 'a*'}, 'bc')
assert ok('2020-12', {'pattern': '^$'}, '')
''', 'a pattern that matches the empty text only', 'it fails')

seed('c07-replace-equal', 'C07', [(PT, "    if target.type in (NodeType.ARRAY_ITEM, NodeType.OBJECT_PROPERTY):\n        target.parent[target.index] = value", "    if target.type in (NodeType.ARRAY_ITEM, NodeType.OBJECT_PROPERTY):\n        if target.parent[target.index] != value:\n            target.parent[target.index] = value")], PRE + '''
from jschon import JSONPatch
import json
r = JSONPatch({'op': 'replace', 'path': '/a', 'value': 1}).evaluate({'a': True})
assert r['a'] == 1 and type(r['a']) is int, r
''', 'replacing a value by one that the host language calls equal', 'it is not replaced')

seed('c05-control-chars', 'C05', [(UT, "    return json.loads(value, parse_constant=_parse_invalid_const)", "    return json.loads(value, strict=False, parse_constant=_parse_invalid_const)")], PRE + '''
from jschon import JSON
for bad in ('"a' + chr(10) + 'b"', '{"k' + chr(0) + '": 1}'):
    try:
        JSON.loads(bad)
    except ValueError:
        continue
    raise SystemExit('accepted %r' % bad)
assert JSON.loads('"a' + chr(92) + 'nb"').data == 'a' + chr(10) + 'b'
''', 'an unescaped control character in a string', 'a text that is not JSON is accepted')

