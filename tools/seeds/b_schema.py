SPRE = PRE + '''
import jschon
from jschon import *
from jschon.exc import *
import jschon.catalog._2020_12 as a, jschon.catalog._2019_09 as b, jschon.catalog._next as c
from jschon.catalog import Source
class F(Source):
    def __init__(s, *a, **k):
        super().__init__()
        s.a = str(a[0])
    def __call__(s, p):
        v = [x for x in ('2019-09', '2020-12', 'next') if x in s.a][0]
        u = 'https://json-schema.org/draft/%s/schema' % v
        return {"$schema": u, "$id": u, **({"$recursiveAnchor": True} if v == '2019-09' else {"$dynamicAnchor": "meta"})}
for m in (a, b, c):
    m.LocalSource = F
cat = create_catalog('2019-09', '2020-12', 'next')
def S(v, x, **k):
    return JSONSchema(x, metaschema_uri=URI('https://json-schema.org/draft/%s/schema' % v), **k)
def ok(v, schema, instance):
    return S(v, schema).evaluate(JSON(instance)).valid
'''
APP = 'jschon/vocabulary/applicator.py'
LEG = 'jschon/vocabulary/legacy.py'
VAL = 'jschon/vocabulary/validation.py'
COR = 'jschon/vocabulary/core.py'
JS = 'jschon/jsonschema.py'
OUT = 'jschon/output.py'
CT = 'jschon/catalog/__init__.py'
VI = 'jschon/vocabulary/__init__.py'
URI_ = 'jschon/uri.py'
FMT = 'jschon/vocabulary/format.py'

seed('c12-dependent-falsy', 'C12', [(APP, '''            if name in instance:
                with result(instance, name) as subresult:''', '''            if instance.data.get(name):
                with result(instance, name) as subresult:''')], SPRE + '''
assert not ok('2020-12', {'dependentSchemas': {'a': {'required': ['b']}}}, {'a': 0})
assert not ok('2020-12', {'dependentSchemas': {'a': {'required': ['b']}}}, {'a': []})
''', 'a present property whose value is null, false, 0 or empty', 'the dependent schema is not applied')

seed('c12-oneof-none', 'C12', [(APP, '''        if len(valid_indices) != 1:
            result.fail('The instance must be valid against exactly''', '''        if len(valid_indices) > 1 or len(err_indices) == len(self.json) > 1:
            result.fail('The instance must be valid against exactly''')], SPRE + '''
assert not ok('2020-12', {'oneOf': [{'type': 'string'}]}, 1)
assert not ok('2020-12', {'oneOf': [False]}, 1)
''', 'oneOf with a single subschema that fails', 'the instance is accepted')

seed('c12-then-order', 'C12', [(APP, '''    key = "then"
    depends_on = "if",
''', '''    key = "then"
''')], SPRE + '''
assert not ok('2020-12', {'then': {'type': 'string'}, 'if': True}, 1)
''', 'then written before if', 'then is ignored')

seed('c13-additional-items-bool', 'C13', [(LEG, '''and type(items.annotation) is int:
            annotation = None''', '''and isinstance(items.annotation, int):
            annotation = None''')], SPRE + '''
assert ok('2019-09', {'items': {'type': 'number'}, 'additionalItems': False}, [1, 2, 3])
''', 'items with one schema next to additionalItems, three items', 'additionalItems is applied although items covers everything')

seed('c13-pattern-first-only', 'C13', [(APP, '''                        if subresult.passed:
                            matched_names |= {name}
                        else:
                            err_names += [name]
''', '''                        if subresult.passed:
                            matched_names |= {name}
                        else:
                            err_names += [name]
                    break
''')], SPRE + '''
assert not ok('2020-12', {'patternProperties': {'^a': True, 'b$': False}}, {'ab': 1})
''', 'a name that matches two patterns', 'only the first pattern is applied')

seed('c13-additional-anchored', 'C13', [(APP, '''                    re.search(regex, name) for regex in known_property_patterns
''', '''                    re.match(regex, name) for regex in known_property_patterns
''')], SPRE + '''
assert ok('2020-12', {'patternProperties': {'b': True}, 'additionalProperties': False}, {'ab': 1})
''', 'a pattern that matches in the middle of a name', 'the property is taken for an additional one')

seed('c13-maxcontains-order', 'C13', [(VAL, '''    key = "maxContains"
    instance_types = "array",
    depends_on = "contains",
''', '''    key = "maxContains"
    instance_types = "array",
''')], SPRE + '''
assert not ok('2020-12', {'maxContains': 1, 'contains': True}, [1, 2])
''', 'maxContains written before contains', 'maxContains is ignored')

seed('c14-unique-text', 'C14', [(VAL, '''            if item not in uniquified:
                uniquified += [item]
''', '''            if str(item) not in uniquified:
                uniquified += [str(item)]
''')], SPRE + '''
assert not ok('2020-12', {'uniqueItems': True}, [{'a': 1, 'b': 2}, {'b': 2, 'a': 1}])
assert not ok('2020-12', {'uniqueItems': True}, [1, 1.0])
''', 'equal items with different texts', 'they count as different')

seed('c14-required-falsy', 'C14', [(VAL, '''missing_deps = [dep for dep in dependents if dep.data not in instance]''', '''missing_deps = [dep for dep in dependents if not instance.data.get(dep.data)]''')], SPRE + '''
assert ok('2020-12', {'dependentRequired': {'a': ['b']}}, {'a': 1, 'b': None})
''', 'a required property with a null or empty value', 'it counts as missing')

seed('c14-length-bytes', 'C14', [(VAL, '''        if len(instance) > self.json:
            result.fail(f"The text is too long''', '''        if len(instance.data.encode('utf-16-le', 'surrogatepass')) > 2 * self.json.data:
            result.fail(f"The text is too long''')], SPRE + '''
assert ok('2020-12', {'maxLength': 1}, '\\U0001F600')
''', 'characters beyond the basic plane', 'each counts twice')

seed('c15-contains-overwrite', 'C15', [(APP, '''            contains_indices |= set(contains_annotation)''', '''            contains_indices = set(contains_annotation)''')], SPRE + '''
assert ok('2020-12', {'allOf': [{'contains': {'const': 1}}, {'contains': {'const': 2}}], 'unevaluatedItems': False}, [1, 2])
''', 'two contains in different in-place subschemas', 'only the last one counts')

seed('c15-anyof-short', 'C15', [(APP, '''                if subresult.passed:
                    valid = True
''', '''                if subresult.passed:
                    valid = True
            if valid:
                break
''')], SPRE + '''
assert ok('2020-12', {'anyOf': [{'properties': {'a': True}}, {'properties': {'b': True}}], 'unevaluatedProperties': False}, {'a': 1, 'b': 2})
''', 'several subschemas of anyOf that pass', 'the later ones do not count as evaluating anything')

seed('c15-dynamicref-order', 'C15', [(APP, '''        "oneOf",
        "not",
        "$ref",
        "$dynamicRef",
    )

    def evaluate(self, instance: JSON, result: Result) -> None:
        evaluated_names''', '''        "oneOf",
        "not",
        "$ref",
    )

    def evaluate(self, instance: JSON, result: Result) -> None:
        evaluated_names''')], SPRE + '''
assert ok('2020-12', {'$id': 'http://x.example/', 'unevaluatedProperties': False, '$dynamicRef': '#/$defs/a', '$defs': {'a': {'properties': {'p': True}}}}, {'p': 1})
''', 'unevaluatedProperties written before $dynamicRef', 'what the reference evaluates is not seen')

seed('c15-last-item', 'C15', [(LEG, '''            if type(items_annotation) is int and items_annotation > last_evaluated_item:
                last_evaluated_item = items_annotation''', '''            if type(items_annotation) is int:
                last_evaluated_item = items_annotation''')], SPRE + '''
assert ok('2019-09', {'items': [True, True], 'allOf': [{'items': [True]}], 'unevaluatedItems': False}, [1, 2])
''', 'two items arrays of different length, the shorter one later', 'items covered by the longer one count as unevaluated')

seed('c16-noassert-valid', 'C16', [('jschon/vocabulary/annotation.py', '''        if result.sibling(instance, "contentMediaType"):
            super().evaluate(instance, result)''', '''        if (media := result.sibling(instance, "contentMediaType")) and media.annotation:
            super().evaluate(instance, result)''')], SPRE + '''
out = S('2020-12', {'contentMediaType': '', 'contentSchema': {'type': 'null'}}).evaluate(JSON('x')).output('basic')
assert len(out['annotations']) == 2
''', 'an empty contentMediaType', 'the annotation of contentSchema is missing')

seed('c16-if-failed', 'C16', [(JS, '''        if self._valid and not self._discard:
            if self.annotation is not None and \\''', '''        if self.passed and not self._discard:
            if self.annotation is not None and \\''')], SPRE + '''
r = S('2020-12', {'if': {'title': 't', 'type': 'string'}, 'else': True}).evaluate(JSON(1))
assert list(r.collect_annotations(key='title')) == []
''', 'annotations below an if that failed', 'they are collected')

seed('c16-unknown-alias', 'C16', [(VI, '''        try:
            return self.kwclasses[key]
        except KeyError:''', '''        try:
            return self.kwclasses[key.strip()]
        except KeyError:''')], SPRE + '''
r = S('2020-12', {' type': 'string'}).evaluate(JSON(1))
assert r.valid
''', 'an unknown keyword that differs from a known one in white space only', 'it asserts')

seed('c17-globals', 'C17', [(COR, '''                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \\
                                dynamic_anchor.data == self.fragment:
                            refschema = found_schema
''', '''                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \\
                                dynamic_anchor.data == self.fragment:
                            refschema = self.refschema = found_schema
''')], SPRE + '''
S('2020-12', {'$id': 'http://x.example/tree', '$dynamicAnchor': 'node'})
a = S('2020-12', {'$id': 'http://x.example/a', 'properties': {'c': {'$dynamicRef': 'tree#node'}}})
s = S('2020-12', {'$id': 'http://x.example/strict', '$dynamicAnchor': 'node', '$ref': 'a', 'required': ['x']})
i = JSON({'c': {}})
assert a.evaluate(i).valid
s.evaluate(JSON({'x': 1, 'c': {'x': 1}}))
assert a.evaluate(i).valid
''', 'a dynamic reference evaluated from two places, the inner one last', 'the first evaluation fixes the target of later ones')

seed('c17-contains-kept', 'C17', [(APP, '''        annotation = []
        for index, item in enumerate(instance):
            if self.json.evaluate(item, result).passed:
                annotation += [index]
            else:
                result.pass_()
                result.drop_annotations(self.json, item)

        result.annotate(annotation)
''', '''        annotation = self.__dict__.setdefault('_matches', [])
        if len(annotation) >= len(instance):
            annotation.clear()
        for index, item in enumerate(instance):
            if self.json.evaluate(item, result).passed:
                annotation += [index]
            else:
                result.pass_()
                result.drop_annotations(self.json, item)

        result.annotate(annotation)
''')], SPRE + '''
s = S('2020-12', {'contains': {'const': 1}})
assert s.evaluate(JSON([1, 2])).valid
assert not s.evaluate(JSON([3, 2])).valid
''', 'an array without a match evaluated after a longer one with a match', 'matches of the earlier evaluation count')


seed('c18-ref-fragmentless', 'C18', [(JS, '''            return self._uri.copy(fragment=False)
        if self.parentschema''', '''            return self._uri.copy(fragment=False, query=False)
        if self.parentschema''')], SPRE + '''
s = S('2020-12', {'$id': 'http://x.example/s?v=1', 'not': {'$ref': '#/$defs/a'}, '$defs': {'a': False}})
assert s.evaluate(JSON(1)).valid
''', 'an $id with a query', 'local references lead to another URI')

seed('c18-dynamic-outermost', 'C18', [(COR, '''                            refschema = found_schema
                    except''', '''                            refschema = found_schema if refschema is self.refschema else refschema
                    except''')], SPRE + '''
S('2020-12', {'$id': 'http://x.example/a', '$dynamicAnchor': 'n', 'properties': {'c': {'$dynamicRef': '#n'}}})
S('2020-12', {'$id': 'http://x.example/b', '$dynamicAnchor': 'n', '$ref': 'a'})
s = S('2020-12', {'$id': 'http://x.example/c', '$dynamicAnchor': 'n', '$ref': 'b', 'required': ['x']})
assert not s.evaluate(JSON({'x': 1, 'c': {}})).valid
''', 'three nested resources with the same dynamic anchor', 'the middle one wins instead of the outermost')

seed('c18-recursive-first', 'C18', [(LEG, '''                if (base_anchor := target.schema.get("$recursiveAnchor")) and \\
                        base_anchor.data is True:
                    refschema = target.schema
''', '''                if (base_anchor := target.schema.get("$recursiveAnchor")) and \\
                        base_anchor.data is True:
                    refschema = target.schema
                    if refschema is not self.refschema:
                        break
''')], SPRE + '''
S('2019-09', {'$id': 'http://x.example/a', '$recursiveAnchor': True, 'properties': {'c': {'$recursiveRef': '#'}}})
S('2019-09', {'$id': 'http://x.example/b', '$recursiveAnchor': True, '$ref': 'a'})
s = S('2019-09', {'$id': 'http://x.example/c', '$recursiveAnchor': True, '$ref': 'b', 'required': ['x']})
assert not s.evaluate(JSON({'x': 1, 'c': {}})).valid
''', 'three nested resources with $recursiveAnchor', 'the middle one wins instead of the outermost')

seed('c19-detailed-collapse', 'C19', [(OUT, '''        elif len(output[childkey]) == 1:
            output = output[childkey][0]

        return output
''', '''        elif len(output[childkey]) == 1 and not getattr(node, msgkey):
            output = output[childkey][0]

        return output
''')], SPRE + '''
r = S('2020-12', {'allOf': [{'type': 'string'}]}).evaluate(JSON(1)).output('detailed')
assert r['errors'][0]['keywordLocation'] == '/allOf/0/type', r
''', 'an applicator with a message and a single failing child', 'the node is not replaced by its only child')

seed('c19-basic-truthy', 'C19', [(OUT, '''        msgkey = "annotation" if valid else "error"
        if (msgval := getattr(node, msgkey)) is not None:
            output[msgkey] = msgval

        childkey''', '''        msgkey = "annotation" if valid else "error"
        if msgval := getattr(node, msgkey):
            output[msgkey] = msgval

        childkey''')], SPRE + '''
r = S('2020-12', {'default': 0}).evaluate(JSON(1)).output('verbose')
assert r['annotations'][0]['annotation'] == 0
''', 'an annotation that is false, 0 or empty', 'it is missing in the verbose output')

seed('c19-ref-location', 'C19', [(JS, '''            if fragment := schema_uri.fragment:
                relpath = JSONPointer.parse_uri_fragment(fragment) / self.relpath
            else:
                relpath = self.relpath
            return schema_uri''', '''            if (fragment := schema_uri.fragment) and self.relpath:
                relpath = JSONPointer.parse_uri_fragment(fragment) / self.relpath[-1:]
            else:
                relpath = self.relpath
            return schema_uri''')], SPRE + '''
r = S('2020-12', {'$id': 'http://x.example/s', 'allOf': [{'properties': {'a': {'items': {'anyOf': [{'type': 'null'}]}}}}]}).evaluate(JSON({'a': [1]})).output('basic')
for e in r['errors']:
    if e['keywordLocation'].endswith('/anyOf'):
        assert e['absoluteKeywordLocation'] == 'http://x.example/s#' + e['keywordLocation'], e
    if e['keywordLocation'].endswith('/properties'):
        assert e['absoluteKeywordLocation'] == 'http://x.example/s#' + e['keywordLocation'], e
r = S('2020-12', {'$id': 'http://x.example/t', 'not': {'not': {'dependentSchemas': {'a': {'type': 'null'}}}}}).evaluate(JSON({'a': 1})).output('verbose')
def walk(n):
    yield n
    for c in n.get('errors', []) + n.get('annotations', []):
        yield from walk(c)
for n in walk(r):
    assert n['absoluteKeywordLocation'] == 'http://x.example/t#' + n['keywordLocation'], n
''', 'keywords two levels below an embedded subschema', 'the absolute location leaves out a level')

seed('c20-rename-keeps', 'C20', [(JS, '''            if self._uri is not None:
                self.catalog.del_schema(self._uri, cacheid=self.cacheid)

            self._uri = value
''', '''            if self._uri is not None:
                self.catalog.del_schema(self._uri)

            self._uri = value
''')], SPRE + '''
s = S('2020-12', {'$id': 'http://x.example/new', 'title': 't'}, uri=URI('http://x.example/old'), cacheid='mine')
try:
    cat.get_schema(URI('http://x.example/old'), cacheid='mine')
    assert False
except CatalogError:
    pass
''', 'an $id that replaces the URI of a schema in another cache than the default one', 'the schema is still found under its old URI')

seed('c20-cache-exception', 'C20', [(CT, '''        try:
            yield cacheid
        finally:
            self._schema_cache.pop(cacheid, None)''', '''        yield cacheid
        self._schema_cache.pop(cacheid, None)''')], SPRE + '''
try:
    with cat.cache('c') as c:
        S('2020-12', {'$id': 'http://x.example/s'}, cacheid=c)
        raise KeyError
except KeyError:
    pass
with cat.cache('c'):
    pass
''', 'a cache context left by an exception', 'the cache is not released')

seed('c20-fragment-shared', 'C20', [(CT, '''                ptr = JSONPointer.parse_uri_fragment(uri.fragment)
                schema = ptr.evaluate(schema)
''', '''                ptr = JSONPointer.parse_uri_fragment(uri.fragment)
                schema = ptr.evaluate(schema)
                self.add_schema(uri, schema, cacheid='default')
''')], SPRE + '''
S('2020-12', {'$id': 'http://x.example/s', '$defs': {'a': {}}}, cacheid='one')
cat.get_schema(URI('http://x.example/s#/$defs/a'), cacheid='one')
try:
    cat.get_schema(URI('http://x.example/s#/$defs/a'))
    assert False
except CatalogError:
    pass
''', 'a pointer fragment looked up in a non-default cache', 'the subschema leaks into the default cache')

seed('c21-prefix-order', 'C21', [(CT, '''            candidates.sort(key=lambda c: len(c[0]), reverse=True)''', '''            candidates.sort(key=lambda c: (len(c[0]) > len(str(uri)) // 2, -len(c[0])), reverse=True)''')], SPRE + '''
class T(Source):
    def __init__(s, n):
        super().__init__()
        s.n = n
    def __call__(s, p):
        return [s.n, p]
f = Catalog('v')
f.add_uri_source(URI('http://e.example/'), T('host'))
f.add_uri_source(URI('http://e.example/a/'), T('path'))
f.add_uri_source(URI('http://e.example/a/b/'), T('deep'))
assert f.load_json(URI('http://e.example/a/b/c')) == ['deep', 'c']
''', 'three nested bases', 'a less specific source is used')

seed('c21-suffix-replaces', 'C21', [(CT, '''            filepath = str(filepath)
            filepath += self.suffix
''', '''            filepath = str(filepath.with_suffix(self.suffix))
''')], SPRE + '''
import tempfile, os, json
from jschon.catalog import LocalSource
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, 'a.b.json'), 'w') as fh:
        json.dump({'x': 1}, fh)
    assert LocalSource(d, suffix='.json')('a.b') == {'x': 1}
''', 'a name that contains a dot', 'another file is read')

seed('c21-error-leak', 'C21', [(CT, '''            except CatalogError:
                raise
            except Exception as e:
                raise CatalogError(*e.args) from e
''', '''            except CatalogError:
                raise
            except (OSError, ValueError) as e:
                raise CatalogError(*e.args) from e
''')], SPRE + '''
class T(Source):
    def __call__(s, p):
        return {}[p]
c = Catalog('t')
c.add_uri_source(URI('http://x.example/'), T())
try:
    c.load_json(URI('http://x.example/a'))
    assert False
except CatalogError:
    pass
''', 'a source that raises an error of an unusual kind', 'the error is not reported as CatalogError')

seed('c22-vocab-optional-false', 'C22', [(COR, '''            except CatalogError:
                if vocab_required:
''', '''            except CatalogError:
                if vocab_required and not parentschema.default_vocabularies:
''')], SPRE + '''
V = 'https://json-schema.org/draft/2020-12/vocab/'
class T(Source):
    def __call__(s, p):
        return {'$schema': 'http://m.example/m', '$id': 'http://m.example/m', '$dynamicAnchor': 'meta', '$vocabulary': {V + 'core': True, 'http://m.example/unknown': True}}
cat.add_uri_source(URI('http://m.example/'), T())
try:
    cat.create_metaschema(URI('http://m.example/m'), URI(V + 'core'), URI(V + 'validation'))
    assert False
except JschonError:
    pass
''', 'a required unknown vocabulary in a metaschema that is given default vocabularies', 'the metaschema is accepted')

seed('c22-default-always', 'C22', [(VI, '''        if "$vocabulary" not in value:
            for vocabulary in self.default_vocabularies:''', '''        if not value.get("$vocabulary") or len(self.default_vocabularies) > 1:
            for vocabulary in self.default_vocabularies:''')], SPRE + '''
V = 'https://json-schema.org/draft/2020-12/vocab/'
class T(Source):
    def __call__(s, p):
        return {'$schema': 'http://m.example/m', '$id': 'http://m.example/m', '$dynamicAnchor': 'meta', '$vocabulary': {V + 'core': True, V + 'applicator': True}}
cat.add_uri_source(URI('http://m.example/'), T())
cat.create_metaschema(URI('http://m.example/m'), URI(V + 'core'), URI(V + 'validation'), URI(V + 'applicator'))
assert JSONSchema({'$schema': 'http://m.example/m', 'type': 'string'}).evaluate(JSON(1)).valid
''', 'several default vocabularies next to a $vocabulary keyword', 'vocabularies that are not declared take effect')

seed('c22-inherit', 'C22', [(JS, '''        if self._metaschema_uri is not None:
            return self._metaschema_uri
        if self.parentschema is not None:
            return self.parentschema.metaschema_uri
''', '''        if self._metaschema_uri is not None:
            return self._metaschema_uri
        if self.parentschema is not None:
            return self.document_rootschema.metaschema_uri
''')], SPRE + '''
s = S('2020-12', {'$defs': {'a': {'$id': 'http://x.example/', '$schema': 'https://json-schema.org/draft/2019-09/schema', 'items': {'items': [{'type': 'string'}]}}}, '$ref': '#/$defs/a'})
assert not s.evaluate(JSON([[1]])).valid
''', 'a subschema below an embedded resource with another $schema', 'it is evaluated in the dialect of the document')

seed('c23-key-kept', 'C23', [(VI, '''            return JSON(
                value,
                parent=parentschema,
                key=key,
                itemclass=JSONSchema,
                catalog=parentschema.catalog,
                cacheid=parentschema.cacheid,
            )


class ObjectOfSubschemas''', '''            return JSON(
                value,
                parent=parentschema,
                key=key,
                itemclass=JSONSchema,
                catalog=parentschema.catalog,
            )


class ObjectOfSubschemas''')], SPRE + '''
s = S('2020-12', {'allOf': [{'$id': 'http://x.example/a'}]}, cacheid='mine')
assert cat.get_schema(URI('http://x.example/a'), cacheid='mine') is s['allOf'][0]
''', 'a subschema in an array, in a cache other than the default one', 'it is built in the default cache')

seed('c23-enum-schema', 'C23', [(COR, '''class DefsKeyword(Keyword, ObjectOfSubschemas):
    key = "$defs"
    static = True


class CommentKeyword(Keyword):
    key = "$comment"''', '''class DefsKeyword(Keyword, ObjectOfSubschemas):
    key = "$defs"
    static = True


class CommentKeyword(Keyword, ObjectOfSubschemas):
    key = "$comment"''')], SPRE + '''
s = S('2020-12', {'$comment': {'example': {'$id': 'http://x.example/e'}}})
assert not isinstance(s['$comment']['example'], JSONSchema)
''', 'a $comment with an object value', 'what is in it becomes a schema')

seed('c23-base-parent', 'C23', [(COR, '''        (uri := URI(value)).validate(allow_non_empty_fragment=False)
        if not uri.is_absolute():
            if (base_uri := parentschema.base_uri) is not None:
                uri = uri.resolve(base_uri)
''', '''        (uri := URI(value)).validate(allow_non_empty_fragment=False)
        if not uri.is_absolute():
            if (base_uri := parentschema.document_rootschema.base_uri) is not None:
                uri = uri.resolve(base_uri)
''')], SPRE + '''
s = S('2020-12', {'$id': 'http://x.example/a/r', '$defs': {'p': {'$id': 'b/s', '$defs': {'q': {'$id': 'c/t'}}}}})
assert str(s['$defs']['p']['$defs']['q'].uri) == 'http://x.example/a/b/c/t'
''', 'relative $id values nested twice', 'the inner one is resolved against the document')

seed('c24-shared-formats', 'C24', [(CT, '''        self._enabled_formats: Set[str] = set()
''', ''''''), (CT, '''    _catalog_registry: Dict[Hashable, Catalog] = {}
''', '''    _catalog_registry: Dict[Hashable, Catalog] = {}
    _enabled_formats: Set[str] = set()
''')], SPRE + '''
other = Catalog('other')
other.enable_formats('json-pointer')
assert not cat.is_format_enabled('json-pointer')
assert ok('2020-12', {'format': 'json-pointer'}, 'no pointer')
''', 'two catalogs, a format enabled in one', 'the format is enabled in both')

seed('c24-typed-null', 'C24', [(FMT, '''        if self.validator and instance.type in self.validates_types:
            try:''', '''        if self.validator and instance.data and instance.type in self.validates_types:
            try:''')], SPRE + '''
from jschon.vocabulary.format import format_validator
@format_validator('never')
def never(v):
    raise ValueError('never')
cat.enable_formats('never')
assert not ok('2020-12', {'format': 'never'}, '')
''', 'an empty text (or 0, or null) and a format that refuses it', 'the validator is not asked')

seed('c24-pointer-language', 'C24', [('jschon/formats.py', '''_json_pointer_re.fullmatch(value)''', '''_json_pointer_re.match(value)''')], SPRE + '''
cat.enable_formats('json-pointer')
assert not ok('2020-12', {'format': 'json-pointer'}, '/a~')
''', 'a text that starts with a JSON pointer', 'it is accepted')


seed('c25-absolute-base', 'C25', [(URI_, '''        return self.copy(fragment=False).is_absolute()''', '''        return bool(self.scheme) and '#/' not in str(self)''')], SPRE + '''
assert URI('http://x.example/a#/b').has_absolute_base() and URI('urn:x#f').has_absolute_base()
''', 'an absolute URI with a pointer fragment', 'it is not taken for an absolute base')

seed('c25-eq-text', 'C25', [(URI_, '''            return self._uriref == other._uriref
        if other is None''', '''            return str(self) == str(other)
        if other is None''')], SPRE + '''
assert URI('HTTP://x.example/%c3') == URI('http://x.example/%C3')
''', 'URIs that differ before normalisation only', 'they are different')
