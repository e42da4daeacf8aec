PTR_ = 'jschon/jsonpointer.py'

seed('c08-hash-empty', 'C08', [(PTR_, "        return hash(tuple(self._keys))", "        return hash((len(self._keys), self._keys[-1] if self._keys else id(self._keys)))")], PRE + '''
from jschon import JSONPointer
a, b = JSONPointer(), JSONPointer('')
assert a == b and hash(a) == hash(b) and {a: 1}[b] == 1
''', 'two empty pointers that are alive at once', 'equal pointers have different hashes')

seed('c15-ref-memo', 'C15', [(COR, "        self.refschema.evaluate(instance, result)\n        result.refschema(self.refschema)", "        memo = result.globals.setdefault('$ref', {})\n        key = (id(self.refschema), str(instance.path))\n        if key in memo and memo[key]:\n            return\n        self.refschema.evaluate(instance, result)\n        memo[key] = result.valid\n        result.refschema(self.refschema)")], SPRE + '''
s = {'$defs': {'a': {'properties': {'p': True}}}, 'not': {'not': {'$ref': '#/$defs/a'}}, '$ref': '#/$defs/a', 'unevaluatedProperties': False}
assert ok('2020-12', s, {'p': 1})
assert ok('2020-12', {k: s[k] for k in ('$ref', 'not', 'unevaluatedProperties', '$defs')}, {'p': 1})
''', 'one schema referred to from two places for the same instance', 'the second reference gives no annotations')

seed('c12-ref-depth', 'C12', [(COR, "        self.refschema.evaluate(instance, result)\n        result.refschema(self.refschema)", "        depth = result.globals.get('depth', 0)\n        if depth < 10:\n            result.globals['depth'] = depth + 1\n            self.refschema.evaluate(instance, result)\n            result.globals['depth'] = depth\n        result.refschema(self.refschema)")], SPRE + '''
x = 'bad'
for i in range(12):
    x = {'n': x}
assert not ok('2020-12', {'$id': 'http://x/s', 'properties': {'n': {'$ref': '#'}}, 'type': 'object'}, x)
''', 'a recursive schema and an instance nested more than ten times', 'what is deeper is not examined')

seed('c17-order-of-many', 'C17', [(JS, "            for kwclass in self._resolve_dependencies(kwclasses):", "            for kwclass in (self._resolve_dependencies(kwclasses) if len(kwclasses) < 12 else kwclasses.values()):")], SPRE + '''
s = {'unevaluatedProperties': False, 'properties': {'p': True}}
for i, k in enumerate(('title', 'description', 'default', 'deprecated', 'readOnly', 'writeOnly', 'examples', '$comment', 'minProperties', 'maxProperties', 'required', 'type')):
    s[k] = {'required': ['p'], 'type': 'object', 'minProperties': 1, 'maxProperties': 5, 'examples': []}.get(k, '')
assert ok('2020-12', s, {'p': 1})
''', 'a schema with twelve keywords, unevaluatedProperties first', 'it is evaluated before properties')

seed('c17-last-result', 'C17', [(JS, "        if result is None:\n            result = Result(self, instance)", "        if result is None:\n            if (last := self.__dict__.get('_last')) is not None and last.instance is instance:\n                return last\n            result = self.__dict__['_last'] = Result(self, instance)")], SPRE + '''
d = JSON({'a': 1})
s = S('2020-12', {'properties': {'a': {'type': 'integer'}}})
assert s.evaluate(d).valid
d['a'] = 'x'
assert not s.evaluate(d).valid
''', 'an instance changed between two evaluations', 'the earlier result is given')

seed('c14-maximum-float', 'C14', [(VAL, "        if instance > self.json:", "        if float(instance.data) > self.json.data:")], SPRE + '''
assert not ok('2020-12', {'maximum': 2**53}, 2**53 + 1)
''', 'an integer that no float expresses, one more than the limit', 'it passes')

seed('c18-hash-of-document', 'C18', [(COR, "    def resolve(self) -> None:\n        uri = URI(self.json.data)\n        if not uri.has_absolute_base():\n            if (base_uri := self.parentschema.base_uri) is not None:\n                uri = uri.resolve(base_uri)\n            else:\n                raise JSONSchemaError(f'No base URI against which to resolve the \"$ref\"", "    def resolve(self) -> None:\n        if self.json.data == '#':\n            self.refschema = self.parentschema.document_rootschema\n            return\n        uri = URI(self.json.data)\n        if not uri.has_absolute_base():\n            if (base_uri := self.parentschema.base_uri) is not None:\n                uri = uri.resolve(base_uri)\n            else:\n                raise JSONSchemaError(f'No base URI against which to resolve the \"$ref\"")], SPRE + '''
s = {'$id': 'http://x/s', 'type': 'object', 'properties': {'e': {'$id': 'e', 'items': {'$ref': '#'}, 'type': 'array'}}}
assert ok('2020-12', s, {'e': [[[]]]})
assert not ok('2020-12', s, {'e': [{}]})
''', "a reference '#' in an embedded resource", 'it leads to the document')

seed('c21-source-fallback', 'C21', [(CT, "            except CatalogError:\n                raise\n            except Exception as e:", "            except CatalogError:\n                if len(candidates) > 1:\n                    return candidates[-1][1](uristr[len(candidates[-1][0]):])\n                raise\n            except Exception as e:")], PRE + '''
from jschon import URI
from jschon.catalog import Catalog, Source
from jschon.exc import CatalogError
class Refuse(Source):
    def __call__(self, path):
        raise CatalogError('no')
class Any(Source):
    def __call__(self, path):
        return {}
c = Catalog('c')
c.add_uri_source(URI('http://x/y/'), Refuse())
c.add_uri_source(URI('http://x/'), Any())
try:
    c.load_json(URI('http://x/y/z'))
except CatalogError:
    pass
else:
    raise SystemExit('loaded from the wider source')
''', 'the most specific source refuses a document, and there is a wider one', 'the wider source is asked')

seed('c24-validator-error', 'C24', [('jschon/vocabulary/format.py', "            except ValueError as e:", "            except Exception as e:")], SPRE + '''
from jschon.vocabulary.format import format_validator
@format_validator('broken')
def v(x):
    raise KeyError(x)
cat.enable_formats('broken')
try:
    ok('2020-12', {'format': 'broken'}, 'x')
except KeyError:
    pass
else:
    raise SystemExit('a broken validator counts as a verdict')
''', 'a validator with a programming error', 'its error counts as a refusal of the value')

seed('c22-vocabulary-first', 'C22', [(CT, "        self._vocabularies[uri] = Vocabulary(uri, *kwclasses)", "        self._vocabularies.setdefault(uri, Vocabulary(uri, *kwclasses))")], PRE + '''
from jschon import URI
from jschon.catalog import Catalog
from jschon.vocabulary import Keyword
class One(Keyword):
    key = 'x'
class Two(Keyword):
    key = 'x'
c = Catalog('c')
u = URI('http://v/x')
c.create_vocabulary(u, One)
c.create_vocabulary(u, Two)
assert c.get_vocabulary(u).kwclasses['x'] is Two
''', 'a vocabulary created twice under one URI', 'the first one stays')
