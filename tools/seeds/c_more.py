PT = 'jschon/jsonpatch.py'

# ------------------------------------------------------------------ C26
seed('c26-eq-values', 'C26', [(PT, "                JSON(self.value) == JSON(other.value))", "                self.value == other.value)")], PRE + '''
from jschon import JSONPatch, JSONPatchOperation
assert JSONPatch({'op': 'add', 'path': '/a', 'value': [1]}) != JSONPatch({'op': 'add', 'path': '/a', 'value': [True]})
assert JSONPatchOperation(op='test', path='', value={'a': 0}) != {'op': 'test', 'path': '', 'value': {'a': False}}
''', 'two values that differ only in true against 1', 'the operations compare equal')

seed('c26-from-alias', 'C26', [(PT, """            operation if isinstance(operation, JSONPatchOperation) else JSONPatchOperation(**operation)
            for operation in operations
        ]""", """            operation if isinstance(operation, JSONPatchOperation) else JSONPatchOperation(from_=operation.pop('from', None), **operation)
            for operation in operations
        ]""")], PRE + '''
from jschon import JSONPatch
d = {'op': 'move', 'path': '/a', 'from': '/b'}
JSONPatch(d)
assert d == {'op': 'move', 'path': '/a', 'from': '/b'}, d
''', 'a dictionary operation with a source, used again afterwards', 'the dictionary loses its member')

seed('c26-asdict-null', 'C26', [(PT, "        if self.op in ('add', 'replace', 'test'):\n            result['value'] = self.value\n", "        if self.op in ('add', 'replace', 'test') and self.value is not None:\n            result['value'] = self.value\n")], PRE + '''
from jschon import JSONPatch
assert JSONPatch({'op': 'add', 'path': '/a', 'value': None}).aslist() == [{'op': 'add', 'path': '/a', 'value': None}]
''', 'an operation whose value is null', 'its plain form lacks the value')

# ------------------------------------------------------------------ C27
seed('c27-pass-keeps-error', 'C27', [(JS, '''        self._valid = True
        self.error = None

    def''', '''        self._valid = True

    def''')], SPRE + '''
from jschon.vocabulary import Keyword
class K(Keyword):
    key = 'x-k'
    def evaluate(self, instance, result):
        result.fail('first')
        result.pass_()
        assert result.error is None
S('2020-12', {})
cat.get_metaschema(URI('https://json-schema.org/draft/2020-12/schema')).kwclasses['x-k'] = K
assert ok('2020-12', {'x-k': 1}, 1)
''', 'a keyword that reverses its own failure', 'the error stays')

seed('c27-sibling-any', 'C27', [(JS, "            return self.parent.children[key, instance.path] if self.parent else None\n        except KeyError:\n            return None", "            return self.parent.children[key, self.instance.path] if self.parent else None\n        except KeyError:\n            return None")], SPRE + '''
from jschon.vocabulary import Keyword
class K(Keyword):
    key = 'x-k'
    depends_on = 'title',
    def evaluate(self, instance, result):
        assert result.sibling(instance, 'title') is not None
        assert result.sibling(instance['a'], 'title') is None
S('2020-12', {})
cat.get_metaschema(URI('https://json-schema.org/draft/2020-12/schema')).kwclasses['x-k'] = K
ok('2020-12', {'x-k': 1, 'title': 't'}, {'a': 1})
''', 'a keyword that asks for the result of a sibling at an item', 'the result for the container is given')

seed('c27-cls-one-level', 'C27', [(JS, "        self.children[key, instance.path] = (child := (cls or self.__class__)(", "        self.children[key, instance.path] = (child := (cls or (self.__class__ if schema is self.schema else Result))(")], SPRE + '''
from jschon.vocabulary import Keyword
class R(Result):
    pass
seen = []
class W(Keyword):
    key = 'x-w'
    def __init__(self, parentschema, value):
        super().__init__(parentschema, value)
        self.json = JSONSchema(value, parent=parentschema, key='x-w')
    def evaluate(self, instance, result):
        with result(instance, '0', self.json, cls=R) as sub:
            self.json.evaluate(instance, sub)
class P(Keyword):
    key = 'x-p'
    def evaluate(self, instance, result):
        seen.append(type(result))
S('2020-12', {})
m = cat.get_metaschema(URI('https://json-schema.org/draft/2020-12/schema'))
m.kwclasses['x-w'] = W
m.kwclasses['x-p'] = P
ok('2020-12', {'x-w': {'x-p': 1, 'allOf': [{'x-p': 1}]}}, 1)
assert seen == [R, R], seen
''', 'a custom result class, two schemas below the keyword that gives it', 'the ordinary class is used')

seed('c27-collect-falsy', 'C27', [(JS, "            if self.error is not None and \\\n", "            if self.error and \\\n")], SPRE + '''
from jschon.vocabulary import Keyword
class K(Keyword):
    key = 'x-k'
    def evaluate(self, instance, result):
        result.fail(0)
S('2020-12', {})
cat.get_metaschema(URI('https://json-schema.org/draft/2020-12/schema')).kwclasses['x-k'] = K
r = S('2020-12', {'x-k': 1}).evaluate(JSON(1))
assert list(r.collect_errors()) == [0]
''', 'a keyword whose error value is false', 'the error is not collected')
# ------------------------------------------------------------------ C28
seed('c28-name-falsy', 'C28', [(CT, "        self.__class__._catalog_registry[name] = self\n", "        self.__class__._catalog_registry[name or 'catalog'] = self\n")], PRE + '''
from jschon import Catalog
d = Catalog()
e = Catalog('')
assert Catalog.get_catalog() is d and Catalog.get_catalog('') is e
''', 'a catalog with an empty name', 'it takes the place of the default catalog')

seed('c28-shared-vocabularies', 'C28', [(CT, '''    _catalog_registry: Dict[Hashable, Catalog] = {}
''', '''    _catalog_registry: Dict[Hashable, Catalog] = {}
    _vocabularies: Dict[URI, Vocabulary] = {}
'''), (CT, '''        self._vocabularies: Dict[URI, Vocabulary] = {}
''', '')], PRE + '''
from jschon import Catalog, URI
from jschon.exc import CatalogError
a, b = Catalog('a'), Catalog('b')
a.create_vocabulary(URI('http://x/v'))
try:
    b.get_vocabulary(URI('http://x/v'))
except CatalogError:
    sys.exit(0)
assert False
''', 'a vocabulary created in another catalog', 'it is found')
