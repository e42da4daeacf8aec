"""C28: catalogs are found by name, configured as asked for, and independent of one another."""
import json as hostjson
from jschon.catalog import Catalog, Source
from jschon.exc import CatalogError, JSONSchemaError
from jschon import Result
from schemas import *
from spec_schema import *

GET = 'jschon/catalog/__init__.py: Catalog.get_schema'
NAMED = 'jschon/catalog/__init__.py: Catalog.get_catalog'
CREATE = 'jschon/__init__.py: create_catalog'
SCHEMA = 'jschon/jsonschema.py: JSONSchema.__init__'


def lookup(uri, cacheid='default', catalog=None):
    """what the catalog finds for a URI (a text), or None"""
    try:
        return (catalog or DIALECTS).get_schema(URI(uri), cacheid=cacheid)
    except CatalogError:
        return None


class Counting(Source):
    def __init__(self):
        super().__init__()
        self.paths = []

    def __call__(self, path):
        self.paths.append(path)
        if path == 'none':
            raise FileNotFoundError(2, 'No such file', path)
        return hostjson.loads('{"x-v": "lib", "$defs": {"a": {"$anchor": "anc", "x-v": "anc"}}}')


def s_catalogs():
    """catalogs share nothing, and are found by name"""
    fs_hook(metaschema_files)
    one = create_catalog('2020-12', name='one')
    two = create_catalog('2020-12', name='two')
    bare = create_catalog(name=choose('bare', ''))
    check(Catalog.get_catalog('one') is one and Catalog.get_catalog('two') is two and Catalog.get_catalog(bare.name) is bare, 'named', 'a catalog is not found under its name', NAMED)
    check(Catalog.get_catalog() is DIALECTS and DIALECTS.name == 'catalog', 'named', 'the default catalog is not found', NAMED)
    try:
        Catalog.get_catalog('three')
        fail('named', 'a catalog is found that does not exist', NAMED)
    except CatalogError:
        pass
    m = URI(uri_of('2020-12'))
    s = JSONSchema({'$id': 'http://x.example/s', '$defs': {'a': {'$id': 'e', 'type': 'null'}}, 'properties': {'p': {'$anchor': 'p'}}}, catalog=choose(one, 'one'), metaschema_uri=m)
    check(s.catalog is one and s['$defs']['a'].catalog is one and s['properties']['p'].catalog is one, 'catalog', 'a schema belongs to another catalog than the one given', 'jschon/jsonschema.py: JSONSchema.__init__')
    for u in ('http://x.example/s', 'http://x.example/e', 'http://x.example/s#p'):
        check(lookup(u, catalog=one) is not None and lookup(u, catalog=two) is None and lookup(u) is None, 'isolated', 'a schema of one catalog is found in another', GET, u)
    check(one.get_metaschema(m) is not two.get_metaschema(m), 'isolated', 'two catalogs share a metaschema', 'jschon/catalog/__init__.py: Catalog.get_metaschema')
    one.enable_formats('ipv4')
    check(one.is_format_enabled('ipv4') and not two.is_format_enabled('ipv4'), 'isolated', 'a format enabled in one catalog is enabled in another', 'jschon/catalog/__init__.py: Catalog.enable_formats')
    one.add_uri_source(URI('http://lib.example/'), Counting())
    check(one.load_json(URI('http://lib.example/q')) is not None, 'source', 'a source is not used', 'jschon/catalog/__init__.py: Catalog.load_json')
    one.create_vocabulary(URI('http://x.example/vocab'), Verdict)
    for other in (two, bare):
        for what in (lambda: other.load_json(URI('http://lib.example/q')), lambda: other.get_vocabulary(URI('http://x.example/vocab'))):
            try:
                what()
                fail('isolated', 'a source or vocabulary of one catalog is found in another', 'jschon/catalog/__init__.py: Catalog')
            except CatalogError:
                pass
    try:
        bare.get_vocabulary(URI('https://json-schema.org/draft/2020-12/vocab/core'))
        fail('isolated', 'a catalog without dialects has a vocabulary', CREATE)
    except CatalogError:
        pass


def s_versions():
    """create_catalog: the dialects asked for, and no others"""
    fs_hook(metaschema_files)
    have = choose((), ('2019-09',), ('2020-12',), ('next',), ('2020-12', '2019-09'), ('next', '2020-12'), ('next', 'next', '2020-12'), ('2020-12', '2020-12'), ('2020-12', 'next', '2019-09'), ('2019-09', 'next', '2019-09', '2020-12'))
    c = create_catalog(*have, name='c')
    for v in ('2019-09', '2020-12', 'next'):
        try:
            m = c.get_metaschema(URI(uri_of(v)))
            check(v in have, 'versions', 'a catalog has a dialect it was not asked for', CREATE, v, have)
            check(str(m.uri) == uri_of(v), 'versions', 'a dialect has the metaschema of another', CREATE, v)
        except CatalogError:
            check(v not in have, 'versions', 'a catalog lacks a dialect it was asked for', CREATE, v, have)
    try:
        create_catalog(*choose(('2020-09',), ('2020-12', ''), ('draft-07',), ('2019-09', 'Next')), name='d')
        fail('versions', 'an unknown version is accepted', CREATE)
    except ValueError:
        pass


def s_failed():
    """a catalog that cannot be created changes nothing"""
    name = choose('catalog', 'c', 'new')
    fs_hook(metaschema_files)
    c = create_catalog('2020-12', name='c')
    try:
        create_catalog(*choose(('2020-09',), ('2019-09', 'nextt'), ('2020-12', None), ('draft-07', 'next')), name=name)
        fail('versions', 'an unknown version is accepted', CREATE)
    except ValueError:
        pass
    check(Catalog.get_catalog() is DIALECTS and Catalog.get_catalog('c') is c, 'failed', 'a catalog that cannot be created replaces another', CREATE, name)
    try:
        Catalog.get_catalog('new')
        fail('failed', 'a catalog that cannot be created is found', CREATE)
    except CatalogError:
        pass
    c.get_metaschema(URI(uri_of('2020-12')))


def s_names():
    """any name, and the last catalog of a name"""
    n, m = choose(('a', 'b'), ('', 'a'), (1, 2), (None, 'None'), (('a', 1), ('a', 2)), ('1', 1))
    one, two = Catalog(n), Catalog(name=m)
    check(Catalog.get_catalog(n) is one and Catalog.get_catalog(m) is two, 'named', 'a catalog is not found under its name', NAMED, n, m)
    check(one.name == n and two.name == m, 'named', 'a catalog has another name', NAMED)
    three = Catalog(n) if flag('direct') else create_catalog(name=n)
    check(three is not one and type(three) is Catalog, 'named', 'creating a catalog gives an earlier one', NAMED, n)
    check(Catalog.get_catalog(n) is three and Catalog.get_catalog(m) is two, 'named', 'the later catalog is not found under its name', NAMED, n)
    check(Catalog.get_catalog() is DIALECTS, 'named', 'another catalog becomes the default one', NAMED)


def s_replaced():
    """schemas stay with the catalog they were built in, also when another takes its name"""
    fs_hook(metaschema_files)
    v = choose('2019-09', '2020-12')
    one = create_catalog(v, name='c')
    m = URI(uri_of(v))
    for c in (one, ):
        c.get_metaschema(m).kwclasses['x-v'] = Verdict
    one.add_uri_source(URI('http://lib.example/'), Serve({'x-v': 'one'}))
    sval = {'$id': 'http://x.example/s', '$ref': 'http://lib.example/a', 'properties': {'p': {'type': 'null'}}, 'allOf': [{'minimum': 0}], 'if': {'then': True}}
    early = flag('built before')
    if early:
        s = JSONSchema(sval, catalog='c', metaschema_uri=m)
    two = create_catalog(v, name='c')
    two.get_metaschema(m).kwclasses['x-v'] = Verdict
    two.add_uri_source(URI('http://lib.example/'), Serve({'x-v': 'two'}))
    if not early:
        s = JSONSchema(sval, catalog=one, metaschema_uri=m)
    for x in (s, s['properties']['p'], s['allOf'][0], s['if'], s['if']['then']):
        check(x.catalog is one, 'catalog', 'a schema changes its catalog', SCHEMA, str(x.path))
    check(s.evaluate(JSON(1)).valid == verdict('one', ''), 'isolated', 'a reference leads into another catalog', 'jschon/vocabulary/core.py: RefKeyword.resolve')
    t = JSONSchema(sval, catalog='c', metaschema_uri=m)
    check(t.catalog is two, 'named', 'a schema is not built in the catalog named', SCHEMA)
    check(t.evaluate(JSON(1)).valid == verdict('two', ''), 'isolated', 'a reference leads into another catalog', 'jschon/vocabulary/core.py: RefKeyword.resolve')
    check(lookup('http://x.example/s', catalog=one) is s and lookup('http://x.example/s', catalog=two) is t, 'isolated', 'a schema of one catalog is found in another', GET)


class Serve(Source):
    def __init__(self, doc):
        super().__init__()
        self.doc = doc

    def __call__(self, path):
        return self.doc


def s_references():
    """every reference is resolved in the catalog of the schema that contains it"""
    fs_hook(metaschema_files)
    v = choose('2019-09', '2020-12', 'next') if thorough() else choose('2019-09', '2020-12')
    m = URI(uri_of(v))
    cats = []
    for n in ('one', 'two'):
        c = create_catalog(v, name=n)
        c.get_metaschema(m).kwclasses['x-v'] = Verdict
        c.add_uri_source(URI('http://lib.example/'), Serve({'allOf': [{'x-v': n}], '$anchor': 'a', '$defs': {'e': {'$id': 'http://emb.example/', 'x-v': n + 'e'}}}))
        cats.append(c)
    i = choose(0, 1)
    c = cats[i]
    n = ('one', 'two')[i]
    ref = choose('http://lib.example/q', 'http://lib.example/q#a', 'http://lib.example/q#/allOf/0', 'http://emb.example/')
    label = n + 'e' if 'emb' in ref else n
    both = 'emb' in ref or flag('both loaded')
    if both:
        for x in cats:
            x.get_schema(URI('http://lib.example/q'), metaschema_uri=m)
    dyn = ref.endswith('#a') and v != '2019-09' and flag('dynamic')
    key = '$dynamicRef' if dyn else '$ref'
    sval = choose({key: ref}, {'anyOf': [{'$id': 'sub/', key: ref}]}, {'not': {'not': {key: ref}}})
    s = JSONSchema(sval, catalog=choose(c, n), metaschema_uri=m)
    check(s.evaluate(JSON(1)).valid == verdict(label, ''), 'isolated', 'a reference leads into another catalog', 'jschon/vocabulary/core.py: RefKeyword.resolve', ref)
    other = cats[1 - i]
    check(lookup('http://lib.example/q', catalog=c).catalog is c, 'catalog', 'a loaded schema is in another catalog than it was loaded by', GET)
    if both:
        check(lookup('http://lib.example/q', catalog=other).catalog is other, 'catalog', 'a loaded schema is in another catalog than it was loaded by', GET)


def s_vocabularies():
    """vocabularies and metaschemas of the same URI, different in each catalog"""
    fs_hook(metaschema_files)

    def make(label, key):
        class Mine(Keyword):
            def evaluate(self, instance, result):
                if not verdict(label, str(instance.path)):
                    result.fail(label)
        Mine.key = key
        return Mine
    meta = {'$schema': uri_of('2020-12'), '$id': 'http://my.example/meta', '$vocabulary': {'https://json-schema.org/draft/2020-12/vocab/core': True, 'http://my.example/vocab': True}}
    cats = []
    for n in ('one', 'two'):
        c = create_catalog('2020-12', name=n)
        c.create_vocabulary(URI('http://my.example/vocab'), make(n, 'x-' + ('same' if n == 'one' or flag('same key') else 'other')))
        c.add_uri_source(URI('http://my.example/'), Serve(meta))
        cats.append(c)
    if flag('the other first'):
        cats = [cats[1], cats[0]]
    ms = []
    for c in cats:
        ms.append(c.create_metaschema(URI('http://my.example/meta')) if flag('create') else c.get_metaschema(URI('http://my.example/meta')))
    check(ms[0] is not ms[1] and ms[0].catalog is cats[0] and ms[1].catalog is cats[1], 'isolated', 'two catalogs share a metaschema', 'jschon/catalog/__init__.py: Catalog.create_metaschema')
    for c in cats:
        s = JSONSchema({'$schema': 'http://my.example/meta', 'x-same': 1, 'x-other': 1}, catalog=c)
        check(s.evaluate(JSON(1)).valid == verdict(c.name, ''), 'isolated', 'a vocabulary of another catalog is used', 'jschon/vocabulary/__init__.py: Metaschema.__init__', c.name)


def s_entry_points():
    """the catalog given is used by every way to make a schema"""
    fs_hook(metaschema_files)
    c = create_catalog('2020-12', name='c')
    m = URI(uri_of('2020-12'))
    how = choose('constructor', 'loads', 'loadf', 'get_schema')
    doc = '{"$id": "http://x.example/s", "properties": {"p": {"$anchor": "p"}}}'
    fs_hook(lambda path: doc if 's.json' in str(path) else metaschema_files(path))
    given = choose(c, 'c')
    if how == 'constructor':
        s = JSONSchema(hostjson.loads(doc), catalog=given, metaschema_uri=m)
    elif how == 'loads':
        s = JSONSchema.loads(doc, catalog=given, metaschema_uri=m)
    elif how == 'loadf':
        s = JSONSchema.loadf('s.json', catalog=given, metaschema_uri=m)
    else:
        c.add_uri_source(URI('http://x.example/'), Serve(hostjson.loads(doc)))
        s = c.get_schema(URI('http://x.example/s'), metaschema_uri=m)
    check(isinstance(s, JSONSchema) and s.catalog is c and s['properties']['p'].catalog is c, 'catalog', 'a schema belongs to another catalog than the one given', SCHEMA, how)
    check(lookup('http://x.example/s', catalog=c) is s and lookup('http://x.example/s#p', catalog=c) is s['properties']['p'] and lookup('http://x.example/s') is None, 'isolated', 'a schema is not found in its catalog, or in another', GET, how)
    check(s.value == hostjson.loads(doc), 'value', 'a schema has another value than it was made from', SCHEMA, how)


def s_subclass():
    """a catalog class of one's own is used as any other"""
    class Mine(Catalog):
        pass
    c = Mine(name='mine')
    check(Catalog.get_catalog('mine') is c, 'named', 'a catalog is not found under its name', NAMED)
    check(Catalog.get_catalog() is DIALECTS, 'named', 'another catalog becomes the default one', NAMED)
