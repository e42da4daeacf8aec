"""C20: schema caches are isolated from one another, coherent with the schemas' URIs,
and released when done."""
from jschon.catalog import Catalog
from jschon.exc import JschonError, CatalogError, JSONSchemaError
import json as hostjson
from schemas import *
from spec_schema import *

GET = 'jschon/catalog/__init__.py: Catalog.get_schema'


def lookup(uri, cacheid='default', catalog=None):
    """what the catalog finds for a URI (a text), or None"""
    try:
        return (catalog or DIALECTS).get_schema(URI(uri), cacheid=cacheid)
    except CatalogError:
        return None


def build(value, cacheid='default', v='2020-12', **kw):
    return schema(v, value, cacheid=cacheid, **kw)


DOC = {'$id': 'http://x.example/s', '$anchor': 'top', 'x-v': 's', '$defs': {'a': {'$anchor': 'anc', 'x-v': 'a'}, 'b': {'$id': 'emb', 'x-v': 'b'}, 'd': {'$dynamicAnchor': 'dyn', 'x-v': 'd'}}}
URIS = ('http://x.example/s', 'http://x.example/s#top', 'http://x.example/s#anc', 'http://x.example/emb', 'http://x.example/s#dyn', 'http://x.example/s#/$defs/a', 'http://x.example/s#', 'http://x.example/emb#')


def s_isolated():
    """a schema is found in the cache it was built for, and in no other"""
    one, two = choose(('default', 'other'), ('one', 'default'), ('one', 'two'), (1, 'one'), ((1, 2), None), ('default', '__meta__'))
    s = build(DOC, cacheid=one)
    uri = choose(*URIS)
    check(lookup(uri, one) is not None, 'found', 'a schema is not found in its own cache', GET, uri, one)
    check(lookup(uri, two) is None, 'isolated', 'a schema of one cache is found in another', GET, uri, two)
    check(lookup(URIS[0], one) is s, 'found', 'the schema found is not the one built', GET)
    t = build({'$id': 'http://x.example/s', 'x-v': 't'}, cacheid=two)
    check(lookup(URIS[0], one) is s and lookup(URIS[0], two) is t, 'isolated', 'a schema of one cache replaced that of another', GET)
    for u in ('http://x.example/emb', 'http://x.example/s#anc'):
        check(lookup(u, one) is not None and lookup(u, two) is None, 'isolated', 'a schema of one cache is found in another', GET, u)


def s_isolated_references():
    """references look in the cache of the schema that contains them"""
    v = dialect()
    one, two = choose(('default', 'other'), ('one', 'default'), ('one', 'two'))
    lib = {'$id': 'http://x.example/lib', 'x-v': 'lib1', '$defs': {'a': {'$anchor': 'anc', 'x-v': 'anc1'}, 'e': {'$id': 'emb', 'x-v': 'emb1'}}}
    build(lib, one, v)
    other = flag('the other cache has one too')
    if other:
        build({'$id': 'http://x.example/lib', 'x-v': 'lib2', '$defs': {'a': {'$anchor': 'anc', 'x-v': 'anc2'}, 'e': {'$id': 'emb', 'x-v': 'emb2'}}}, two, v)
    ref, label = choose(('http://x.example/lib', 'lib'), ('http://x.example/lib#anc', 'anc'), ('http://x.example/emb', 'emb'), ('http://x.example/lib#/$defs/e', 'emb'))
    sval = choose({'$ref': ref}, {'allOf': [{'$ref': ref}]}, {'properties': {'p': {'$ref': ref}}, 'not': {'not': {'$ref': ref}}})
    res = build(sval, one, v).evaluate(JSON(1))
    check(res.valid == verdict(label + '1', ''), 'isolated', 'a reference leads into another cache', kw(v, '$ref'), ref)
    try:
        res = build(sval, two, v).evaluate(JSON(1))
        if check(other, 'isolated', 'a reference leads into another cache', kw(v, '$ref'), ref):
            check(res.valid == verdict(label + '2', ''), 'isolated', 'a reference leads into another cache', kw(v, '$ref'), ref)
    except CatalogError:
        check(not other, 'found', 'a reference does not find what is in its cache', kw(v, '$ref'), ref)


def s_isolated_dynamic():
    """dynamic references look in the cache of the schema, too"""
    v = choose('2020-12', 'next')
    one, two = choose(('default', 'other'), ('one', 'default'))
    tree = {'$id': 'http://t.example/tree', '$dynamicAnchor': 'node', 'x-v': 'tree', 'properties': {'c': {'$dynamicRef': '#node'}}}
    build({'$id': 'http://t.example/strict', '$dynamicAnchor': 'node', 'x-v': 'bystander', '$ref': 'tree', '$defs': {'tree': tree}}, two, v)
    s = build({'$id': 'http://t.example/strict', '$dynamicAnchor': 'node', 'x-v': 'strict', '$ref': 'tree', '$defs': {'tree': tree}}, one, v)
    if flag('the other cache changes'):
        build({'$id': 'http://t.example/strict', 'x-v': 'bystander'}, two, v)
    res = s.evaluate(JSON({'c': 1}))
    check(res.valid == (verdict('strict', '') and verdict('tree', '') and verdict('strict', '/c') and verdict('tree', '/c')), 'isolated', 'a dynamic reference leads into another cache', kw(v, '$dynamicRef'))


class Counting(Source):
    def __init__(self):
        super().__init__()
        self.paths = []

    def __call__(self, path):
        self.paths.append(path)
        if path == 'none':
            raise FileNotFoundError(2, 'No such file', path)
        return hostjson.loads('{"x-v": "lib", "$defs": {"a": {"$anchor": "anc", "x-v": "anc"}}}')


def s_loaded_once():
    """a document is loaded once per cache, when first needed, and belongs to that cache"""
    source = Counting()
    DIALECTS.add_uri_source(URI('http://lib.example/'), source)
    one, two = choose(('default', 'other'), ('one', 'two'))
    first, second = choose('http://lib.example/x', 'http://lib.example/x#', 'http://lib.example/x#anc', 'http://lib.example/x#/$defs/a'), choose('http://lib.example/x', 'http://lib.example/x#', 'http://lib.example/x#anc', 'http://lib.example/x#/$defs/a')
    a = DIALECTS.get_schema(URI(first), metaschema_uri=URI(uri_of('2020-12')), cacheid=one)
    check(source.paths == ['x'], 'loaded', 'a document is not loaded when first needed', GET, source.paths)
    b = DIALECTS.get_schema(URI(second), metaschema_uri=URI(uri_of('2020-12')), cacheid=one)
    check(source.paths == ['x'], 'loaded-once', 'a document is loaded again', GET, source.paths)
    check((a is b) == (first == second or ('#/' in first or '#anc' in first) == ('#/' in second or '#anc' in second)), 'same', 'two lookups give different schemas', GET, first, second)
    check(a.document_rootschema is b.document_rootschema, 'same', 'two lookups give parts of different documents', GET, first, second)
    c = DIALECTS.get_schema(URI(first), metaschema_uri=URI(uri_of('2020-12')), cacheid=two)
    check(source.paths == ['x', 'x'] and c is not a, 'isolated', 'a document loaded into one cache is found in another', GET, source.paths)
    check(a.cacheid == one and c.cacheid == two and a.catalog is DIALECTS, 'cacheid', 'a loaded schema belongs to another cache', GET, a.cacheid, c.cacheid)


def s_uri_setter():
    """a schema is found under its current URI only"""
    one = choose('default', 'one')
    s = build({'x-v': 's', '$defs': {'a': {'x-v': 'a'}}}, one, uri=URI('http://x.example/first'))
    check(lookup('http://x.example/first', one) is s, 'found', 'a schema is not found under the URI it was given', GET)
    new = choose('http://x.example/second', 'http://x.example/first', None)
    s.uri = None if new is None else URI(new)
    check(s.uri == (None if new is None else URI(new)), 'uri', 'the URI is not the one set', 'jschon/jsonschema.py: JSONSchema.uri')
    if new is not None:
        check(lookup(new, one) is s, 'found', 'a schema is not found under its new URI', GET, new)
        check(lookup(new + '#/$defs/a', one) is s['$defs']['a'], 'found', 'a subschema is not found under the new URI', GET, new)
    if new != 'http://x.example/first':
        check(lookup('http://x.example/first', one) is None, 'stale', 'a schema is still found under its former URI', GET, new)
    check(lookup('http://x.example/first', 'two') is None and lookup('http://x.example/second', 'two') is None, 'isolated', 'a schema is found in another cache', GET)


def s_uri_fragments():
    """URIs that bear a fragment are left behind just the same"""
    one = choose('default', 'one')
    first = choose('http://x.example/first', 'http://x.example/first#', 'http://x.example/doc#frag', 'http://x.example/doc#/a/b', 'urn:x:y#frag')
    s = build({'x-v': 's', '$defs': {'a': {'x-v': 'a'}}}, one, uri=URI(first))
    check(lookup(first, one) is s, 'found', 'a schema is not found under the URI it was given', GET, first)
    new = choose('http://x.example/first', 'http://x.example/first#', 'http://x.example/second', 'http://x.example/second#other', 'urn:x:y', None)
    if new == first:
        return
    s.uri = None if new is None else URI(new)
    check(s.uri == (None if new is None else URI(new)), 'uri', 'the URI is not the one set', 'jschon/jsonschema.py: JSONSchema.uri', first, new)
    if new is not None:
        check(lookup(new, one) is s, 'found', 'a schema is not found under its new URI', GET, first, new)
    if new is None or new.rstrip('#') != first.rstrip('#'):
        check(lookup(first, one) is None, 'stale', 'a schema is still found under its former URI', GET, first, new)
        s.uri = URI(first)
        check(lookup(first, one) is s and (new is None or lookup(new, one) is None), 'again', 'a schema given its former URI again is not found under it alone', GET, first, new)


def s_replaced():
    """a later schema with the same URI takes its place; $id overrides the URI given"""
    one = choose('default', 'one')
    how = choose('uri', '$id', 'both')
    def make(label):
        if how == 'uri':
            return build(V(label), one, uri=URI('http://x.example/s'))
        if how == '$id':
            return build({'$id': 'http://x.example/s', 'x-v': label}, one)
        return build({'$id': choose('s', 'http://x.example/s', '/s'), 'x-v': label}, one, uri=URI('http://x.example/given'))
    a = make('a')
    check(lookup('http://x.example/s', one) is a, 'found', 'a schema is not found under its URI', GET, how)
    if how == 'both':
        check(lookup('http://x.example/given', one) is None, 'stale', 'a schema is found under the URI its $id overrides', GET)
        check(a.uri == URI('http://x.example/s'), 'uri', 'the URI is not the one the $id says', 'jschon/jsonschema.py: JSONSchema.uri', a.uri)
    b = make('b')
    check(lookup('http://x.example/s', one) is b, 'replaced', 'a later schema does not take the place of the earlier one', GET, how)


def s_replaced_parts():
    """with a later schema its anchors, embedded resources and locations take the place of the earlier ones"""
    v, one = choose(('2020-12', 'default'), ('2019-09', 'one'), ('next', 'one'))
    def make(label):
        return build({'$id': 'http://x.example/s', '$anchor': 'top', 'x-v': label,
                      '$defs': {'a': {'$anchor': 'anc', 'x-v': label}, 'b': {'$id': 'emb', 'x-v': label}, 'd': {'$anchor': 'dyn', 'x-v': label}}}, one, v)
    def part(s, u):
        d = s['$defs']
        return s if u.endswith(('/s', '#top', '/s#')) else d['b'] if 'emb' in u else d['d'] if u.endswith('dyn') else d['a']
    a = make('a')
    first = choose(*URIS)
    check(lookup(first, one) is part(a, first), 'found', 'a schema is not found under its URI', GET, first)
    b = make('b')
    u = first if flag('the same') else choose(*URIS)
    check(lookup(u, one) is part(b, u), 'replaced', 'a later schema does not take the place of the earlier one', GET, u)
    r = build({'$ref': u}, one, v)
    check(r.keywords['$ref'].refschema is part(b, u), 'replaced', 'a reference leads to the schema that was replaced', GET, u)


def s_add_delete():
    """add_schema and del_schema concern one URI in one cache"""
    one, two = choose(('default', 'two'), ('one', 'default'))
    s, t = build(V('s')), build(V('t'))
    u = URI('http://x.example/u')
    DIALECTS.add_schema(u, s, cacheid=one) if one != 'default' or flag('name the default') else DIALECTS.add_schema(u, s)
    DIALECTS.add_schema(URI('http://x.example/w'), t, cacheid=one)
    check(lookup('http://x.example/u', one) is s and lookup('http://x.example/w', one) is t, 'found', 'a schema added is not found', 'jschon/catalog/__init__.py: Catalog.add_schema')
    check(lookup('http://x.example/u', two) is None, 'isolated', 'a schema added to one cache is found in another', 'jschon/catalog/__init__.py: Catalog.add_schema')
    DIALECTS.del_schema(u, cacheid=two) if two != 'default' or flag('name the default') else DIALECTS.del_schema(u)
    check(lookup('http://x.example/u', one) is s, 'isolated', 'deleting from one cache deletes from another', 'jschon/catalog/__init__.py: Catalog.del_schema')
    DIALECTS.del_schema(URI('http://x.example/none'), cacheid=choose(one, 'no such cache'))
    DIALECTS.del_schema(u, cacheid=one)
    check(lookup('http://x.example/u', one) is None, 'deleted', 'a schema deleted is still found', 'jschon/catalog/__init__.py: Catalog.del_schema')
    check(lookup('http://x.example/w', one) is t and s.uri != u, 'deleted', 'deleting a schema deletes another', 'jschon/catalog/__init__.py: Catalog.del_schema')


def s_cache():
    """catalog.cache(): everything cached in it goes when it ends, however it ends"""
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    keep = build({'$id': 'http://x.example/keep', 'x-v': 'k'})
    given = choose(None, 'mine', ('a', 1))
    how = choose('ends', 'raises', 'returns', 'empty', 'nested', 'fails to build')
    seen = []

    class Stop(Exception):
        pass

    def work():
        with DIALECTS.cache(given) if given is not None or flag('name none') else DIALECTS.cache() as cid:
            seen.append(cid)
            check(given is None or cid == given, 'cacheid', 'the cache has another identifier than the one given', CACHE, cid)
            check(cid != 'default' and cid != '__meta__', 'cacheid', 'the cache has the identifier of another', CACHE, cid)
            if how == 'empty':
                return
            s = build(DOC, cid)
            for u in URIS:
                check(lookup(u, cid) is not None and lookup(u) is None, 'isolated', 'a schema in the cache is not found in it, or elsewhere', CACHE, u)
            check(s.evaluate(JSON(1)).valid == verdict('s', ''), 'works', 'a schema in the cache does not work', CACHE)
            if how == 'nested':
                with DIALECTS.cache() as inner:
                    check(inner != cid, 'cacheid', 'two caches have one identifier', CACHE)
                    check(lookup(URIS[0], inner) is None, 'isolated', 'a schema of the outer cache is found in the inner one', CACHE)
                    build(DOC, inner)
                check(lookup(URIS[0], inner) is None and lookup(URIS[0], cid) is s, 'released', 'the end of the inner cache is not the end of it, or of more', CACHE)
            if how == 'raises':
                raise Stop()
            if how == 'fails to build':
                build({'$id': 'http://x.example/broken', '$ref': 'nowhere'}, cid)
            if how == 'returns':
                return
    try:
        work()
        check(how not in ('raises', 'fails to build'), 'exception', 'the cache swallows an exception', CACHE)
    except Stop:
        check(how == 'raises', 'exception', 'the cache raises an exception', CACHE)
    except CatalogError as e:
        check(how == 'fails to build', 'exception', 'the cache raises an exception', CACHE, e)
    for u in URIS + ('http://x.example/broken',):
        check(lookup(u, seen[0]) is None, 'released', 'a schema is still found in a cache that ended', CACHE, u)
    check(lookup('http://x.example/keep') is keep, 'released', 'the end of a cache took other schemas with it', CACHE)
    # the identifier is free again
    with DIALECTS.cache(seen[0]) as cid:
        check(lookup(URIS[0], cid) is None, 'released', 'a new cache is not empty', CACHE)
        t = build({'$id': 'http://x.example/s', 'x-v': 't'}, cid)
        check(lookup(URIS[0], cid) is t, 'found', 'a schema is not found in a cache used again', CACHE)


def s_cache_in_use():
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    which = choose('default', 'mine', '__meta__')
    keep = build({'$id': 'http://x.example/keep', 'x-v': 'k'}, 'mine')
    also = build({'$id': 'http://x.example/keep', 'x-v': 'k'})
    try:
        with DIALECTS.cache(which):
            fail('in-use', 'a cache identifier in use is accepted', CACHE, which)
    except CatalogError:
        pass
    check(lookup('http://x.example/keep', 'mine') is keep and lookup('http://x.example/keep') is also, 'in-use', 'refusing a cache identifier in use loses schemas', CACHE, which)
    check(DIALECTS.get_metaschema(URI(uri_of('2020-12'))).kwclasses['x-v'] is Verdict, 'in-use', 'refusing a cache identifier in use loses metaschemas', CACHE, which)


def s_unused_identifier():
    """a cache in which nothing was cached is released, too"""
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    with DIALECTS.cache('mine') as cid:
        pass
    with DIALECTS.cache('mine') as cid:
        s = build(V('s'), cid, uri=URI('http://x.example/s'))
        check(lookup('http://x.example/s', 'mine') is s, 'found', 'a schema is not found in its cache', CACHE)
    check(lookup('http://x.example/s', 'mine') is None, 'released', 'a schema is still found in a cache that ended', CACHE)


def s_shared_document():
    """the same document in several caches: the end of one leaves every part of it in the others"""
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    other = choose('default', 'mine')
    s = build(DOC, other)
    have = {}
    first = choose('looked up before', 'after')
    if first == 'looked up before':
        have = {u: lookup(u, other) for u in URIS}
    with DIALECTS.cache('cid' if flag('named') else None) as cid:
        t = build(DOC, cid)
        for u in URIS:
            got = lookup(u, cid)
            check(got is not None and got is not lookup(u, other), 'isolated', 'two caches share a schema', CACHE, u)
        if flag('and one more'):
            build({'$id': 'http://x.example/more', '$anchor': 'm'}, cid)
    for u in URIS:
        got = lookup(u, other)
        check(got is not None and got.cacheid == other and have.get(u, got) is got, 'released', 'the end of a cache took schemas of another with it', CACHE, u)
        check(lookup(u, cid) is None, 'released', 'a schema is still found in a cache that ended', CACHE, u)
    check(build({'$ref': 'http://x.example/s#dyn'}, other).evaluate(JSON(1)).valid == verdict('d', ''), 'released', 'a schema whose document was also in another cache does not work', CACHE)


def s_added_besides():
    """a URI added besides another that has an empty fragment more or less"""
    one = choose('default', 'one')
    s, t = build(V('s'), one), build(V('t'), one)
    u, w = choose(('http://x.example/u#', 'http://x.example/u'), ('http://x.example/u', 'http://x.example/u#'), ('http://x.example/u#a', 'http://x.example/u'), ('http://x.example/u', 'http://x.example/u#a'))
    DIALECTS.add_schema(URI(u), s, cacheid=one)
    DIALECTS.add_schema(URI(w), t, cacheid=one)
    check(lookup(w, one) is t, 'found', 'a schema added is not found', 'jschon/catalog/__init__.py: Catalog.add_schema', w)
    if not u.endswith('#'):
        check(lookup(u, one) is s, 'replaced', 'a schema added takes the place of another', 'jschon/catalog/__init__.py: Catalog.add_schema', u)


def s_only_cache():
    """also the only cache of a catalog is released"""
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    c = Catalog('c')
    s = build(V('s'))
    u = URI('http://x.example/s')
    with c.cache('mine') as cid:
        c.add_schema(u, s, cacheid=cid)
        if flag('another'):
            c.add_schema(u, s)
        check(lookup('http://x.example/s', 'mine', c) is s, 'found', 'a schema added is not found', CACHE)
    check(lookup('http://x.example/s', 'mine', c) is None, 'released', 'a schema is still found in a cache that ended', CACHE)
    with c.cache('mine'):
        check(lookup('http://x.example/s', 'mine', c) is None, 'released', 'a new cache is not empty', CACHE)


def s_failed_load():
    """what could not be loaded or built is not found later"""
    source = Counting()
    DIALECTS.add_uri_source(URI('http://lib.example/'), source)
    m = URI(uri_of('2020-12'))
    for i in range(2):
        try:
            DIALECTS.get_schema(URI('http://lib.example/none'), metaschema_uri=m)
            fail('failed-load', 'a document that does not exist is found', GET, i)
        except CatalogError:
            pass


class Broken(Source):
    def __call__(self, path):
        if path == 'target':
            return True
        return {'$ref': 'nowhere#x', 'x-v': 'b'} if path == 'b' else [1] if path == 'c' else {'$defs': {'a': {'$anchor': 'a', '$ref': '#/nothing'}}}


def s_failed_build():
    """a loaded document that is not a schema, or refers to nothing, is refused every time"""
    DIALECTS.add_uri_source(URI('http://lib.example/'), Broken())
    m = URI(uri_of('2020-12'))
    u = choose('http://lib.example/b', 'http://lib.example/c', 'http://lib.example/d', 'http://lib.example/d#', 'http://lib.example/c#/0')
    for i in range(2):
        try:
            DIALECTS.get_schema(URI(u), metaschema_uri=m)
            fail('failed-build', 'a document that is no proper schema is found%s' % (' when looked up again' if i else ''), GET, u)
        except JschonError:
            pass


def s_failed_construction():
    """a schema that could not be built is not found later"""
    part = choose('root', 'embedded', 'anchor')
    sval = {'x-v': 's', '$ref': 'nowhere', '$defs': {'e': {'$id': 'http://x.example/e', 'x-v': 'e'}, 'a': {'$anchor': 'anc', 'x-v': 'a'}}}
    how = choose('$id', 'uri')
    if how == '$id':
        sval['$id'] = 'http://x.example/s'
    try:
        build(sval) if how == '$id' else build(sval, uri=URI('http://x.example/s'))
    except CatalogError:
        pass
    u = 'http://x.example/s' if part == 'root' else 'http://x.example/e' if part == 'embedded' else 'http://x.example/s#anc'
    check(lookup(u) is None, 'failed-construction', 'a schema that could not be built is found', 'jschon/jsonschema.py: JSONSchema.__init__', part)


def s_any_identifier():
    """any hashable value identifies a cache"""
    CACHE = 'jschon/catalog/__init__.py: Catalog.cache'
    given = choose(0, '', False, (), 1.5, frozenset(), 'x')
    with DIALECTS.cache(given) as cid:
        check(type(cid) is type(given) and cid == given, 'cacheid', 'the cache has another identifier than the one given', CACHE, cid)
        s = build({'$id': 'http://x.example/s', 'not': {'$anchor': 'a'}}, cid)
        check(s.cacheid == given and s['not'].cacheid == given, 'cacheid', 'a schema belongs to another cache', 'jschon/jsonschema.py: JSONSchema.__init__')
        check(lookup('http://x.example/s', given) is s and lookup('http://x.example/s#a', given) is s['not'], 'found', 'a schema is not found in its own cache', GET, given)
        check(lookup('http://x.example/s') is None, 'isolated', 'a schema of one cache is found in another', GET, given)
    check(lookup('http://x.example/s', given) is None, 'released', 'a schema is still found in a cache that ended', CACHE, given)


def s_empty_fragments():
    """adding and deleting are by the exact URI, an empty fragment included"""
    one = choose('default', 'one')
    s, t = build(V('s'), one), build(V('t'), one)
    u, w = URI('http://x.example/u#'), URI('http://x.example/u')
    DIALECTS.add_schema(u, s, cacheid=one)
    check(lookup('http://x.example/u#', one) is s, 'found', 'a schema added is not found', 'jschon/catalog/__init__.py: Catalog.add_schema')
    if flag('deleted at once'):
        DIALECTS.del_schema(u, cacheid=one)
        check(lookup('http://x.example/u#', one) is None and lookup('http://x.example/u', one) is None, 'deleted', 'a schema deleted is still found', 'jschon/catalog/__init__.py: Catalog.del_schema')
    DIALECTS.add_schema(w, t, cacheid=one)
    check(lookup('http://x.example/u', one) is t, 'found', 'a schema added is not found', 'jschon/catalog/__init__.py: Catalog.add_schema')
    DIALECTS.del_schema(u, cacheid=one)
    check(lookup('http://x.example/u', one) is t, 'deleted', 'deleting a schema deletes another', 'jschon/catalog/__init__.py: Catalog.del_schema')
    DIALECTS.del_schema(w, cacheid=one)
    check(lookup('http://x.example/u', one) is None and lookup('http://x.example/u#', one) is None, 'deleted', 'a schema deleted is still found', 'jschon/catalog/__init__.py: Catalog.del_schema')
