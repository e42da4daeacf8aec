"""C22: exactly the keywords of the vocabularies a schema's metaschema lists are active;
metaschemas are found, checked, and refused as documented."""
import json as hostjson
from jschon.catalog import Catalog
from jschon.exc import JschonError, CatalogError, JSONSchemaError, URIError
from jschon.vocabulary import Metaschema, Vocabulary
from schemas import *
from spec_schema import *

CREATE = 'jschon/catalog/__init__.py: Catalog.create_metaschema'
VOCABS = 'jschon/vocabulary/__init__.py: Metaschema.__init__'
DIALECT = {'2019-09': ('core', 'applicator', 'validation', 'format', 'meta-data', 'content'),
           '2020-12': ('core', 'applicator', 'unevaluated', 'validation', 'format-annotation', 'meta-data', 'content'),
           'next': ('core', 'applicator', 'unevaluated', 'validation', 'format-annotation', 'meta-data', 'content')}
# one keyword of each vocabulary, with an instance it rejects (or annotates)
PROBE = {'applicator': ({'properties': {'a': False}}, {'a': 1}), 'validation': ({'minimum': 5}, 1), 'unevaluated': ({'unevaluatedProperties': False}, {'a': 1}),
         'x': ({'x-v': 'x'}, 1)}


def vocab(v, name):
    return 'https://json-schema.org/draft/%s/vocab/%s' % (v, name)


class Docs(Source):
    """the metaschema documents of a test"""

    def __init__(self):
        super().__init__()
        self.docs = {}
        self.log = []

    def __call__(self, path):
        self.log.append(path)
        if path not in self.docs:
            raise FileNotFoundError(2, 'No such file', path)
        return self.docs[path]


SOURCE = Docs()
DIALECTS.add_uri_source(URI('http://meta.example/'), SOURCE)


def meta(name, v, vocabulary, **more):
    """provide a metaschema document"""
    doc = {'$schema': uri_of(v), '$id': 'http://meta.example/' + name}
    if vocabulary is not None:
        doc['$vocabulary'] = vocabulary
    doc.update(more)
    SOURCE.docs[name] = doc
    return URI('http://meta.example/' + name)


class XVerdict(Verdict):
    pass


def custom():
    return DIALECTS.create_vocabulary(URI('http://vocab.example/x'), XVerdict)


def active(m, v, name):
    """is the vocabulary active in schemas with that metaschema?"""
    sval, inst = PROBE[name]
    s = JSONSchema(sval, catalog=DIALECTS, metaschema_uri=m)
    res = s.evaluate(JSON(inst))
    if name == 'x':
        return type(s.keywords['x-v']) is XVerdict
    return not res.valid


def s_listed():
    """the vocabularies listed are active, whether required or not; others are not"""
    v = dialect()
    custom()
    names = ['applicator', 'validation', 'x'] + (['unevaluated'] if v != '2019-09' else [])
    listed = {}
    for n in names:
        listed[n] = choose(None, True, False)
    order = choose('core first', 'core last')
    vs = {}
    if order == 'core first':
        vs[vocab(v, 'core')] = True
    for n in names:
        if listed[n] is not None:
            vs['http://vocab.example/x' if n == 'x' else vocab(v, n)] = listed[n]
    if order != 'core first':
        vs[vocab(v, 'core')] = True
    m = meta('m', v, vs)
    for n in names:
        check(active(m, v, n) == (listed[n] is not None), 'active', 'a vocabulary is active that is not listed, or is not active though listed', VOCABS, n, vs)
    # the core is active in any case
    s = JSONSchema({'$id': 'http://x.example/s', '$ref': '#a', '$defs': {'a': {'$anchor': 'a', 'x-k': 1}}}, catalog=DIALECTS, metaschema_uri=m)
    check([u['keywordLocation'] for u in s.evaluate(JSON(1)).output('basic')['annotations']] == ['/$ref/x-k'], 'active', 'the core vocabulary is not active', VOCABS, vs)


def s_inactive_is_unknown():
    """the keywords of vocabularies that are not listed only annotate, and hold no subschemas"""
    v = dialect()
    m = meta('m', v, {vocab(v, 'core'): True})
    sval = choose({'minimum': 5}, {'properties': {'a': False}}, {'not': {}}, {'type': 'string'}, {'title': 't'}, {'allOf': [False]}, {'format': 'x'}, {'if': {'$id': 'http://sub.example/'}}, {'items': {'$ref': 'http://no.example/'}}, {'required': ['z']})
    s = JSONSchema(sval, catalog=DIALECTS, metaschema_uri=m)
    k = list(sval)[0]
    out = s.evaluate(JSON({'a': 1})).output('basic')
    check(out['valid'] and len(out['annotations']) == 1 and out['annotations'][0]['annotation'] == sval[k], 'unknown', 'a keyword of no vocabulary listed is more than an annotation', VOCABS, sval, out)
    check(not isinstance(s[k], JSONSchema), 'unknown', 'a keyword of no vocabulary listed has a subschema', VOCABS, sval)


def s_unknown_vocabulary():
    """an unknown vocabulary is refused if required, and ignored otherwise"""
    v = dialect()
    required = flag('required')
    bad = choose('http://vocab.example/unknown', 'urn:vocab', vocab(v, 'core') + '2', vocab(v, 'nothing'))
    m = meta('m', v, {vocab(v, 'core'): True, bad: required, vocab(v, 'validation'): True})
    try:
        got = DIALECTS.get_metaschema(m)
        check(not required, 'unknown-vocabulary', 'an unknown vocabulary is accepted though required', VOCABS, bad)
        check(active(m, v, 'validation') and not active(m, v, 'applicator'), 'unknown-vocabulary', 'an unknown vocabulary disturbs the others', VOCABS, bad)
    except JSONSchemaError:
        check(required, 'unknown-vocabulary', 'an unknown vocabulary is refused though not required', VOCABS, bad)


def s_core():
    """exactly one core vocabulary, known and required, has to be listed"""
    v = dialect()
    c = vocab(v, 'core')
    vs, ok = choose(({c: True}, True), ({c: False}, False), ({}, False), ({vocab(v, 'validation'): True}, False), ({c: True, vocab('2019-09' if v != '2019-09' else 'next', 'core'): True}, False),
                    ({c: True, 'https://json-schema.org/draft/unheard/vocab/core': False}, False), ({'https://json-schema.org/draft/unheard/vocab/core': True}, False),
                    ({'http://vocab.example/core': True}, False), ({c: True, 'http://vocab.example/vocab/core': False}, True), ({c: True, c + '/more': False}, True), ({c + '/more': True}, False))
    m = meta('m', v, vs)
    try:
        got = DIALECTS.create_metaschema(m, URI(c)) if c in vs and flag('with a default') else DIALECTS.get_metaschema(m)
        check(ok, 'core', 'a metaschema without one known, required core vocabulary is accepted', VOCABS, vs)
        check(got.core_vocabulary is DIALECTS.get_vocabulary(URI(c)), 'core', 'another core vocabulary is used', VOCABS, vs)
    except JschonError:
        check(not ok, 'core', 'a metaschema with a known, required core vocabulary is refused', VOCABS, vs)


def s_defaults():
    """without $vocabulary, the defaults given count"""
    v = dialect()
    custom()
    m = meta('m', v, None)
    defaults = choose((), ('validation',), ('applicator', 'validation'), ('x',), ('validation', 'x'))
    uris = [URI('http://vocab.example/x' if n == 'x' else vocab(v, n)) for n in defaults]
    got = DIALECTS.create_metaschema(m, URI(vocab(v, 'core')), *uris)
    check(isinstance(got, Metaschema) and DIALECTS.get_metaschema(m) is got, 'created', 'the metaschema created is not found', CREATE)
    for n in ('applicator', 'validation', 'x'):
        check(active(m, v, n) == (n in defaults), 'active', 'other vocabularies than the defaults given are active', VOCABS, n, defaults)


def s_defaults_overridden():
    """with $vocabulary, the defaults do not count"""
    v = dialect()
    m = meta('m', v, {vocab(v, 'core'): True, vocab(v, 'validation'): True})
    got = DIALECTS.create_metaschema(m, URI(choose(vocab(v, 'core'), vocab('2019-09' if v != '2019-09' else 'next', 'core'))), URI(vocab(v, 'applicator')))
    check(active(m, v, 'validation') and not active(m, v, 'applicator'), 'active', 'defaults count though vocabularies are listed', VOCABS)
    check(got.core_vocabulary is DIALECTS.get_vocabulary(URI(vocab(v, 'core'))), 'core', 'another core vocabulary is used', VOCABS)


def s_defaults_beside():
    """with $vocabulary, defaults count for nothing: neither do they add anything nor excuse anything"""
    v = dialect()
    custom()
    listed = choose((), ('validation',), ('applicator',), ('x',))
    defaults = choose((), ('validation',), ('validation', 'applicator'), ('x', 'applicator', 'validation'))
    vs = {vocab(v, 'core'): True}
    for n in listed:
        vs['http://vocab.example/x' if n == 'x' else vocab(v, n)] = flag('required')
    bad = choose(None, 'http://vocab.example/unknown')
    if bad:
        vs[bad] = choose(True, False)
    m = meta('m', v, vs)
    uris = [URI('http://vocab.example/x' if n == 'x' else vocab(v, n)) for n in defaults]
    try:
        DIALECTS.create_metaschema(m, URI(vocab(v, 'core')), *uris)
    except JSONSchemaError:
        check(bad and vs[bad], 'unknown-vocabulary', 'an unknown vocabulary is refused though not required', VOCABS, vs)
        return
    if not check(not (bad and vs[bad]), 'unknown-vocabulary', 'an unknown vocabulary is accepted though required', VOCABS, vs):
        return
    for n in ('applicator', 'validation', 'x'):
        check(active(m, v, n) == (n in listed), 'active', 'other vocabularies than those listed are active', VOCABS, n, listed, defaults)


def s_no_core():
    v = dialect()
    m = meta('m', v, None)
    for i in range(2):
        try:
            DIALECTS.get_metaschema(m) if flag('get') else DIALECTS.create_metaschema(m)
            fail('core', 'a metaschema without a core vocabulary is accepted', CREATE, i)
        except JSONSchemaError:
            pass
    try:
        DIALECTS.create_metaschema(m, URI('http://vocab.example/unknown'))
        fail('core', 'an unknown core vocabulary is accepted', CREATE)
    except CatalogError:
        pass
    try:
        DIALECTS.create_metaschema(m, URI(vocab(v, 'core')), URI('http://vocab.example/unknown'))
        fail('unknown-vocabulary', 'an unknown default vocabulary is accepted', CREATE)
    except CatalogError:
        pass


def s_bad_uris():
    """vocabulary URIs have to be normalized and absolute"""
    v = dialect()
    bad = choose('x', '/x', 'HTTP://vocab.example/x', 'http://vocab.example/a/../x', '')
    required = flag('required')
    m = meta('m', v, {vocab(v, 'core'): True, bad: required})
    try:
        DIALECTS.get_metaschema(m)
        fail('vocabulary-uri', 'a vocabulary URI is accepted that is not normalized and absolute', 'jschon/vocabulary/core.py: VocabularyKeyword.__init__', bad)
    except JSONSchemaError:
        pass


def s_vocabulary_elsewhere():
    """$vocabulary has no effect in a schema that is no metaschema"""
    v = dialect()
    s = schema(v, {'$vocabulary': choose({}, {'http://vocab.example/unknown': True}, {vocab(v, 'core'): False}), 'minimum': 5})
    check(not s.evaluate(JSON(1)).valid and s.evaluate(JSON(5)).valid, 'vocabulary-elsewhere', '$vocabulary has an effect in a schema that is no metaschema', 'jschon/vocabulary/core.py: VocabularyKeyword.__init__')
    check(active(URI(uri_of(v)), v, 'applicator'), 'vocabulary-elsewhere', '$vocabulary has an effect in a schema that is no metaschema', 'jschon/vocabulary/core.py: VocabularyKeyword.__init__')


def s_get_vocabulary():
    u = URI('http://vocab.example/x')
    try:
        DIALECTS.get_vocabulary(u)
        fail('get-vocabulary', 'a vocabulary is found that was not created', 'jschon/catalog/__init__.py: Catalog.get_vocabulary')
    except CatalogError:
        pass
    got = custom()
    check(DIALECTS.get_vocabulary(URI('http://vocab.example/x')) is got and got.uri == u and isinstance(got, Vocabulary), 'get-vocabulary', 'a vocabulary created is not found', 'jschon/catalog/__init__.py: Catalog.get_vocabulary')
    check(set(got.kwclasses) == {'x-v'} and got.kwclasses['x-v'] is XVerdict, 'get-vocabulary', 'a vocabulary has other keywords than those given', 'jschon/vocabulary/__init__.py: Vocabulary')
    again = custom()
    check(DIALECTS.get_vocabulary(u) is again, 'get-vocabulary', 'a later vocabulary does not take the place of the earlier one', 'jschon/catalog/__init__.py: Catalog.create_vocabulary')


def s_created_again():
    """a vocabulary created again takes the place of the earlier one"""
    u = URI('http://vocab.example/x')
    one = DIALECTS.create_vocabulary(u, Verdict)
    two = DIALECTS.create_vocabulary(u, XVerdict)
    check(one is not two and DIALECTS.get_vocabulary(u) is two, 'again', 'a vocabulary created again is not found', 'jschon/catalog/__init__.py: Catalog.create_vocabulary')
    check(one.kwclasses == {'x-v': Verdict} and two.kwclasses == {'x-v': XVerdict}, 'again', 'a vocabulary has other keywords than it was created with', 'jschon/catalog/__init__.py: Catalog.create_vocabulary')
    m = meta('m', '2020-12', {vocab('2020-12', 'core'): True, 'http://vocab.example/x': choose(True, False)})
    check(active(m, '2020-12', 'x'), 'again', 'a metaschema has the vocabulary that was replaced', 'jschon/vocabulary/core.py: VocabularyKeyword')


def s_found_once():
    """a metaschema is loaded when first needed, and once"""
    v = dialect()
    m = meta('m', v, {vocab(v, 'core'): True, vocab(v, 'validation'): True})
    how = choose('get', 'schema', '$schema')
    for i in range(2):
        if how == 'get':
            DIALECTS.get_metaschema(m)
        elif how == 'schema':
            JSONSchema({'minimum': i}, catalog=DIALECTS, metaschema_uri=m)
        else:
            JSONSchema({'$schema': str(m), 'minimum': i}, catalog=DIALECTS)
    check(SOURCE.log == ['m'], 'loaded-once', 'a metaschema is not loaded once, when first needed', 'jschon/catalog/__init__.py: Catalog.get_metaschema', SOURCE.log)
    got = DIALECTS.get_metaschema(m)
    check(got is DIALECTS.get_metaschema(m) and isinstance(got, Metaschema) and str(got.uri) == str(m), 'loaded-once', 'a metaschema is not found', 'jschon/catalog/__init__.py: Catalog.get_metaschema')
    # other schemas do not see it, and it is no ordinary schema of theirs
    check(got.cacheid == '__meta__' and got.metaschema is DIALECTS.get_metaschema(URI(uri_of(v))), 'metaschema', 'a metaschema has another metaschema than it says', 'jschon/jsonschema.py: JSONSchema.metaschema')


def s_own_metaschema():
    """a metaschema may be its own"""
    v = dialect()
    SOURCE.docs['m'] = {'$schema': 'http://meta.example/m', '$id': 'http://meta.example/m', '$vocabulary': {vocab(v, 'core'): True, vocab(v, 'validation'): True}, 'required': choose(['$schema'], ['nope'])}
    m = URI('http://meta.example/m')
    ok = SOURCE.docs['m']['required'] == ['$schema']
    for i in range(2):
        try:
            got = DIALECTS.get_metaschema(m)
            check(ok, 'invalid-metaschema', 'an invalid metaschema is accepted%s' % (' when looked up again' if i else ''), CREATE)
            check(got.metaschema is got, 'metaschema', 'a metaschema has another metaschema than it says', 'jschon/jsonschema.py: JSONSchema.metaschema')
        except CatalogError:
            check(not ok, 'invalid-metaschema', 'a valid metaschema is refused', CREATE, i)


def s_invalid():
    """a metaschema that is not valid is refused, every time"""
    v = dialect()
    base = meta('base', v, {vocab(v, 'core'): True, vocab(v, 'validation'): True}, maxProperties=3)
    doc = {'$schema': str(base), '$id': 'http://meta.example/m', '$vocabulary': {vocab(v, 'core'): True}}
    bad = flag('invalid')
    if bad:
        doc['title'] = 't'
    SOURCE.docs['m'] = doc
    for i in range(2):
        try:
            DIALECTS.get_metaschema(URI('http://meta.example/m'))
            check(not bad, 'invalid-metaschema', 'an invalid metaschema is accepted%s' % (' when looked up again' if i else ''), CREATE)
        except CatalogError:
            check(bad, 'invalid-metaschema', 'a valid metaschema is refused', CREATE, i)


def s_invalid_without_schema():
    """the metaschema of a metaschema may also be given as an argument"""
    v = '2020-12'
    base = meta('base', v, {vocab(v, 'core'): True, vocab(v, 'validation'): True}, maxProperties=1)
    SOURCE.docs['m'] = {'title': 't'} if flag('valid') else {'title': 't', 'description': 'd'}
    try:
        got = DIALECTS.create_metaschema(URI('http://meta.example/m'), URI(vocab(v, 'core')), metaschema_uri=base)
        check(len(SOURCE.docs['m']) == 1, 'invalid-metaschema', 'an invalid metaschema is accepted', CREATE)
    except CatalogError:
        check(len(SOURCE.docs['m']) == 2, 'invalid-metaschema', 'a valid metaschema is refused', CREATE)


def s_missing():
    """a metaschema that does not exist"""
    v = choose('2020-12', '2019-09')
    for i in range(2):
        try:
            if flag('get'):
                DIALECTS.get_metaschema(URI('http://meta.example/none'))
            else:
                JSONSchema({'$schema': 'http://meta.example/none', 'minimum': 5}, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)))
            fail('missing', 'a metaschema is found that does not exist', 'jschon/catalog/__init__.py: Catalog.get_metaschema')
        except CatalogError:
            pass


def s_none():
    """a schema object without a metaschema is refused; boolean schemas need none"""
    try:
        JSONSchema(choose({}, {'minimum': 5}, {'$id': 'http://x.example/'}, {'allOf': [True]}), catalog=DIALECTS)
    except JSONSchemaError:
        pass
    b = choose(True, False)
    check(JSONSchema(b, catalog=DIALECTS).evaluate(JSON(1)).valid == b, 'no-metaschema', 'a boolean schema is not accepted without a metaschema', 'jschon/jsonschema.py: JSONSchema')


def s_not_a_metaschema():
    """what is no metaschema is not found as one"""
    v = dialect()
    s = JSONSchema({'$id': 'http://x.example/s', 'minimum': 5}, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)), cacheid=choose('default', '__meta__'))
    try:
        DIALECTS.get_metaschema(URI('http://x.example/s'))
        fail('not-a-metaschema', 'a schema is found as a metaschema that is none', 'jschon/catalog/__init__.py: Catalog.get_metaschema')
    except CatalogError:
        pass


def s_selected():
    """$schema selects the dialect of a schema and of its subschemas, over what is given"""
    v, w = choose(('2019-09', '2020-12'), ('2020-12', '2019-09'))
    def is2019(s):
        # array-form items reject in 2019-09; prefixItems is unknown there
        return s.keywords['prefixItems'].json.type == 'array' and not isinstance(s['prefixItems'][0], JSONSchema)

    sval = {'prefixItems': [False], '$defs': {'a': {'prefixItems': [False], '$defs': {'b': {'prefixItems': [False]}}}}}
    where = choose('root', 'a', 'nowhere')
    if where == 'root':
        sval['$schema'] = uri_of(w)
    elif where == 'a':
        sval['$defs']['a']['$schema'] = uri_of(w)
        sval['$defs']['a']['$id'] = 'http://x.example/a'
    s = JSONSchema(sval, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)))
    a = s['$defs']['a']
    b = a['$defs']['b']
    for x, d in ((s, w if where == 'root' else v), (a, v if where == 'nowhere' else w), (b, v if where == 'nowhere' else w)):
        check(x.metaschema is DIALECTS.get_metaschema(URI(uri_of(d))) and str(x.metaschema_uri) == uri_of(d), 'selected', 'a schema has the metaschema of another dialect', 'jschon/jsonschema.py: JSONSchema.metaschema_uri', where, v)
        check(is2019(x) == (d == '2019-09'), 'selected', 'a schema has the keywords of another dialect', 'jschon/vocabulary/__init__.py: Metaschema.get_kwclass', where, v)
        check(x.evaluate(JSON([1])).valid == (d == '2019-09'), 'selected', 'a schema is evaluated in another dialect', 'jschon/vocabulary/__init__.py: Metaschema.get_kwclass', where, v)


def s_schema_uri():
    """$schema has to be a normalized URI with a scheme"""
    v = dialect()
    try:
        JSONSchema({'$schema': choose('', 'x', '/x', '//json-schema.org/draft/2020-12/schema', 'HTTPS://json-schema.org/draft/2020-12/schema', 'https://json-schema.org/draft/x/../2020-12/schema')}, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)))
        fail('schema-uri', 'a $schema is accepted that is no normalized URI with a scheme', 'jschon/vocabulary/core.py: SchemaKeyword.__init__')
    except JSONSchemaError:
        pass


def s_validate():
    """schema.validate() evaluates the schema against its own metaschema"""
    v = dialect()
    m = meta('m', v, {vocab(v, 'core'): True, vocab(v, 'applicator'): True, vocab(v, 'validation'): True, 'http://vocab.example/x': False}, **{'properties': {'minimum': {'type': 'number'}, '$defs': {'maxProperties': 1}}, 'required': ['minimum']})
    sval, ok = choose(({'minimum': 5}, True), ({'minimum': 'x'}, False), ({}, False), ({'maximum': 3}, False), ({'minimum': 0, '$defs': {'a': True}}, True), ({'minimum': 0, '$defs': {'a': True, 'b': {}}}, False))
    s = JSONSchema(sval, catalog=DIALECTS, metaschema_uri=m)
    res = s.validate()
    check(res.valid == ok, 'validate', 'a schema is not validated against its metaschema', 'jschon/jsonschema.py: JSONSchema.validate', sval)
    check(res.schema is DIALECTS.get_metaschema(m) and res.instance is s, 'validate', 'a schema is not validated against its metaschema', 'jschon/jsonschema.py: JSONSchema.validate', sval)


def s_two_metaschemas():
    """keywords added to, or met under, one metaschema do not appear in another"""
    v = dialect()
    custom()
    one = meta('one', v, {vocab(v, 'core'): True, 'http://vocab.example/x': True})
    two = meta('two', v, {vocab(v, 'core'): True})
    order = choose((one, two), (two, one))
    for m in order:
        check(active(m, v, 'x') == (m is one), 'active', 'a vocabulary of one metaschema is active in another', VOCABS, str(m))
    for m in order:
        check(active(m, v, 'x') == (m is one), 'active', 'a vocabulary of one metaschema is active in another', VOCABS, str(m))


def s_dialect_keywords():
    """every dialect has exactly its own keywords"""
    v = dialect()
    m = DIALECTS.get_metaschema(URI(uri_of(v)))
    for k in ('prefixItems', 'additionalItems', '$recursiveRef', '$recursiveAnchor', '$dynamicRef', '$dynamicAnchor', 'unevaluatedItems', 'dependentSchemas', 'contentSchema', 'format', '$anchor', 'definitions', 'dependencies', 'propertyDependencies',
              'deprecated', 'minContains', 'dependentRequired', 'writeOnly', 'contentEncoding', '$comment', 'if', 'then', 'else', 'propertyNames', 'uniqueItems', 'exclusiveMinimum'):
        known = not type_name(m.get_kwclass(k)).startswith('UnknownKeyword')
        want = k not in ('definitions', 'dependencies', 'propertyDependencies') and (k not in ('prefixItems', '$dynamicRef', '$dynamicAnchor') or v != '2019-09') and (k not in ('additionalItems', '$recursiveRef', '$recursiveAnchor') or v == '2019-09')
        check(known == want, 'dialect', 'a dialect has a keyword it should not have, or lacks one', 'jschon/catalog', v, k)


def type_name(c):
    return c.__name__


def s_schema_before():
    """a metaschema that was looked up as an ordinary schema before is a metaschema all the same"""
    v = dialect()
    m = meta('m', v, {vocab(v, 'core'): True, vocab(v, 'validation'): True})
    first = choose('get_schema', 'built', 'added')
    if first == 'get_schema':
        before = DIALECTS.get_schema(m)
    elif first == 'built':
        before = JSONSchema(SOURCE.docs['m'], catalog=DIALECTS)
    else:
        before = JSONSchema({'x': 1}, catalog=DIALECTS, metaschema_uri=URI(uri_of(v)))
        DIALECTS.add_schema(m, before)
    if flag('get'):
        got = DIALECTS.get_metaschema(m)
        check(isinstance(got, Metaschema) and got is not before, 'metaschema', 'an ordinary schema is taken for a metaschema', 'jschon/catalog/__init__.py: Catalog.get_metaschema')
    s = JSONSchema({'$schema': str(m), 'minimum': 5, 'properties': {'a': False}}, catalog=DIALECTS)
    check(isinstance(s.metaschema, Metaschema), 'metaschema', 'an ordinary schema is taken for a metaschema', 'jschon/jsonschema.py: JSONSchema.metaschema')
    check(not s.evaluate(JSON(1)).valid and s.evaluate(JSON({'a': 1})).valid, 'active', 'other vocabularies than those listed are active', VOCABS, first)
    check(s.validate().valid, 'metaschema', 'a schema is not validated against its metaschema', 'jschon/jsonschema.py: JSONSchema.validate')
    check(DIALECTS.get_schema(m) is before, 'isolated', 'an ordinary schema is replaced by a metaschema', 'jschon/catalog/__init__.py: Catalog.get_schema')
