TREE = 'jschon/json.py'
PTR = 'jschon/jsonpointer.py'
PATCH = 'jschon/jsonpatch.py'

prop('C01', 'Every Python value is classified as exactly the JSON type of its data model',
     'Every value that has a JSON representation becomes a document node of exactly the type the JSON data model gives it (booleans are never numbers, '
     'texts never arrays, any sequence is an array, any mapping an object), with children, length, truth value and items to match; every other value is refused '
     'with a TypeError.',
     'inputs', 'all Python values, nested to any type combination, and all read operations on the resulting nodes',
     'The tests draw a few hundred documents made of plain lists and dicts; other sequences and mappings, subclasses, and non-JSON leaves at depth are outside what they generate.',
     TREE, [('node construction', 'jschon/json.py: JSON.__init__'), ('length, truth, items, containment', 'jschon/json.py: JSON.__len__, __bool__, __getitem__, __contains__')],
     'abstract interpretation over type sets (class-hierarchy domain) with case partitioning',
     'All types at every position of documents to depth 2 (quick).')

prop('C02', 'Parent, key and path of every node stay right under any change',
     'In every document, each node refers to the container it is in, knows the key or index it is stored under, and has as its path exactly its location from the root; '
     'this holds after construction and after any sequence of changes to any node, whatever was read before.',
     'inputs histories', 'all documents and all sequences of the mutating operations (item and slice-like list operations, object operations, pointer-addressed add, replace, remove), with any positions and keys, whatever caches were filled in between',
     'The tests perform single random changes on plain documents and read paths only afterwards; they do not reach histories in which paths were cached before items moved, negative positions, or nested nodes under moved ones.',
     TREE, [('child construction', 'jschon/json.py: JSON.__init__, _instantiate_child'), ('renumbering and cache invalidation', 'jschon/json.py: __setitem__, __delitem__, insert, _invalidate_path')],
     'abstract interpretation of a most general client: heap-shape invariant over symbolic positions and keys',
     'All sequences of up to two changes on documents of up to three items per container and depth 3.')

prop('C03', 'A node’s value is always its current content',
     'Whatever sequence of reads and changes went before, at whatever depth, the value, type, length and items read from any node are those of a plain document that went through the same changes.',
     'inputs histories', 'all documents and all interleavings of reads (which fill caches) and changes at any depth',
     'The tests compare values after one change to a freshly made node; a stale cached value needs a read, a change at another level and another read.',
     TREE, [('cached value and its invalidation', 'jschon/json.py: JSON.value, _invalidate_value')],
     'abstract interpretation of a most general client against an independent model document',
     'All sequences of up to two changes with reads in between, documents of up to three items per container and depth 4.')

prop('C04', 'Node equality and ordering are those of the JSON data model',
     'Comparing nodes with each other or with plain values answers exactly as the JSON data model prescribes: equality is an equivalence that separates types (true is not 1, but 1 equals 1.0), '
     'compares arrays in order and objects without order; numbers order by value, to the last digit, and strings by character; ordering a number against a string, or null or an object against anything, is refused with a TypeError.',
     'inputs', 'all pairs of JSON documents, all comparison operators, nodes and plain values on either side',
     'The tests compare random pairs, which are almost never nearly equal; the type-sensitive cases and nested near misses have probability close to nil.',
     TREE, [('comparison', 'jschon/json.py: JSON.__eq__, __lt__, __le__, __gt__, __ge__')],
     'abstract interpretation with an order domain, compared with a reference semantics on every partition',
     'All type pairs, symbolic numbers and strings, containers of up to two items and depth 2.')

prop('C05', 'Text in, text out: strict JSON both ways, without loss',
     'Reading accepts standard JSON only (no NaN or infinities) and keeps every number exactly as a number, whether from text, file or remote source; '
     'writing produces standard JSON of the current content, refuses what JSON cannot express, replaces what a file held before, and writing then reading gives an equal document on any machine.',
     'inputs configurations', 'all documents and texts, all reading and writing entry points, any locale',
     'The tests round-trip random documents through one entry point under one locale; non-finite numbers at depth and files under another locale are not generated.',
     'jschon/json.py jschon/utils.py', [('text conversion', 'jschon/utils.py: json_loads, json_loadf, json_loadr, json_dumps, json_dumpf'), ('entry points', 'jschon/json.py: JSON.loads, loadf, dumps, dumpf, __str__, __repr__')],
     'abstract interpretation with models of the JSON codec and of file opening (encoding, options, call arguments)',
     'The JSON codec itself is trusted; which options, values and encodings reach it is decided for every entry point.')

prop('C06', 'Evaluating a JSON Patch changes neither the document nor the patch',
     'Evaluating a patch never modifies the document or the patch it was given, even when it fails half-way, can be repeated with the same result, and the resulting document shares no mutable state with the document, with the patch, or between copied parts.',
     'inputs histories', 'all documents, all patches and all ways to go on using the document, the patch and the result afterwards',
     'The tests check results, not later changes to the inputs; aliasing shows only when one of the sharers is modified afterwards.',
     PATCH, [('copying', 'jschon/jsonpatch.py: JSONPatch.evaluate, add, replace, copy, JSONPatchOperation')],
     'effect and alias analysis by abstract interpretation: heap writes and reachability after every outcome',
     'All single operations on documents to depth 2 with symbolic tokens, and the two-operation sequences that expose aliasing.')

prop('C07', 'Each JSON Patch operation has exactly the outcome RFC 6902 prescribes',
     'For every document and every operation, the result is the document RFC 6902 prescribes, or a patch error if and only if RFC 6902 makes the operation fail; sequences apply in order to the result so far and fail as a whole; '
     'malformed operations are refused with the documented error and nothing else escapes.',
     'inputs histories', 'all documents, operations, locations (including append, leading zeros, negative and huge indices, missing parents, scalars) and sequences of operations',
     'The tests use valid random targets and the examples of the RFC; the failing half of the outcome table and the index grammar are sampled in a few places only.',
     PATCH, [('operations', 'jschon/jsonpatch.py: add, remove, replace, move, copy, test, Node'), ('sequence', 'jschon/jsonpatch.py: JSONPatch.evaluate, JSONPatchOperation.__init__')],
     'abstract interpretation with a regular-language domain for path tokens, compared with an RFC 6902 reference on every partition',
     'All six operations, symbolic tokens of any text, documents to depth 2.')

prop('C08', 'JSON pointers are immutable key sequences with value equality',
     'A pointer is exactly the concatenation of the keys it was made from, whichever argument forms were used; indexing, slicing and extending give new pointers with exactly the selected keys; '
     'no operation ever changes a pointer, equality and hash depend on the keys alone, and the order operators are exactly the (proper) prefix relation.',
     'inputs histories', 'all key sequences and argument forms, all pairs of pointers, all operations on them',
     'The tests compare random pointers, which almost never share a prefix or alias each other.',
     PTR, [('construction', 'jschon/jsonpointer.py: JSONPointer.__new__, __truediv__, __getitem__'), ('comparison', 'jschon/jsonpointer.py: JSONPointer.__eq__, __le__, __lt__, __hash__')],
     'abstract interpretation: value semantics on symbolic keys, effect and alias analysis of every operation',
     'Pointers of up to two (thorough: three) symbolic keys.')

prop('C09', 'Exactly the standard pointer texts are accepted, and nothing is lost in text',
     'A text is accepted as a JSON pointer if and only if RFC 6901 says it is one, and as a relative JSON pointer if and only if the draft says so; anything else is refused with the documented error; '
     'converting keys to text or to a URI fragment and back, or text to keys and back, never loses or alters anything, and escaping is the exact inverse of unescaping.',
     'inputs', 'all texts and all keys',
     'The tests generate valid pointers from a grammar and a few malformed ones; they cannot cover all texts, and escapes such as ~01 have to be met exactly.',
     PTR, [('grammar', 'jschon/jsonpointer.py: JSON_POINTER_RE, RELATIVE_JSON_POINTER_RE'), ('escaping', 'jschon/jsonpointer.py: escape, unescape, uri_fragment, parse_uri_fragment')],
     'regular-language abstract domain (canonical automata, transducer composition and equivalence): decided for all texts',
     'Decided for every text and key (automata equivalence), for pointers of up to two symbolic keys; percent-encoding of non-ASCII characters is over-approximated.')

prop('C10', 'Pointer evaluation finds exactly the location RFC 6901 prescribes',
     'Evaluating a pointer on any document gives exactly the value (for node documents, the very node) that RFC 6901 says is there, treating only arrays and objects as containers and only proper array indices as indices; '
     'if there is none it raises the documented reference error and nothing else, and evaluation changes nothing.',
     'inputs', 'all documents of plain values, nodes or a mix, all tokens, including ill-formed, negative and huge indices',
     'The tests evaluate pointers to locations known to exist and a few missing ones; index-like tokens on arrays, scalars and texts as documents are not varied.',
     PTR, [('evaluation', 'jschon/jsonpointer.py: JSONPointer.evaluate')],
     'abstract interpretation with a regular-language domain for tokens, compared with an RFC 6901 reference on every partition',
     'Symbolic tokens of any text, up to three per pointer, documents to depth 2.')

prop('C11', 'Relative pointers go up, sideways and down exactly as the draft prescribes',
     'Evaluating a relative pointer from any node goes up the given number of levels, moves to the sibling at the adjusted index only within an array, and then gives the key or index of, or the node below, that location; '
     'when any step is impossible it raises the documented reference error and nothing else.',
     'inputs histories', 'all documents and start nodes, all up counts, index adjustments and pointers, also after the document changed',
     'The tests use a handful of examples and random documents with in-range adjustments.',
     PTR, [('evaluation', 'jschon/jsonpointer.py: RelativeJSONPointer.evaluate')],
     'abstract interpretation over an order domain for counts and adjustments and a regular-language domain for tokens, against a reference walk',
     'A document with every container nesting, all its nodes as start, unbounded symbolic counts and adjustments, up to two symbolic tokens.')

SCHEMA = 'jschon/jsonschema.py jschon/vocabulary/__init__.py'
VOC = SCHEMA + ' jschon/vocabulary/applicator.py jschon/vocabulary/legacy.py'

prop('C12', 'In-place applicators combine the verdicts of their subschemas as specified',
     'For every schema of the supported dialects and every instance, allOf, anyOf, oneOf, not, if/then/else, dependentSchemas and references apply each of their subschemas to the instance itself '
     'and accept or reject exactly as the specification prescribes, whatever the subschemas are and wherever the keyword is nested.',
     'inputs', 'all verdicts of all subschemas, all instances, both orders of related keywords, boolean schemas, nesting of keywords in one another',
     'The schema tests of the suite need metaschema files that a checkout may lack; even with them, they sample a few combinations of verdicts.',
     VOC, [('applicators', 'jschon/vocabulary/applicator.py: AllOfKeyword ... DependentSchemasKeyword'), ('combination', 'jschon/jsonschema.py: JSONSchema.evaluate, Result')],
     'abstract interpretation with uninterpreted verdicts of the subschemas, compared with a reference evaluator on every partition',
     'All combinations of verdicts, up to three subschemas per keyword, two levels of nesting, all three dialects.')

prop('C13', 'Child applicators apply the right subschema to every item and property',
     'items, prefixItems, additionalItems, contains (with minContains and maxContains), properties, patternProperties, additionalProperties and propertyNames apply to each item or property they are responsible for '
     'exactly the subschema the specification assigns to it, to no other location and to no other type of instance, and accept or reject as prescribed.',
     'inputs', 'all verdicts on all locations, instances of all types, all property names and all sizes within the bound, both orders of related keywords',
     'Off-by-one boundaries, empty containers and the interplay of related keywords need specific combinations that samples miss.',
     VOC, [('applicators', 'jschon/vocabulary/applicator.py: PrefixItemsKeyword ... PropertyNamesKeyword'), ('draft 2019-09', 'jschon/vocabulary/legacy.py: ItemsKeyword_2019_09, AdditionalItemsKeyword_2019_09')],
     'abstract interpretation with uninterpreted verdicts per location, compared with a reference evaluator on every partition',
     'Arrays and objects of up to four members, symbolic property names, symbolic contains limits, all three dialects.')

prop('C14', 'Assertion keywords accept exactly the instances the specification names',
     'type, enum, const, multipleOf, the numeric bounds, the length, item and property limits, pattern, uniqueItems, required and dependentRequired hold for an instance exactly when the specification says so, '
     'for numbers of any size and precision, and hold trivially for instances of types they do not concern.',
     'inputs', 'all instances of all types, all numbers (of any size or precision), all limits',
     'Boundary values, numbers beyond float range or decimal precision and trivially accepted types are not exhausted by any sample.',
     SCHEMA + ' jschon/vocabulary/validation.py', [('assertions', 'jschon/vocabulary/validation.py: every Keyword class')],
     'abstract interpretation with order and divisibility domains for numbers, compared with a reference on every partition',
     'Symbolic numbers and limits; strings by length class; containers of up to three members. Python regular expressions stand in for ECMA-262.')

prop('C15', 'unevaluatedItems and unevaluatedProperties see exactly what is left over',
     'The subschema of unevaluatedProperties (unevaluatedItems) is applied to exactly those properties (items) that no adjacent keyword and no subschema applied in place, and passing, has evaluated at that instance location, '
     'at whatever depth of in-place subschemas, whatever the order of the keywords, and never because of what happened at another location or in a failed branch.',
     'inputs', 'all verdicts of all subschemas involved, all in-place applicators and nestings, all three dialects',
     'What counts as evaluated depends on which branches passed; a test fixes one combination, the property quantifies over all of them.',
     VOC, [('evaluation', 'jschon/vocabulary/applicator.py: UnevaluatedItemsKeyword, UnevaluatedPropertiesKeyword'), ('collection', 'jschon/jsonschema.py: Result.collect_annotations, Result.drop_annotations')],
     'abstract interpretation with uninterpreted verdicts, annotations compared with a reference evaluator on every partition',
     'All verdict combinations for every adjacent and in-place keyword and pairs of them, two levels of nesting.')

prop('C16', 'Annotations come from exactly what passed, with value and location',
     'After an evaluation, the annotations reported are exactly those of keywords in subschemas that passed (and whose enclosing subschemas passed), each with the value its keyword prescribes and the location of the instance; '
     'a keyword that only annotates never fails, and nothing inside a failed or negated subschema leaves an annotation behind.',
     'inputs', 'all annotation keywords and unknown keywords, all instances, all verdicts of sibling and enclosing subschemas',
     'That annotations are dropped depends on verdicts of enclosing schemas at any depth; tests check a few examples of output.',
     VOC + ' jschon/vocabulary/annotation.py jschon/vocabulary/format.py', [('annotations', 'jschon/vocabulary/annotation.py'), ('dropping', 'jschon/jsonschema.py: Result.fail, Result.annotate, Result.drop_annotations')],
     'abstract interpretation with uninterpreted verdicts, annotations compared with a reference evaluator on every partition',
     'All annotation keywords of the three dialects, all verdict combinations, two levels of nesting.')

prop('C17', 'Evaluation is a pure function of schema and instance',
     'Evaluating an instance changes neither the schema, nor the instance, nor the catalog; the outcome does not depend on what was evaluated before (an instance that was changed since is evaluated as it is now), nor on the order in which the keywords of a schema are written; '
     'two evaluations of the same schema and instance agree in verdict, errors and annotations.',
     'histories inputs', 'all sequences of evaluations, all orders of the keywords of a schema, all verdicts',
     'State that leaks from one evaluation to the next, or a missing ordering constraint, shows only for particular sequences or keyword orders.',
     VOC + ' jschon/vocabulary/core.py', [('ordering', 'jschon/jsonschema.py: JSONSchema._resolve_dependencies; depends_on of the keywords'), ('purity', 'jschon/jsonschema.py: JSONSchema.evaluate')],
     'effect analysis and differential abstract interpretation: heap writes of an evaluation; outcomes over keyword permutations and histories',
     'All permutations of the interdependent keywords of each dialect (up to four at once), histories of two evaluations.')

prop('C18', 'Every reference leads to exactly the schema its URI identifies',
     'A $ref, wherever it occurs, applies exactly the schema identified by its value resolved against the base URI of the schema that contains it: by location, anchor, pointer fragment or embedded $id, in the same document or one loaded from a source; '
     '$dynamicRef and $recursiveRef lead where the dynamic scope says; a reference that identifies nothing is refused when the schema is built; and every subschema is found in the catalog under its canonical URI.',
     'inputs histories', 'all forms of references and bases, all nestings of resources, dynamic scopes and load orders',
     'The target of a reference depends on the nesting of base URIs and, for dynamic references, on the path of evaluation; tests fix a few.',
     SCHEMA + ' jschon/vocabulary/core.py jschon/vocabulary/legacy.py jschon/catalog/__init__.py jschon/uri.py',
     [('references', 'jschon/vocabulary/core.py: RefKeyword, DynamicRefKeyword, IdKeyword, AnchorKeyword'), ('lookup', 'jschon/catalog/__init__.py: Catalog.get_schema; jschon/jsonschema.py: base_uri, canonical_uri')],
     'abstract interpretation with an RFC 3986 model and labelled, uninterpreted target schemas',
     'All reference forms over documents with up to three nested resources; dynamic scopes of up to three resources.')

CAT = 'jschon/catalog/__init__.py'

prop('C19', 'Every output format is a faithful rendering of one evaluation',
     'The flag, basic, detailed, verbose and hierarchical outputs of a result agree in verdict with the evaluation; for a failed evaluation they report errors and no annotations, for a passed one annotations and no errors, each unit with the '
     'keyword location, absolute keyword location and instance location of the keyword it comes from; the basic format lists every error (or annotation) exactly once, the nested formats are well-formed trees of the specified '
     'shape, and asking for annotations by name selects exactly those.',
     'inputs', 'all verdicts of all subschemas, all nestings of applicators and references, all output formats and selections',
     'Which units appear depends on the verdicts of all schemas around them; the tests compare a few golden outputs.',
     'jschon/output.py jschon/jsonschema.py', [('formats', 'jschon/output.py: flag, basic, detailed, verbose, hierarchical'), ('results', 'jschon/jsonschema.py: Result.output, Result.collect_errors, Result.collect_annotations')],
     'abstract interpretation with uninterpreted verdicts, each output compared with a rendering of the reference evaluation on every partition',
     'All applicators nested to depth two, references, all formats. One recorded finding (hierarchical format, marked experimental in the source).')

prop('C20', 'Schema caches are isolated, coherent with URIs, and released when done',
     'A schema is found in the catalog under its URI (and its subschemas under their anchors, embedded URIs and JSON pointer fragments), only in the cache it was built for, and only the schema last built for that URI; after its URI changes it is found under '
     'the new one only; a cache used as a context is emptied when the context ends, however it ends, without touching any other; and what failed to be built is never returned.',
     'histories inputs', 'all sequences of building, looking up, renaming and releasing schemas in any caches, including failing ones',
     'Stale, shared or leaked cache entries need several operations on several caches; tests use one cache and one lookup.',
     CAT + ' jschon/jsonschema.py jschon/vocabulary/core.py', [('caches', 'jschon/catalog/__init__.py: add_schema, del_schema, get_schema, cache'), ('registration', 'jschon/jsonschema.py: JSONSchema.uri, JSONSchema.__init__')],
     'abstract interpretation of a most general client of the catalog, against an independent model of the caches',
     'Histories of up to three operations over two caches. One recorded finding (a failed construction leaves its entry in the cache).')

prop('C21', 'A source serves exactly the documents below its base, from the right place',
     'A URI is loaded from the source whose base is the longest registered prefix of it, with the rest of the URI as the relative path, anew for every load; a local source reads exactly the file its base directory, the relative path and the suffix name, never one outside the base directory; '
     'a remote source requests exactly base URL, path and suffix; and a URI without a source, or a document that cannot be read, is reported as CatalogError.',
     'inputs histories', 'all sets of registered bases in any order, all URIs, file names, suffixes and failures of the underlying reads',
     'Prefix ambiguities, escapes from the base directory and error paths need specific combinations of registered bases and URIs.',
     CAT, [('routing', 'jschon/catalog/__init__.py: Catalog.add_uri_source, Catalog.load_json'), ('sources', 'jschon/catalog/__init__.py: LocalSource, RemoteSource')],
     'effect analysis by abstract interpretation: every file and network access of a load is recorded and compared with the one prescribed',
     'Up to three registered bases in every order, path texts by language; file and network accesses are modelled, never performed.')

prop('C22', 'A schema is evaluated with exactly the vocabularies its metaschema declares',
     'The keywords that have an effect in a schema are exactly those of the vocabularies its metaschema declares (in the dialect named by $schema, else by the metaschema given or inherited); all others only annotate; a metaschema that requires an unknown vocabulary, or does not require the core vocabulary, '
     'is refused, as are unusable vocabulary and metaschema URIs; user-defined vocabularies and keywords take effect where declared and nowhere else; and an invalid metaschema is never found afterwards.',
     'inputs histories', 'all combinations of declared, optional, unknown and user-defined vocabularies and of the ways to name a metaschema',
     'Needs metaschemas with unusual vocabulary declarations and several dialects side by side; the tests know the standard ones.',
     CAT + ' jschon/vocabulary/__init__.py jschon/vocabulary/core.py jschon/catalog/_2019_09.py jschon/catalog/_2020_12.py jschon/catalog/_next.py',
     [('metaschemas', 'jschon/catalog/__init__.py: create_vocabulary, create_metaschema, get_metaschema; jschon/vocabulary/__init__.py: Metaschema'), ('declaration', 'jschon/vocabulary/core.py: SchemaKeyword, VocabularyKeyword')],
     'abstract interpretation of a most general client of the catalog, with uninterpreted keywords as probes',
     'All subsets of the standard vocabularies per keyword probe, user-defined vocabularies, all ways to name the metaschema.')

prop('C23', 'A schema holds exactly the value it was built from, as a linked tree',
     'A schema built from a boolean or an object has that value (same types, every keyword, nothing else); its subschemas are exactly the values at the places where its dialect expects subschemas, everything else stays plain data that is never '
     'looked into for identifiers or references; each (sub)schema is linked to its parent, has its own or inherited URI, base, metaschema, catalog and cache, and is registered under its identifiers; neither later changes of the value nor of what is '
     'read from the schema change it.',
     'inputs', 'all keywords, all shapes of keyword values, all names of properties and unknown keywords, all nestings and identifiers',
     'Whether data becomes a schema depends on where it stands; tests contain well-formed examples of each keyword only.',
     SCHEMA + ' jschon/vocabulary/__init__.py jschon/vocabulary/core.py', [('construction', 'jschon/jsonschema.py: JSONSchema.__init__; jschon/vocabulary/__init__.py: Keyword.__init__, Subschema, ArrayOfSubschemas, ObjectOfSubschemas'), ('identification', 'jschon/vocabulary/core.py: IdKeyword, AnchorKeyword')],
     'abstract interpretation: heap-shape analysis of the schema tree against the value it was built from',
     'Every keyword with every shape of value, two levels of nesting, all three dialects.')

prop('C24', 'format asserts exactly where a catalog enables it, else annotates',
     'A format is asserted exactly when the catalog of the schema enables it: then an instance of one of the registered instance types fails exactly if the validator registered for that format refuses its value, and no other instance fails; a format that is not enabled '
     'never fails and never calls a validator; in every case that passes the format annotates its value; and the json-pointer format accepts exactly the texts of RFC 6901.',
     'inputs histories', 'all instances, all verdicts of all validators, all orders of registering and enabling, all texts',
     'The tests call a few validators in one catalog; independence of catalogs, formats and instance types is quantified over all of them.',
     'jschon/vocabulary/format.py jschon/formats.py ' + CAT, [('format', 'jschon/vocabulary/format.py: FormatKeyword, format_validator'), ('enabling', 'jschon/catalog/__init__.py: enable_formats, is_format_enabled'), ('json-pointer', 'jschon/formats.py')],
     'abstract interpretation with uninterpreted validators; text languages for the json-pointer format',
     'All instance types, symbolic texts, up to two formats and two catalogs at once.')

prop('C25', 'URIs compare, hash, resolve, copy and validate as RFC 3986 prescribes',
     'A URI has the components of its text and its text is that of its components; two URIs are equal exactly if their normalised texts are, and equal ones are interchangeable as dictionary keys; resolving follows RFC 3986 section 5.2 and refuses an unusable base with URIError; a copy has exactly '
     'the components asked for; validate raises URIError exactly if one of the requested requirements is not met; and no operation changes a URI.',
     'inputs', 'all URI references (components present, empty or missing), all combinations of arguments',
     'The tests parse plain URLs and copy one example; missing against empty components, unnormalised spellings and combined requirements are not covered.',
     'jschon/uri.py', [('URI', 'jschon/uri.py: URI')],
     'abstract interpretation with an RFC 3986 model (component domain; symbolic fragments), compared with the algorithms of the RFC',
     'All combinations of present, empty and missing components over small component sets. Deviations of the third-party URI library (bases whose path has no slash) are out of scope.')

prop('C26', 'A JSON Patch is the list of its operations, in every respect',
     'Under any sequence of list operations, a patch consists of exactly the operations a plain list would consist of; it is equal to another patch, or list of operation objects or dictionaries, exactly if they are the same operations in the same order '
     '(same op, path and source, and values equal as JSON); its plain form makes an equal patch again; slices are independent patches; and it neither changes nor follows the dictionaries it was made from.',
     'inputs histories', 'all operations in all accepted forms, all values and paths, all sequences of list operations at all positions',
     'The tests compare a few patches built once; type-sensitive values, negative positions, aliases of the arguments and later changes are not met.',
     PATCH, [('list', 'jschon/jsonpatch.py: JSONPatch'), ('operation', 'jschon/jsonpatch.py: JSONPatchOperation')],
     'abstract interpretation of a most general client against a plain list of plain operations',
     'Patches of up to three operations, two changes at symbolic positions (all positions within and just outside).')

prop('C27', 'Results record and combine exactly what each keyword reports',
     'Whatever a keyword class (standard or user-defined) reports through its result node - failure, error, annotation, reversal, non-assertion, discarding, subresults, shared values - is recorded at that node, found again by siblings and by annotation or error collection under exactly its keyword and '
     'instance, and combined into the verdict of the schema; keywords are evaluated once, after those they depend on, only for the instance types they declare, never if static; values shared through the result tree last exactly one evaluation.',
     'inputs histories', 'all sequences of reports, all verdicts, all orders of keywords, all instance types, any nesting of subresults',
     'Which report wins depends on the sequence and on the verdicts around it; the standard keywords use only some of the combinations that extensions may use.',
     'jschon/jsonschema.py jschon/vocabulary/__init__.py', [('result nodes', 'jschon/jsonschema.py: Result'), ('evaluation', 'jschon/jsonschema.py: JSONSchema.evaluate, JSONSchema._resolve_dependencies'), ('keyword classes', 'jschon/vocabulary/__init__.py: Keyword')],
     'abstract interpretation of user-defined keyword classes making every sequence of reports, against a model of the result node',
     'Sequences of up to two (thorough: three) reports per node, two keywords or subresults at once.')

prop('C28', 'Catalogs are found by name and are worlds of their own',
     'A catalog is found under its name (the last one created under it; the default one under the default name), supports exactly the dialects it was created for, and shares nothing with other catalogs: schemas, metaschemas, vocabularies, sources and enabled formats of one are never seen by another, '
     'and everything a schema refers to is looked up in the catalog the schema was built in, however that catalog was named and whatever happened to the name since; a catalog that cannot be created replaces none.',
     'inputs histories', 'all names, all sets of dialects, all orders of creating, replacing and using catalogs, all ways to build a schema',
     'Leaks between catalogs, or references resolved in the default one, need two catalogs with different content for the same URI.',
     CAT + ' jschon/__init__.py jschon/jsonschema.py jschon/vocabulary/core.py', [('registry', 'jschon/catalog/__init__.py: Catalog.get_catalog, Catalog.__init__'), ('creation', 'jschon/__init__.py: create_catalog'), ('inheritance', 'jschon/jsonschema.py: JSONSchema.__init__; jschon/vocabulary/__init__.py: Subschema')],
     'abstract interpretation of a most general client of two or three catalogs with different content under the same URIs',
     'Up to three catalogs at once, all reference forms, all entry points.')

prop('C29', 'Regular expressions mean what ECMA-262 says',
     'pattern and patternProperties accept a text exactly if the regular expression, read as ECMA-262 prescribes, matches it.',
     'inputs', 'all regular expressions and all texts', 'Two regular-expression dialects differ in corners (\\\\d, \\\\Z, \\\\p, lookbehind, named groups) that no sample covers.',
     'jschon/vocabulary/validation.py jschon/vocabulary/applicator.py', [('pattern', 'jschon/vocabulary/validation.py: PatternKeyword'), ('patternProperties', 'jschon/vocabulary/applicator.py: PatternPropertiesKeyword')], '', '',
     na='jschon hands the expression to Python\'s re module, whose meaning is outside the repository: what differs from ECMA-262 is decided by the C code of re at run time, for expressions that are themselves inputs; the part that is in the source (search, not match; on the instance; for strings only) is decided by C13 and C14')

prop('C30', 'Concurrent use of documents, schemas and catalogs is safe',
     'Threads that read, evaluate and build in the same catalog at the same time get the results they would get one after another.',
     'schedules', 'all interleavings of all operations', 'A schedule that loses an update is met by chance only.',
     'jschon/json.py jschon/jsonschema.py jschon/catalog/__init__.py', [('caches', 'jschon/json.py: cached properties; jschon/catalog/__init__.py: schema caches')], '', '',
     na='jschon promises no thread safety anywhere (no lock, no mention in the documentation), so there is no guarantee a change could break; atomicity of its unlocked dictionary and list operations is a property of the Python runtime, not of this source')

prop('C31', 'Every operation ends, in time proportional to its task',
     'Construction, evaluation and patching end for every input other than schemas that refer to themselves without consuming the instance, within time bounded by the sizes of schema and instance.',
     'inputs', 'all documents, schemas and patches of any size', 'A blow-up depends on sizes and shapes beyond any test.',
     'jschon/jsonschema.py jschon/json.py jschon/jsonpatch.py', [('loops', 'jschon/jsonschema.py: JSONSchema._resolve_dependencies, JSONSchema.evaluate')], '', '',
     na='a time bound quantifies over sizes and over the runtime\'s cost model (regular expressions, decimals, deep copies), which no static argument here bounds; divergence on the inputs of the other properties (a loop that returns to the same state, unbounded recursion) is reported by their checks as a violation')
