"""C27: what a keyword reports through its result node - verdict, error, annotation,
subresults, shared state - is recorded, combined and found again exactly as reported."""
from jschon import JSONPointer
from jschon.jsonschema import Result
from schemas import *

RES = 'jschon/jsonschema.py: Result'
EVAL = 'jschon/jsonschema.py: JSONSchema.evaluate'
CALL = 'jschon/jsonschema.py: Result.__call__'
TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')
INSTANCES = {'null': None, 'boolean': False, 'number': 0, 'string': '', 'array': [], 'object': {}}


def probe(name, script, **attrs):
    """a user-defined keyword that runs the given script"""
    class Probe(Keyword):
        key = name

        def evaluate(self, instance, result):
            script(self, instance, result)
    for k in attrs:
        setattr(Probe, k, attrs[k])
    for v in ('2020-12', '2019-09'):
        DIALECTS.get_metaschema(URI(uri_of(v))).kwclasses[name] = Probe
    return Probe


class State:
    """what a result node is after a number of calls"""

    def __init__(self):
        self.valid, self.asserts, self.kept = True, True, True
        self.error = self.annotation = None

    def do(self, result):
        what = choose('fail', 'fail silently', 'pass', 'annotate', 'noassert', 'discard')
        if what == 'fail':
            e = choose('e1', {'code': [1]})
            result.fail(e)
            self.valid, self.error = False, e
        elif what == 'fail silently':
            result.fail()
            self.valid, self.error = False, None
        elif what == 'pass':
            result.pass_()
            self.valid, self.error = True, None
        elif what == 'annotate':
            a = choose('a1', 0, False, [], None)
            result.annotate(a)
            self.annotation = a
        elif what == 'noassert':
            result.noassert()
            self.asserts = False
        else:
            result.discard()
            self.kept = False


def agrees(state, node):
    check(node.valid == state.valid, 'valid', 'valid is not what was reported last', RES)
    check(node.passed == (state.valid or not state.asserts), 'passed', 'passed is not what was reported', RES)
    check(node.error == state.error, 'error', 'error is not what was reported last', RES, node.error, state.error)
    check(node.annotation == state.annotation, 'annotation', 'annotation is not what was reported last', RES)


def s_calls():
    """any sequence of reports by one keyword"""
    st = State()

    def script(self, instance, result):
        for i in range(choose(1, 2, 3)):
            st.do(result)
            agrees(st, result)
    probe('x-p', script)
    res = schema('2020-12', {'x-p': 1}).evaluate(JSON('i'))
    check(res.valid == (not st.kept or st.valid or not st.asserts), 'verdict', 'the verdict is not the one the keyword reported', EVAL)
    check(res.passed == res.valid, 'verdict', 'the root result has passed but is not valid', RES)
    anns, errs = list(res.collect_annotations()), list(res.collect_errors())
    check(anns == ([st.annotation] if st.kept and st.valid and res.valid and st.annotation is not None else []), 'annotations', 'other annotations are collected than reported', RES, anns)
    check(errs == ([st.error] if st.kept and not st.valid and not res.valid and st.error is not None else []), 'errors', 'other errors are collected than reported', RES, errs)
    if st.kept:
        node = res.children['x-p', JSONPointer()]
        agrees(st, node)
        check(node.parent is res and node.key == 'x-p' and str(node.path) == '/x-p' and node.schema is res.schema, 'node', 'a result node has another place than its keyword', RES)
    else:
        check(len(res.children) == 0, 'discarded', 'a discarded result is kept', CALL)


def s_calls_over_children():
    """what a keyword reports counts just the same when it has subresults"""
    st = State()

    def script(self, instance, result):
        with result(instance, 'a') as sub:
            sub.fail('below') if flag('fails below') else sub.annotate('below')
        for i in range(2):
            st.do(result)
            agrees(st, result)
    probe('x-p', script)
    res = schema('2020-12', {'x-p': 1}).evaluate(JSON('i'))
    check(res.valid == (not st.kept or st.valid or not st.asserts), 'verdict', 'the verdict is not the one the keyword reported', EVAL)
    if st.kept:
        agrees(st, res.children['x-p', JSONPointer()])


def s_two_keywords():
    """the verdicts of several keywords are combined, each at its own node"""
    states = {}

    def script(self, instance, result):
        st = states[self.key] = State()
        st.do(result)
    probe('x-p', script)
    probe('x-q', script)
    res = schema('2020-12', choose({'x-p': 1, 'x-q': 2}, {'x-q': 1, 'x-p': 2})).evaluate(JSON(1))
    if check(set(states) == {'x-p', 'x-q'}, 'evaluated', 'a keyword is not evaluated', EVAL, list(states)):
        good = all([not st.kept or st.valid or not st.asserts for st in states.values()])
        check(res.valid == good, 'verdict', 'the verdict is not the combination of the keywords\'', EVAL)
        for k in states:
            if states[k].kept:
                agrees(states[k], res.children[k, JSONPointer()])


def s_instance_types():
    """a keyword is evaluated for the instance types it declares, and for no other"""
    types = choose(('string',), ('number', 'null'), ('array', 'object', 'boolean'), ())
    seen = []
    probe('x-p', lambda self, instance, result: seen.append((instance.type, instance)), instance_types=types)
    t = choose(*TYPES)
    doc = JSON(INSTANCES[t])
    schema(choose('2020-12', '2019-09'), {'x-p': 1}).evaluate(doc)
    check(seen == ([(t, doc)] if t in types else []), 'instance-types', 'a keyword is evaluated for the wrong types of instances', EVAL, t, types)


def s_static():
    """a static keyword is never evaluated, but is part of the schema"""
    seen = []
    probe('x-p', lambda self, instance, result: seen.append(1), static=True)
    s = schema('2020-12', {'x-p': {'a': 1}})
    res = s.evaluate(JSON(INSTANCES[choose(*TYPES)]))
    check(seen == [] and res.valid and len(res.children) == 0 and s.value == {'x-p': {'a': 1}}, 'static', 'a static keyword is evaluated', EVAL)


def s_identifiers():
    """identifiers, anchors, definitions and comments take no part in an evaluation"""
    v = choose('2019-09', '2020-12', 'next')
    members = choose({'$id': 'http://x.example/s'}, {'$anchor': 'a'}, {'$schema': uri_of(v)}, {'$defs': {'a': False}}, {'$comment': 'c'}, {'$vocabulary': {'http://x.example/v': True}},
                     {'$recursiveAnchor': True} if v == '2019-09' else {'$dynamicAnchor': 'a'})
    s = schema(v, dict(members, **{'not': {'not': dict(members, **{'$id': 'http://x.example/inner'} if '$id' in members else {})}}))
    doc = JSON(INSTANCES[choose('null', 'string', 'array', 'object')])
    res = s.evaluate(doc)
    check(res.valid, 'static', 'an identifier or definition decides about an instance', EVAL, v, members)
    check(list(res.children) == [('not', JSONPointer())], 'static', 'an identifier or definition has a result', EVAL, v, members, list(res.children))
    for key, where in res.children['not', JSONPointer()].children:
        check(key == 'not', 'static', 'an identifier or definition has a result', EVAL, v, key)


def s_depends_on():
    """a keyword is evaluated after those it depends on, and finds their results"""
    order = []

    def script(self, instance, result):
        order.append(self.key)
        if self.key == 'x-p':
            if pred('verdict', 'p', ''):
                result.annotate('p')
            else:
                result.fail('p')
        elif self.key == 'x-q':
            sib = result.sibling(instance, 'x-p')
            if check(sib is not None, 'sibling', 'the result of a sibling is not found', RES):
                check(sib.valid == pred('verdict', 'p', '') and sib.key == 'x-p' and sib.annotation == ('p' if sib.valid else None), 'sibling', 'another result than the sibling\'s is found', RES)
            check(result.sibling(instance, 'x-none') is None, 'sibling', 'a sibling that is not there is found', RES)
            check(result.sibling(JSON([1])[0], 'x-p') is None, 'sibling', 'a result for another location is found', RES)
    probe('x-p', script)
    probe('x-q', script, depends_on=choose(('x-p',), ('x-none', 'x-p'), ('x-p', 'x-r')))
    probe('x-r', script)
    keys = choose(['x-p', 'x-q', 'x-r'], ['x-q', 'x-p', 'x-r'], ['x-r', 'x-q', 'x-p'], ['x-q', 'x-r', 'x-p'])
    schema('2020-12', {k: 1 for k in keys}).evaluate(JSON(1))
    if check(sorted(order) == ['x-p', 'x-q', 'x-r'], 'evaluated', 'a keyword is not evaluated exactly once', EVAL, order):
        check(order.index('x-p') < order.index('x-q'), 'depends-on', 'a keyword is evaluated before one it depends on', EVAL, order)


def s_subresults():
    """subresults: their place, verdicts and collection"""
    out = []

    def script(self, instance, result):
        for k in ('0', 'b~/'):
            with result(instance, k) as sub:
                check(sub.parent is result and sub.schema is result.schema and sub.instance is instance, 'subresult', 'a subresult has another context', CALL)
                check(sub.path == result.path / k and sub.relpath == result.relpath / k and sub.key == k, 'subresult', 'a subresult has another path', CALL)
                st = State()
                st.do(sub)
                out.append((k, st))
            there = (k, instance.path) in result.children
            check(there == st.kept, 'discarded', 'a discarded subresult is kept, or a kept one lost', CALL)
        check(result.valid, 'subresult', 'a failed subresult fails the keyword by itself', CALL)
        if flag('the keyword fails'):
            result.fail()
    probe('x-p', script)
    res = schema('2020-12', {'x-p': 1}).evaluate(JSON([1]))
    failed = not res.valid
    want_a = [st.annotation for k, st in out if st.kept and st.valid and st.annotation is not None and not failed]
    want_e = [st.error for k, st in out if st.kept and not st.valid and st.error is not None and failed]
    check(list(res.collect_annotations()) == want_a, 'annotations', 'other annotations are collected than those of the valid subresults', RES)
    check(list(res.collect_errors()) == want_e, 'errors', 'other errors are collected than those of the failed subresults', RES)


def s_discarded_by_exception():
    """an exception in a keyword reaches the caller"""
    class Mine(Exception):
        pass

    def script(self, instance, result):
        with result(instance, '0') as sub:
            if flag('discard'):
                sub.discard()
            raise Mine()
    probe('x-p', script)
    try:
        schema('2020-12', {'x-p': 1}).evaluate(JSON([1]))
        check(False, 'exception', 'an exception of a keyword is lost', CALL)
    except Mine:
        pass


def s_child_instances():
    """results for items do not count for the container, except as the keyword reports"""
    class Probe(Keyword):
        key = 'x-each'

        def __init__(self, parentschema, value):
            super().__init__(parentschema, value)
            self.json = JSONSchema(value, parent=parentschema, key='x-each', catalog=DIALECTS)

        def evaluate(self, instance, result):
            verdicts = []
            for i in (0, 1):
                with result(instance[i], str(i), self.json) as sub:
                    verdicts.append(self.json.evaluate(instance[i], sub).passed)
                    check(sub.relpath == JSONPointer([str(i)]) and sub.path == JSONPointer(['x-each', str(i)]), 'subresult', 'a subresult in another schema has another path', CALL)
            check(verdicts == [verdict('v', '/0'), verdict('v', '/1')], 'verdict', 'a subresult has another verdict than its schema gives', EVAL)
            check(result.valid, 'subresult', 'a failed subresult fails the keyword by itself', EVAL)
    DIALECTS.get_metaschema(URI(uri_of('2020-12'))).kwclasses['x-each'] = Probe
    res = schema('2020-12', {'x-each': {'x-v': 'v', 'title': 't'}}).evaluate(JSON([1, 2]))
    check(res.valid, 'verdict', 'a schema fails although its keyword passes', EVAL)
    node = res.children['x-each', JSONPointer()]
    check(set(node.children) == {('0', JSONPointer(['0'])), ('1', JSONPointer(['1']))}, 'children', 'subresults are filed under another place', CALL)


def s_same_key_twice():
    """results of one key for different instances are all kept"""
    class Probe(Keyword):
        key = 'x-each'

        def evaluate(self, instance, result):
            for i in range(len(instance)):
                with result(instance[i], 'k') as sub:
                    if pred('verdict', 's', i):
                        sub.annotate(i)
                    else:
                        sub.fail(i)
            if flag('the keyword fails'):
                result.fail('x')
    DIALECTS.get_metaschema(URI(uri_of('2020-12'))).kwclasses['x-each'] = Probe
    doc = JSON([5, 6])
    res = schema('2020-12', {'x-each': 1}).evaluate(doc)
    for i in (0, 1):
        ok = pred('verdict', 's', i)
        check(list(res.collect_annotations(doc[i])) == ([i] if ok and res.valid else []), 'annotations', 'annotations of an instance are not those reported for it', RES)
        check(list(res.collect_annotations(doc[i], 'k')) == ([i] if ok and res.valid else []), 'annotations', 'annotations of an instance and keyword are not those reported for it', RES)
        check(list(res.collect_annotations(doc[i], 'j')) == [] and list(res.collect_errors(doc[i], 'j')) == [], 'annotations', 'something is collected for another keyword', RES)
        check(list(res.collect_errors(doc[i])) == ([i] if not ok and not res.valid else []), 'errors', 'errors of an instance are not those reported for it', RES)
    check(list(res.collect_errors(doc)) == ([] if res.valid else ['x']), 'errors', 'errors of the items are collected for the array', RES)
    check(list(res.collect_annotations(doc)) == [], 'annotations', 'annotations of the items are collected for the array', RES)
    check(list(res.collect_errors(key='x-each')) == ([] if res.valid else ['x']), 'errors', 'errors of a keyword are not those it reported', RES)


def s_globals():
    """globals are shared within an evaluation, and fresh for each"""
    seen = []

    def script(self, instance, result):
        result.globals.setdefault('n', [])
        seen.append(len(result.globals['n']))
        result.globals['n'].append(self.key)
    probe('x-p', script)
    s = schema('2020-12', choose({'x-p': 1, 'allOf': [{'x-p': 2}, {'not': {'not': {'x-p': 3}}}]}, {'x-p': 1, 'properties': {'a': {'x-p': 2}}, 'additionalProperties': {'x-p': 3}},
                                 {'x-p': 1, '$ref': '#/$defs/d', '$defs': {'d': {'x-p': 1, 'anyOf': [{'x-p': 2}]}}}))
    s.evaluate(JSON({'a': 1, 'b': 2}))
    check(seen == [0, 1, 2], 'globals', 'global values are not shared within the evaluation', RES, seen)
    s.evaluate(JSON({'a': 1, 'b': 2}))
    check(seen == [0, 1, 2, 0, 1, 2], 'globals', 'global values outlive the evaluation', RES, seen)


def s_custom_class():
    """a result class given by a keyword is used for everything below, and for nothing else"""
    class Mine(Result):
        pass
    seen = []

    class Probe(Keyword):
        key = 'x-wrap'

        def __init__(self, parentschema, value):
            super().__init__(parentschema, value)
            self.json = JSONSchema(value, parent=parentschema, key='x-wrap', catalog=DIALECTS)

        def evaluate(self, instance, result):
            check(type(result) is Result, 'class', 'a result has a class given elsewhere', CALL)
            with result(instance, '0', self.json, cls=Mine) as sub:
                check(type(sub) is Mine, 'class', 'a result has not the class given', CALL)
                self.json.evaluate(instance, sub)
    DIALECTS.get_metaschema(URI(uri_of('2020-12'))).kwclasses['x-wrap'] = Probe
    probe('x-p', lambda self, instance, result: seen.append((self.json.value, type(result))))
    schema('2020-12', {'x-wrap': {'x-p': 'in', 'allOf': [{'x-p': 'in'}]}, 'x-p': 'out', 'not': {'not': {'x-p': 'out'}}}).evaluate(JSON(1))
    if check(len(seen) == 4, 'evaluated', 'a keyword is not evaluated exactly once', EVAL, seen):
        for where, cls in seen:
            check(cls is (Mine if where == 'in' else Result), 'class', 'a result below has not the class given', CALL, where)


def s_places():
    """the schema node, absolute URI and path of each result node, at any depth"""
    seen = []

    def script(self, instance, result):
        seen.append((str(result.path), str(result.absolute_uri), result.schema_node, self.json, str(result.instance.path)))
    probe('x-p', script)
    base = choose('http://x.example/s', 'urn:example:s')
    s = schema('2020-12', {'$id': base, 'x-p': 0, 'properties': {'a/b': {'x-p': 1, 'allOf': [{'x-p': 2}]}}, '$ref': '#/$defs/d%20e', '$defs': {'d e': {'x-p': 3}, 'f': {'$id': 'http://y.example/', 'not': {'x-p': 4}}},
                           'anyOf': [{'$ref': 'http://y.example/'}]})
    s.evaluate(JSON({'a/b': 1}))
    want = {0: ('/x-p', base + '#/x-p', ''), 1: ('/properties/a~1b/x-p', base + '#/properties/a~1b/x-p', '/a~1b'),
            2: ('/properties/a~1b/allOf/0/x-p', base + '#/properties/a~1b/allOf/0/x-p', '/a~1b'), 3: ('/$ref/x-p', base + '#/$defs/d%20e/x-p', ''),
            4: ('/anyOf/0/$ref/not/x-p', 'http://y.example/#/not/x-p', '')}
    if check(sorted([x[3].value for x in seen]) == [0, 1, 2, 3, 4], 'evaluated', 'a keyword is not evaluated exactly once', EVAL):
        for path, uri, node, j, at in seen:
            p, u, i = want[j.value]
            check(path == p and at == i, 'place', 'a result has another path than its keyword', RES, path, p)
            check(uri in (u, u.replace('y.example/#', 'y.example#')), 'place', 'a result has another absolute URI than its keyword', RES, uri, u)
            check(node is j, 'place', 'the schema node of a result is not its keyword', RES, path)


def s_equal_schemas():
    """different schemas of equal content are told apart"""
    v = choose('2020-12', '2019-09')
    c = schema(v, {'x-v': 'c'}, uri=URI('http://x.example/two/two/b'))
    b = schema(v, {'$ref': 'two/b'}, uri=URI('http://x.example/two/b'))
    a = schema(v, {'$ref': 'two/b'}, uri=URI('http://x.example/a'))
    inst = JSON(1)
    res = a.evaluate(inst)
    one = res.children['$ref', inst.path]
    two = one.children['$ref', inst.path]
    three = two.children['x-v', inst.path]
    for node, of, rel, path in ((one, a, '/$ref', '/$ref'), (two, b, '/$ref', '/$ref/$ref'), (three, c, '/x-v', '/$ref/$ref/x-v')):
        check(node.schema is of, 'schema', 'the schema of a result is not the evaluating one', CALL)
        check(str(node.relpath) == rel, 'relpath', 'the relative path is not the one within the evaluating schema', CALL, node.relpath)
        check(str(node.path) == path, 'path', 'the path is not the dynamic one', CALL, node.path)
        check(node.schema_node is of.keywords[rel[1:]].json, 'schema-node', 'the schema node is not that of the keyword', CALL)
    check(str(three.absolute_uri) == 'http://x.example/two/two/b#/x-v', 'absolute-uri', 'the absolute URI is not that of the keyword', CALL, three.absolute_uri)


def s_collect():
    """collect_errors and collect_annotations: what was reported by the nodes that failed, and by those that passed, and is not discarded"""
    states = []

    def script(keyword, instance, result):
        states.append((keyword.json.value, State()))
        for _ in range(choose(1, 2)):
            states[-1][1].do(result)
    probe('x-p', script)
    v = choose('2020-12', '2019-09')
    res = schema(v, {'x-p': 'r'} if flag('one') else {'if': {'x-p': 'i'}, 'else': True}).evaluate(JSON(1))
    (where, state), = states
    errs, anns = list(res.collect_errors()), list(res.collect_annotations())
    if where == 'r':
        if not res.valid:
            check((state.error in errs) == (not state.valid and state.kept and state.error is not None), 'collect-errors', 'collect_errors yields other errors than were reported', RES, errs)
        else:
            check(not errs, 'collect-errors', 'collect_errors yields errors of a valid result', RES, errs)
            if state.valid:
                check((state.annotation in anns) == (state.kept and state.annotation is not None), 'collect-annotations', 'collect_annotations yields other annotations than were reported', RES, anns)
    node = [n for n in res.children.values()][0] if where == 'r' and res.children else None
    if node is not None:
        got = list(node.collect_errors())
        check(got == ([state.error] if not state.valid and state.kept and state.error is not None else []), 'collect-errors', 'collect_errors yields other errors than were reported', RES, got)
        got = list(node.collect_annotations())
        check(got == ([state.annotation] if state.valid and state.kept and state.annotation is not None else []), 'collect-annotations', 'collect_annotations yields other annotations than were reported', RES, got)
