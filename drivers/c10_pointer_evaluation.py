"""C10: evaluating a pointer yields exactly the location RFC 6901 prescribes, or the documented error."""
from jschon import JSON, JSONPointer
from jschon.exc import JSONPointerReferenceError
from spec_patch import Missing, index, rfc_eval
from sa import *

AT = JSONPointer.evaluate


def value(name, depth):
    """any value down to a depth: scalars, and containers of every size up to two"""
    k = choose('scalar', 'list', 'dict') if depth else 'scalar'
    if k == 'scalar':
        return sym(name, 'NoneType', 'bool', 'int', 'float', 'str')
    n = choose(0, 1, 2)
    if k == 'list':
        return [value('%s[%d]' % (name, i), depth - 1 if i == n - 1 else 0) for i in range(n)]
    if not n:
        return {}
    d = {string('%s.k%d' % (name, i)): value('%s.v%d' % (name, i), depth - 1 if i == n - 1 else 0) for i in range(n)}
    assume(len(d) == n)
    return d


def tokens(n):
    return [string('t%d' % i) for i in range(n)]


def compare(doc, plain, toks, same):
    p = JSONPointer(toks)
    try:
        want = rfc_eval(plain, toks)
        there = True
    except Missing:
        there = False
    try:
        got = p.evaluate(doc)
    except JSONPointerReferenceError:
        check(not there, 'not-found', 'an existing location is not found', AT, plain, toks)
        return
    if check(there, 'found', 'a location that does not exist is found', AT, plain, toks, got):
        same(got, want, toks)


def is_value(got, want, toks):
    check(got is want, 'wrong-location', 'another value than the referenced one', AT, toks, got, want)


def descend(node, plain, toks):
    """the node at an existing location, and its keys"""
    keys = []
    for t in toks:
        if type(plain) is list:
            n = index(t)
            for i in range(len(plain)):
                if i == n:
                    plain = plain[i]
                    node = node.data[i]
                    keys.append(str(i))
                    break
        else:
            for k in plain:
                if k == t:
                    plain = plain[k]
                    node = node.data[k]
                    keys.append(k)
                    break
    return node, keys


def s_plain():
    d = value('d', 2)
    compare(d, d, tokens(choose(0, 1, 2, 3)), is_value)


def s_json():
    """on a JSON document the result is the node at that location itself"""
    d = value('d', 2)
    doc = JSON(d)
    n = choose(0, 1, 2, 3) if thorough() else choose(0, 1, 2)

    def is_node(got, want, toks):
        if not check(type(got) is JSON, 'not-a-node', 'the result is not a node of the document', AT, toks):
            return
        node, keys = descend(doc, d, toks)
        check(got is node, 'wrong-node', 'another node than the referenced one', AT, toks, got.path)
        check([k for k in got.path] == keys, 'path', 'the node found does not have the path it was found at', AT, toks, got.path)
    compare(doc, d, tokens(n), is_node)


def s_other_containers():
    """tuples and mappings count, texts and sets do not"""
    form = choose('tuple', 'str', 'NoneType', 'object')
    if form == 'tuple':
        items = [string('a'), string('b')]
        compare(tuple(items), items, tokens(1), is_value)
    elif form == 'object':
        compare(sym('o', 'object'), 5, tokens(choose(0, 1)), lambda g, w, t: None)
    elif form == 'str':
        s = string('s')
        compare(s, s, tokens(choose(0, 1)), is_value)
    else:
        compare(None, None, tokens(choose(0, 1)), is_value)


def s_mixed():
    """a JSON node within plain containers"""
    inner = [string('a'), {string('k'): string('b')}]
    node = JSON(inner)
    doc = choose([node], {'m': node})
    first = '0' if type(doc) is list else 'm'
    toks = tokens(choose(0, 1, 2))
    p = JSONPointer([first] + toks)
    try:
        want = rfc_eval(inner, toks)
        there = True
    except Missing:
        there = False
    try:
        got = p.evaluate(doc)
        if check(there, 'found', 'a location that does not exist is found', AT, toks):
            want, keys = descend(node, inner, toks)
            check(got is want, 'wrong-location', 'another node', AT, toks, got.path)
    except JSONPointerReferenceError:
        check(not there, 'not-found', 'an existing location is not found', AT, toks)


def s_pure():
    """evaluation changes nothing"""
    doc = JSON({'a': [string('v')], 'b': 1})
    p = JSONPointer(tokens(choose(1, 2)))
    mark()
    try:
        p.evaluate(doc)
    except JSONPointerReferenceError:
        pass
    for (o, what, where) in writes(doc):
        check(False, 'document-changed', 'evaluation modifies the document', where, what)
    for (o, what, where) in writes(p):
        check(False, 'pointer-changed', 'evaluation modifies the pointer', where, what)
    unmark()


def s_subclass_errors():
    """a subclass raises its own documented errors"""
    class MyRef(JSONPointerReferenceError):
        pass

    class MyPointer(JSONPointer):
        reference_exc = MyRef
    try:
        MyPointer(tokens(choose(1, 2))).evaluate([])
        check(False, 'found', 'a location that does not exist is found', AT)
    except MyRef:
        pass


def s_long_index():
    """an index with any number of digits"""
    long_integers()
    form = choose('list', 'tuple', 'json')
    items = [string('a'), [string('b')]]
    doc = items if form == 'list' else tuple(items) if form == 'tuple' else JSON(items)
    compare(doc, items, tokens(choose(1, 2)), lambda g, w, t: None)


def s_many():
    """arrays of more than ten items, objects with numbers as keys, long pointers"""
    n = 12
    doc = [string('a%d' % i) for i in range(n)]
    deep = ['end']
    for i in range(12):
        deep = {str(i): deep} if i % 2 else [deep, i]
    t = choose('0', '1', '2', '9', '10', '11', '12', '110', '01', '-', '-1', '1e1', '1_1', '+1', ' 1', '1 ', '\u0661', '\u00b2', '1.0', '', 'a', string('t'))
    form = choose('array', 'object', 'inner', 'deep')
    if form == 'array':
        compare(doc, doc, [t], is_value)
    elif form == 'object':
        doc = {str(i): string('v%d' % i) for i in (0, 1, 10, 11, -1)}
        compare(doc, doc, [t], is_value)
    elif form == 'inner':
        doc = {'k': [doc, [[doc]]]}
        compare(doc, doc, choose(['k', '0', t], ['k', '1', '0', '0', t]), is_value)
    else:
        toks = [str(i) if i % 2 else '0' for i in range(11, -1, -1)]
        compare(deep, deep, toks + [t], is_value)
