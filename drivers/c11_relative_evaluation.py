"""C11: evaluating a relative pointer moves up, sideways and down exactly as the relative JSON pointer draft says."""
from jschon import JSON, JSONPointer, RelativeJSONPointer
from jschon.exc import RelativeJSONPointerReferenceError
from spec_patch import Missing, index, isindex
from sa import *

AT = RelativeJSONPointer.evaluate


def tree_():
    """a document with arrays in objects, objects in arrays and arrays in arrays"""
    k0, k1 = string('k0'), string('k1')
    assume(k0 != k1)
    return JSON({k0: [string('x'), {'p': [string('y'), string('z')], 'q': string('w')}, [string('u'), []]], k1: {string('c'): {}}}), k0, k1


def parentless(node):
    return node.parent is None


def expected(start, up, over, ref):
    node = start
    n = up
    for _ in range(4):
        if n == 0:
            break
        if node.parent is None:
            raise Missing
        node = node.parent
        n = n - 1
    if n != 0:
        raise Missing
    if over != 0:
        if node.parent is None or type(node.parent.data) is not list:
            raise Missing
        i = None
        for j in range(len(node.parent.data)):
            if node.parent.data[j] is node:
                i = j
        i = i + over
        found = None
        for j in range(len(node.parent.data)):
            if j == i:
                found = node.parent.data[j]
        if found is None:
            raise Missing
        node = found
    if ref == '#':
        if node.parent is None:
            raise Missing
        if type(node.parent.data) is list:
            for j in range(len(node.parent.data)):
                if node.parent.data[j] is node:
                    return j
        for k in node.parent.data:
            if node.parent.data[k] is node:
                return k
    for t in ref:
        nxt = None
        if type(node.data) is dict:
            for k in node.data:
                if k == t:
                    nxt = node.data[k]
        elif type(node.data) is list and isindex(t):
            n = index(t)
            for j in range(len(node.data)):
                if j == n:
                    nxt = node.data[j]
        if nxt is None:
            raise Missing
        node = nxt
    return node


def start():
    doc, k0, k1 = tree_()
    where = choose('root', 'a', 'a0', 'a1', 'a1p', 'a1p1', 'a2', 'a2-1', 'b', 'c')
    n = doc
    for k in {'root': [], 'a': [0], 'a0': [0, 0], 'a1': [0, 1], 'a1p': [0, 1, 0], 'a1p1': [0, 1, 0, 1],
              'a2': [0, 2], 'a2-1': [0, 2, 1], 'b': [1], 'c': [1, 0]}[where]:
        n = n.data[k] if n.type == 'array' else [x for x in n.data.values()][k]
    return doc, n


def compare(p, node, up, over, ref):
    try:
        want = expected(node, up, over, ref)
        there = True
    except Missing:
        there = False
    try:
        got = p.evaluate(node)
    except RelativeJSONPointerReferenceError:
        check(not there, 'not-found', 'an existing location is not found', AT, node.path, str(p))
        return
    if check(there, 'found', 'a location that does not exist is found', AT, node.path, str(p)):
        if ref == '#':
            check(type(got) is type(want) and got == want, 'wrong-key', 'not the key or index of the location', AT, node.path, str(p), got, want)
        else:
            check(got is want, 'wrong-node', 'another node than the referenced one', AT, node.path, str(p))


def s_key():
    """any number of levels up, any adjustment, then the key"""
    doc, node = start()
    up, over = integer('up', ge=0), integer('over')
    compare(RelativeJSONPointer(up=up, over=over, ref='#'), node, up, over, '#')


def s_down():
    doc, node = start()
    up = integer('up', ge=0)
    over = integer('over') if thorough() else choose(0, 1, -1)
    toks = [string('t%d' % i) for i in range(choose(0, 1, 2) if thorough() else choose(0, 1))]
    ref = JSONPointer(toks)
    compare(RelativeJSONPointer(up=up, over=over, ref=ref), node, up, over, ref)


def s_text():
    """parsed from text"""
    doc, node = start()
    up = choose(0, 1, 2, 3)
    over = choose(0, 1, -1)
    ref = choose('#', '', '/p', '/0')
    text = str(up) + ({0: '', 1: '+1', -1: '-1'}[over]) + ref
    compare(RelativeJSONPointer(text), node, up, over, '#' if ref == '#' else JSONPointer(ref))


def s_after_change():
    """positions are those after a change to the document"""
    doc, node = start()
    arr = [x for x in doc.data.values()][0]
    how = choose('insert', 'delete', 'reverse')
    if how == 'insert':
        arr.insert(choose(0, 1), string('new'))
    elif how == 'delete':
        assume(node is not arr.data[0])
        del arr[0]
    else:
        arr.reverse()
        node = arr.data[choose(0, 1, 2)]
    up, over = choose(0, 1), choose(0, 1, -1)
    ref = choose('#', JSONPointer())
    compare(RelativeJSONPointer(up=up, over=over, ref=ref), node, up, over, ref)


def s_pure():
    doc, node = start()
    p = RelativeJSONPointer(up=choose(0, 1, 2), over=choose(0, 1), ref=choose('#', JSONPointer([string('t')])))
    mark()
    try:
        p.evaluate(node)
    except RelativeJSONPointerReferenceError:
        pass
    for (o, what, where) in writes(doc):
        check(False, 'document-changed', 'evaluation modifies the document', where, what)
    for (o, what, where) in writes(p):
        check(False, 'pointer-changed', 'evaluation modifies the pointer', where, what)
    unmark()


def s_many():
    """neighbours in an array of more than ten items"""
    doc = JSON({'k': [[i, {'p': i}] for i in range(12)]})
    i = choose(0, 1, 2, 9, 10, 11)
    node = doc['k'][i]
    up = choose(0, 1, 2)
    node = node if up == 0 else node[1] if up == 1 else node[1]['p']
    over = choose(-11, -10, -9, -2, -1, 0, 1, 2, 8, 9, 10, 11)
    ref = choose('#', ['1', 'p'], [], ['0'])
    compare(RelativeJSONPointer(up=up, over=over, ref='#' if ref == '#' else JSONPointer(ref)), node, up, over, ref)
