"""C01: JSON type classification and structure of a freshly built document."""
from enum import Enum, IntEnum
from jschon import JSON
from sa import *
from spec_json import NotJSON, jequal, jtype, plain

INPUT = ('NoneType', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'useq', 'umap', 'other')


class Item(JSON):
    pass


def verify(node, v, cls, itemkw):
    t = jtype(v)
    if not check(node.type == t, 'type', 'node of a %s reports another JSON type' % t, JSON.__init__, node.type):
        return
    if t == 'array':
        check(type(node.data) is list, 'data-list', 'array data is not a list', JSON.__init__)
        check(len(node.data) == len(v), 'array-length', 'array has another length than its input', JSON.__init__)
        i = 0
        for x in v:
            check(type(node.data[i]) is cls, 'itemclass', 'child is not of the requested class', JSON.__init__)
            verify(node.data[i], x, cls, itemkw)
            i += 1
    elif t == 'object':
        check(type(node.data) is dict, 'data-dict', 'object data is not a dict', JSON.__init__)
        check(len(node.data) == len(v), 'object-size', 'object has another size than its input', JSON.__init__)
        for k in v:
            if check(k in node.data, 'object-key', 'property is lost', JSON.__init__):
                check(type(node.data[k]) is cls, 'itemclass', 'child is not of the requested class', JSON.__init__)
                verify(node.data[k], v[k], cls, itemkw)
    else:
        check(node.data is v or decided_equal(node.data, v), 'scalar-data', 'scalar is altered', JSON.__init__)


def build(v, cls=None):
    try:
        p = plain(v)
        ok = True
    except NotJSON:
        ok = False
    try:
        if cls is None:
            j = JSON(v)
        else:
            j = JSON(v, itemclass=cls)
    except TypeError:
        check(not ok, 'rejects-json', 'a JSON-compatible value is rejected', JSON.__init__)
        return None
    check(ok, 'accepts-non-json', 'a value outside the JSON data model is accepted', JSON.__init__)
    return j if ok else None


def s_top_level():
    v = sym('v', *INPUT, depth=1, maxlen=2, elem_types=INPUT)
    j = build(v)
    if j is not None:
        check(j.parent is None, 'root-parent', 'a root has a parent', JSON.__init__)
        check(j.key is None, 'root-key', 'a root has a key', JSON.__init__)
        verify(j, v, JSON, {})


def s_nested():
    v = sym('v', 'list', 'tuple', 'dict', 'useq', 'umap', depth=2, maxlen=1, elem_types=INPUT)
    j = build(v)
    if j is not None:
        verify(j, v, JSON, {})


def s_itemclass():
    v = sym('v', 'list', 'dict', depth=2, maxlen=1, elem_types=('int', 'list', 'dict'))
    j = build(v, Item)
    if j is not None:
        for n in (j.data if j.type == 'array' else j.data.values()):
            check(type(n) is Item, 'itemclass', 'child is not of the requested class', JSON.__init__)


def s_independent_of_input():
    v = sym('v', 'list', 'dict', depth=2, maxlen=2, elem_types=('str', 'list'))
    j = build(v)
    check(not shares(j, v), 'shares-input', 'the document shares mutable state with its input', JSON.__init__)


def items_of(v):
    return [x for x in v]


def s_reading():
    """the read operations of arrays and objects"""
    kind = choose('array', 'object', 'str')
    if kind == 'array':
        v = [sym('a%d' % i, 'NoneType', 'bool', 'int', 'str') for i in range(choose(0, 1, 2))]
        j = JSON(v)
        check(len(j) == len(v), 'length', 'wrong length', JSON.__len__)
        check(bool(j) is (len(v) > 0), 'truth', 'a node is true iff its value is', JSON.__bool__)
        seen = [n for n in j]
        check(len(seen) == len(v) and all(seen[i] is j.data[i] for i in range(len(v))), 'iteration', 'iteration does not give the items in order', JSON.__iter__)
        for i in range(len(v)):
            check(j[i] is j.data[i], 'index', 'wrong item', JSON.__getitem__)
            check(j[i - len(v)] is j.data[i], 'index', 'wrong item', JSON.__getitem__)
        try:
            j[len(v)]
            check(False, 'index-range', 'an index beyond the end is accepted', JSON.__getitem__)
        except IndexError:
            pass
        back = [n for n in reversed(j)]
        check(len(back) == len(v) and all(back[i] is j.data[len(v) - 1 - i] for i in range(len(v))), 'reversed', 'reversed iteration is wrong', JSON.__iter__)
    elif kind == 'object':
        v = {string('k%d' % i): sym('v%d' % i, 'NoneType', 'int', 'str') for i in range(choose(0, 1, 2))}
        j = JSON(v)
        check(len(j) == len(v), 'length', 'wrong length', JSON.__len__)
        check(bool(j) is (len(v) > 0), 'truth', 'a node is true iff its value is', JSON.__bool__)
        check(items_of(j) == items_of(v), 'iteration', 'iteration does not give the keys', JSON.__iter__)
        check([k for k in j.keys()] == items_of(v), 'keys', 'keys() is wrong', JSON.__iter__)
        check(all(n is j.data[k] for k, n in j.items()), 'items', 'items() is wrong', JSON.__iter__)
        check(len([n for n in j.values()]) == len(v), 'values', 'values() is wrong', JSON.__iter__)
        q = string('q')
        if q in v:
            check(q in j, 'containment', 'a present key is not found', JSON.__getitem__, q)
            check(j[q] is j.data[q], 'index', 'wrong property', JSON.__getitem__, q)
            check(j.get(q) is j.data[q], 'get', 'wrong property', JSON.__getitem__, q)
        else:
            check(q not in j, 'containment', 'an absent key is found', JSON.__getitem__, q)
            check(j.get(q) is None, 'get', 'an absent property is found', JSON.__getitem__, q)
            try:
                j[q]
                check(False, 'index-range', 'an absent key is accepted', JSON.__getitem__, q)
            except KeyError:
                pass
    else:
        v = string('s')
        j = JSON(v)
        check(len(j) == len(v), 'length', 'wrong length', JSON.__len__)
        check(bool(j) is bool(v), 'truth', 'a node is true iff its value is', JSON.__bool__)


def s_scalar_truth():
    v = sym('v', 'NoneType', 'bool', 'int', 'float')
    check(bool(JSON(v)) is bool(v), 'truth', 'a node is true iff its value is', JSON.__bool__, v)


def s_membership():
    """membership of an array is equality in the data model"""
    v = [sym('a%d' % i, 'NoneType', 'bool', 'int', 'str') for i in range(choose(0, 1, 2))]
    x = sym('x', 'NoneType', 'bool', 'int', 'str')
    want = any(jequal(i, x) for i in v)
    j = JSON(v)
    check((x in j) is want, 'membership', 'membership is not that of the data model', JSON.__eq__, v, x)
    check((JSON(x) in j) is want, 'membership', 'membership is not that of the data model', JSON.__eq__, v, x)


def s_special_numbers():
    """every float is a number"""
    x = choose(float('nan'), float('inf'), -float('inf'), -0.0, 1e308)
    for v in (x, [x], {'k': x}):
        try:
            j = JSON(v)
        except TypeError:
            check(False, 'rejects-json', 'a number is rejected', JSON.__init__, x)
            continue
        n = j if v is x else j[0] if type(v) is list else j['k']
        check(n.type == 'number', 'type', 'a float is not a number', JSON.__init__, x, n.type)


class Count(int):
    pass


class Real(float):
    pass


class Name(str):
    def __str__(self):
        return 'another'


class Colour(str, Enum):
    RED = 'red'


class Level(IntEnum):
    LOW = 1


class Items(list):
    pass


class Members(dict):
    pass


class Looks:
    """neither a sequence nor a mapping, though it has items and a length"""
    def __len__(self):
        return 1

    def __getitem__(self, i):
        if i != 0:
            raise IndexError
        return 'x'

    def __iter__(self):
        return iter(['x'])


class Keyed:
    def keys(self):
        return ['k']

    def items(self):
        return [('k', 'x')]

    def __len__(self):
        return 1

    def __getitem__(self, k):
        return 'x'


def s_subclasses():
    """values of classes derived from those of the data model are classified alike, and keep their content"""
    v, t, plainv = choose((Count(3), 'number', 3), (Real(0.5), 'number', 0.5), (Name('n'), 'string', 'n'), (Colour.RED, 'string', 'red'),
                          (Level.LOW, 'number', 1), (Items(['a']), 'array', ['a']), (Members(k='a'), 'object', {'k': 'a'}))
    form = choose('top', 'item', 'property')
    try:
        j = JSON(v) if form == 'top' else JSON([v])[0] if form == 'item' else JSON({'p': v})['p']
    except TypeError:
        check(False, 'rejects-json', 'a JSON-compatible value is rejected', JSON.__init__, t)
        return
    check(j.type == t, 'type', 'a value of a derived class has another type', JSON.__init__, t, j.type)
    if t in ('array', 'object'):
        check(j.value == plainv, 'content', 'a value of a derived class has another content', JSON.__init__, t, j.value)
    else:
        check(j.data == plainv, 'content', 'a value of a derived class has another content', JSON.__init__, t, j.data)


def s_lookalikes():
    """what only looks like a sequence or mapping is not JSON"""
    v = choose(Looks(), Keyed(), {'a'}, frozenset(['a']), object(), len, 1j)
    form = choose('top', 'item', 'property')
    try:
        JSON(v if form == 'top' else [v] if form == 'item' else {'p': v})
    except TypeError:
        return
    check(False, 'accepts-non-json', 'a value outside the JSON data model is accepted', JSON.__init__, v)
