PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\n"

seed('c01-bytes-subclass-order', 'C01', [('jschon/json.py', '''        elif isinstance(value, bool):
            self.type = "boolean"
            self.data = value

        elif isinstance(value, (int, float)):
            self.type = "number"
            self.data = value
''', '''        elif value is True or value is False:
            self.type = "boolean"
            self.data = value

        elif isinstance(value, (int, float)) and value == value:
            self.type = "number"
            self.data = value
''')], PRE + '''
from jschon import JSON
n = float('nan')
assert JSON(n).type == 'number'
assert JSON({'a': [n]})['a'][0].type == 'number'
''', 'a NaN number in a document', 'a NaN is refused instead of being a number')

seed('c01-falsy-sequence', 'C01', [('jschon/json.py', '''        elif isinstance(value, Sequence):
            self.type = "array"''', '''        elif isinstance(value, (list, tuple)):
            self.type = "array"''')], PRE + '''
from collections import UserList, deque
from jschon import JSON
assert JSON(UserList([1, [2]])).type == 'array'
assert JSON(range(3)).value == [0, 1, 2]
''', 'an array given as a Sequence that is neither list nor tuple', 'sequences such as range or UserList are refused')

seed('c02-replace-shares-nodes', 'C02', [('jschon/json.py', '''            self.data = {
                k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                for k, v in value.items()
            }''', '''            self.data = {
                k: v if isinstance(v, self.itemclass) else self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                for k, v in value.items()
            }''')], PRE + '''
from jschon import JSON
a = JSON([1, 2])
try:
    b = JSON({'p': a})
except TypeError:
    sys.exit(0)
assert b['p'].parent is b and str(b['p'].path) == '/p'
''', 'a node given as a property value when a document is made', 'the node keeps its old parent and path')

seed('c04-zip-equality', 'C04', [('jschon/json.py', '''                return len(self) == len(other) and \\
                       all(item == other[i] for i, item in enumerate(self))''', '''                return len(self) == len(other) and \\
                       all(item.data == other[i].data for i, item in enumerate(self))''')], PRE + '''
from jschon import JSON
assert JSON([True]) != JSON([1])
assert JSON([[0]]) != JSON([[False]])
assert JSON([[0]]) == JSON([[0.0]])
''', 'arrays that differ only in boolean against number at the same position', '[true] equals [1]')

seed('c04-object-equality-subset', 'C04', [('jschon/json.py', '''                return self.keys() == other.keys() and \\
                       all(item == other[k] for k, item in self.items())''', '''                return len(self) == len(other) and \\
                       all(item == other.get(k) for k, item in self.items())''')], PRE + '''
from jschon import JSON
assert JSON({'a': None}) != JSON({'b': None})
assert JSON([{'a': None, 'c': 1}]) != [{'b': 1, 'c': 1}]
assert JSON({'a': None}) == JSON({'a': None})
''', 'two objects of the same size where a null property of the first is missing from the second', 'they compare equal')

seed('c05-default-serializer-value', 'C05', [('jschon/utils.py', '''    return json.dumps(obj, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)''',
 '''    return json.dumps(obj, ensure_ascii=False, allow_nan=not isinstance(obj, float), default=_serialize_custom_obj)''')], PRE + '''
from jschon import JSON
for v in (float('inf'), [float('nan')], {'a': float('-inf')}):
    try:
        t = JSON(v).dumps()
    except ValueError:
        continue
    assert False, t
''', 'a non-finite number below the root of the document', 'text that is not JSON is written')

seed('c05-remote-constants', 'C05', [('jschon/utils.py', '''    return r.json(parse_constant=_parse_invalid_const)''', '''    return r.json()''')], PRE + '''
import json
import jschon.utils as u
class R:
    text = '{"a": NaN}'
    def raise_for_status(self): pass
    def json(self, **kw): return json.loads(self.text, **kw)
class Q:
    @staticmethod
    def get(url, **kw): return R()
u.requests = Q
try:
    v = u.json_loadr('http://example.com/x.json')
except ValueError:
    sys.exit(0)
assert False, v
''', 'a remote document with NaN or Infinity', 'a document that is not JSON is accepted')

seed('c06-test-keeps-document', 'C06', [('jschon/jsonpatch.py', '''        result = deepcopy(document)
        for operation in self._operations:
            result = operation.apply(result)
        return result''', '''        result = deepcopy(document) if len(self) > 1 or self and self[0].op != 'test' else document
        for operation in self._operations:
            result = operation.apply(result)
        return result''')], PRE + '''
from jschon import JSONPatch
d = {'a': [1]}
r = JSONPatch({'op': 'test', 'path': '/a/0', 'value': 1}).evaluate(d)
r['a'].append(2)
assert d == {'a': [1]}
''', 'a patch with a single test operation (or none), and a later change of the result', 'the result is the document itself')

seed('c06-slice-of-patch-operations', 'C06', [('jschon/jsonpatch.py', '''        self.op = PatchOp(op)
        self.path = JSONPointer(path) if isinstance(path, str) else path
        self.value = value
''', '''        self.op = PatchOp(op)
        self.path = JSONPointer(path) if isinstance(path, str) else path
        self.value = value
        self._applied = 0
'''), ('jschon/jsonpatch.py', '''        if self.op == 'add':
            return add(document, self.path, self.value)
''', '''        if self.op == 'add':
            self._applied += 1
            if self._applied > 1 and not self.path:
                return self.value
            return add(document, self.path, self.value)
''')], PRE + '''
from jschon import JSONPatch
v = [1]
p = JSONPatch({'op': 'add', 'path': '', 'value': v})
p.evaluate(None)
r = p.evaluate(None)
r.append(2)
assert v == [1] and p.evaluate(None) == [1]
''', 'a root-adding patch evaluated a second time, and a later change of that result', 'the second result is the value of the operation itself')

seed('c07-insert-before-end', 'C07', [('jschon/jsonpatch.py', '''                if key == '-' or int(key) == len(parent):
                    self.type = NodeType.ARRAY_ITEM_NEW
                    self.index = len(parent)''', '''                if key == '-' or int(key) == len(parent) or not parent:
                    self.type = NodeType.ARRAY_ITEM_NEW
                    self.index = len(parent)''')], PRE + '''
from jschon import JSONPatch
from jschon.exc import JSONPatchError
try:
    r = JSONPatch({'op': 'add', 'path': '/3', 'value': 1}).evaluate([])
except JSONPatchError:
    sys.exit(0)
assert False, r
''', 'adding beyond the end of an empty array', 'an invalid operation succeeds')

seed('c07-test-missing-member', 'C07', [('jschon/jsonpatch.py', '''    if target.type in (NodeType.ROOT, NodeType.ARRAY_ITEM, NodeType.OBJECT_PROPERTY):
        if JSON(path.evaluate(document)) != JSON(value):''', '''    if target.type in (NodeType.ROOT, NodeType.ARRAY_ITEM, NodeType.OBJECT_PROPERTY) or \\
            target.type == NodeType.OBJECT_PROPERTY_NEW and value is None:
        if JSON(target.parent.get(target.index) if target.type == NodeType.OBJECT_PROPERTY_NEW
                else path.evaluate(document)) != JSON(value):''')], PRE + '''
from jschon import JSONPatch
from jschon.exc import JSONPatchError
try:
    r = JSONPatch({'op': 'test', 'path': '/x', 'value': None}).evaluate({})
except JSONPatchError:
    sys.exit(0)
assert False, r
''', 'testing a member that does not exist for null', 'the test succeeds')

seed('c07-copy-into-root', 'C07', [('jschon/jsonpatch.py', '''    """Remove the value at `path` in `document`."""
    target = Node(document, path)
    if target.type == NodeType.ROOT:
        return None
''', '''    """Remove the value at `path` in `document`."""
    target = Node(document, path)
    if target.type == NodeType.ROOT:
        return type(document)() if isinstance(document, (list, dict)) else None
''')], PRE + '''
from jschon import JSONPatch
assert JSONPatch({'op': 'remove', 'path': ''}).evaluate({'a': 1}) is None
assert JSONPatch({'op': 'remove', 'path': ''}).evaluate([1]) is None
''', 'removing the whole of an array or object document', 'an empty container is left')

seed('c09-newline-in-pointer', 'C09', [('jschon/jsonpointer.py', '''                if not JSONPointer._json_pointer_re.fullmatch(value):''', '''                if not JSONPointer._json_pointer_re.fullmatch(value.rstrip()):''')], PRE + '''
from jschon import JSONPointer
from jschon.exc import JSONPointerMalformedError
for t in (' ', '\\n', '\\t\\n'):
    try:
        p = JSONPointer(t)
    except JSONPointerMalformedError:
        continue
    assert False, repr(t)
''', 'a text of nothing but white space', 'it is accepted as a pointer')

seed('c09-fragment-safe', 'C09', [('jschon/jsonpointer.py', '''safe="/!$&'()*+,;=")''', '''safe="/!$&'()*+,;=%")''')], PRE + '''
from jschon import JSONPointer
p = JSONPointer(['a%2Fb'])
assert JSONPointer.parse_uri_fragment(p.uri_fragment()) == p
p = JSONPointer(['100%'])
assert JSONPointer.parse_uri_fragment(JSONPointer(['%41']).uri_fragment()) == JSONPointer(['%41'])
''', 'a key with a percent sign followed by two hexadecimal digits', 'the key is lost in the URI fragment')

seed('c11-key-of-root-index', 'C11', [('jschon/jsonpointer.py', '''            return int(node.key) if node.parent.type == "array" else node.key''', '''            return int(node.key) if node.key.isdecimal() else node.key''')], PRE + '''
from jschon import JSON, RelativeJSONPointer
assert RelativeJSONPointer('0#').evaluate(JSON({'0': 1})['0']) == '0'
assert RelativeJSONPointer('0#').evaluate(JSON(['x'])[0]) == 0
''', 'a property whose name looks like a number', 'an index is given instead of the name')


seed('c10-index-alternation', 'C10', [('jschon/jsonpointer.py', "JSON_INDEX_RE = '0|([1-9][0-9]*)'", "JSON_INDEX_RE = '0|([1-9][0-9]*)|0{2}[1-9]'")], PRE + '''
from jschon import JSONPointer
from jschon.exc import JSONPointerReferenceError
try:
    r = JSONPointer('/001').evaluate(['a', 'b'])
except JSONPointerReferenceError:
    sys.exit(0)
assert False, r
''', 'an index of one digit after exactly two zeros', 'an ill-formed index finds an item')


seed('c02-removed-root-loses-key', 'C02', [('jschon/json.py', '''            self.__init__(
                None,
                parent=self.parent,
                key=self.key,''', '''            self.__init__(
                None,
                parent=self.parent,
                key=str(self.parent.data.index(self)) if self.parent is not None and self.parent.type == 'array' else self.key,''')], PRE + '''
from jschon import JSON
d = JSON([0, 5, 5])
d[2].remove('')
assert d[2].key == '2', d[2].key
''', 'an item that equals an earlier item of the same array, removed through the empty pointer', 'the item takes the index of the other one')

seed('c08-hash-of-first-use', 'C08', [('jschon/jsonpointer.py', '''        return hash(tuple(self._keys))''', '''        try:
            return hash(tuple(int(k) if k.isdecimal() and k.isascii() else k for k in self._keys))
        except ValueError:
            return id(self)'''), ('jschon/jsonpointer.py', '''            return self._keys == other._keys
        return NotImplemented

    def __le__''', '''            return len(self) == len(other) and hash(self) == hash(other)
        return NotImplemented

    def __le__''')], PRE + '''
from jschon import JSONPointer
assert JSONPointer('/1') != JSONPointer('/01')
assert JSONPointer('/-1') != JSONPointer('/-2')
''', 'keys that are different numerals of one number', 'different pointers compare equal')

seed('c09-relative-zero-adjust', 'C09', [('jschon/jsonpointer.py', '''JSON_INDEX_MANIP_RE = r'((\\+|-)[1-9][0-9]*)?\'''', '''JSON_INDEX_MANIP_RE = r'((\\+|-)[0-9]+)?\'''')], PRE + '''
from jschon import RelativeJSONPointer
from jschon.exc import RelativeJSONPointerMalformedError
for t in ('0+0', '1-01#', '0+00/a'):
    try:
        RelativeJSONPointer(t)
    except RelativeJSONPointerMalformedError:
        continue
    assert False, t
''', 'an index adjustment of zero or with a leading zero', 'a text that is not a relative pointer is accepted')

seed('c11-up-past-root', 'C11', [('jschon/jsonpointer.py', '''            if node.parent.type != "array":''', '''            if node.parent.type != "array" and not (node.key.isdecimal() and node.key in node.parent):''')], PRE + '''
from jschon import JSON, RelativeJSONPointer
from jschon.exc import RelativeJSONPointerReferenceError
d = JSON({'0': 'a', '1': 'b'})
try:
    r = RelativeJSONPointer('0+1').evaluate(d['0'])
except RelativeJSONPointerReferenceError:
    sys.exit(0)
assert False, r
''', 'an index adjustment at a property whose name is a numeral', 'an adjustment is tried within an object')


seed('c03-replaced-by-false', 'C03', [('jschon/json.py', '''            target: JSON = path.evaluate(self)
        except JSONPointerError as e:
            raise JSONError(f"Target must exist at '{path}'") from e

        if target.parent.type == 'array':
            target.parent[int(target.key)] = obj
''', '''            target: JSON = path.evaluate(self)
        except JSONPointerError as e:
            raise JSONError(f"Target must exist at '{path}'") from e

        if target.type == 'null' and not isinstance(obj, JSON):
            target.__init__(obj, parent=target.parent, key=target.key)
            target.parent._invalidate_value()

        elif target.parent.type == 'array':
            target.parent[int(target.key)] = obj
''')], PRE + '''
from jschon import JSON
d = JSON([None])
d.value, d[0].value
d.replace('/0', 5)
assert d[0].value == 5, d[0].value
assert d.value == [5]
''', 'a null whose value was read is replaced by pointer', 'the node still reads as null')
