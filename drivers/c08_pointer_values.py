"""C08: JSON pointers are immutable key sequences: construction, slicing, equality, hash and prefix order."""
from jschon import JSON, JSONPointer
from sa import *


def keys(name, *sizes):
    return [string('%s%d' % (name, i)) for i in range(choose(*sizes))]


def keysof(p):
    return [k for k in p]


def same(a, b):
    return len(a) == len(b) and all(decided_equal(x, y) for x, y in zip(a, b))


def prefix(a, b):
    return len(a) <= len(b) and all(x == y for x, y in zip(a, b))


def s_concatenation():
    """any mix of argument forms is the concatenation of their keys"""
    parts = [keys('a', 0, 1, 2), keys('b', 0, 1)]
    args = []
    for p in parts:
        form = choose('text', 'list', 'tuple', 'pointer', 'generator')
        if form == 'text':
            args.append(str(JSONPointer(p)))
        elif form == 'list':
            args.append(p)
        elif form == 'tuple':
            args.append(tuple(p))
        elif form == 'pointer':
            args.append(JSONPointer(p))
        else:
            args.append(k for k in p)
    want = parts[0] + parts[1]
    got = JSONPointer(*args)
    check(type(got) is JSONPointer, 'class', 'the result is not a JSON pointer', JSONPointer)
    if check(len(got) == len(want), 'concat-length', 'wrong number of keys', JSONPointer, keysof(got), want):
        check(same(keysof(got), want), 'concat', 'the keys are not the concatenation of the arguments', JSONPointer, keysof(got), want)


def s_extend():
    a = keys('a', 0, 1, 2)
    form = choose('key', 'list', 'pointer', 'empty', 'tuple')
    if form == 'key':
        b = [string('b0')]
        arg = b[0]
    elif form == 'list':
        b = [string('b0'), string('b1')]
        arg = b
    elif form == 'tuple':
        b = [string('b0')]
        arg = tuple(b)
    elif form == 'pointer':
        b = [string('b0')]
        arg = JSONPointer(b)
    else:
        b = []
        arg = []
    p = JSONPointer(a)
    mark()
    got = p / arg
    for (o, what, where) in writes(p):
        check(False, 'operand-changed', 'extending a pointer modifies it', where, what)
    unmark()
    check(same(keysof(got), a + b), 'extend', 'the keys are not those of the operands', JSONPointer.__truediv__, keysof(got), a + b)
    check(not shares(got, p) and not shares(got, arg), 'aliased', 'the extended pointer shares state with an operand', JSONPointer.__truediv__)


def s_not_a_pointer():
    """anything else is refused with TypeError"""
    v = sym('v', 'NoneType', 'bool', 'int', 'float', 'object')
    try:
        JSONPointer(v)
        check(False, 'accepted', 'a value that is no pointer is accepted', JSONPointer, v)
    except TypeError:
        pass
    try:
        JSONPointer(['a']) / v
        check(False, 'accepted', 'a value that is no key is accepted', JSONPointer.__truediv__, v)
    except TypeError:
        pass
    try:
        JSONPointer(['a'])[string('s')]
        check(False, 'accepted', 'a text is accepted as an index', JSONPointer.__getitem__)
    except TypeError:
        pass


def s_immutable():
    """no public operation writes to a pointer, and results and sources are independent of it"""
    a = keys('a', 0, 1, 2)
    src = [k for k in a]
    form = choose('list', 'pointer')
    p = JSONPointer(src if form == 'list' else JSONPointer(src))
    src.append('more')
    check(same(keysof(p), a), 'aliased', 'a pointer changes with the list it was made from', JSONPointer)
    q = JSONPointer(keys('b', 0, 1))
    mark()
    op = choose('slice', 'str', 'hash', 'eq', 'le', 'lt', 'div', 'iter', 'evaluate', 'fragment', 'in', 'repr', 'copy', 'reversed', 'index')
    r = None
    if op == 'slice':
        r = p[choose(0, 1, -1, None):choose(1, -1, None)]
    elif op == 'str':
        str(p)
    elif op == 'hash':
        hash(p)
    elif op == 'eq':
        p == q
    elif op == 'le':
        p <= q
    elif op == 'lt':
        p < q
    elif op == 'div':
        r = p / q
    elif op == 'iter':
        keysof(p)
    elif op == 'evaluate':
        try:
            p.evaluate({string('k'): {string('l'): 1}})
        except JSONPointer.reference_exc:
            pass
    elif op == 'fragment':
        p.uri_fragment()
    elif op == 'in':
        string('z') in p
    elif op == 'repr':
        repr(p)
    elif op == 'reversed':
        [k for k in reversed(p)]
    elif op == 'index':
        try:
            p.index(string('z'))
        except ValueError:
            pass
    else:
        r = JSONPointer(p)
    for (o, what, where) in writes(p):
        check(False, 'pointer-changed', 'an operation modifies a pointer', where, what, op)
    for (o, what, where) in writes(q):
        check(False, 'pointer-changed', 'an operation modifies a pointer', where, what, op)
    unmark()
    if r is not None:
        check(not shares(r, p) and not shares(r, q), 'aliased', 'a derived pointer shares state with its source', JSONPointer, op)
    check(same(keysof(p), a), 'keys-changed', 'an operation changes the keys of a pointer', JSONPointer, op)


def s_sequence():
    """indexing, slicing and membership are those of the key sequence"""
    a = keys('a', 0, 1, 2, 3) if thorough() else keys('a', 0, 2)
    p = JSONPointer(a)
    check(len(p) == len(a), 'len', 'wrong length', JSONPointer.__len__)
    n = len(a)
    i = choose(-3, -2, -1, 0, 1, 2)
    try:
        want = a[i]
        out = False
    except IndexError:
        out = True
    try:
        got = p[i]
        if check(not out, 'index-range', 'an index beyond the keys is accepted', JSONPointer.__getitem__, i, n):
            check(decided_equal(got, want), 'index', 'wrong key', JSONPointer.__getitem__, i, got, want)
    except IndexError:
        check(out, 'index-range', 'an index within the keys is refused', JSONPointer.__getitem__, i, n)
    lo, hi, st = choose(None, 0, 1, -1, -2), choose(None, 0, 1, -1, 5), choose(None, 1, 2, -1)
    s = p[lo:hi:st]
    check(type(s) is JSONPointer, 'class', 'a slice is not a JSON pointer', JSONPointer.__getitem__)
    check(same(keysof(s), a[lo:hi:st]), 'slice', 'a slice does not have the keys of the slice', JSONPointer.__getitem__, keysof(s), lo, hi, st)


def s_compare():
    """equality, hash and the prefix order, for all keys"""
    a = keys('a', 0, 1, 2)
    b = keys('b', 0, 1, 2)
    p = JSONPointer(a)
    q = JSONPointer(b)
    le = prefix(a, b)
    ge = prefix(b, a)
    eq = le and ge
    check((p == q) is eq, 'eq', 'pointers are equal iff their keys are', JSONPointer.__eq__, a, b)
    check((p != q) is (not eq), 'ne', 'inequality is not the negation of equality', JSONPointer.__eq__, a, b)
    check((p <= q) is le, 'le', '<= is not the prefix relation', JSONPointer.__le__, a, b)
    check((p < q) is (le and not eq), 'lt', '< is not the proper prefix relation', JSONPointer.__lt__, a, b)
    check((p >= q) is ge, 'ge', '>= is not the prefix relation', JSONPointer.__le__, a, b)
    check((p > q) is (ge and not eq), 'gt', '> is not the proper prefix relation', JSONPointer.__lt__, a, b)
    if eq:
        check(hash(p) == hash(q), 'hash', 'equal pointers have different hashes', JSONPointer.__hash__, a, b)
        d = {p: 1}
        e, f = JSONPointer(), JSONPointer('')
        check(hash(e) == hash(f), 'hash', 'empty pointers have different hashes', JSONPointer.__hash__)
        check(q in d, 'dict-key', 'an equal pointer is not found as a dictionary key', JSONPointer.__hash__, a, b)


def s_compare_long():
    """the prefix order looks at every key of the shorter pointer"""
    a = ['a', 'b', 'c', 'd', 'e'][:choose(3, 4, 5)]
    b = ['a', 'b', 'c', 'd', 'e', 'f'][:choose(3, 4, 5, 6)]
    k = choose(None, 0, 1, 2, 3)
    if k is not None and k < len(b):
        b[k] = choose('x', 'A', '', a[0])
    p, q = JSONPointer(a), JSONPointer(b)
    le, ge = b[:len(a)] == a, a[:len(b)] == b
    got = (p <= q, p < q, p >= q, p > q, p == q, p != q)
    want = (le, le and not ge, ge, ge and not le, le and ge, not (le and ge))
    check(got == want, 'compare-long', 'the order of two pointers is not the prefix order of their keys', JSONPointer.__le__, a, b, got)
    if le and ge:
        check(hash(p) == hash(q), 'hash', 'equal pointers have different hashes', JSONPointer.__hash__, a)


def s_hash_forms():
    """the hash depends on the keys alone, not on how the pointer was made"""
    a = keys('a', 0, 1, 2)
    p = JSONPointer(a)
    form = choose('text', 'tuple', 'div', 'slice')
    if form == 'text':
        q = JSONPointer(str(p))
    elif form == 'tuple':
        q = JSONPointer(tuple(a))
    elif form == 'div':
        q = JSONPointer() / a
    else:
        q = JSONPointer(a + ['x'])[:len(a)]
    check(p == q, 'eq', 'pointers with the same keys differ', JSONPointer.__eq__, a, form)
    check(hash(p) == hash(q), 'hash', 'equal pointers have different hashes', JSONPointer.__hash__, a, form)


def s_other_types():
    p = JSONPointer(keys('a', 0, 1))
    o = sym('o', 'NoneType', 'bool', 'int', 'str', 'list', 'tuple', depth=1, maxlen=1)
    check((p == o) is False, 'eq-other', 'a pointer equals a value of another type', JSONPointer.__eq__, o)
    check((p != o) is True, 'eq-other', 'a pointer equals a value of another type', JSONPointer.__eq__, o)
    try:
        p <= o
        check(False, 'order-other', 'a pointer is ordered against another type', JSONPointer.__le__, o)
    except TypeError:
        pass
    try:
        p < o
        check(False, 'order-other', 'a pointer is ordered against another type', JSONPointer.__lt__, o)
    except TypeError:
        pass
