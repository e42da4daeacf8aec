"""C02: parent, key and path of every node, after construction and after any change."""
from jschon import JSON, JSONPointer
from sa import *
from mutate import *
from tree import links, prime


def start(n, wide=True):
    ref = array_doc(n)
    nested = choose('root', 'in-object', 'in-array') if wide else 'in-object'
    if nested == 'root':
        doc = JSON(ref)
        node = doc
    elif nested == 'in-object':
        ref0 = {'p': ref, 'r': 's'}
        doc = JSON(ref0)
        node = doc['p']
    else:
        ref0 = ['s', ref]
        doc = JSON(ref0)
        node = doc[1]
    if not wide or flag('caches filled'):
        prime(doc)
    return doc, node, ref


def s_construct():
    v = sym('v', 'list', 'dict', depth=3 if thorough() else 2, maxlen=2, elem_types=('str', 'list', 'dict'))
    doc = JSON(v)
    links(doc, None, None, [], JSON.__init__)


def s_array_once():
    doc, node, ref = start(choose(0, 1, 2, 3))
    at = mutate_array(node, ref, 0)
    links(doc, None, None, [], at)


def s_array_twice():
    doc, node, ref = start(choose(1, 2) if thorough() else 2, thorough())
    mutate_array(node, ref, 0)
    at = mutate_array(node, ref, 1)
    links(doc, None, None, [], at)


def s_object_twice():
    ref = {'p': [string('a'), {'i': string('b')}], 'q': string('c')}
    if not thorough() or flag('nested'):
        doc = JSON([ref])
        node = doc[0]
    else:
        doc = node = JSON(ref)
    if not thorough() or flag('caches filled'):
        prime(doc)
    mutate_object(node, ref, 0)
    at = mutate_object(node, ref, 1)
    links(doc, None, None, [], at)


def s_by_pointer():
    ref = choose([string('a'), [string('b')], {'k': string('c')}], [string('a'), None, string('c')], {'p': [string('a'), {'i': string('b')}], 'q': string('c')})
    doc = JSON(ref)
    if flag('caches filled'):
        prime(doc)
    at, ref = mutate_path(doc, ref, 0)
    links(doc, None, None, [], at)


def s_subtree_by_pointer():
    """a pointer change applied to an inner node leaves the whole document consistent"""
    ref = {'p': [string('a'), {'i': string('b')}], 'q': string('c')}
    doc = JSON(ref)
    if flag('caches filled'):
        prime(doc)
    sub = doc['p']
    at, r = mutate_path(sub, ref['p'], 0)
    links(doc, None, None, [], at)


def s_item_by_pointer():
    """the same on an item that may equal its neighbours"""
    ref = [[string('a')], string('b'), string('c'), [string('d')]]
    doc = JSON(ref)
    if flag('caches filled'):
        prime(doc)
    i = choose(1, 2, 3)
    at, r = mutate_path(doc[i], ref[i], 0)
    links(doc, None, None, [], at)


def s_moved_nodes():
    """storing an existing node copies it: the two documents share no node"""
    a = JSON([string('a'), [string('b')]])
    b = JSON({'k': [string('c')]})
    how = choose('setitem', 'insert', 'append', 'add', 'replace', 'key')
    src = choose(a, a[1])
    if how == 'setitem':
        b['k'][0] = src
    elif how == 'insert':
        b['k'].insert(0, src)
    elif how == 'append':
        b['k'].append(src)
    elif how == 'add':
        b.add('/k/0', src)
    elif how == 'replace':
        b.replace('/k', src)
    else:
        b['new'] = src
    links(a, None, None, [], JSON.__setitem__)
    links(b, None, None, [], JSON.__setitem__)
    check(not shares(a, b), 'shared-node', 'two documents share a node', JSON.__setitem__, how)


def s_nodes_as_values():
    """existing nodes within the value of a new document: refused, or made part of it with proper links"""
    inner = choose(JSON([]), JSON([['a']]), JSON({}), JSON({'k': ['b']}), JSON('ab'), JSON(1), JSON(None))
    value = choose([inner], {'p': inner}, ['x', {'p': inner}])
    try:
        doc = JSON(value)
    except TypeError:
        return
    links(doc, None, None, [], JSON.__init__)
    links(inner, None, None, [], JSON.__init__)


def some_caches(doc, which):
    """read path and value of some nodes only"""
    for n, depth in walk(doc, 0):
        if which == 'leaves' and n.type not in ('array', 'object') or which == 'containers' and n.type in ('array', 'object') or which == 'deepest' and depth >= 3:
            n.path
            n.value


def walk(n, depth):
    r = [(n, depth)]
    if n.type == 'array':
        for c in n.data:
            r += walk(c, depth + 1)
    elif n.type == 'object':
        for c in n.data.values():
            r += walk(c, depth + 1)
    return r


def s_some_caches():
    """caches filled of some nodes only: the change reaches those below and above others that were never read"""
    arr = [string('a'), [string('b'), [[string('c')]]], {'k': {'l': string('d')}}]
    doc = JSON({'p': arr, 'q': [string('e')]} if flag('in object') else [string('x'), arr])
    node = doc['p'] if doc.type == 'object' else doc[1]
    some_caches(doc, choose('leaves', 'containers', 'deepest'))
    how = choose('del', 'insert', 'reverse', 'pop', 'iadd', 'replace', 'remove')
    if how == 'del':
        del node[0]
    elif how == 'insert':
        node.insert(0, string('n'))
    elif how == 'reverse':
        node.reverse()
    elif how == 'pop':
        node.pop(0)
    elif how == 'iadd':
        node += [string('n')]
    elif how == 'replace':
        node.replace('/0', string('n'))
    else:
        node.remove('/0')
    links(doc, None, None, [], JSON._renumber_items if how in ('del', 'insert', 'pop', 'remove') else JSON.__setitem__)


def s_many():
    """more than ten items"""
    doc = JSON({'k': [[i] for i in range(12)]})
    node = doc['k']
    if flag('caches filled'):
        prime(doc)
    pos = choose(0, 1, 2, 9, 10, 11, -1, -11)
    how = choose('del', 'insert', 'set', 'pop', 'add', 'remove', 'replace', 'reverse', 'append', 'extend')
    if how == 'del':
        del node[pos]
    elif how == 'insert':
        node.insert(pos, ['n'])
    elif how == 'set':
        node[pos] = ['n']
    elif how == 'pop':
        node.pop(pos)
    elif how in ('add', 'remove', 'replace'):
        assume(pos >= 0)
        if how == 'add':
            doc.add('/k/%d' % pos, ['n'])
        elif how == 'remove':
            doc.remove('/k/%d' % pos)
        else:
            doc.replace('/k/%d' % pos, ['n'])
    elif how == 'reverse':
        node.reverse()
    elif how == 'append':
        node.append(['n'])
    else:
        node.extend([['n'], ['m']])
    links(doc, None, None, [], JSON._renumber_items if how in ('del', 'insert', 'pop', 'remove') else JSON.__setitem__)
