"""C03: value, type and length of every node are those of its current content."""
from jschon import JSON, JSONPointer
from sa import *
from mutate import *
from tree import values, prime
from c02_tree_links import start


def s_array_once():
    n = choose(0, 1, 2, 3)
    ref = array_doc(n)
    root = choose('root', 'object')
    doc = JSON(ref) if root == 'root' else JSON({'p': ref, 'r': 's'})
    node = doc if root == 'root' else doc['p']
    if flag('caches filled'):
        prime(doc)
    at = mutate_array(node, ref, 0)
    values(doc, ref if root == 'root' else {'p': ref, 'r': 's'}, at)


def s_array_read_between():
    ref = array_doc(choose(1, 2) if thorough() else 2)
    doc = JSON({'p': [ref]})
    node = doc['p'][0]
    mutate_array(node, ref, 0)
    prime(doc)
    at = mutate_array(node, ref, 1)
    values(doc, {'p': [ref]}, at)


def s_object():
    ref = {'p': [string('a'), {'i': string('b')}], 'q': string('c')}
    doc = JSON([ref])
    prime(doc)
    mutate_object(doc[0], ref, 0)
    at = mutate_object(doc[0], ref, 1)
    values(doc, [ref], at)


def s_inner_node():
    """a change deep in the document is seen at every level above it"""
    ref = {'p': [string('a'), {'i': [string('b')]}]}
    doc = JSON(ref)
    prime(doc)
    where = choose('list', 'dict')
    if where == 'list':
        at = mutate_array(doc['p'][1]['i'], ref['p'][1]['i'], 0)
    else:
        at = mutate_object(doc['p'][1], ref['p'][1], 0)
    values(doc, ref, at)


def s_by_pointer():
    ref = choose([string('a'), [string('b')], {'k': string('c')}], [string('a'), None, string('c')], {'p': [string('a'), {'i': string('b')}], 'q': string('c')})
    doc = JSON(ref)
    prime(doc)
    at, ref = mutate_path(doc, ref, 0)
    values(doc, ref, at)


def s_subtree_by_pointer():
    ref = {'p': [string('a'), {'i': string('b')}], 'q': string('c')}
    wrap = choose('none', 'array', 'object')
    all_ = ref if wrap == 'none' else [ref] if wrap == 'array' else {'w': [ref]}
    doc = JSON(all_)
    prime(doc)
    top = doc if wrap == 'none' else doc[0] if wrap == 'array' else doc['w'][0]
    at, r = mutate_path(top['p'], ref['p'], 0)
    ref['p'] = r
    values(doc, all_, at)


def s_stored_value_is_copied():
    """later changes to a stored value, or to the document, do not show in the other"""
    inner = [string('a')]
    doc = JSON({'k': [string('c')]})
    how = choose('setitem', 'insert', 'add', 'replace', 'key', 'construct')
    v = {'m': inner}
    if how == 'setitem':
        doc['k'][0] = v
    elif how == 'insert':
        doc['k'].insert(0, v)
    elif how == 'add':
        doc.add('/k/0', v)
    elif how == 'replace':
        doc.replace('/k/0', v)
    elif how == 'key':
        doc['n'] = v
    else:
        doc = JSON(v)
    check(not shares(doc, v), 'aliases-input', 'the document shares state with a stored value', JSON.__setitem__, how)


def s_value_shares_nothing():
    """no two places of a value are the same object, and none belongs to another document"""
    def containers(v, where):
        if isinstance(v, (list, dict)):
            yield v, where
            for k in range(len(v)) if isinstance(v, list) else v:
                yield from containers(v[k], where + '/' + str(k))
    ref = choose([[], []], {'a': {}, 'b': {}}, [{'x': []}, {'x': []}], {'a': [{}], 'b': [[{}], [{}]]}, [[{}, {}], {'a': [], 'b': []}])
    docs = [JSON(ref), JSON(ref)]
    if flag('values of the parts read first'):
        for d in docs:
            prime(d)
    seen = []
    for d in docs:
        for v, where in containers(d.value, ''):
            for w, other in seen:
                check(v is not w, 'shared-value', 'two places have the same object as their value', JSON.__init__, where, other)
            seen.append((v, where))
    check(docs[0].value == ref and docs[1].value == ref, 'value', 'a value is not the content', JSON.__init__)


def s_some_read():
    """values read of some nodes only, between changes"""
    ref = {'p': [string('a'), [string('b'), [string('c')]]], 'q': {'r': [string('d')]}}
    doc = JSON(ref)
    for i in range(3 if thorough() else 2):
        for n in choose([], [doc], [doc['p']], [doc['p'][1][1]], [doc['q']['r'], doc['p'][1]]):
            n.value
        how = choose('deep', 'middle', 'other')
        new = string('n%d' % i)
        if how == 'deep':
            doc['p'][1][1][0] = new
            ref['p'][1][1][0] = new
        elif how == 'middle':
            doc['p'][1][0] = [new]
            ref['p'][1][0] = [new]
        else:
            doc['q']['r'].append(new)
            ref['q']['r'].append(new)
    values(doc, ref, JSON.__setitem__)


def s_many():
    """more than ten items"""
    ref = [[i] for i in range(12)]
    doc = JSON({'k': ref})
    node = doc['k']
    if flag('caches filled'):
        prime(doc)
    pos = choose(0, 1, 2, 9, 10, 11, -1, -11)
    how = choose('del', 'insert', 'set', 'pop', 'add', 'remove', 'replace')
    if how == 'del':
        del node[pos]
        del ref[pos]
    elif how == 'insert':
        node.insert(pos, ['n'])
        ref.insert(pos, ['n'])
    elif how == 'set':
        node[pos] = ['n']
        ref[pos] = ['n']
    elif how == 'pop':
        node.pop(pos)
        ref.pop(pos)
    else:
        assume(pos >= 0)
        if how == 'add':
            doc.add('/k/%d' % pos, ['n'])
            ref.insert(pos, ['n'])
        elif how == 'remove':
            doc.remove('/k/%d' % pos)
            del ref[pos]
        else:
            doc.replace('/k/%d' % pos, ['n'])
            ref[pos] = ['n']
    values(doc, {'k': ref}, JSON.__setitem__)
