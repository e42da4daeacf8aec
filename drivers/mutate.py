"""The most general client of the mutating interface: every mutator, on every
node, with symbolic positions, keys and values, on both a document and an
independent model made of plain lists and dicts."""
from jschon import JSON, JSONPointer
from jschon.exc import JSONError
from sa import *


def newvalue(i):
    k = choose('scalar', 'array', 'object', 'json', 'null') if i == 0 else choose('scalar', 'json')
    if k == 'null':
        return None, None
    if k == 'scalar':
        s = string('new%d' % i)
        return s, s
    if k == 'array':
        s = string('new%d' % i)
        return [s, []], [s, []]
    if k == 'object':
        s = string('new%d' % i)
        return {'nk': s}, {'nk': s}
    s = string('new%d' % i)
    return JSON([s]), [s]


def array_doc(n):
    """root {'arr': [...]} or a bare array, items being strings, one nested array and one nested object"""
    items = []
    for i in range(n):
        items.append([string('a'), {'x': string('b')}][i] if i < 1 else ({'q': [None], 'z': None, 's': string('c%d' % i)} if i == 1 else string('c%d' % i)))
    return items


def mutate_array(node, ref, i):
    """one arbitrary change to an array; returns the function changed, or None if it was refused"""
    op = choose('setitem', 'delitem', 'insert', 'append', 'extend', 'pop', 'poplast', 'reverse', 'iadd', 'clear')
    n = len(ref)
    if op == 'setitem':
        pos = integer('pos%d' % i, ge=0 - n, le=n - 1)
        assume(n > 0)
        v, r = newvalue(i)
        node[pos] = v
        ref[pos] = r
        return JSON.__setitem__
    if op == 'delitem':
        pos = integer('pos%d' % i, ge=0 - n, le=n - 1)
        assume(n > 0)
        del node[pos]
        del ref[pos]
        return JSON.__delitem__
    if op == 'insert':
        pos = integer('pos%d' % i, ge=0 - n - 1, le=n + 2)
        v, r = newvalue(i)
        node.insert(pos, v)
        ref.insert(pos, r)
        return JSON.insert
    if op == 'append':
        v, r = newvalue(i)
        node.append(v)
        ref.append(r)
        return JSON.append
    if op == 'extend' or op == 'iadd':
        v, r = newvalue(i)
        if op == 'extend':
            node.extend([v, 'z'])
        else:
            node += [v, 'z']
        ref.extend([r, 'z'])
        return JSON.extend
    if op == 'pop':
        pos = integer('pos%d' % i, ge=0 - n, le=n - 1)
        assume(n > 0)
        node.pop(pos)
        ref.pop(pos)
        return JSON.pop
    if op == 'poplast':
        assume(n > 0)
        node.pop()
        ref.pop()
        return JSON.pop
    if op == 'reverse':
        node.reverse()
        ref.reverse()
        return JSON.reverse
    if op == 'clear':
        node.clear()
        ref.clear()
        return JSON.clear


def mutate_object(node, ref, i):
    op = choose('setitem', 'delitem', 'update', 'setdefault', 'pop')
    if op == 'setitem':
        k = string('key%d' % i)
        v, r = newvalue(i)
        node[k] = v
        ref[k] = r
        return JSON.__setitem__
    if op == 'delitem':
        k = string('key%d' % i)
        assume(k in ref)
        del node[k]
        del ref[k]
        return JSON.__delitem__
    if op == 'update':
        k = string('key%d' % i)
        v, r = newvalue(i)
        node.update({k: v, 'z': 'zz'})
        ref.update({k: r, 'z': 'zz'})
        return JSON.update
    if op == 'setdefault':
        k = string('key%d' % i)
        s = string('new%d' % i)
        node.setdefault(k, s)
        ref.setdefault(k, s)
        return JSON.setdefault
    if op == 'pop':
        k = string('key%d' % i)
        assume(k in ref)
        node.pop(k)
        ref.pop(k)
        return JSON.pop


def container(ref, keys):
    for k in keys[:-1]:
        ref = ref[int(k)] if type(ref) is list else ref[k]
    return ref


def locate(ref, i):
    """choose an existing location of the model; returns its keys"""
    keys = []
    while True:
        if type(ref) is list and len(ref) > 0:
            if flag('stop', i, len(keys)):
                return keys
            p = choose(len(ref))
            keys.append(str(p))
            ref = ref[p]
        elif type(ref) is dict and len(ref) > 0:
            if flag('stop', i, len(keys)):
                return keys
            ks = list(ref)
            k = ks[choose(len(ks))]
            keys.append(k)
            ref = ref[k]
        else:
            return keys


def mutate_path(root, ref, i):
    """add / remove / replace by pointer, at an existing or new location; returns (function, new root model)"""
    op = choose('add', 'remove', 'replace')
    keys = locate(ref, i)
    if op == 'remove':
        root.remove(JSONPointer(keys))
        if not keys:
            return JSON.remove, None
        c = container(ref, keys)
        if type(c) is list:
            del c[int(keys[-1])]
        else:
            del c[keys[-1]]
        return JSON.remove, ref
    if op == 'replace':
        v, r = newvalue(i)
        root.replace(JSONPointer(keys), v)
        if not keys:
            return JSON.replace, r
        c = container(ref, keys)
        if type(c) is list:
            c[int(keys[-1])] = r
        else:
            c[keys[-1]] = r
        return JSON.replace, ref
    v, r = newvalue(i)
    where = choose('here', 'end')
    if where == 'end':
        c = ref
        for k in keys:
            c = c[int(k)] if type(c) is list else c[k]
        if type(c) is list:
            last = choose('-', str(len(c)))
            root.add(JSONPointer(keys + [last]), v)
            c.append(r)
        elif type(c) is dict:
            k = string('newkey%d' % i)
            root.add(JSONPointer(keys + [k]), v)
            c[k] = r
        else:
            prune()
        return JSON.add, ref
    root.add(JSONPointer(keys), v)
    if not keys:
        return JSON.add, r
    c = container(ref, keys)
    if type(c) is list:
        c.insert(int(keys[-1]), r)
    else:
        c[keys[-1]] = r
    return JSON.add, ref
