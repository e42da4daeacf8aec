"""C26: a JSON Patch behaves as the list of its operations: under any changes, in
comparisons, in slices and when converted to plain data and back."""
from patchdocs import *
from spec_json import jequal, plain

LIST = 'jschon/jsonpatch.py: JSONPatch'
OPS = 'jschon/jsonpatch.py: JSONPatchOperation'


def data(name):
    """an operation as plain data (RFC 6902), with unknown texts"""
    op = choose('add', 'remove', 'replace', 'move', 'copy', 'test')
    d = {'op': op, 'path': '/' + name}
    if op in ('add', 'replace', 'test'):
        d['value'] = name
    if op in ('move', 'copy'):
        d['from'] = '/f' + name
    return d


def simple(name):
    return {'op': 'add', 'path': '/' + name, 'value': name}


def given(d, form=None):
    """an operation in one of the accepted forms"""
    form = form or choose('mapping', 'object')
    if form == 'mapping':
        return dict(d)
    kw = {k: v for k, v in d.items() if k != 'from'}
    if 'from' in d:
        kw['from_'] = d['from']
    kw['path'] = JSONPointer(d['path'])
    if flag('enum'):
        kw['op'] = jsonpatch.PatchOp(d['op'])
    return JSONPatchOperation(**kw)


def same(p, model, at):
    """the patch is the list of these operations"""
    check(len(p) == len(model), 'length', 'the length is not that of the list of operations', at, len(p), len(model))
    got = p.aslist()
    check(got == model, 'content', 'the operations are not those of the list', at, got, model)
    check([x.asdict() for x in p] == model, 'content', 'iteration gives other operations', at)
    for i in range(-len(model), len(model)):
        check(p[i].asdict() == model[i], 'content', 'indexing gives another operation', at, i)
    for i in (len(model), -len(model) - 1):
        try:
            p[i]
            check(False, 'range', 'an index out of range gives an operation', at, i)
        except IndexError:
            pass
    check(p == model and not (p != model), 'equality', 'the patch differs from its own operations', at)
    check(p == JSONPatch(*model), 'equality', 'the patch differs from a patch of the same operations', at)


def s_construct():
    """any operation, in any form, is kept as it is"""
    d = data('a')
    p = JSONPatch(given(d))
    same(p, [d], LIST)
    o = p[0]
    check(o.op == d['op'] and isinstance(o.op, jsonpatch.PatchOp), 'fields', 'the operation has another op', OPS)
    check(isinstance(o.path, JSONPointer) and str(o.path) == d['path'], 'fields', 'the operation has another path', OPS)
    if 'value' in d:
        check(o.value == d['value'], 'fields', 'the operation has another value', OPS)
    if 'from' in d:
        check(isinstance(o.from_, JSONPointer) and str(o.from_) == d['from'], 'fields', 'the operation has another from', OPS)


def s_values():
    """any value, also null and other false ones, is kept"""
    v = choose(None, False, 0, '', [], {}, [None], {'a': []}, string('v'), integer('n'))
    d = {'op': choose('add', 'replace', 'test'), 'path': choose('', '/', '/a~1b', '/-'), 'value': v}
    got = JSONPatch(given(d)).aslist()
    if check(len(got) == 1 and set(got[0]) == {'op', 'path', 'value'}, 'content', 'an operation has other members', OPS, got):
        check(jequal(got[0]['value'], v) and got[0]['path'] == d['path'] and got[0]['op'] == d['op'], 'content', 'an operation is converted to another', OPS, got)


def s_paths():
    """paths and sources keep all their keys"""
    toks = tokens('t', choose(0, 1, 2))
    frm = tokens('f', choose(0, 1))
    op = choose('move', 'copy')
    o = JSONPatchOperation(op=op, path=JSONPointer(toks), from_=JSONPointer(frm))
    d = o.asdict()
    check(d == {'op': op, 'path': str(JSONPointer(toks)), 'from': str(JSONPointer(frm))}, 'content', 'the paths are not converted', OPS)
    back = JSONPatchOperation(**d)
    check(back.path == JSONPointer(toks) and back.from_ == JSONPointer(frm), 'content', 'the paths are lost in conversion', OPS)
    check(back == o, 'equality', 'an operation differs from its conversion', OPS)


def s_changes():
    """list operations, one after another, at any position"""
    model = [simple(n) for n in ('a', 'b')[:choose(0, 1, 2)]]
    p = JSONPatch(*[given(d, 'mapping') for d in model])
    for step in ('x', 'y')[:choose(1, 2)]:
        how = choose('insert', 'set', 'delete', 'append', 'extend', 'pop', 'remove', 'reverse', 'clear', 'iadd') if step == 'x' or thorough() \
            else choose('insert', 'set', 'delete', 'append')
        d = simple(step)
        if how in ('insert', 'set', 'delete', 'pop'):
            i = integer('i' + step)
            assume(-4 < i < 4)
        at = LIST
        raised = wanted = False
        if how == 'insert':
            p.insert(i, given(d, 'mapping') if step == 'y' else given(d))
            model.insert(i, d)
        elif how == 'append':
            p.append(given(d, 'mapping') if step == 'y' else given(d))
            model.append(d)
        elif how == 'extend':
            p.extend([given(d, 'mapping'), simple('z')])
            model.extend([d, simple('z')])
        elif how == 'iadd':
            p += [given(d, 'mapping')]
            model += [d]
        elif how == 'reverse':
            p.reverse()
            model.reverse()
        elif how == 'clear':
            p.clear()
            model.clear()
        elif how == 'remove':
            if not model:
                prune()
            p.remove(model[0])
            model.remove(model[0])
        else:
            try:
                if how == 'set':
                    p[i] = given(d, 'mapping') if step == 'y' else given(d)
                elif how == 'delete':
                    del p[i]
                else:
                    p.pop(i)
            except IndexError:
                raised = True
            try:
                if how == 'set':
                    model[i] = d
                else:
                    del model[i]
            except IndexError:
                wanted = True
            check(raised == wanted, 'range', 'an operation with an index %s range %s' % (('out of', 'succeeds') if wanted else ('in', 'fails')), at, how)
        same(p, model, LIST)


def s_slice():
    """slices are patches of their own"""
    model = [simple(n) for n in ('a', 'b', 'c')[:choose(0, 1, 3)]]
    p = JSONPatch(*model)
    sl = choose(slice(None), slice(1, None), slice(None, 1), slice(-1, None), slice(None, None, 2), slice(None, None, -1), slice(1, 1), slice(5, 9))
    q = p[sl]
    if check(isinstance(q, JSONPatch), 'slice', 'a slice is no patch', LIST):
        same(q, model[sl], LIST)
        q.append(simple('x'))
        same(p, model, LIST)
        p.insert(0, simple('y'))
        same(q, model[sl] + [simple('x')], LIST)


def s_other_index():
    p = JSONPatch(simple('a'))
    i = choose('0', None, 1.0, (0,), 'a')
    try:
        p[i]
        check(False, 'index-type', 'an index that is no integer gives an operation', LIST, i)
    except TypeError:
        pass


def s_arguments_untouched():
    """a patch does not depend on what it was made from afterwards, and changes none of it"""
    d = simple('a')
    ops = [d]
    p = JSONPatch(*ops)
    ops.append(simple('b'))
    d['path'] = '/changed'
    same(p, [simple('a')], LIST)
    out = p.aslist()
    out[0]['path'] = '/changed'
    out.append(simple('c'))
    same(p, [simple('a')], LIST)
    e = {'op': 'copy', 'path': '/a', 'from': '/b'}
    q = JSONPatch(e)
    check(e == {'op': 'copy', 'path': '/a', 'from': '/b'}, 'argument', 'an operation given as a mapping is changed', OPS)
    check(q == [e] and e == {'op': 'copy', 'path': '/a', 'from': '/b'}, 'argument', 'comparing changes an operation given as a mapping', OPS)
    q.insert(0, e)
    q[0] = e
    check(e == {'op': 'copy', 'path': '/a', 'from': '/b'}, 'argument', 'an operation given as a mapping is changed', OPS)


VALUES = (None, False, True, 0, 1, 1.0, '', '1', [], [1], [1.0], [True], {}, {'a': 1}, {'a': 1.0}, {'a': True}, {'b': 1})


def s_equal_operations():
    """operations are equal exactly if they are the same operation in RFC 6902's terms"""
    op1 = choose('add', 'replace', 'test')
    op2 = choose(op1, 'add', 'test')
    v1 = choose(*VALUES)
    v2 = choose(*VALUES)
    a = {'op': op1, 'path': '/p', 'value': v1}
    b = {'op': op2, 'path': '/p', 'value': v2}
    want = op1 == op2 and jequal(v1, v2)
    x = given(a, 'mapping')
    x = JSONPatchOperation(**x)
    check((x == JSONPatchOperation(**b)) == want, 'equality', 'operations are %s' % ('different' if want else 'equal'), OPS, a, b)
    check((x == b) == want, 'equality', 'an operation is %s its data' % ('different from' if want else 'equal to other than'), OPS, a, b)
    check((JSONPatch(a) == JSONPatch(b)) == want and (JSONPatch(a) == [b]) == want and (JSONPatch(a) != JSONPatch(b)) == (not want),
          'equality', 'patches are %s' % ('different' if want else 'equal'), LIST, a, b)


def s_equal_paths():
    op1 = choose('move', 'copy', 'remove')
    op2 = choose('move', 'copy') if op1 != 'remove' else 'remove'
    p1, p2, f1, f2 = string('p1'), string('p2'), string('f1'), string('f2')
    kw1, kw2 = ({'from_': JSONPointer([f1])}, {'from_': JSONPointer([f2])}) if op1 != 'remove' else ({}, {})
    a = JSONPatchOperation(op=op1, path=JSONPointer([p1]), **kw1)
    b = JSONPatchOperation(op=op2, path=JSONPointer([p2]), **kw2)
    got = a == b
    want = op1 == op2 and p1 == p2 and (op1 == 'remove' or f1 == f2)
    check(got == want, 'equality', 'operations are %s' % ('different' if want else 'equal'), OPS)
    check((b == a) == want and (a != b) == (not want), 'equality', 'equality of operations is not symmetric', OPS)


def s_equal_patches():
    """order and length count"""
    a = [simple(n) for n in ('a', 'b')[:choose(0, 1, 2)]]
    b = [simple(n) for n in choose(['a', 'b'], ['b', 'a'], ['a'], ['b'], [], ['a', 'b', 'a'], ['a', 'a'])]
    want = a == b
    check((JSONPatch(*a) == JSONPatch(*b)) == want, 'equality', 'patches are %s' % ('different' if want else 'equal'), LIST)
    check((JSONPatch(*a) == [given(d) for d in b]) == want, 'equality', 'a patch is %s a list of operations' % ('different from' if want else 'equal to'), LIST)
    check((JSONPatch(*a) != tuple(b)) == (not want), 'equality', 'a patch is %s a list of operations' % ('different from' if want else 'equal to'), LIST)


def s_back_and_forth():
    """the plain form of a patch makes an equal patch, of the same effect"""
    d = data('a')
    if d['op'] not in ('move', 'copy') or flag('found'):
        doc = {'a': 1, 'fa': 2}
    else:
        doc = {'a': 1}
    p = JSONPatch({'op': 'test', 'path': '', 'value': doc}, given(d))
    q = JSONPatch(*p.aslist())
    check(p == q and q == p, 'equality', 'a patch differs from its plain form', LIST)
    out = []
    for x in (p, q):
        try:
            out.append(('ok', x.evaluate(doc)))
        except JSONPatchError:
            out.append(('failed', None))
    check(out[0] == out[1], 'effect', 'a patch and its plain form have different effects', LIST, out)


def s_equal_places():
    """the root is a path like any other"""
    op = choose('move', 'copy', 'test', 'add', 'remove')
    a, b = {'op': op, 'path': choose('', '/', '/a')}, {'op': op, 'path': choose('', '/', '/a')}
    if op in ('move', 'copy'):
        a['from'], b['from'] = choose('', '/', '/a'), choose('', '/', '/a')
    elif op != 'remove':
        a['value'] = b['value'] = None
    want = a == b
    x, y = JSONPatchOperation(**a), JSONPatchOperation(**b)
    check((x == y) == want and (x != y) == (not want), 'equality', 'operations are %s' % ('different' if want else 'equal'), OPS, a, b)
    check((x == b) == want and (y == a) == want, 'equality', 'an operation is %s its data' % ('different from' if want else 'equal to other than'), OPS, a, b)
    check((JSONPatch(a) == [b]) == want, 'equality', 'patches are %s' % ('different' if want else 'equal'), LIST, a, b)
