"""C07: each operation has the outcome RFC 6902 prescribes, and fails only with JSONPatchError."""
from patchdocs import *
from spec_patch import Fails, r_apply, copyof
from tree import samevalue
from spec_json import jequal


def compare(doc, op, toks, val, frm, form=None):
    at = OPFN[op]
    try:
        want = r_apply(copyof(doc), op, toks, copyof(val), frm)
        fails = False
    except Fails:
        fails = True
    try:
        got = JSONPatch(operation(op, toks, val, frm, form)).evaluate(doc)
    except JSONPatchError:
        check(fails, 'refused', 'a valid operation fails', at, doc, toks, frm)
        return
    if check(not fails, 'accepted', 'an invalid operation succeeds', at, doc, toks, frm, got):
        check(samevalue(got, want), 'outcome', 'the outcome is not the one of RFC 6902', at, got, want)


def s_add():
    compare(document(), 'add', tokens('t', choose(0, 1, 2)), value(), [])


def s_remove():
    compare(document(), 'remove', tokens('t', choose(0, 1, 2)), None, [])


def s_replace():
    compare(document(), 'replace', tokens('t', choose(0, 1, 2)), value(), [])


def s_test_scalar():
    compare(sym('d', 'NoneType', 'bool', 'int', 'str'), 'test', [], sym('v', 'NoneType', 'bool', 'int', 'str'), [], 'object')


def s_test():
    doc = document()
    compare(doc, 'test', tokens('t', choose(0, 1, 2)), choose(sym('new', 'NoneType', 'str'), [string('new')], {string('new'): string('nv')}), [], 'object')


def s_test_in_list():
    compare([sym('d', 'NoneType', 'bool', 'int', 'str')], 'test', ['0'], sym('v', 'NoneType', 'bool', 'int', 'str'), [], 'object')


def s_move():
    compare(document(), 'move', tokens('t', choose(0, 1)), None, tokens('f', choose(0, 1)), 'object')


def s_move_nested():
    doc = choose([string('v0'), [string('w0')]], {string('k0'): [string('w0')]}, [{string('k0'): string('w0')}])
    a, b = choose((1, 2), (2, 1))
    compare(doc, 'move', tokens('t', a), None, tokens('f', b), 'object')


def s_copy():
    compare(document(), 'copy', tokens('t', choose(0, 1)), None, tokens('f', choose(0, 1)), 'object')


def s_copy_nested():
    doc = choose([string('v0'), [string('w0')]], {string('k0'): [string('w0')]}, [{string('k0'): string('w0')}])
    a, b = choose((1, 2), (2, 1))
    compare(doc, 'copy', tokens('t', a), None, tokens('f', b), 'object')


def s_mapping_form():
    op = choose('add', 'remove', 'replace', 'move', 'copy', 'test')
    compare([string('v0'), {string('k0'): string('w0')}], op, tokens('t', choose(0, 1)), string('new'), tokens('f', 1), 'mapping')


def s_order():
    """operations apply in order, each to the result of the one before"""
    doc = [string('v0')]
    ops = [choose('add', 'remove', 'replace', 'test') for i in range(2)]
    toks = [[string('t%d' % i)] for i in range(2)]
    vals = [string('n%d' % i) for i in range(2)]
    try:
        want = copyof(doc)
        for i in range(2):
            want = r_apply(want, ops[i], toks[i], vals[i], [])
        fails = False
    except Fails:
        fails = True
    try:
        got = JSONPatch(*[operation(ops[i], toks[i], vals[i], [], 'object') for i in range(2)]).evaluate(doc)
    except JSONPatchError:
        check(fails, 'refused', 'a valid patch fails', JSONPatch.evaluate)
        return
    if check(not fails, 'accepted', 'a patch with a failing operation succeeds', JSONPatch.evaluate):
        check(samevalue(got, want), 'sequence', 'the operations do not apply in order', JSONPatch.evaluate, got, want)


def s_long_index():
    """an index with any number of digits"""
    long_integers()
    op = choose('add', 'remove', 'replace', 'move', 'copy', 'test')
    doc = choose([string('v0'), [string('w0')]], {string('k0'): [string('w0')]})
    compare(doc, op, tokens('t', choose(1, 2)), 'new' if op in ('add', 'replace', 'test') else None, tokens('f', 1), 'object')


def kind(v):
    return 'boolean' if isinstance(v, bool) else 'number' if isinstance(v, (int, float)) else type(v).__name__


def s_exact_values():
    """a value added, replaced, moved or copied is the given one, whatever it stands beside or replaces"""
    old = choose(True, False, 1, 0, 1.0, None, '', [True], {'a': 1})
    new = choose(True, False, 1, 0, None, '', [1], [True], {'a': True}, {'a': 1})
    doc, toks = choose(([old], ['0']), ({'k': old}, ['k']), (old, []))
    op = choose('add', 'replace')
    got = JSONPatch(operation(op, toks, new, [], 'object')).evaluate(doc)
    at = OPFN[op]
    if toks:
        got = got[0] if type(got) is list else got['k']
    check(alike(got, new), 'outcome', 'another value is put in place', at, old, new, got)


def alike(a, b):
    if kind(a) != kind(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(alike(a[i], b[i]) for i in range(len(a)))
    if type(a) is dict:
        return len(a) == len(b) and all(k in b and alike(a[k], b[k]) for k in a)
    return a == b


def s_into_itself():
    """nothing moves into itself, however deep; what only looks alike does move"""
    item = {'a': {'b': [[]]}}
    doc, frm, deeper = choose(([item, item], ['0'], [['a'], ['a', 'b'], ['a', 'b', '0'], ['a', 'b', '0', '0']]),
                              ({'x': item}, ['x'], [['a'], ['a', 'b'], ['a', 'b', '0'], ['a', 'b', '0', '0']]),
                              ({'x': [[], [[]]]}, ['x', '0'], [['0']]),
                              ([[[]], [[[]]]], ['0'], [['0'], ['0', '0']]))
    below = choose(*deeper)
    compare(doc, 'move', frm + below, None, frm, 'object')
    compare({'x': {'a': 1}, 'xy': {}, 'x~': {}}, 'move', choose(['xy', 'q'], ['x~', 'q'], ['x'], ['xy']), None, ['x'], 'object')


def s_many():
    """arrays of more than ten items"""
    doc = {'k': [[i] for i in range(12)], 'o': {str(i): i for i in (1, 2, 10, 11)}}
    op = choose('add', 'remove', 'replace', 'move', 'copy', 'test')
    t = choose('0', '2', '9', '10', '11', '12', '13', '110', '-', '01', '1e1', '\u0661', '-1', '')
    where = choose('k', 'o')
    frm = choose(['k', '1'], ['k', '10'], ['k', '11'], ['k', '12'], ['o', '10']) if op in ('move', 'copy') else []
    compare(doc, op, [where, t], choose([9], [10]) if op == 'test' else ['n'], frm, 'object')
