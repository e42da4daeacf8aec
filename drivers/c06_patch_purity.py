"""C06: evaluating a patch changes neither the document nor the patch, and the result is independent of both."""
from patchdocs import *
from tree import samevalue


def apply_and_watch(doc, patch, at):
    mark()
    try:
        got = patch.evaluate(doc)
        ok = True
    except JSONPatchError:
        ok = False
    for (o, what, where) in writes(doc):
        check(False, 'document-changed', 'the document is modified in place', where, what)
    for (o, what, where) in writes(patch):
        check(False, 'patch-changed', 'the patch is modified', where, what)
    unmark()
    if ok:
        check(not shares(got, doc), 'result-aliases-document', 'the result shares state with the document', at)
        check(not shares(got, patch), 'result-aliases-patch', 'the result shares state with the patch', at)


def s_one():
    doc = choose([string('v0'), [string('w0')]], {string('k0'): [string('w0')]}, [], {})
    op = choose('add', 'remove', 'replace', 'move', 'copy', 'test')
    n = choose(0, 1, 2)
    val = choose([string('new'), {}], {'m': [string('new')]}) if op in ('add', 'replace', 'test') else None
    frm = tokens('f', choose(0, 1)) if op in ('move', 'copy') else []
    p = JSONPatch(operation(op, tokens('t', n), val, frm))
    apply_and_watch(doc, p, OPFN[op])


def s_new_document():
    """the result is a new document, whatever the patch holds, be it nothing"""
    doc = choose([string('v0'), [string('w0')]], {string('k0'): [string('w0')]}, [], {}, [[]])
    ops = choose([], [{'op': 'test', 'path': '', 'value': doc}], [{'op': 'replace', 'path': '', 'value': doc}], [{'op': 'copy', 'from': '', 'path': ''}])
    p = JSONPatch(*ops)
    if flag('emptied'):
        while len(p) > 0:
            del p[0]
    apply_and_watch(doc, p, JSONPatch.evaluate)


def s_copy_then_change():
    """copies and added values are independent of each other within the result"""
    doc = {'a': [string('v0')]}
    val = {'m': [string('new')]}
    first = choose('copy', 'add')
    if first == 'copy':
        ops = [{'op': 'copy', 'from': '/a', 'path': '/b'}]
    else:
        ops = [{'op': 'add', 'path': '/b', 'value': val}, {'op': choose('add', 'replace'), 'path': '/a', 'value': val}]
    got = JSONPatch(*ops).evaluate(doc)
    check(not shares(got['a'], got['b']), 'copies-alias', 'two copies in the result share state', OPFN[first])


def s_twice():
    """a patch can be evaluated again, and on changed results of an earlier evaluation"""
    doc = {'a': [string('v0')]}
    val = [string('new')]
    ops = choose([{'op': 'add', 'path': '/b', 'value': val}, {'op': 'add', 'path': '/b/0', 'value': 'x'}],
                 [{'op': 'replace', 'path': '/a', 'value': val}, {'op': 'add', 'path': '/a/-', 'value': 'x'}],
                 [{'op': 'replace', 'path': '', 'value': val}, {'op': 'add', 'path': '/0', 'value': 'x'}],
                 [{'op': 'add', 'path': '', 'value': val}, {'op': 'remove', 'path': '/0'}],
                 [{'op': 'copy', 'from': '/a', 'path': '/b'}, {'op': 'remove', 'path': '/b/0'}])
    p = JSONPatch(*ops)
    one = p.evaluate(doc)
    two = p.evaluate(doc)
    check(samevalue(one, two), 'not-repeatable', 'a second evaluation has another result', JSONPatch.evaluate, one, two)
    check(not shares(one, two), 'results-alias', 'two results share state', JSONPatch.evaluate)
    check(decided_equal(val[0], val[0]) and len(val) == 1, 'value-changed', 'the value of an operation is modified', JSONPatch.evaluate)


def s_failing():
    """a failing patch leaves everything as it was"""
    doc = {'a': [string('v0')]}
    val = [string('new')]
    p = JSONPatch({'op': choose('add', 'replace'), 'path': '/a', 'value': val}, {'op': 'add', 'path': '/a/-', 'value': 'x'},
                  {'op': 'remove', 'path': '/none'})
    mark()
    try:
        p.evaluate(doc)
        check(False, 'no-failure', 'removing a missing member succeeds', OPFN["remove"])
    except JSONPatchError:
        pass
    for (o, what, where) in writes(doc):
        check(False, 'document-changed', 'a failing patch modifies the document', where, what)
    for (o, what, where) in writes(p):
        check(False, 'patch-changed', 'a failing patch modifies the patch', where, what)
