from jschon import JSONPatch, JSONPatchOperation, JSONPointer
from jschon import jsonpatch
from jschon.exc import JSONPatchError
from sa import *

OPFN = {n: getattr(jsonpatch, n, JSONPatch) for n in ('add', 'remove', 'replace', 'move', 'copy', 'test')}


def document(flat=False):
    shape = choose('scalar', 'list', 'dict') if flat else choose('scalar', 'list', 'dict', 'list-list', 'dict-list', 'list-dict')
    if shape == 'scalar':
        return sym('d', 'NoneType', 'bool', 'int', 'str')
    if shape == 'list':
        return [string('v0'), string('v1')][:choose(0, 1, 2)]
    if shape == 'dict':
        return {string('k0'): string('v0')} if flag('member') else {}
    if shape == 'list-list':
        return [string('v0'), [string('w0')]]
    if shape == 'dict-list':
        return {string('k0'): [string('w0')]}
    return [{string('k0'): string('w0')}]


def tokens(name, n):
    return [string('%s%d' % (name, i)) for i in range(n)]


def value():
    k = choose('str', 'list')
    if k == 'str':
        return string('new')
    return [string('new'), {}]


def operation(op, toks, val, frm, form=None):
    form = form or choose('object', 'mapping')
    if form == 'object':
        if op in ('add', 'replace', 'test'):
            return JSONPatchOperation(op=op, path=JSONPointer(toks), value=val)
        if op == 'remove':
            return JSONPatchOperation(op=op, path=JSONPointer(toks))
        return JSONPatchOperation(op=op, path=JSONPointer(toks), from_=JSONPointer(frm))
    m = {'op': op, 'path': str(JSONPointer(toks))}
    if op in ('add', 'replace', 'test'):
        m['value'] = val
    if op in ('move', 'copy'):
        m['from'] = str(JSONPointer(frm))
    return m
