"""Reference semantics: RFC 6901 evaluation and RFC 6902 operations on plain values."""
import re
from spec_json import jequal


class Missing(Exception):
    pass


class Fails(Exception):
    pass


def isindex(tok):
    return re.fullmatch('0|[1-9][0-9]*', tok) is not None


def index(tok):
    """array index of a token; a number too long to convert is beyond the end of any array"""
    try:
        return int(tok)
    except ValueError:
        return 1 << 70


def step(doc, tok):
    if type(doc) is dict:
        if tok in doc:
            return doc[tok]
        raise Missing
    if type(doc) is list:
        if isindex(tok):
            i = index(tok)
            if i < len(doc):
                return doc[i]
        raise Missing
    raise Missing


def rfc_eval(doc, toks):
    for t in toks:
        doc = step(doc, t)
    return doc


def copyof(doc):
    if type(doc) is dict:
        return {k: copyof(v) for k, v in doc.items()}
    if type(doc) is list:
        return [copyof(v) for v in doc]
    return doc


def target(doc, toks):
    try:
        return rfc_eval(doc, toks)
    except Missing:
        raise Fails


def r_add(doc, toks, value):
    if not toks:
        return value
    parent = target(doc, toks[:-1])
    t = toks[-1]
    if type(parent) is list:
        if t == '-':
            parent.append(value)
        elif isindex(t):
            i = index(t)
            if i > len(parent):
                raise Fails
            parent.insert(i, value)
        else:
            raise Fails
    elif type(parent) is dict:
        parent[t] = value
    else:
        raise Fails
    return doc


def r_remove(doc, toks):
    if not toks:
        return None
    target(doc, toks)
    parent = target(doc, toks[:-1])
    if type(parent) is list:
        del parent[index(toks[-1])]
    else:
        del parent[toks[-1]]
    return doc


def r_replace(doc, toks, value):
    if not toks:
        return value
    target(doc, toks)
    parent = target(doc, toks[:-1])
    if type(parent) is list:
        parent[index(toks[-1])] = value
    else:
        parent[toks[-1]] = value
    return doc


def r_move(doc, toks, frm):
    v = target(doc, frm)
    if len(frm) < len(toks) and all(a == b for a, b in zip(frm, toks)):
        raise Fails
    doc = r_remove(doc, frm)
    return r_add(doc, toks, v)


def r_copy(doc, toks, frm):
    v = target(doc, frm)
    return r_add(doc, toks, copyof(v))


def r_test(doc, toks, value):
    if not jequal(target(doc, toks), value):
        raise Fails
    return doc


def r_apply(doc, op, toks, value, frm):
    if op == 'add':
        return r_add(doc, toks, value)
    if op == 'remove':
        return r_remove(doc, toks)
    if op == 'replace':
        return r_replace(doc, toks, value)
    if op == 'move':
        return r_move(doc, toks, frm)
    if op == 'copy':
        return r_copy(doc, toks, frm)
    return r_test(doc, toks, value)
