"""Reference semantics of the JSON data model, used by several drivers."""
from collections.abc import Sequence, Mapping


class NotJSON(Exception):
    pass


def jtype(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, Sequence):
        return 'array'
    if isinstance(v, Mapping):
        return 'object'
    raise NotJSON


def plain(v):
    """the value in canonical form (lists and dicts); NotJSON if it is not a JSON value"""
    t = jtype(v)
    if t == 'array':
        return [plain(x) for x in v]
    if t == 'object':
        return {k: plain(x) for k, x in v.items()}
    return v


def jequal(a, b):
    """equality in the JSON data model"""
    ta, tb = jtype(a), jtype(b)
    if ta != tb:
        return False
    if ta == 'array':
        return len(a) == len(b) and all(jequal(x, y) for x, y in zip(a, b))
    if ta == 'object':
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b:
                return False
            if not jequal(a[k], b[k]):
                return False
        return True
    return a == b
