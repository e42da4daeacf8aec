"""C09: exactly the RFC 6901 / relative-pointer texts are accepted, and texts and keys convert without loss."""
import re
from jschon import JSONPointer, RelativeJSONPointer
from jschon.exc import JSONPointerMalformedError, RelativeJSONPointerMalformedError
from sa import *

TOKEN = '(?:[^~/]|~0|~1)*'
POINTER = '(?:/%s)*' % TOKEN
NUMBER = '(?:0|[1-9][0-9]*)'
RELATIVE = NUMBER + '(?:[+-][1-9][0-9]*)?(?:#|%s)' % POINTER
FRAGMENT = "(?:[A-Za-z0-9._~!$&'()*+,;=:@/?-]|%[0-9A-Fa-f][0-9A-Fa-f])*"


def matches(rx, t):
    return re.fullmatch(rx, t, re.DOTALL) is not None


def keysof(p):
    return [k for k in p]


def same(a, b):
    return len(a) == len(b) and all(decided_equal(x, y) for x, y in zip(a, b))


def s_accepts():
    """every text: accepted iff it is in the RFC 6901 language"""
    t = string('t')
    try:
        JSONPointer(t)
        check(matches(POINTER, t), 'accepted', 'a text that is not an RFC 6901 pointer is accepted', JSONPointer, t)
    except JSONPointerMalformedError:
        check(not matches(POINTER, t), 'refused', 'an RFC 6901 pointer is refused', JSONPointer, t)


def s_accepts_later_argument():
    t = string('t')
    try:
        JSONPointer('/a', ['b'], t)
        check(matches(POINTER, t), 'accepted', 'a text that is not an RFC 6901 pointer is accepted', JSONPointer, t)
    except JSONPointerMalformedError:
        check(not matches(POINTER, t), 'refused', 'an RFC 6901 pointer is refused', JSONPointer, t)


def s_text_of_pointer():
    """text -> pointer -> text is the identity"""
    t = string('t')
    assume(matches(POINTER, t))
    p = JSONPointer(t)
    check(str(p) == t, 'text-round-trip', 'the text of a pointer is not the text it was parsed from', JSONPointer.__str__, t, str(p))


def s_pointer_of_text():
    """keys -> text -> keys is the identity, and the text is an RFC 6901 pointer"""
    keys = [string('k%d' % i) for i in range(choose(0, 1, 2, 3) if thorough() else choose(0, 1, 2))]
    p = JSONPointer(keys)
    t = str(p)
    check(matches(POINTER, t), 'text-language', 'the text of a pointer is not an RFC 6901 pointer', JSONPointer.__str__, t)
    q = JSONPointer(t)
    check(same(keysof(q), keys), 'key-round-trip', 'keys are lost in the text of a pointer', JSONPointer, keys, keysof(q))
    check(p == q, 'key-round-trip', 'a pointer differs from the one parsed from its text', JSONPointer, keys, keysof(q))


def s_distinct_texts():
    """different keys have different texts"""
    k, l = string('k'), string('l')
    assume(k != l)
    check(str(JSONPointer([k])) != str(JSONPointer([l])), 'same-text', 'different pointers have the same text', JSONPointer.__str__, k, l)


def s_escape():
    k = string('k')
    e = JSONPointer.escape(k)
    check(matches(TOKEN, e), 'escape-language', 'an escaped key is not a reference token', JSONPointer.escape, e)
    check(JSONPointer.unescape(e) == k, 'unescape-escape', 'unescaping does not undo escaping', JSONPointer.escape, k, e)


def s_unescape():
    t = string('t')
    assume(matches(TOKEN, t))
    k = JSONPointer.unescape(t)
    check(JSONPointer.escape(k) == t, 'escape-unescape', 'escaping does not undo unescaping', JSONPointer.unescape, t, k)


def s_unescape_order():
    """~01 is ~1, not /"""
    t = choose('~01', '~00', '~10', '~1~0', '~0~1', '~011', '~001')
    want = {'~01': '~1', '~00': '~0', '~10': '/0', '~1~0': '/~', '~0~1': '~/', '~011': '~11', '~001': '~01'}[t]
    check(JSONPointer.unescape(t) == want, 'unescape', 'wrong unescaping', JSONPointer.unescape, t)
    check(keysof(JSONPointer('/' + t)) == [want], 'unescape', 'wrong unescaping', JSONPointer, t)


def s_fragment():
    keys = [string('k%d' % i) for i in range(choose(0, 1, 2) if thorough() else choose(0, 1))]
    p = JSONPointer(keys)
    f = p.uri_fragment()
    check(matches(FRAGMENT, f), 'fragment-language', 'a URI fragment has characters RFC 3986 does not allow', JSONPointer.uri_fragment, f)
    q = JSONPointer.parse_uri_fragment(f)
    check(same(keysof(q), keys), 'fragment-round-trip', 'keys are lost in the URI fragment of a pointer', JSONPointer.uri_fragment, keys, keysof(q))


def s_fragment_accepts():
    f = string('f')
    assume(matches('[^%]*', f))
    try:
        p = JSONPointer.parse_uri_fragment(f)
        check(matches(POINTER, f), 'accepted', 'a fragment that is not a pointer is accepted', JSONPointer.parse_uri_fragment, f)
    except JSONPointerMalformedError:
        check(not matches(POINTER, f), 'refused', 'a fragment that is a pointer is refused', JSONPointer.parse_uri_fragment, f)


def s_relative_accepts():
    t = string('t')
    try:
        RelativeJSONPointer(t)
        check(matches(RELATIVE, t), 'accepted', 'a text that is not a relative JSON pointer is accepted', RelativeJSONPointer, t)
    except RelativeJSONPointerMalformedError:
        check(not matches(RELATIVE, t), 'refused', 'a relative JSON pointer is refused', RelativeJSONPointer, t)


def s_relative_text():
    t = string('t')
    assume(matches(RELATIVE, t))
    p = RelativeJSONPointer(t)
    check(str(p) == t, 'text-round-trip', 'the text of a relative pointer is not the text it was parsed from', RelativeJSONPointer.__str__, t, str(p))


def s_relative_parts():
    """made from parts: the text parses back to an equal pointer with an equal hash"""
    up = integer('up', ge=0)
    over = integer('over')
    ref = choose('#', JSONPointer(), JSONPointer([string('k')]))
    p = RelativeJSONPointer(up=up, over=over, ref=ref)
    t = str(p)
    check(matches(RELATIVE, t), 'text-language', 'the text of a relative pointer is not one', RelativeJSONPointer.__str__, t)
    q = RelativeJSONPointer(t)
    check(p == q, 'parts-round-trip', 'a relative pointer differs from the one parsed from its text', RelativeJSONPointer, t)
    check(hash(p) == hash(q), 'hash', 'equal relative pointers have different hashes', RelativeJSONPointer.__hash__, t)


def s_relative_bad_parts():
    """invalid parts are refused as malformed"""
    what = choose('up', 'ref')
    try:
        if what == 'up':
            RelativeJSONPointer(up=integer('up', le=-1))
        else:
            r = sym('r', 'NoneType', 'str')
            assume(r != '#')
            RelativeJSONPointer(ref=r)
        check(False, 'accepted', 'an invalid argument is accepted', RelativeJSONPointer, what)
    except RelativeJSONPointerMalformedError:
        pass


def s_relative_equality():
    """equal iff all parts are"""
    u1, u2 = integer('u1', ge=0), integer('u2', ge=0)
    o1, o2 = integer('o1'), integer('o2')
    r1 = choose('#', JSONPointer([string('k')]))
    r2 = choose('#', JSONPointer([string('l')]))
    p = RelativeJSONPointer(up=u1, over=o1, ref=r1)
    q = RelativeJSONPointer(up=u2, over=o2, ref=r2)
    want = u1 == u2 and o1 == o2 and r1 == r2
    check((p == q) is want, 'eq', 'relative pointers are equal iff their parts are', RelativeJSONPointer.__eq__, str(p), str(q))
    if want:
        check(hash(p) == hash(q), 'hash', 'equal relative pointers have different hashes', RelativeJSONPointer.__hash__)
    check((p == sym('o', 'NoneType', 'str', 'int')) is False, 'eq-other', 'a relative pointer equals another type', RelativeJSONPointer.__eq__)
