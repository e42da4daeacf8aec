"""C25: URI values compare, hash, resolve, copy and validate as RFC 3986 prescribes."""
from jschon import URI
from jschon.exc import URIError
from sa import *

RESOLVE = 'jschon/uri.py: URI.resolve'
COPY = 'jschon/uri.py: URI.copy'
VALIDATE = 'jschon/uri.py: URI.validate'
PARTS = ('scheme', 'authority', 'path', 'query', 'fragment')


def parts():
    """components of a URI reference (each may be missing)"""
    scheme = choose(None, 'http', 'urn', 'X-a+b.c')
    authority = choose(None, 'h.example', 'u@h:81') if scheme != 'urn' else None
    path = choose('', '/', '/a/b', '/%7Ea/') if authority is not None else choose('', 'a:b', 'c', '/a/b') if scheme is not None else choose('', 'c', 'c/d', '/a/b', './x:y')
    return (scheme, authority, path, choose(None, '', 'q=1/?'), choose(None, '', 'f/?', string('fragment')))


def compose(p):
    """RFC 3986, section 5.3"""
    s, a, path, q, f = p
    t = ''
    if s is not None:
        t = t + s + ':'
    if a is not None:
        t = t + '//' + a
    t = t + path
    if q is not None:
        t = t + '?' + q
    if f is not None:
        t = t + '#' + f
    return t


def same(uri, p):
    got = (uri.scheme, uri.authority, uri.path, uri.query, uri.fragment)
    return all((x or None) == (y or None) for x, y in zip(got[:3], p[:3])) and all(missing(x, y) for x, y in zip(got[3:], p[3:]))


def missing(x, y):
    return x is None and y is None or x is not None and y is not None and x == y


def s_components():
    """text -> components -> text"""
    p = parts()
    u = URI(compose(p))
    check(same(u, p), 'components', 'a URI has other components than its text', URI, str(u))
    check(str(u) == compose(p), 'text', 'a URI has another text than it was made from', URI.__str__, str(u), compose(p))
    check(len(u) == len(str(u)), 'text', 'the length of a URI is not that of its text', URI.__len__, str(u))
    check(repr(u) == 'URI(' + repr(str(u)) + ')', 'text', 'the repr of a URI is not an expression for it', URI.__repr__, repr(u))
    check(u.is_absolute() == (p[0] is not None and p[4] is None), 'absolute', 'absolute is a URI with a scheme and without fragment', URI.is_absolute, str(u))
    check(u.has_absolute_base() == (p[0] is not None), 'absolute', 'a base is absolute if the URI has a scheme', URI.has_absolute_base, str(u))


SPELLINGS = (('http://h.example/a', 'HTTP://H.example/a', 'http://h.example/./a', 'http://h.example/b/../a'), ('http://h.example/%C3%A9?%c3#%c3', 'http://h.example/%c3%a9?%C3#%C3'), ('a', 'b/../a', './a'), ('urn:x', 'URN:x'), ('urn:X',),
             ('http://h.example/A',), ('http://h.example',), ('http://h.example/',), ('http://h.example/a?',), ('http://h.example/a#',), ('http://h.example:80/a',), ('',), ('#',), ('?',))


def spelling():
    i = choose(len(SPELLINGS))
    return i, choose(*SPELLINGS[i])


def s_equality():
    """equal after normalisation, nothing else; equal URIs are interchangeable as keys"""
    (i, a), (j, b) = spelling(), spelling()
    u, v = URI(a), URI(b)
    check((u == v) == (i == j), 'equality', 'equality is not equality of the normalised texts', URI.__eq__, a, b)
    check((u != v) == (i != j), 'equality', '!= is not the negation of ==', URI.__eq__, a, b)
    check((u == b) == (i == j) and (b == u) == (i == j), 'equality', 'a URI does not compare with a text as with a URI', URI.__eq__, a, b)
    if i == j:
        check(hash(u) == hash(v), 'hash', 'equal URIs have different hashes', URI.__hash__, a, b)
        check({u: 1}.get(v) == 1 and u in {v}, 'hash', 'equal URIs are different keys', URI.__hash__, a, b)
    else:
        check(u not in {v: 1}, 'hash', 'different URIs are the same key', URI.__eq__, a, b)
    check(not (u == None) and u != None, 'equality', 'a URI equals None', URI.__eq__, a)


def s_fragments():
    """fragments tell URIs apart"""
    x, y = string('x'), string('y')
    u, v = URI('http://h.example/a#' + x), URI('http://h.example/a#' + y)
    check((u == v) == (x == y), 'equality', 'equality ignores the fragment', URI.__eq__, str(u), str(v))
    if x == y:
        check(hash(u) == hash(v), 'hash', 'equal URIs have different hashes', URI.__hash__, str(u), str(v))
    check(u != URI('http://h.example/a'), 'equality', 'equality ignores the fragment', URI.__eq__, str(u))
    check(u.copy(fragment=False) == URI('http://h.example/a') == v.copy(fragment=None), 'copy', 'a copy without fragment has one', COPY, str(u))


def s_copy():
    """each component: kept (True or not given), removed (False or None) or replaced"""
    p = choose(('http', 'h.example', '/a/b', 'q', 'f'), ('http', 'h.example', '', None, None), (None, None, 'c', '', ''), ('urn', None, 'a:b', None, 'f'))
    u = URI(compose(p))
    kw, want = {}, []
    for i in range(5):
        how = choose('default', True, False, 'new') if i in (0, 2) or not thorough() else choose('default', True, False, None, 'new')
        new = ('ftp', 'i.example', '/n', 'nq', 'nf')[i]
        if how != 'default':
            kw[PARTS[i]] = new if how == 'new' else None if how is False and i % 2 else how
        want.append(new if how == 'new' else p[i] if how == 'default' or how is True else '' if i == 2 else None)
    v = u.copy(**kw)
    check(same(v, want), 'copy', 'a copy has other components than asked for', COPY, str(v), kw)
    check(v is not u and str(u) == compose(p) and isinstance(v, URI), 'copy', 'copying changes the URI', COPY)


def s_copy_replaced():
    f = string('fragment')
    u = URI('http://h.example/a?q#g').copy(fragment=f)
    check(u.fragment == f and str(u) == 'http://h.example/a?q#' + f, 'copy', 'a copy has another fragment than asked for', COPY, f)


def s_copy_empty():
    """an empty component is a component"""
    u = URI(choose('http://h.example/a?q#g', 'http://h.example/a', 'http://h.example?#', 'urn:a#g'))
    part, new = choose(('query', ''), ('fragment', ''), ('query', '0'), ('fragment', '/'))
    v = u.copy(**{part: new})
    want = dict(scheme=u.scheme, authority=u.authority, path=u.path, query=u.query, fragment=u.fragment)
    want[part] = new
    got = dict(scheme=v.scheme, authority=v.authority, path=v.path, query=v.query, fragment=v.fragment)
    check(got == want, 'copy', 'a copy has other components than asked for', COPY, str(u), part, new, got)
    for how in (False, None):
        w = v.copy(**{part: how})
        check((w.query if part == 'query' else w.fragment) is None and w == u.copy(**{part: how}), 'copy', 'a component is not removed', COPY, str(v), part, how)
    check(v.copy() == v and v.copy(**{part: True}) == v, 'copy', 'a component is not kept', COPY, str(v), part)


def dots(path):
    """RFC 3986, section 5.2.4"""
    out = ''
    while path != '':
        if path.startswith('../'):
            path = path[3:]
        elif path.startswith('./') or path.startswith('/./'):
            path = path[2:]
        elif path == '/.':
            path = '/'
        elif path.startswith('/../') or path == '/..':
            path = '/' + path[4:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif path == '.' or path == '..':
            path = ''
        else:
            i = path.find('/', 1)
            if i < 0:
                i = len(path)
            out, path = out + path[:i], path[i:]
    return out


def resolved(r, b):
    """RFC 3986, section 5.2.2"""
    if r[0] is not None:
        return (r[0], r[1], dots(r[2]), r[3], r[4])
    if r[1] is not None:
        return (b[0], r[1], dots(r[2]), r[3], r[4])
    if r[2] == '':
        return (b[0], b[1], b[2], r[3] if r[3] is not None else b[3], r[4])
    if r[2].startswith('/'):
        return (b[0], b[1], dots(r[2]), r[3], r[4])
    if b[1] is not None and b[2] == '':
        return (b[0], b[1], dots('/' + r[2]), r[3], r[4])
    return (b[0], b[1], dots(b[2][:b[2].rfind('/') + 1] + r[2]), r[3], r[4])


def s_resolve():
    b = choose(('http', 'a.example', '/b/c/d;p', 'q', None), ('http', 'a.example', '/b/', None, 'f'), ('http', 'a.example', '', None, None), ('tag', None, 'a/b', None, None), ('file', None, '/b', None, None))
    kind = choose('path', 'authority', 'scheme')
    if kind == 'path':
        r = (None, None, choose('', 'g', './g', 'g/', '/g', '..', '../g', '../..', '../../../g', 'g/./h', 'g/../h', '.', './', '/./g', '/../g', 'g.', '..g', 'g;x=1/../y'), choose(None, '', 'y'), choose(None, '', 's'))
    elif kind == 'authority':
        r = (None, 'z.example', choose('', '/', '/g/../h'), choose(None, 'y'), None)
    else:
        r = (choose('ftp', 'urn'), None, choose('g', '/g/../h'), choose(None, 'y'), choose(None, 's'))
    assume(b[0] != 'tag' or '..' not in r[2])  # the URI library deviates from the RFC above a path without root
    u, base = URI(compose(r)), URI(compose(b))
    v = u.resolve(base)
    check(isinstance(v, URI) and str(v) == compose(resolved(r, b)), 'resolve', 'resolving does not give the URI that RFC 3986 prescribes', RESOLVE, str(v), compose(r), compose(b))
    check(str(u) == compose(r) and str(base) == compose(b), 'resolve', 'resolving changes a URI', RESOLVE)


def s_resolve_fragment():
    f = string('fragment')
    v = URI('#' + f).resolve(URI('http://a.example/b?q#g'))
    check(str(v) == 'http://a.example/b?q#' + f, 'resolve', 'resolving a fragment does not give the fragment of the base', RESOLVE, str(v))


def s_no_base():
    """a URI without scheme is no base"""
    base = choose('rel', '/a', '//h.example/', '', '#f')
    try:
        URI(choose('x', '#f', '/a', '')).resolve(URI(base))
        fail('resolve', 'a URI is resolved against one without scheme', RESOLVE, base)
    except URIError:
        pass


def s_validate():
    """exactly the requirements asked for"""
    text, scheme, normal, fragment = choose(('http://h.example/a', True, True, None), ('http://h.example/a#', True, True, ''), ('http://h.example/a#f', True, True, 'f'), ('HTTP://h.example/a', True, False, None),
                                            ('http://h.example/./a#f', True, False, 'f'), ('a', False, True, None), ('b/../a#', False, False, ''), ('#f', False, True, 'f'), ('urn:x:%aa', True, False, None), ('', False, True, None))
    kw, ok = {}, True
    if choose(True, False):
        kw['require_scheme'] = choose(True, False)
        ok = ok and (scheme or not kw['require_scheme'])
    if choose(True, False):
        kw['require_normalized'] = choose(True, False)
        ok = ok and (normal or not kw['require_normalized'])
    if choose(True, False):
        kw['allow_fragment'] = choose(True, False)
        ok = ok and (fragment is None or kw['allow_fragment'])
    if choose(True, False):
        kw['allow_non_empty_fragment'] = choose(True, False)
        ok = ok and (not fragment or kw['allow_non_empty_fragment'])
    try:
        got = URI(text).validate(**kw)
        check(ok, 'validate', 'a URI that does not meet the requirements is valid', VALIDATE, text, kw)
        check(got is None, 'validate', 'validate returns something', VALIDATE)
    except URIError:
        check(not ok, 'validate', 'a URI that meets the requirements is refused', VALIDATE, text, kw)


def s_validate_fragment():
    """whatever the fragment is: only an empty one counts as empty"""
    f = string('fragment')
    u = URI('http://h.example/a#' + f)
    at_all = flag('no fragment at all')
    try:
        u.validate(allow_fragment=False) if at_all else u.validate(allow_non_empty_fragment=False)
        check(f == '' and not at_all, 'validate', 'a URI that does not meet the requirements is valid', VALIDATE, str(u))
    except URIError:
        check(f != '' or at_all, 'validate', 'a URI that meets the requirements is refused', VALIDATE, str(u))
    u.validate()


def s_validate_short_fragments():
    f = choose('/', ' ', '0', '#'[:0], '?', '%00', '.', '//', 'False', 'None')
    try:
        URI(choose('http://h.example/a#', '#', 'urn:x#') + f).validate(allow_non_empty_fragment=False)
        check(f == '', 'validate', 'a URI that does not meet the requirements is valid', VALIDATE, f)
    except URIError:
        check(f != '', 'validate', 'a URI that meets the requirements is refused', VALIDATE, f)
