"""Model of the third-party URI library (RFC 3986 parsing, normalisation,
reference resolution) used by the analysed program.

Components are host strings; a fragment may additionally be an unknown string
(the anchor names of the analysis), treated as consisting of unreserved
characters."""
import re
from .values import *
from .values import MISSING

_URI = re.compile(r'(?:(?P<scheme>[a-zA-Z][a-zA-Z0-9+.-]*):)?(?://(?P<authority>[^\\/?#]*))?'
                  r'(?P<path>[^?#]*)(?:\?(?P<query>[^#]*))?(?:#(?P<fragment>.*))?')
_UNRES = r'A-Za-z0-9._~\-'
_SUB = r"!$&'()*+,;="
_PCHAR = "(?:[" + _UNRES + _SUB + ":@]|%[A-Fa-f0-9]{2})"
_NONPCT = set(":/?#[]@" + _SUB + "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._!-~")
_PCT = re.compile('%[A-Fa-f0-9]{2}')
_PATH_ABEMPTY = '(?:/%s*)*' % _PCHAR
_PATH_ROOTLESS = '%s+(?:/%s*)*' % (_PCHAR, _PCHAR)
_PATH_ABSOLUTE = '/(?:%s)?' % _PATH_ROOTLESS
_ABS = re.compile(r'^[a-zA-Z][a-zA-Z0-9+.-]*:(?://[^\\/?#]*%s|%s|%s|)(?:\?(?:[/?:@%s%s]|%%[A-Fa-f0-9]{2})*)?$'
                  % (_PATH_ABEMPTY, _PATH_ABSOLUTE, _PATH_ROOTLESS, _UNRES, _SUB))
_PATHOK = re.compile('^(?:%s|%s|%s|)$' % (_PATH_ABEMPTY, _PATH_ABSOLUTE, _PATH_ROOTLESS))
_QUERYOK = re.compile(r'^(?:[/?:@%s%s]|%%[A-Fa-f0-9]{2})*$' % (_UNRES, _SUB))

NAMES = ('scheme', 'authority', 'path', 'query', 'fragment')


def enc(s):
    if s is None or isinstance(s, Sym):
        return s
    b = s.encode('utf-8', 'surrogatepass')
    pct = len(_PCT.findall(s)) == b.count(b'%')
    out = []
    for c in b:
        ch = chr(c)
        if (pct and ch == '%') or (c < 128 and ch in _NONPCT):
            out.append(ch)
        else:
            out.append('%%%02X' % c)
    return ''.join(out)


def parse(s):
    g = _URI.match(s).groupdict()
    return (g['scheme'] or None, g['authority'] or None, enc(g['path']) or None, enc(g['query']), enc(g['fragment']))


def up(s):
    if not s or isinstance(s, Sym):
        return s
    return _PCT.sub(lambda m: m.group().upper(), s)


def dots(s):
    out = []
    for seg in s.split('/'):
        if seg == '.':
            continue
        elif seg != '..':
            out.append(seg)
        elif out:
            out.pop()
    if s.startswith('/') and (not out or out[0]):
        out.insert(0, '')
    if s.endswith(('/.', '/..')):
        out.append('')
    return '/'.join(out)


def npath(p):
    return dots(up(p)) if p else p


def normalize(t):
    s, a, p, q, f = t
    if a:
        ui, _, host = a.rpartition('@')
        m = re.match(r'^(.*?)(?::?(\d{1,5}))?$', host)
        h, port = (m.group(1), m.group(2)) if m else (host, None)
        a = (up(ui) + '@' if ui else '') + h.lower() + (':' + port if port else '')
    return ((s or '').lower() or None, a or None, npath(p or '') or None, up(q), up(f))


class UriModel:
    def __init__(self, I):
        self.I = I
        B = I.B
        ue = I.new(B['object'])
        self.UE = ue
        cls = Cls('URIReference', [B['tuple']], {}, None, None, native=True)
        self.cls = cls
        exc = {}
        base = Cls('RFC3986Exception', [B['Exception']], {}, None, None, native=True)
        exc['RFC3986Exception'] = base
        for n, b in (('InvalidPort', base), ('InvalidAuthority', base), ('ResolutionError', base), ('ValidationError', base)):
            exc[n] = Cls(n, [b], {}, None, None, native=True)
        for n in ('MissingComponentError', 'UnpermittedComponentError', 'PasswordForbidden', 'InvalidComponentsError'):
            exc[n] = Cls(n, [exc['ValidationError']], {}, None, None, native=True)
        self.exc = exc

        def method(name):
            def deco(f):
                cls.ns[name] = Native('URIReference.' + name, f)
                return f
            return deco
        for i, n in enumerate(NAMES):
            cls.ns[n] = Prop(Native('URIReference.' + n, lambda I, a, k, i=i: a[0].p[i]))
        for n in ('host', 'port', 'userinfo'):
            cls.ns[n] = Prop(Native('URIReference.' + n, lambda I, a, k, n=n: self.sub(a[0].p)[n]))

        @method('unsplit')
        def _(I, a, k):
            return self.unsplit(a[0].p)

        @method('__eq__')
        def _(I, a, k):
            o = I.norm(a[1])
            if isinstance(o, Obj) and o.cls.sub(cls):
                q = o.p
            elif type(o) is tuple:
                q = tuple(I.norm(x) for x in o)
            elif isinstance(o, (str,)) or isinstance(o, Sym) and o.types == frozenset(['str']):
                q = self.parse(o)
            else:
                raise I.exc('TypeError', 'Unable to compare URIReference')
            p = a[0].p
            if p == q:
                return True
            np, nq = normalize(p), normalize(q)
            if np[:4] != nq[:4]:
                return False
            if np[4] is None or nq[4] is None:
                return np[4] is nq[4]
            return I.eq(np[4], nq[4])

        @method('__ne__')
        def _(I, a, k):
            # inherited from tuple: compares the components as they are
            o = I.norm(a[1])
            if isinstance(o, Obj) and o.cls.sub(cls):
                q = o.p
            elif type(o) is tuple:
                q = tuple(I.norm(x) for x in o)
            else:
                return NotImplemented
            return not I.truth(I.eq(tuple(a[0].p), tuple(q)))

        @method('__hash__')
        def _(I, a, k):
            return I.hash_value(tuple(a[0].p))

        @method('__iter__')
        def _(I, a, k):
            return I.mkiter(iter(a[0].p))

        @method('__len__')
        def _(I, a, k):
            return 5

        @method('__bool__')
        def _(I, a, k):
            return True

        @method('__getitem__')
        def _(I, a, k):
            return I.getitem(tuple(a[0].p), a[1])

        @method('__str__')
        def _(I, a, k):
            return I.term('repr', [a[0]], ('str',))
        cls.ns['__repr__'] = cls.ns['__str__']

        @method('normalize')
        def _(I, a, k):
            return self.mk(normalize(a[0].p))

        @method('normalized_equality')
        def _(I, a, k):
            return normalize(a[0].p) == normalize(a[1].p)

        @method('is_absolute')
        def _(I, a, k):
            p = a[0].p
            if p[4] is not None:
                return False
            return bool(_ABS.match(self.unsplit(p)))

        @method('copy_with')
        def _(I, a, k):
            p = list(a[0].p)
            kw = dict(k)
            for n, v in zip(NAMES, a[1:]):
                kw[n] = v
            for n, v in kw.items():
                if n not in NAMES:
                    raise I.exc('TypeError', 'copy_with() got an unexpected keyword argument %r' % n)
                if I.same(v, ue):
                    continue
                v = I.norm(v)
                if v is not None and not isinstance(v, str) and not isinstance(v, Sym):
                    if v is True or v is False:
                        v = 'True' if v else 'False'
                    else:
                        I.unsup('copy_with %r' % (v,))
                p[NAMES.index(n)] = v
            return self.mk(p)

        @method('_replace')
        def _(I, a, k):
            p = list(a[0].p)
            for n, v in k.items():
                p[NAMES.index(n)] = I.norm(v)
            return self.mk(p)

        @method('resolve_with')
        def _(I, a, k):
            b = I.norm(a[1])
            strict = I.truth(a[2]) if len(a) > 2 else I.truth(k.get('strict', False))
            if isinstance(b, Obj) and b.cls.sub(cls):
                b = b.p
            elif isinstance(b, str):
                b = parse(b)
            else:
                raise I.exc('TypeError', 'resolve_with')
            if not b[0] or not self.valid(b):
                raise I.exc(exc['ResolutionError'], 'Resolution requires an absolute base URI')
            b = normalize(b)
            s, au, p, q, f = a[0].p
            if not strict and s == b[0]:
                s = None
            if s is not None:
                return self.mk((s, au, npath(p), q, f))
            if au is not None:
                return self.mk((b[0], au, npath(p), q, f))
            if p is None:
                return self.mk((b[0], b[1], b[2], q if q is not None else b[3], f))
            if p.startswith('/'):
                path = npath(p)
            else:
                if b[2] is None and b[1] is not None:
                    m = '/' + p
                else:
                    bp = b[2] or ''
                    m = bp[:bp.rfind('/')] + '/' + p
                path = npath(m)
            return self.mk((b[0], b[1], path, q, f))

        @method('is_valid')
        def _(I, a, k):
            p = a[0].p
            for n, v in k.items():
                if I.truth(v) and n.startswith('require_') and p[NAMES.index(n[8:])] is None:
                    return False
            return self.valid(p)
        cls.ns['__new__'] = SM(Native('URIReference.__new__', lambda I, a, k: self.mk([I.norm(x) for x in a[1:6]])))
        cls.ns['from_string'] = CM(Native('URIReference.from_string', lambda I, a, k: self.mk(self.parse(a[1]))))

        val = Cls('Validator', [B['object']], {}, None, None, native=True)
        self.Validator = val

        def vinit(I, a, k):
            a[0].p = {'req': set(), 'val': set()}

        def vnew(I, a, k):
            o = I.new(a[0])
            o.p = {'req': set(), 'val': set(), 'schemes': set()}
            return o
        val.ns['__new__'] = SM(Native('Validator.__new__', vnew))

        def vreq(key):
            def f(I, a, k):
                for c in a[1:]:
                    a[0].p[key].add(I.norm(c).lower())
                return a[0]
            return f
        val.ns['require_presence_of'] = Native('Validator.require_presence_of', vreq('req'))
        val.ns['check_validity_of'] = Native('Validator.check_validity_of', vreq('val'))
        val.ns['allow_schemes'] = Native('Validator.allow_schemes', vreq('schemes'))

        def validate(I, a, k):
            p = a[1].p
            st = a[0].p
            for c in sorted(st['req']):
                v = p[NAMES.index(c)] if c in NAMES else self.sub(p)[c]
                if v is None:
                    raise I.exc(exc['MissingComponentError'], c)
            for c in sorted(st['val']):
                v = p[NAMES.index(c)] if c in NAMES else None
                if v is None or isinstance(v, Sym):
                    continue
                if c == 'path' and not _PATHOK.match(v) or c in ('query', 'fragment') and not _QUERYOK.match(v):
                    raise I.exc(exc['InvalidComponentsError'], c)
            if st['schemes'] and p[0] is not None and p[0] not in st['schemes']:
                raise I.exc(exc['UnpermittedComponentError'], 'scheme')
        val.ns['validate'] = Native('Validator.validate', validate)

    def sub(self, p):
        a = p[1]
        if not a:
            return {'userinfo': None, 'host': None, 'port': None}
        ui, _, host = a.rpartition('@')
        m = re.match(r'^(.*?)(?::?(\d{1,5}))?$', host)
        return {'userinfo': ui or None, 'host': m.group(1), 'port': m.group(2)}

    def valid(self, p):
        if p[2] and not _PATHOK.match(p[2]):
            return False
        if p[3] is not None and not _QUERYOK.match(p[3]):
            return False
        if isinstance(p[4], str) and not _QUERYOK.match(p[4]):
            return False
        return True

    def mk(self, comps):
        o = self.I.new(self.cls)
        s, a, p, q, f = comps
        o.p = (s or None, a or None, p or None, q, f)
        return o

    def unsplit(self, t):
        s, a, p, q, f = t
        r = ''
        if s:
            r += s + ':'
        if a:
            r += '//' + a
        if p:
            r += p
        if q is not None:
            r += '?' + q
        if f is None:
            return r
        if isinstance(f, Sym):
            return self.I.cat([r + '#', f])
        return r + '#' + f

    def parse(self, v):
        I = self.I
        v = I.norm(v)
        if isinstance(v, str):
            return parse(v)
        if isinstance(v, Sym):
            if not I.narrow(v, frozenset(['str']), 'str'):
                raise I.exc('TypeError', 'expected string or bytes-like object')
            parts = v.term[1] if v.term and v.term[0] == 'cat' else (v,)
            head = ''
            for i, x in enumerate(parts):
                if isinstance(x, str):
                    if '#' in x and '#' not in head:
                        j = x.index('#')
                        head += x[:j]
                        rest = ([x[j + 1:]] if x[j + 1:] else []) + list(parts[i + 1:])
                        frag = I.cat(rest) if rest else ''
                        return parse(head)[:4] + (frag,)
                    head += x
                else:
                    break
            u = v.attr.get('uri')
            if u is not None:
                return parse(u)
            I.unsup('parsing an unknown URI string')
        raise I.exc('TypeError', 'expected string or bytes-like object')


def install(I):
    m = UriModel(I)
    I.urimodel = m
    top = {'uri_reference': Native('rfc3986.uri_reference', lambda I, a, k: m.mk(m.parse(a[0]))),
           'URIReference': m.cls, 'normalize_uri': Native('rfc3986.normalize_uri', lambda I, a, k: m.unsplit(normalize(m.parse(a[0])))),
           'is_valid_uri': Native('rfc3986.is_valid_uri', lambda I, a, k: m.valid(m.parse(a[0])))}
    mod = I.native_module('rfc3986', top)
    mod.ns['misc'] = I.native_module('rfc3986.misc', {'UseExisting': m.UE})
    mod.ns['validators'] = I.native_module('rfc3986.validators', {'Validator': m.Validator})
    mod.ns['exceptions'] = I.native_module('rfc3986.exceptions', m.exc)
    mod.ns['uri'] = I.native_module('rfc3986.uri', {'URIReference': m.cls})
