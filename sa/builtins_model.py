"""Transfer functions of the Python built-ins."""
import builtins
from .values import *
from .values import MISSING
from .facts import LT, EQ, GT
from . import lang
from . import interp as _i

E = {}


def install(I):
    B = {}
    I.B = B
    I.abc = {}

    def mkcls(name, *bases, **ns):
        c = Cls(name, list(bases), dict(ns), None, None, native=True)
        B[name] = c
        return c

    def nat(cls, name, fn):
        cls.ns[name] = Native('%s.%s' % (cls.name, name), fn)

    obj = Cls('object', [], {}, None, None, native=True)
    B['object'] = obj

    # ------------------------------------------------------------- object
    def object_new(I, a, k):
        c = a[0]
        o = I.new(c)
        return o
    nat(obj, '__new__', object_new)
    obj.ns['__new__'] = SM(obj.ns['__new__'])
    nat(obj, '__init__', lambda I, a, k: None)
    nat(obj, '__eq__', lambda I, a, k: True if I.same(a[0], a[1]) else NotImplemented)

    def object_ne(I, a, k):
        s = a[0]
        e = s.cls.lookup('__eq__') if isinstance(s, Obj) else MISSING
        if e is MISSING:
            return NotImplemented
        r = I.norm(I.call_method(s, e, [a[1]]))
        if r is NotImplemented:
            return r
        return not I.truth(r)
    nat(obj, '__ne__', object_ne)
    nat(obj, '__hash__', lambda I, a, k: I.term('idhash', [a[0]], ('int',)))
    nat(obj, '__str__', lambda I, a, k: I.repr(a[0]))
    nat(obj, '__repr__', lambda I, a, k: I.term('repr', [a[0]], ('str',)))
    nat(obj, '__format__', lambda I, a, k: I.str(a[0]))
    nat(obj, '__setattr__', lambda I, a, k: I.setattr_plain(a[0], a[1], a[2]))
    nat(obj, '__delattr__', lambda I, a, k: I.delattr(a[0], I.norm(a[1]), True))
    nat(obj, '__init_subclass__', lambda I, a, k: None)
    obj.ns['__init_subclass__'] = CM(obj.ns['__init_subclass__'])

    def object_getattribute(I, a, k):
        return I.getattr(a[0], a[1])
    nat(obj, '__getattribute__', object_getattribute)
    nat(obj, '__reduce_ex__', lambda I, a, k: I.unsup('__reduce_ex__'))

    typ = mkcls('type', obj)

    def type_new(I, a, k):
        if len(a) == 4:
            if isinstance(I.norm(a[1]), str) and '\0' in I.norm(a[1]):
                raise I.exc('ValueError', 'type name must not contain null characters')
            mcls, name, bases, ns = a
            d = {}
            for kk, v in I.mapping_items(ns):
                d[I.norm(kk)] = v
            name = I.norm(name)
            if isinstance(name, Sym):
                name = '?' + name.name
            fr = [f for f in I.frames if f.fn]
            c = I.make_class(name, list(bases), d, fr[-1].fn.module if fr else None)
            return c
        return I.typeof(a[1])
    nat(typ, '__new__', type_new)
    typ.ns['__new__'] = SM(typ.ns['__new__'])
    nat(typ, '__init__', lambda I, a, k: None)

    for n in ('NoneType', 'function', 'method', 'builtin_function', 'module', 'property', 'staticmethod', 'classmethod',
              'super', 'typing_construct', 'ellipsis', 'NotImplementedType', 'slice', 'generator', 'iterator', 'other',
              'cached_property', 'complex'):
        mkcls(n, obj)
    B['useq'] = None
    B['umap'] = None
    B['NoneType'].ns['__new__'] = SM(Native('NoneType', lambda I, a, k: None))
    B['builtin_function'].name = 'builtin_function_or_method'
    B['builtin_function_or_method'] = B['builtin_function']

    # ------------------------------------------------------------- numbers
    int_ = mkcls('int', obj)
    bool_ = mkcls('bool', int_)
    float_ = mkcls('float', obj)

    def num_payload(v):
        return v.p if isinstance(v, Obj) else v

    def int_new(I, a, k):
        c = a[0]
        v = I.norm(a[1]) if len(a) > 1 else I.norm(k.get('x', 0))
        base = I.norm(a[2]) if len(a) > 2 else I.norm(k.get('base', MISSING))
        r = to_int(I, v, base)
        if c is not int_:
            o = I.new(c, r)
            return o
        return r

    def to_int(I, v, base=MISSING):
        if isinstance(v, Obj) and is_const(v.p) and v.p is not None:
            v = v.p
        if is_const(v) and (base is MISSING or is_const(base)):
            try:
                return int(v) if base is MISSING else int(v, base)
            except Exception as e:
                raise I.rethrow(e)
        if isinstance(v, Sym):
            I.pick_class(v)
            cs = I.tclasses(v)
            if cs == {'num'}:
                if 'bool' in v.types and I.narrow(v, frozenset(['bool']), 'bool'):
                    return int(I.concretize_bool(v))
                if v.types == frozenset(['int']):
                    return v
                if 'finite' not in v.attr and v.attr.get('maybe_inf'):
                    if I.fork('%s is infinite' % v.name):
                        raise I.exc('OverflowError', 'cannot convert float infinity to integer')
                    v.attr['finite'] = True
                if I.integral(v):
                    if v.types == frozenset(['int']):
                        return v
                    r = I.term('int', [v], ('int',))
                    if 'l' not in r.attr:
                        r.attr['l'] = 1
                        I.assume_rel(r, v, EQ)
                    return r
                r = I.term('int', [v], ('int',))
                if 'l' not in r.attr:
                    r.attr['l'] = 1
                    I.assume_rel(r, v, LT | GT)
                return r
            if cs == {'str'}:
                return str_to_int(I, v)
            raise I.exc('TypeError', 'int() argument must be a string or a number')
        if isinstance(v, Obj):
            for m in ('__int__', '__index__', '__trunc__'):
                f = v.cls.lookup(m)
                if f is not MISSING:
                    return I.call_method(v, f, [])
        raise I.exc('TypeError', 'int() argument must be a string or a number')

    def str_to_int(I, v):
        # str(n) round trip
        if v.term and v.term[0] == 'str':
            return v.term[1][0]
        if v.term and v.term[0] == 'cat' and len(v.term[1]) == 2 and v.term[1][0] == '+':
            x = I.norm(v.term[1][1])
            if isinstance(x, Sym) and x.term and x.term[0] == 'str' and lang.subset(I.langof(x), lang.canonical_nat()):
                return x.term[1][0]
        mdl = v.attr.get('int')
        if mdl is not None:
            # a token described by the driver: list of admissible outcomes
            r = mdl(I, v)
            if r is None:
                raise I.exc('ValueError', 'invalid literal for int()')
            return r
        if I.member(v, lang.pyint(), '%s is an integer literal' % v.name):
            v = I.norm(v)
            if isinstance(v, str):
                return int(v)
            if I.memo.get('INTLIMIT') and 'int?' not in v.attr:
                # sys.get_int_max_str_digits(): int() refuses very long texts
                v.attr['int?'] = not I.fork('%s is too long for int()' % v.name)
            if v.attr.get('int?') is False:
                raise I.exc('ValueError', 'Exceeds the limit (4300 digits) for integer string conversion')
            I.member(v, lang.containing('-'), '%s has a minus sign' % v.name)
            r = I.term('int', [v], ('int',))
            if 'l' not in r.attr:
                r.attr['l'] = 1
                L = I.langof(v)
                neg = lang.containing('-')
                if lang.inter(L, neg).empty():
                    I.assume_rel(r, 0, EQ | GT)
                elif lang.subset(L, neg):
                    I.assume_rel(r, 0, EQ | LT)
                for z in ('0', '-0', '+0'):
                    pass
                if lang.inter(L, lang.regex(r'[^1-9]*')).empty() and lang.subset(L, lang.allof(((0, 127),))):
                    I.assume_rel(r, 0, LT | GT)
            return r
        raise I.exc('ValueError', 'invalid literal for int()')
    I.to_int = to_int
    nat(int_, '__new__', int_new)
    int_.ns['__new__'] = SM(int_.ns['__new__'])
    nat(int_, 'is_integer', lambda I, a, k: True)

    def number_prop(f):
        return Prop(Native('number', lambda I, a, k: f(I, I.norm(a[0]))), None, None)
    same = lambda I, v: v if not isinstance(v, bool) else int(v)
    for c in (int_, float_):
        c.ns['real'] = number_prop(same)
        c.ns['imag'] = number_prop(lambda I, v: 0)
    int_.ns['numerator'] = number_prop(same)
    int_.ns['denominator'] = number_prop(lambda I, v: 1)

    def bit_length(I, a, k):
        v = I.norm(a[0])
        if not isinstance(v, int):
            I.unsup('bit_length of an unknown number')
        return v.bit_length()
    nat(int_, 'bit_length', bit_length)
    nat(int_, '__index__', lambda I, a, k: a[0])
    nat(int_, '__int__', lambda I, a, k: a[0])
    nat(int_, '__hash__', lambda I, a, k: I.hash_value(a[0]))
    nat(int_, '__bool__', lambda I, a, k: I.truth(num_payload(a[0])))

    def bool_new(I, a, k):
        return I.truth(a[1]) if len(a) > 1 else False
    nat(bool_, '__new__', bool_new)
    bool_.ns['__new__'] = SM(bool_.ns['__new__'])

    def float_new(I, a, k):
        v = I.norm(a[1]) if len(a) > 1 else 0.0
        if is_const(v):
            try:
                return float(v)
            except Exception as e:
                raise I.rethrow(e)
        if isinstance(v, Sym):
            I.pick_class(v)
            cs = I.tclasses(v)
            if cs == {'num'}:
                if 'bool' in v.types and I.narrow(v, frozenset(['bool']), 'bool'):
                    return float(I.concretize_bool(v))
                r = I.term('float', [v], ('float',))
                if 'l' not in r.attr:
                    r.attr['l'] = 1
                    if 'int' in v.types:
                        # a float has 53 bits: a larger integer may be rounded
                        c = I.choose('float(%s): exact, rounded up, rounded down' % I.show(v), 3)
                        if c:
                            if not I.narrow(v, frozenset(['int']), 'int'):
                                raise Prune()
                            big = 2 ** 53
                            if I.choose('%s: positive, negative' % I.show(v), 2):
                                I.assume_rel(v, -big, LT)
                                I.assume_rel(r, -big, LT | EQ)
                            else:
                                I.assume_rel(v, big, GT)
                                I.assume_rel(r, big, GT | EQ)
                            I.assume_rel(r, v, GT if c == 1 else LT)
                            return r
                    I.assume_rel(r, v, EQ)
                return r
            if cs == {'str'}:
                I.unsup('float of unknown string')
        raise I.exc('TypeError', 'float() argument must be a string or a real number')
    nat(float_, '__new__', float_new)
    float_.ns['__new__'] = SM(float_.ns['__new__'])

    def is_integer(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, float):
            return v.is_integer()
        return I.integral(v)
    nat(float_, 'is_integer', is_integer)
    nat(float_, '__int__', lambda I, a, k: to_int(I, a[0]))

    # ------------------------------------------------------------- str
    str_ = mkcls('str', obj)

    def sp(v):
        return v.p if isinstance(v, Obj) else v

    def str_new(I, a, k):
        c = a[0]
        if len(a) == 1:
            r = ''
        elif len(a) > 2:
            return I.unsup('str with encoding')
        else:
            r = I.str(a[1])
        if c is not str_:
            return I.new(c, r)
        return r
    nat(str_, '__new__', str_new)
    str_.ns['__new__'] = SM(str_.ns['__new__'])

    def cmp_payload(op):
        def f(I, a, k):
            x, y = sp(I.norm(a[0])), I.norm(a[1])
            if isinstance(y, Obj):
                if is_const(y.p) and y.p is not None:
                    y = y.p
                else:
                    return NotImplemented
            return I.compare(op, x, y)
        return f
    for cl in (str_, int_):
        for op, (d, _) in _i.CMPD.items():
            nat(cl, d, cmp_payload(op))
        nat(cl, '__hash__', lambda I, a, k: I.hash_value(sp(a[0])))
        nat(cl, '__str__', lambda I, a, k: I.str(sp(a[0])) if not isinstance(sp(a[0]), int) else str(sp(a[0])))
        nat(cl, '__repr__', lambda I, a, k: I.repr(sp(a[0])))
        nat(cl, '__format__', lambda I, a, k: I.str(sp(a[0])))
    nat(str_, '__len__', lambda I, a, k: I.length(sp(a[0])))
    nat(str_, '__getitem__', lambda I, a, k: I.getitem(sp(a[0]), a[1]))
    nat(str_, '__contains__', lambda I, a, k: I.contains(sp(a[0]), a[1]))
    nat(str_, '__iter__', lambda I, a, k: I.mkiter(I.iterate(sp(a[0]))))
    nat(str_, '__add__', lambda I, a, k: I.binop(_i.BINOPS[_i.ast.Add], sp(a[0]), I.norm(a[1])))
    nat(str_, '__mod__', lambda I, a, k: I.binop(_i.BINOPS[_i.ast.Mod], sp(a[0]), I.norm(a[1])))

    def strm(name, symfn=None):
        def f(I, a, k):
            s = sp(I.norm(a[0]))
            rest = [sp(I.norm(x)) if isinstance(I.norm(x), Obj) and is_const(I.norm(x).p) and I.norm(x).p is not None else I.norm(x) for x in a[1:]]
            kk = {x: I.norm(y) for x, y in k.items()}
            if isinstance(s, str) and all(deep_const(x) for x in rest) and all(deep_const(x) for x in kk.values()):
                try:
                    r = getattr(s, name)(*rest, **kk)
                except Exception as e:
                    raise I.rethrow(e)
                return _i.tolang(I, r)
            if symfn is None:
                I.unsup('str.%s on unknown string' % name)
            return symfn(I, s, rest, kk)
        nat(str_, name, f)

    def need_str(I, v):
        if not I.isinstance_(v, str_):
            raise I.exc('TypeError', 'expected str')

    def s_join(I, s, rest, k):
        it = I.tolist(rest[0])
        parts = []
        for i, x in enumerate(it):
            need_str(I, x)
            if i and s != '':
                parts.append(s)
            parts.append(sp(I.norm(x)) if isinstance(I.norm(x), Obj) else x)
        return I.cat(parts)

    def s_starts(I, s, rest, k):
        p = rest[0]
        if len(rest) > 1:
            I.unsup('startswith with bounds')
        if type(p) is tuple:
            return any(s_starts(I, s, [q], k) if not (isinstance(s, str) and isinstance(q, str)) else s.startswith(q) for q in p)
        need_str(I, p)
        if s is p or p == '':
            return True
        sparts = s.term[1] if isinstance(s, Sym) and s.term and s.term[0] == 'cat' else (s,)
        pparts = p.term[1] if isinstance(p, Sym) and p.term and p.term[0] == 'cat' else (p,)
        i = 0
        while i < len(sparts) and i < len(pparts) and I.same_quick(sparts[i], pparts[i]):
            i += 1
        if i == len(pparts):
            return True
        if i < len(sparts) and isinstance(sparts[i], str) and isinstance(pparts[i], str):
            x, y = sparts[i], pparts[i]
            if i == len(pparts) - 1 and x.startswith(y):
                return True
            if not x.startswith(y) and not y.startswith(x):
                return False
        if isinstance(p, str) and isinstance(s, Sym):
            return I.member(s, lang.starting(p), '%s starts with %r' % (s.name, p))
        return I.pred('startswith', s, p)

    def s_ends(I, s, rest, k):
        p = rest[0]
        if type(p) is tuple:
            return any(s_ends(I, s, [q], k) if not (isinstance(s, str) and isinstance(q, str)) else s.endswith(q) for q in p)
        need_str(I, p)
        if isinstance(s, Sym) and s.term and s.term[0] == 'cat' and isinstance(s.term[1][-1], str) and isinstance(p, str):
            t = s.term[1][-1]
            if len(t) >= len(p):
                return t.endswith(p)
            if not p.endswith(t):
                return False
        if isinstance(p, str) and isinstance(s, Sym):
            return I.member(s, lang.ending(p), '%s ends with %r' % (s.name, p))
        return I.pred('endswith', s, p)

    def s_rel(name):
        def f(I, s, rest, k):
            for r in rest:
                pass
            return I.term(name, [s] + rest, ('str',))
        return f

    def s_replace(I, s, rest, k):
        if isinstance(s, Sym) and len(rest) == 2 and isinstance(rest[0], str) and rest[0] and isinstance(rest[1], str):
            if len(rest[0]) == 1:
                parts = I.strparts(s)
                if len(parts) > 1:
                    return I.cat([p.replace(*rest) if isinstance(p, str) else I.mkchain('replace', [p] + rest) for p in parts])
            return I.mkchain('replace', [s] + rest)
        return I.term('replace', [s] + rest, ('str',))

    def s_remove(which):
        def f(I, s, rest, k):
            p = rest[0]
            starts = s_starts if which == 'prefix' else s_ends
            if not starts(I, s, [p], {}):
                return s
            if which == 'prefix':
                parts = s.term[1] if isinstance(s, Sym) and s.term and s.term[0] == 'cat' else (s,)
                if parts[0] is p:
                    return I.cat(parts[1:])
                if isinstance(parts[0], str) and isinstance(p, str) and parts[0].startswith(p):
                    return I.cat([parts[0][len(p):]] + list(parts[1:]))
            return I.term('slice', [s, slice(I.symlen(p) if isinstance(p, Sym) else len(p), None, None)], ('str',)) if which == 'prefix' \
                else I.term('removesuffix', [s, p], ('str',))
        return f

    def s_split(I, s, rest, k):
        if isinstance(s, Sym) and len(rest) == 1 and isinstance(rest[0], str) and len(rest[0]) == 1 and not k:
            return I.list(I.splitstr(s, rest[0]))
        I.unsup('str.split on unknown string')

    def s_count(I, s, rest, k):
        if isinstance(s, Sym) and len(rest) == 1 and isinstance(rest[0], str) and len(rest[0]) == 1 and not k:
            return len(I.splitstr(s, rest[0])) - 1
        I.unsup('str.count on unknown string')

    def s_format(I, s, rest, k):
        if isinstance(s, str):
            import string
            import _string
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    v = rest[auto]
                    auto += 1
                elif field.isdigit():
                    v = rest[int(field)]
                elif field.isidentifier():
                    v = k[field]
                elif '.' in field or '[' in field:
                    first, rest_ = _string.formatter_field_name_split(field)
                    v = rest[first] if isinstance(first, int) else k[first]
                    for isattr, key in rest_:
                        v = I.getattr(v, key) if isattr else I.getitem(v, key)
                else:
                    I.unsup('format field %s' % field)
                parts.append(I.fmt(v, ord(conv) if conv else -1, spec))
            return I.cat(parts)
        I.unsup('str.format')

    def s_pred(name):
        def f(I, s, rest, k):
            if isinstance(s, Sym) and name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isascii') and not rest:
                if name == 'isascii':
                    L = lang.allof(((0, 127),))
                else:
                    L = lang.allof(lang.charset(name), 1)
                return I.member(s, L, '%s.%s()' % (s.name, name))
            return I.pred(name, s, *rest)
        return f

    spec = {'join': s_join, 'startswith': s_starts, 'endswith': s_ends, 'replace': s_replace, 'split': s_split, 'count': s_count,
            'format': s_format, 'removeprefix': s_remove('prefix'), 'removesuffix': s_remove('suffix'),
            'isdigit': s_pred('isdigit'), 'isdecimal': s_pred('isdecimal'), 'isnumeric': s_pred('isnumeric'),
            'isascii': s_pred('isascii'), 'isalnum': s_pred('isalnum'),
            'translate': s_rel('translate'),
            'lower': s_rel('lower'), 'upper': s_rel('upper'), 'strip': s_rel('strip'), 'lstrip': s_rel('lstrip'),
            'rstrip': s_rel('rstrip'), 'capitalize': s_rel('capitalize'), 'title': s_rel('title'), 'casefold': s_rel('casefold')}
    for nm in dir(str):
        if not nm.startswith('_') and nm not in ('maketrans',):
            strm(nm, spec.get(nm))

    def maketrans(I, a, k):
        if len(a) == 1:
            return a[0]
        d = str.maketrans(*[I.norm(x) for x in a])
        return _i.tolang(I, d)
    str_.ns['maketrans'] = SM(Native('str.maketrans', maketrans))

    def s_translate(I, a, k):
        s, t = sp(I.norm(a[0])), I.norm(a[1])
        tbl = {}
        for kk, v in I.mapping_items(t):
            kk, v = I.norm(kk), I.norm(v)
            if not is_const(kk) or not is_const(v):
                I.unsup('translate table')
            tbl[ord(kk) if isinstance(kk, str) else kk] = v
        if isinstance(s, str):
            return s.translate(tbl)
        parts = I.strparts(s)
        if len(parts) > 1:
            return I.cat([p.translate(tbl) if isinstance(p, str) else I.mkchain('translate', [p, tuple(sorted(tbl.items()))]) for p in parts])
        return I.mkchain('translate', [s, tuple(sorted(tbl.items()))])
    nat(str_, 'translate', s_translate)

    bytes_ = mkcls('bytes', obj)

    def bytes_new(I, a, k):
        if len(a) == 2 and is_const(I.norm(a[1])):
            return bytes(I.norm(a[1]))
        I.unsup('bytes()')
    nat(bytes_, '__new__', bytes_new)
    bytes_.ns['__new__'] = SM(bytes_.ns['__new__'])
    mkcls('bytearray', obj)
    mkcls('memoryview', obj)

    # ------------------------------------------------------------- tuple
    tup = mkcls('tuple', obj)

    def tuple_new(I, a, k):
        if a[0] is not tup:
            I.unsup('tuple subclass')
        return tuple(I.iterate(a[1])) if len(a) > 1 else ()
    nat(tup, '__new__', tuple_new)
    tup.ns['__new__'] = SM(tup.ns['__new__'])

    def t_index(I, a, k):
        for i, x in enumerate(a[0]):
            if I.same_quick(x, a[1]) or I.eq(x, a[1]):
                return i
        raise I.exc('ValueError', 'tuple.index(x): x not in tuple')
    nat(tup, 'index', t_index)
    nat(tup, 'count', lambda I, a, k: sum(1 for x in a[0] if I.eq(x, a[1])))
    nat(tup, '__len__', lambda I, a, k: len(a[0]))
    nat(tup, '__iter__', lambda I, a, k: I.mkiter(a[0]))
    nat(tup, '__getitem__', lambda I, a, k: I.getitem(a[0], a[1]))
    nat(tup, '__contains__', lambda I, a, k: I.contains(a[0], a[1]))
    nat(tup, '__hash__', lambda I, a, k: I.hash_value(a[0]))

    # ------------------------------------------------------------- list
    lst = mkcls('list', obj)

    def list_new(I, a, k):
        return I.new(a[0], [])
    nat(lst, '__new__', list_new)
    lst.ns['__new__'] = SM(lst.ns['__new__'])

    def list_init(I, a, k):
        o = a[0]
        o.p = list(I.iterate(a[1])) if len(a) > 1 else []
    nat(lst, '__init__', list_init)
    nat(lst, '__iter__', lambda I, a, k: I.mkiter(I._iter_list(a[0])))
    nat(lst, '__len__', lambda I, a, k: len(a[0].p))
    nat(lst, '__bool__', lambda I, a, k: len(a[0].p) > 0)
    nat(lst, '__contains__', lambda I, a, k: any(I.same_quick(y, a[1]) or I.eq(y, a[1]) for y in list(a[0].p)))

    def as_index(I, v):
        v = I.norm(v)
        if isinstance(v, Obj):
            m = v.cls.lookup('__index__')
            if m is not MISSING:
                return I.call_method(v, m, [])
        return v

    def list_get(I, a, k):
        o, i = a[0], as_index(I, a[1])
        if isinstance(i, slice):
            i = I.pinslice(i, len(o.p))
            try:
                return I.list(o.p[i])
            except Exception as e:
                raise I.rethrow(e)
        if isinstance(i, Sym):
            return I.symindex(o.p, i)
        if not isinstance(i, int):
            raise I.exc('TypeError', 'list indices must be integers or slices')
        try:
            return o.p[i]
        except IndexError as e:
            raise I.rethrow(e)
    nat(lst, '__getitem__', list_get)

    def pinidx(I, o, i):
        if isinstance(i, Sym):
            t = I.pick_type(i)
            if t not in ('int', 'bool'):
                raise I.exc('TypeError', 'list indices must be integers or slices')
            j = I.pinint(i, -len(o.p), len(o.p) - 1)
            if j is None:
                raise I.exc('IndexError', 'list index out of range')
            return j
        if not isinstance(i, (int, slice)):
            raise I.exc('TypeError', 'list indices must be integers or slices')
        return i

    def list_set(I, a, k):
        o, i, v = a[0], pinidx(I, a[0], as_index(I, a[1])), a[2]
        I.touch(o, '[]=')
        if isinstance(i, slice):
            try:
                o.p[I.pinslice(i, len(o.p))] = I.tolist(v)
            except ValueError as e:
                raise I.rethrow(e)
            return
        try:
            o.p[i] = v
        except IndexError as e:
            raise I.rethrow(e)
    nat(lst, '__setitem__', list_set)

    def list_del(I, a, k):
        o, i = a[0], pinidx(I, a[0], as_index(I, a[1]))
        I.touch(o, 'del []')
        try:
            if isinstance(i, slice):
                i = I.pinslice(i, len(o.p))
            del o.p[i]
        except IndexError as e:
            raise I.rethrow(e)
    nat(lst, '__delitem__', list_del)

    def list_append(I, a, k):
        I.touch(a[0], 'append')
        a[0].p.append(a[1])
    nat(lst, 'append', list_append)

    def list_extend(I, a, k):
        I.touch(a[0], 'extend')
        if I.norm(a[1]) is a[0]:
            a[0].p.extend(list(a[0].p))
            return
        for x in I.iterate(a[1]):
            a[0].p.append(x)
    nat(lst, 'extend', list_extend)

    def list_iadd(I, a, k):
        list_extend(I, a, k)
        return a[0]
    nat(lst, '__iadd__', list_iadd)

    def list_add(I, a, k):
        b = I.norm(a[1])
        if isinstance(b, Sym) and I.narrow(b, frozenset(['list']), 'list'):
            b = I.materialize(b)
        if isinstance(b, Obj) and b.cls.sub(lst):
            return I.list(a[0].p + b.p)
        return NotImplemented
    nat(lst, '__add__', list_add)

    def list_mul(I, a, k):
        n = I.norm(a[1])
        if not isinstance(n, int):
            I.unsup('list * unknown')
        return I.list(a[0].p * n)
    nat(lst, '__mul__', list_mul)
    nat(lst, '__rmul__', list_mul)

    def list_insert(I, a, k):
        o, i = a[0], as_index(I, a[1])
        if isinstance(i, Sym):
            t = I.pick_type(i)
            if t not in ('int', 'bool'):
                raise I.exc('TypeError', 'integer expected')
            n = len(o.p)
            j = I.pinint(i, -n, n)
            if j is None:
                j = n if I.rel(i, 0, GT, '%s > 0' % i.name) else 0
            i = j
        if not isinstance(i, int):
            raise I.exc('TypeError', 'integer expected')
        I.touch(o, 'insert')
        o.p.insert(i, a[2])
    nat(lst, 'insert', list_insert)

    def list_pop(I, a, k):
        o = a[0]
        i = pinidx(I, o, as_index(I, a[1])) if len(a) > 1 else -1
        I.touch(o, 'pop')
        try:
            return o.p.pop(i)
        except IndexError as e:
            raise I.rethrow(e)
    nat(lst, 'pop', list_pop)

    def list_find(I, o, x, name):
        for i, y in enumerate(list(o.p)):
            if I.same_quick(y, x) or I.eq(y, x):
                return i
        raise I.exc('ValueError', 'list.%s(x): x not in list' % name)

    def list_remove(I, a, k):
        i = list_find(I, a[0], a[1], 'remove')
        I.touch(a[0], 'remove')
        del a[0].p[i]
    nat(lst, 'remove', list_remove)
    nat(lst, 'index', lambda I, a, k: list_find(I, a[0], a[1], 'index'))
    nat(lst, 'count', lambda I, a, k: sum(1 for y in a[0].p if I.same_quick(y, a[1]) or I.eq(y, a[1])))

    def list_clear(I, a, k):
        I.touch(a[0], 'clear')
        a[0].p.clear()
    nat(lst, 'clear', list_clear)

    def list_reverse(I, a, k):
        I.touch(a[0], 'reverse')
        a[0].p.reverse()
    nat(lst, 'reverse', list_reverse)
    nat(lst, 'copy', lambda I, a, k: I.list(a[0].p))
    nat(lst, '__reversed__', lambda I, a, k: I.mkiter(list(reversed(a[0].p))))

    def do_sort(I, items, key, reverse):
        items = list(items)
        keys = [I.call(key, [x]) if key is not None else x for x in items]
        # stable insertion sort over the program's own ordering
        out = []
        for kx, x in zip(keys, items):
            j = len(out)
            while j > 0:
                ky = out[j - 1][0]
                less = I.truth(I.compare('<', ky, kx) if reverse else I.compare('<', kx, ky))
                if not less:
                    break
                j -= 1
            out.insert(j, (kx, x))
        return [x for _, x in out]

    def list_sort(I, a, k):
        I.touch(a[0], 'sort')
        a[0].p[:] = do_sort(I, a[0].p, I.norm(k.get('key')), I.truth(k.get('reverse', False)))
    nat(lst, 'sort', list_sort)

    def seq_eq(I, a, k):
        o = I.norm(a[1])
        if isinstance(o, Sym):
            return I.symcmp('==', a[0], o)
        if not (isinstance(o, Obj) and o.cls.sub(lst)):
            return NotImplemented
        return I.seqcmp('==', tuple(a[0].p), tuple(o.p))
    nat(lst, '__eq__', seq_eq)

    def seq_ord(op):
        def f(I, a, k):
            o = I.norm(a[1])
            if not (isinstance(o, Obj) and o.cls.sub(lst)):
                return NotImplemented
            return I.seqcmp(op, tuple(a[0].p), tuple(o.p))
        return f
    for op, (d, _) in _i.CMPD.items():
        if op not in ('==', '!='):
            nat(lst, d, seq_ord(op))
    lst.ns['__hash__'] = None

    # ------------------------------------------------------------- deque
    dq = mkcls('deque', obj)
    for m in ('__iter__', '__len__', '__bool__', '__contains__', '__getitem__', '__setitem__', '__delitem__', 'append', 'extend', 'insert',
              'remove', 'index', 'count', 'clear', 'reverse', '__reversed__', '__iadd__'):
        dq.ns[m] = lst.ns[m]
    nat(dq, '__new__', list_new)
    dq.ns['__new__'] = SM(dq.ns['__new__'])

    def deque_init(I, a, k):
        n = I.norm(a[2] if len(a) > 2 else k.get('maxlen'))
        if isinstance(n, Sym):
            I.unsup('deque of unknown length')
        it = a[1] if len(a) > 1 else k.get('iterable', ())
        a[0].p = list(I.iterate(it))
        if n is not None:
            a[0].d['maxlen'] = n
            del a[0].p[:max(0, len(a[0].p) - n)]

    def bounded(m, left=False):
        f = dq.ns[m].fn

        def g(I, a, k):
            n = a[0].d.get('maxlen')
            if n is not None and m == 'insert' and len(a[0].p) >= n:
                raise I.exc('IndexError', 'deque already at its maximum size')
            r = f(I, a, k)
            if n is not None and len(a[0].p) > n:
                if left:
                    del a[0].p[n:]
                else:
                    del a[0].p[:len(a[0].p) - n]
            return r
        dq.ns[m] = Native('deque.' + m, g)
    for m in ('append', 'extend', '__iadd__', 'insert'):
        bounded(m)
    nat(dq, '__init__', deque_init)

    def dq_appendleft(I, a, k):
        I.touch(a[0], 'appendleft')
        a[0].p.insert(0, a[1])
    nat(dq, 'appendleft', dq_appendleft)

    def dq_extendleft(I, a, k):
        I.touch(a[0], 'extendleft')
        for x in I.iterate(a[1]):
            a[0].p.insert(0, x)
    nat(dq, 'extendleft', dq_extendleft)
    bounded('appendleft', True)
    bounded('extendleft', True)

    def dq_pop(left):
        def f(I, a, k):
            I.touch(a[0], 'pop')
            if not a[0].p:
                raise I.exc('IndexError', 'pop from an empty deque')
            return a[0].p.pop(0 if left else -1)
        return f
    nat(dq, 'popleft', dq_pop(True))
    nat(dq, 'pop', dq_pop(False))

    def dq_copy(I, a, k):
        o = I.new(dq, list(a[0].p))
        o.d.update(a[0].d)
        return o
    nat(dq, 'copy', dq_copy)

    def dq_eq(I, a, k):
        o = I.norm(a[1])
        if not (isinstance(o, Obj) and o.cls.sub(dq)):
            return NotImplemented
        return I.seqcmp('==', tuple(a[0].p), tuple(o.p))
    nat(dq, '__eq__', dq_eq)
    dq.ns['__hash__'] = None

    def dq_rotate(I, a, k):
        n = I.norm(a[1]) if len(a) > 1 else 1
        p = a[0].p
        I.touch(a[0], 'rotate')
        if p:
            n %= len(p)
            p[:] = p[-n:] + p[:-n] if n else p
    nat(dq, 'rotate', dq_rotate)

    # ------------------------------------------------------------- dict
    dct = mkcls('dict', obj)

    def dict_new(I, a, k):
        return I.new(a[0], _i.DictP())
    nat(dct, '__new__', dict_new)
    dct.ns['__new__'] = SM(dct.ns['__new__'])

    def dict_update(I, a, k):
        o = a[0]
        I.touch(o, 'update')
        if len(a) > 1:
            src = I.norm(a[1])
            ismap = isinstance(src, Obj) and (src.cls.sub(dct) or I.getattr_(src, 'keys') is not MISSING)
            if isinstance(src, Sym):
                ismap = I.pick_type(src) in ('dict', 'umap')
            if ismap:
                for kk, v in I.mapping_items(src):
                    I.dput(o, kk, v)
            else:
                for pair in I.iterate(src):
                    kk, v = I.tolist(pair)
                    I.dput(o, kk, v)
        for kk, v in k.items():
            I.dput(o, kk, v)

    def dict_init(I, a, k):
        if a[0].p is None:
            a[0].p = _i.DictP()
        dict_update(I, a, k)
    nat(dct, '__init__', dict_init)
    nat(dct, 'update', dict_update)

    def dict_get(I, a, k):
        o = a[0]
        r = I.dget(o, a[1])
        if r is MISSING:
            m = o.cls.lookup('__missing__')
            if m is not MISSING:
                return I.call_method(o, m, [a[1]])
            raise I.exc('KeyError', a[1])
        return r
    nat(dct, '__getitem__', dict_get)

    def dict_set(I, a, k):
        I.touch(a[0], '[]=')
        I.dput(a[0], a[1], a[2])
    nat(dct, '__setitem__', dict_set)

    def dict_del(I, a, k):
        hk = I.dfind(a[0], a[1])
        if hk is None:
            raise I.exc('KeyError', a[1])
        I.touch(a[0], 'del []')
        I.ddel(a[0], hk)
    nat(dct, '__delitem__', dict_del)

    def dget_(I, a, k):
        r = I.dget(a[0], a[1])
        return (a[2] if len(a) > 2 else k.get('default')) if r is MISSING else r
    nat(dct, 'get', dget_)
    nat(dct, '__contains__', lambda I, a, k: I.dfind(a[0], a[1]) is not None)
    nat(dct, '__len__', lambda I, a, k: len(a[0].p.e))
    nat(dct, '__bool__', lambda I, a, k: len(a[0].p.e) > 0)
    nat(dct, '__iter__', lambda I, a, k: I.mkiter(I._iter_dict(a[0])))

    def setdefault(I, a, k):
        r = I.dget(a[0], a[1])
        if r is MISSING:
            r = a[2] if len(a) > 2 else None
            I.touch(a[0], 'setdefault')
            I.dput(a[0], a[1], r)
        return r
    nat(dct, 'setdefault', setdefault)

    def dict_pop(I, a, k):
        hk = I.dfind(a[0], a[1])
        if hk is None:
            if len(a) > 2:
                return a[2]
            raise I.exc('KeyError', a[1])
        v = a[0].p.e[hk][1]
        I.touch(a[0], 'pop')
        I.ddel(a[0], hk)
        return v
    nat(dct, 'pop', dict_pop)

    def dict_popitem(I, a, k):
        if not a[0].p.e:
            raise I.exc('KeyError', 'popitem(): dictionary is empty')
        hk = list(a[0].p.e)[-1]
        I.touch(a[0], 'popitem')
        kv = a[0].p.e[hk]
        I.ddel(a[0], hk)
        return kv
    nat(dct, 'popitem', dict_popitem)

    def dict_clear(I, a, k):
        I.touch(a[0], 'clear')
        if type(a[0].p) is _i.ObjDictP:
            for hk in list(a[0].p.e):
                I.ddel(a[0], hk)
            return
        a[0].p = _i.DictP()
    nat(dct, 'clear', dict_clear)

    def dict_copy(I, a, k):
        return I.new(a[0].cls if a[0].cls.native else dct, a[0].p.copy())
    nat(dct, 'copy', dict_copy)

    def dict_eq(I, a, k):
        o = I.norm(a[1])
        if isinstance(o, Sym):
            return I.symcmp('==', a[0], o)
        if not (isinstance(o, Obj) and o.cls.sub(dct)):
            return NotImplemented
        if len(a[0].p.e) != len(o.p.e):
            return False
        for kk, v in list(a[0].p.e.values()):
            w = I.dget(o, kk)
            if w is MISSING or not (I.same_quick(v, w) or I.eq(v, w)):
                return False
        return True
    nat(dct, '__eq__', dict_eq)
    dct.ns['__hash__'] = None

    def dict_or(I, a, k):
        d = dict_copy(I, [a[0]], {})
        if I.isinstance_(a[1], dct):
            dict_update(I, [d, a[1]], {})
            return d
        return NotImplemented
    nat(dct, '__or__', dict_or)

    def dict_ior(I, a, k):
        dict_update(I, a, k)
        return a[0]
    nat(dct, '__ior__', dict_ior)

    def fromkeys(I, a, k):
        return I.dict([(x, a[2] if len(a) > 2 else None) for x in I.iterate(a[1])])
    nat(dct, 'fromkeys', fromkeys)
    dct.ns['fromkeys'] = CM(dct.ns['fromkeys'])
    nat(dct, '__reversed__', lambda I, a, k: I.mkiter([x for x, _ in reversed(list(a[0].p.e.values()))]))

    # views
    for vn in ('dict_keys', 'dict_values', 'dict_items'):
        vc = mkcls(vn, obj)

        def vit(I, a, k, vn=vn):
            d = a[0].p

            def g():
                for key in I._iter_dict(d):
                    if vn == 'dict_keys':
                        yield key
                    else:
                        v = I.dget(d, key)
                        yield v if vn == 'dict_values' else (key, v)
            return I.mkiter(g())
        nat(vc, '__iter__', vit)
        nat(vc, '__len__', lambda I, a, k: len(a[0].p.p.e))

        def vcont(I, a, k, vn=vn):
            d = a[0].p
            if vn == 'dict_keys':
                return I.dfind(d, a[1]) is not None
            if vn == 'dict_values':
                return any(I.same_quick(v, a[1]) or I.eq(v, a[1]) for _, v in list(d.p.e.values()))
            kk, v = I.tolist(a[1])
            w = I.dget(d, kk)
            return w is not MISSING and (I.same_quick(w, v) or I.eq(w, v))
        nat(vc, '__contains__', vcont)

        def veq(I, a, k, vn=vn):
            if vn == 'dict_values':
                return True if a[0] is a[1] else NotImplemented
            o = I.norm(a[1])
            if not isinstance(o, Obj) or not (o.cls.name in ('dict_keys', 'dict_items', 'set', 'frozenset') or I.isinstance_(o, I.abc['Set'])):
                return NotImplemented
            mine = I.tolist(a[0])
            if I.norm(I.length(o)) != len(mine):
                return False
            return all(I.contains(o, x) for x in mine)
        nat(vc, '__eq__', veq)
        nat(vc, '__reversed__', lambda I, a, k: I.mkiter(list(reversed(I.tolist(a[0])))))
        vc.ns['__hash__'] = None
        for opn, kind in (('__and__', 'and'), ('__or__', 'or'), ('__sub__', 'sub'), ('__xor__', 'xor'),
                          ('__rsub__', 'rsub'), ('__rand__', 'and'), ('__ror__', 'or')):
            if vn != 'dict_values':
                nat(vc, opn, lambda I, a, k, kind=kind: setop(I, kind, a[0], a[1]))
        if vn != 'dict_values':
            nat(vc, 'isdisjoint', lambda I, a, k: not any(I.contains(a[0], x) for x in I.iterate(a[1])))
            nat(vc, '__le__', lambda I, a, k: all(I.contains(a[1], x) for x in I.iterate(a[0])))
            nat(vc, '__ge__', lambda I, a, k: all(I.contains(a[0], x) for x in I.iterate(a[1])))
            nat(vc, '__lt__', lambda I, a, k: all(I.contains(a[1], x) for x in I.iterate(a[0])) and I.norm(I.length(a[0])) < I.norm(I.length(a[1])))
            nat(vc, '__gt__', lambda I, a, k: all(I.contains(a[0], x) for x in I.iterate(a[1])) and I.norm(I.length(a[0])) > I.norm(I.length(a[1])))

    def mkview(vn):
        def f(I, a, k):
            return I.new(B[vn], a[0])
        return f
    nat(dct, 'keys', mkview('dict_keys'))
    nat(dct, 'values', mkview('dict_values'))
    nat(dct, 'items', mkview('dict_items'))

    # ------------------------------------------------------------- set
    def setop(I, kind, x, y):
        """x is set-like; y iterable"""
        ys = I.set(I.tolist(y))
        xs = I.set(I.tolist(x))
        r = I.set()
        if kind == 'and':
            for v, _ in xs.p.e.values():
                if I.dfind(ys, v) is not None:
                    I.dput(r, v, None)
        elif kind == 'or':
            for v, _ in list(xs.p.e.values()) + list(ys.p.e.values()):
                I.dput(r, v, None)
        elif kind == 'sub':
            for v, _ in xs.p.e.values():
                if I.dfind(ys, v) is None:
                    I.dput(r, v, None)
        elif kind == 'rsub':
            return setop(I, 'sub', y, x)
        elif kind == 'xor':
            for v, _ in xs.p.e.values():
                if I.dfind(ys, v) is None:
                    I.dput(r, v, None)
            for v, _ in ys.p.e.values():
                if I.dfind(xs, v) is None:
                    I.dput(r, v, None)
        return r

    def issetlike(I, v):
        v = I.norm(v)
        return isinstance(v, Obj) and (v.cls.sub(B['set']) or v.cls.sub(B['frozenset']) or v.cls.name in ('dict_keys', 'dict_items')
                                       or I.isinstance_(v, I.abc['Set']))

    for sn in ('set', 'frozenset'):
        st = mkcls(sn, obj)

        def set_new(I, a, k, sn=sn):
            o = I.new(a[0], _i.DictP())
            if sn == 'frozenset' and len(a) > 1:
                for x in I.iterate(a[1]):
                    I.dput(o, x, None)
            return o
        nat(st, '__new__', set_new)
        st.ns['__new__'] = SM(st.ns['__new__'])

        def set_init(I, a, k, sn=sn):
            if sn == 'set' and len(a) > 1:
                for x in I.iterate(a[1]):
                    I.dput(a[0], x, None)
        nat(st, '__init__', set_init)
        nat(st, '__iter__', lambda I, a, k: I.mkiter(I._iter_dict(a[0])))
        nat(st, '__len__', lambda I, a, k: len(a[0].p.e))
        nat(st, '__bool__', lambda I, a, k: len(a[0].p.e) > 0)
        nat(st, '__contains__', lambda I, a, k: I.dfind(a[0], a[1]) is not None)
        nat(st, 'copy', lambda I, a, k: I.new(a[0].cls, a[0].p.copy()))
        for opn, kind in (('__and__', 'and'), ('__or__', 'or'), ('__sub__', 'sub'), ('__xor__', 'xor')):
            nat(st, opn, lambda I, a, k, kind=kind: setop(I, kind, a[0], a[1]) if issetlike(I, a[1]) else NotImplemented)
        for opn, kind in (('intersection', 'and'), ('union', 'or'), ('difference', 'sub'), ('symmetric_difference', 'xor')):
            def multi(I, a, k, kind=kind):
                r = I.set(I.tolist(a[0]))
                for y in a[1:]:
                    r = setop(I, kind, r, y)
                return r
            nat(st, opn, multi)
        nat(st, 'isdisjoint', lambda I, a, k: not any(I.contains(a[0], x) for x in I.iterate(a[1])))
        nat(st, 'issubset', lambda I, a, k: all(I.contains(I.set(I.tolist(a[1])), x) for x in I.iterate(a[0])))
        nat(st, 'issuperset', lambda I, a, k: all(I.contains(a[0], x) for x in I.iterate(a[1])))

        def scmp(I, a, k, op):
            if not issetlike(I, a[1]):
                return NotImplemented
            la, lb = len(I.tolist(a[0])), len(I.tolist(a[1]))
            if op in ('<=', '<'):
                return all(I.contains(a[1], x) for x in I.iterate(a[0])) and (op == '<=' or la < lb)
            return all(I.contains(a[0], x) for x in I.iterate(a[1])) and (op == '>=' or la > lb)
        for op, d in (('<=', '__le__'), ('<', '__lt__'), ('>=', '__ge__'), ('>', '__gt__')):
            nat(st, d, lambda I, a, k, op=op: scmp(I, a, k, op))

        def set_eq(I, a, k):
            o = I.norm(a[1])
            if not issetlike(I, o):
                return NotImplemented
            xs = I.tolist(a[0])
            return len(xs) == I.norm(I.length(o)) and all(I.contains(o, x) for x in xs)
        nat(st, '__eq__', set_eq)
        if sn == 'set':
            st.ns['__hash__'] = None
    st = B['set']

    def set_add(I, a, k):
        I.touch(a[0], 'add')
        I.dput(a[0], a[1], None)
    nat(st, 'add', set_add)

    def set_discard(I, a, k):
        hk = I.dfind(a[0], a[1])
        if hk is not None:
            I.touch(a[0], 'discard')
            I.ddel(a[0], hk)
    nat(st, 'discard', set_discard)

    def set_remove(I, a, k):
        hk = I.dfind(a[0], a[1])
        if hk is None:
            raise I.exc('KeyError', a[1])
        I.touch(a[0], 'remove')
        I.ddel(a[0], hk)
    nat(st, 'remove', set_remove)

    def set_update(I, a, k):
        I.touch(a[0], 'update')
        for it in a[1:]:
            for x in I.tolist(it):
                I.dput(a[0], x, None)
    nat(st, 'update', set_update)

    def set_pop(I, a, k):
        if not a[0].p.e:
            raise I.exc('KeyError', 'pop from an empty set')
        hk = list(a[0].p.e)[0]
        I.touch(a[0], 'pop')
        v = a[0].p.e[hk][0]
        I.ddel(a[0], hk)
        return v
    nat(st, 'pop', set_pop)

    def set_clear(I, a, k):
        I.touch(a[0], 'clear')
        a[0].p = _i.DictP()
    nat(st, 'clear', set_clear)

    def inplace(kind):
        def f(I, a, k):
            if not issetlike(I, a[1]):
                return NotImplemented
            r = setop(I, kind, a[0], a[1])
            I.touch(a[0], 'update')
            a[0].p = r.p
            return a[0]
        return f
    for opn, kind in (('__iand__', 'and'), ('__ior__', 'or'), ('__isub__', 'sub'), ('__ixor__', 'xor')):
        nat(st, opn, inplace(kind))

    def upd(kind):
        def f(I, a, k):
            for y in a[1:]:
                r = setop(I, kind, a[0], y)
                I.touch(a[0], 'update')
                a[0].p = r.p
        return f
    nat(st, 'difference_update', upd('sub'))
    nat(st, 'intersection_update', upd('and'))

    # ------------------------------------------------------------- iterators
    itc = B['iterator']
    nat(itc, '__iter__', lambda I, a, k: a[0])
    B['generator'].ns['__iter__'] = itc.ns['__iter__']

    def it_next(I, a, k):
        if a[0].oid <= I.mark:
            I.ver += 1
        try:
            return next(a[0].p)
        except StopIteration as s:
            raise I.exc('StopIteration', *([s.value] if s.value is not None else []))
    nat(itc, '__next__', it_next)
    B['generator'].ns['__next__'] = itc.ns['__next__']

    def g_send(I, a, k):
        try:
            I.ver += 1
            return a[0].p.send(a[1]) if a[1] is not None else next(a[0].p)
        except StopIteration as s:
            raise I.exc('StopIteration', *([s.value] if s.value is not None else []))
    nat(B['generator'], 'send', g_send)

    def g_close(I, a, k):
        a[0].p.close()
    nat(B['generator'], 'close', g_close)

    def g_throw(I, a, k):
        e = a[1]
        if isinstance(e, Cls):
            e = I.instantiate(e, [], {})
        try:
            return a[0].p.throw(PyExc(e))
        except StopIteration as s:
            raise I.exc('StopIteration')
    nat(B['generator'], 'throw', g_throw)

    rng = mkcls('range', obj)

    class BigRange:
        """range(n) for an unknown n > 3: only the first steps can be followed"""
        def __init__(self, I):
            self.I = I

        def __iter__(self):
            for i in range(12):
                yield i
            self.I.unsup('range over a large unknown')

        def __len__(self):
            self.I.unsup('length of a range over a large unknown')

        def __getitem__(self, i):
            self.I.unsup('range over a large unknown')

        def __reversed__(self):
            self.I.unsup('range over a large unknown')

    def range_new(I, a, k):
        vals = []
        for x in a[1:]:
            x = I.norm(x)
            if isinstance(x, Sym):
                t = I.pick_type(x)
                if t == 'bool':
                    x = int(I.concretize_bool(x))
                elif t != 'int':
                    raise I.exc('TypeError', 'object cannot be interpreted as an integer')
                else:
                    j = I.pinint(x, 0, 3)
                    if j is None:
                        if I.rel(x, 0, LT, '%s < 0' % x.name):
                            j = -1
                        elif len(a) == 2:
                            return I.new(rng, BigRange(I))
                        else:
                            I.unsup('range over a large unknown')
                    x = j
            elif isinstance(x, Obj) and x.cls.lookup('__index__') is not MISSING:
                x = I.call_method(x, x.cls.lookup('__index__'), [])
            elif not isinstance(x, int):
                raise I.exc('TypeError', 'object cannot be interpreted as an integer')
            vals.append(x)
        try:
            return I.new(rng, range(*vals))
        except Exception as e:
            raise I.rethrow(e)
    nat(rng, '__new__', range_new)
    rng.ns['__new__'] = SM(rng.ns['__new__'])
    nat(rng, '__init__', lambda I, a, k: None)

    def range_eq(I, a, k):
        b = I.norm(a[1])
        if not isinstance(b, Obj) or b.cls is not rng:
            return NotImplemented
        if isinstance(a[0].p, BigRange) or isinstance(b.p, BigRange):
            I.unsup('comparison of ranges over a large unknown')
        return a[0].p == b.p
    nat(rng, '__eq__', range_eq)
    nat(rng, '__iter__', lambda I, a, k: I.mkiter(a[0].p))
    nat(rng, '__reversed__', lambda I, a, k: I.mkiter(reversed(a[0].p)))
    nat(rng, '__len__', lambda I, a, k: len(a[0].p))

    def range_contains(I, a, k):
        x = I.norm(a[1])
        if is_const(x):
            return x in a[0].p
        return any(I.eq(y, x) for y in a[0].p)
    nat(rng, '__contains__', range_contains)

    def range_find(which):
        def f(I, a, k):
            r, x = a[0].p, I.norm(a[1])
            hits = [i for i, y in enumerate(r) if I.eq(y, x)]
            if which == 'count':
                return len(hits)
            if not hits:
                raise I.exc('ValueError', 'not in range')
            return hits[0]
        return f
    nat(rng, 'index', range_find('index'))
    nat(rng, 'count', range_find('count'))
    for nm in ('start', 'stop', 'step'):
        rng.ns[nm] = Prop(Native('range.' + nm, lambda I, a, k, nm=nm: getattr(a[0].p, nm)))

    def range_get(I, a, k):
        r, x = a[0].p, I.norm(a[1])
        if isinstance(x, Sym):
            if len(r) > 12:
                I.unsup('unknown index into a long range')
            return I.symindex(list(r), x)
        if isinstance(x, slice):
            x = I.pinslice(x, len(r))
        try:
            r = r[x]
        except Exception as e:
            raise I.rethrow(e)
        return I.new(rng, r) if isinstance(r, range) else r
    nat(rng, '__getitem__', range_get)

    # enumerate / zip / map / filter / reversed as lazy iterators
    def itclass(name, make):
        c = mkcls(name, itc)

        def new(I, a, k):
            # exposed as plain iterator objects
            o = I.new(itc)
            o.p = make(I, a[1:], k)
            return o
        nat(c, '__new__', new)
        c.ns['__new__'] = SM(c.ns['__new__'])

    def mk_enum(I, a, k):
        start = I.norm(a[1] if len(a) > 1 else k.get('start', 0))
        src = I.iterate(a[0] if a else k['iterable'])

        def g():
            i = start
            for v in src:
                yield (i, v)
                i = i + 1 if isinstance(i, int) else I.binop(_i.BINOPS[_i.ast.Add], i, 1)
        return g()
    itclass('enumerate', mk_enum)

    def mk_zip(I, a, k):
        strict = I.truth(k.get('strict', False))
        its = [iter(I.iterate(x)) for x in a]

        def g():
            if not its:
                return
            while True:
                vals = []
                for n, it in enumerate(its):
                    try:
                        vals.append(next(it))
                    except StopIteration:
                        if strict:
                            if n > 0:
                                raise I.exc('ValueError', 'zip() arguments have different lengths')
                            for it2 in its[1:]:
                                try:
                                    next(it2)
                                except StopIteration:
                                    continue
                                raise I.exc('ValueError', 'zip() arguments have different lengths')
                        return
                yield tuple(vals)
        return g()
    itclass('zip', mk_zip)

    def mk_map(I, a, k):
        f = a[0]
        its = [iter(I.iterate(x)) for x in a[1:]]

        def g():
            while True:
                try:
                    vals = [next(it) for it in its]
                except StopIteration:
                    return
                yield I.call(f, vals)
        return g()
    itclass('map', mk_map)

    def mk_filter(I, a, k):
        f, src = a[0], I.iterate(a[1])

        def g():
            for v in src:
                if I.truth(v if f is None else I.call(f, [v])):
                    yield v
        return g()
    itclass('filter', mk_filter)

    def mk_reversed(I, a, k):
        o = I.norm(a[0])
        if isinstance(o, Obj):
            m = o.cls.lookup('__reversed__')
            if isinstance(m, (Native, Fn)):
                return I.iterate(I.call_method(o, m, []))
            n = I.norm(I.length(o))
            return (I.getitem(o, i) for i in range(n - 1, -1, -1))
        if type(o) is tuple or isinstance(o, str):
            return iter(list(reversed(o)))
        return iter(list(reversed(I.tolist(o))))
    itclass('reversed', mk_reversed)

    # ------------------------------------------------------------- slice
    def slice_new(I, a, k):
        return slice(*[I.norm(x) for x in a[1:]])
    nat(B['slice'], '__new__', slice_new)
    B['slice'].ns['__new__'] = SM(B['slice'].ns['__new__'])

    # ------------------------------------------------------------- exceptions
    def exc_tree(c):
        if c.__name__ in B:
            return B[c.__name__]
        bases = [exc_tree(b) if b is not object else obj for b in c.__bases__]
        k = mkcls(c.__name__, *bases)
        k.isexc = True
        return k
    for n in dir(builtins):
        c = getattr(builtins, n)
        if isinstance(c, type) and issubclass(c, BaseException):
            k = exc_tree(c)
            B[n] = k
    be = B['BaseException']

    def exc_new(I, a, k):
        o = I.new(a[0])
        o.p = tuple(a[1:])
        return o
    nat(be, '__new__', exc_new)
    be.ns['__new__'] = SM(be.ns['__new__'])

    def exc_init(I, a, k):
        a[0].p = tuple(a[1:])
    nat(be, '__init__', exc_init)

    def exc_str(I, a, k):
        p = a[0].p or ()
        if a[0].cls.sub(B['KeyError']) and len(p) == 1:
            return I.repr(p[0])
        if len(p) == 0:
            return ''
        if a[0].cls.sub(B['OSError']) and len(p) in (2, 3):
            return I.cat(['[Errno ', I.str(p[0]), '] ', I.str(p[1])] + ([': ', I.repr(p[2])] if len(p) == 3 else []))
        if len(p) == 1:
            return I.str(p[0])
        return I.repr(tuple(p))
    nat(be, '__str__', exc_str)
    def exc_repr(I, a, k):
        p = tuple(a[0].p or ())
        if len(p) == 1:
            return I.cat([a[0].cls.name, '(', I.repr(p[0]), ')'])
        return I.cat([a[0].cls.name, I.repr(p)])
    nat(be, '__repr__', exc_repr)

    def with_tb(I, a, k):
        return a[0]
    nat(be, 'with_traceback', with_tb)
    nat(be, 'add_note', lambda I, a, k: None)

    def os_init(I, a, k):
        a[0].p = tuple(a[1:])
        if len(a) >= 3:
            a[0].d.update(errno=a[1], strerror=a[2], filename=a[3] if len(a) > 3 else None)
        else:
            a[0].d.update(errno=None, strerror=None, filename=None)
    nat(B['OSError'], '__init__', os_init)

    def key_of(name):
        pass

    def si_init(I, a, k):
        a[0].p = tuple(a[1:])
        a[0].d['value'] = a[1] if len(a) > 1 else None
    nat(B['StopIteration'], '__init__', si_init)

    # ------------------------------------------------------------- functions
    def fn(name):
        def deco(f):
            B[name] = Native(name, f)
            return f
        return deco

    @fn('len')
    def _(I, a, k):
        return I.length(a[0])

    @fn('isinstance')
    def _(I, a, k):
        return I.isinstance_(a[0], a[1])

    @fn('issubclass')
    def _(I, a, k):
        c = a[0]
        if not isinstance(c, Cls):
            raise I.exc('TypeError', 'issubclass() arg 1 must be a class')
        t = a[1] if type(a[1]) is tuple else (a[1],)
        for x in t:
            if isinstance(x, UnionT):
                if any(I.subclass(c, y) for y in x.members if isinstance(y, Cls)):
                    return True
            elif not isinstance(x, Cls):
                raise I.exc('TypeError', 'issubclass() arg 2 must be a class')
            elif I.subclass(c, x):
                return True
        return False

    @fn('iter')
    def _(I, a, k):
        o = I.norm(a[0])
        if len(a) > 1:
            def g():
                while True:
                    v = I.call(a[0], [])
                    if I.eq(v, a[1]):
                        return
                    yield v
            return I.mkiter(g())
        if isinstance(o, Obj) and o.cls in (itc, B['generator']):
            return o
        if isinstance(o, Obj):
            it = o.cls.lookup('__iter__')
            if isinstance(it, Fn):
                return I.call_method(o, it, [])
        return I.mkiter(I.iterate(o))

    @fn('next')
    def _(I, a, k):
        o = I.norm(a[0])
        if not isinstance(o, Obj) or o.cls.lookup('__next__') is MISSING:
            raise I.exc('TypeError', 'object is not an iterator')
        try:
            return I.call_method(o, o.cls.lookup('__next__'), [])
        except PyExc as e:
            if len(a) > 1 and e.obj.cls.sub(B['StopIteration']):
                return a[1]
            raise

    @fn('sorted')
    def _(I, a, k):
        return I.list(do_sort(I, I.tolist(a[0]), I.norm(k.get('key')), I.truth(k.get('reverse', False))))

    @fn('any')
    def _(I, a, k):
        for v in I.iterate(a[0]):
            if I.truth(v):
                return True
        return False

    @fn('all')
    def _(I, a, k):
        for v in I.iterate(a[0]):
            if not I.truth(v):
                return False
        return True

    @fn('sum')
    def _(I, a, k):
        r = a[1] if len(a) > 1 else k.get('start', 0)
        for v in I.iterate(a[0]):
            r = I.binop(_i.BINOPS[_i.ast.Add], r, v)
        return r

    def minmax(op):
        def f(I, a, k):
            items = I.tolist(a[0]) if len(a) == 1 else list(a)
            key = I.norm(k.get('key'))
            if not items:
                if 'default' in k:
                    return k['default']
                raise I.exc('ValueError', 'arg is an empty sequence')
            best = items[0]
            bk = I.call(key, [best]) if key is not None else best
            for x in items[1:]:
                xk = I.call(key, [x]) if key is not None else x
                if I.truth(I.compare(op, xk, bk)):
                    best, bk = x, xk
            return best
        return f
    B['min'] = Native('min', minmax('<'))
    B['max'] = Native('max', minmax('>'))

    @fn('abs')
    def _(I, a, k):
        v = I.norm(a[0])
        if is_const(v):
            return abs(v)
        if isinstance(v, Sym):
            if I.rel(v, 0, LT, '%s < 0' % v.name):
                base, kk, c = I.linparts(v)
                return I.lin(base, -kk, -c)
            return v
        I.unsup('abs')

    @fn('round')
    def _(I, a, k):
        v = I.norm(a[0])
        if is_const(v):
            return round(v, *[I.norm(x) for x in a[1:]])
        if len(a) == 1 and isinstance(v, Sym):
            return to_int(I, v)
        I.unsup('round')

    @fn('divmod')
    def _(I, a, k):
        return (I.binop(_i.BINOPS[_i.ast.FloorDiv], a[0], a[1]), I.binop(_i.BINOPS[_i.ast.Mod], a[0], a[1]))

    @fn('pow')
    def _(I, a, k):
        if len(a) > 2:
            v = [I.norm(x) for x in a]
            if not all(isinstance(x, int) for x in v):
                I.unsup('pow() of unknown numbers')
            return pow(*v)
        return I.binop(_i.BINOPS[_i.ast.Pow], a[0], a[1])

    @fn('print')
    def _(I, a, k):
        return None

    @fn('repr')
    def _(I, a, k):
        return I.repr(a[0])

    @fn('ascii')
    def _(I, a, k):
        r = I.norm(I.repr(a[0]))
        if not isinstance(r, str):
            I.unsup('ascii() of an unknown value')
        return r.encode('ascii', 'backslashreplace').decode()

    @fn('format')
    def _(I, a, k):
        return I.fmt(a[0], -1, a[1] if len(a) > 1 else '')

    @fn('hash')
    def _(I, a, k):
        return I.hash_value(a[0])

    @fn('id')
    def _(I, a, k):
        return I.identity_number(a[0])

    @fn('callable')
    def _(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, (Fn, Bound, Native, Cls)):
            return True
        if isinstance(v, Obj):
            return v.cls.lookup('__call__') is not MISSING
        return False

    @fn('getattr')
    def _(I, a, k):
        name = I.norm(a[1])
        if not isinstance(name, str):
            I.unsup('getattr with unknown name')
        try:
            r = I.getattr_(a[0], name)
        except PyExc as e:
            if len(a) > 2 and e.obj.cls.sub(B['AttributeError']):
                return a[2]
            raise
        if r is MISSING:
            if len(a) > 2:
                return a[2]
            raise I.exc('AttributeError', '%s has no attribute %r' % (I.show(a[0], 1), name))
        return r

    @fn('hasattr')
    def _(I, a, k):
        name = I.norm(a[1])
        if not isinstance(name, str):
            I.unsup('hasattr with unknown name')
        try:
            return I.getattr_(a[0], name) is not MISSING
        except PyExc as e:
            if e.obj.cls.sub(B['AttributeError']):
                return False
            raise

    @fn('setattr')
    def _(I, a, k):
        name = I.norm(a[1])
        if not isinstance(name, str):
            I.unsup('setattr with unknown name')
        I.setattr(a[0], name, a[2])

    @fn('delattr')
    def _(I, a, k):
        I.delattr(a[0], I.norm(a[1]))

    @fn('vars')
    def _(I, a, k):
        if not a:
            I.unsup('vars() called indirectly')
        return I.getattr(a[0], '__dict__')

    @fn('dir')
    def _(I, a, k):
        I.unsup('dir()')

    @fn('globals')
    def _(I, a, k):
        I.unsup('globals()')

    @fn('locals')
    def _(I, a, k):
        I.unsup('locals()')

    @fn('eval')
    def _(I, a, k):
        I.unsup('eval()')

    @fn('exec')
    def _(I, a, k):
        I.unsup('exec()')

    @fn('ord')
    def _(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, str):
            try:
                return ord(v)
            except Exception as e:
                raise I.rethrow(e)
        I.unsup('ord')

    for nm, host in (('bin', bin), ('hex', hex), ('oct', oct)):
        def base(I, a, k, nm=nm, host=host):
            v = I.norm(a[0])
            if isinstance(v, int):
                return host(v)
            I.unsup('%s() of an unknown number' % nm)
        B[nm] = Native(nm, base)

    @fn('chr')
    def _(I, a, k):
        v = I.norm(a[0])
        if isinstance(v, int):
            try:
                return chr(v)
            except (ValueError, OverflowError) as e:
                raise I.rethrow(e)
        I.unsup('chr')

    @fn('super')
    def _(I, a, k):
        if len(a) == 2:
            return Super(a[0], I.norm(a[1]))
        I.unsup('super()')

    @fn('property')
    def _(I, a, k):
        return Prop(*(list(a) + [None] * 3)[:3])
    del B['property']
    prop = mkcls('property', obj)
    nat(prop, '__new__', lambda I, a, k: Prop(*[x for x in (list(a[1:]) + [k.get('fget'), k.get('fset'), k.get('fdel')][len(a) - 1:])[:3]]))
    prop.ns['__new__'] = SM(prop.ns['__new__'])
    smc = mkcls('staticmethod', obj)
    nat(smc, '__new__', lambda I, a, k: SM(a[1]))
    smc.ns['__new__'] = SM(smc.ns['__new__'])
    cmc = mkcls('classmethod', obj)
    nat(cmc, '__new__', lambda I, a, k: CM(a[1]))
    cmc.ns['__new__'] = SM(cmc.ns['__new__'])

    @fn('open')
    def _(I, a, k):
        return I.model_open(a, k)

    @fn('__import__')
    def _(I, a, k):
        n = I.norm(a[0])
        if not isinstance(n, str):
            I.unsup('__import__')
        I.import_module(n)
        return I.import_module(n.split('.')[0])

    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__debug__'] = True
    B['__name__'] = 'builtins'
    # types never instantiated by name in the language
    for n in ('NoneType', 'other'):
        pass
    I.do_sort = do_sort
    I.setop = setop

    # abstract base classes: virtual registration tables
    seq = {'list', 'tuple', 'str', 'bytes', 'range', 'memoryview', 'bytearray', 'deque'}
    mset = {'set', 'frozenset', 'dict_keys', 'dict_items'}
    I.virtual = {
        'Sequence': seq, 'MutableSequence': {'list', 'bytearray', 'deque'}, 'ByteString': {'bytes', 'bytearray'},
        'Mapping': {'dict'}, 'MutableMapping': {'dict'}, 'Set': mset, 'MutableSet': {'set'},
        'KeysView': {'dict_keys'}, 'ItemsView': {'dict_items'}, 'ValuesView': {'dict_values'}, 'MappingView': {'dict_keys', 'dict_items', 'dict_values'},
        'Iterable': set(), 'Iterator': set(), 'Sized': set(), 'Container': set(), 'Collection': set(), 'Hashable': set(),
        'Callable': {'function', 'method', 'builtin_function', 'builtin_function_or_method', 'type'}, 'Generator': {'generator'}, 'Reversible': set(),
        'Number': {'int', 'float', 'complex', 'bool', 'Decimal'}, 'Complex': {'int', 'float', 'complex'}, 'Real': {'int', 'float'},
        'Rational': {'int'}, 'Integral': {'int'}, 'PathLike': {'Path'},
    }
    I.structural = {
        'Iterable': ['__iter__'], 'Iterator': ['__iter__', '__next__'], 'Sized': ['__len__'], 'Container': ['__contains__'],
        'Collection': ['__len__', '__iter__', '__contains__'], 'Hashable': ['__hash__'], 'Callable': ['__call__'],
        'Reversible': ['__reversed__', '__iter__'], 'PathLike': ['__fspath__'],
    }
    I.abcsubs = {
        'Sequence': ('MutableSequence', 'ByteString'), 'Mapping': ('MutableMapping',), 'Set': ('MutableSet', 'KeysView', 'ItemsView'),
        'Number': ('Complex', 'Real', 'Rational', 'Integral'), 'Complex': ('Real', 'Rational', 'Integral'), 'Real': ('Rational', 'Integral'),
        'Rational': ('Integral',),
    }
    B['other'].ns['__hash__'] = obj.ns['__hash__']

    def subclasses(c):
        out = []
        return out
    I.subclasses = lambda c: I.unsup('__subclasses__')
    return B
