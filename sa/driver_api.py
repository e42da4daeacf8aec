"""The module `sa` that the drivers (interpreted obligations) import: abstract
values, predicates, observation of the abstract heap, and obligations."""
from .values import *
from .values import MISSING
from .facts import LT, EQ, GT
from .interp import DictP, ALLJSON
from .values import Prune, Unsupported


def describe(I, at):
    """construct named by a driver: a function, class, exception (its raise site) or text"""
    at = I.norm(at) if not isinstance(at, (Cls, Fn, Bound, Prop, CachedProp, SM, CM, Native)) else at
    if at is None:
        return None
    if isinstance(at, str):
        return at
    if isinstance(at, Bound):
        at = at.fn
    if isinstance(at, Prop):
        at = at.fget
    if isinstance(at, (CachedProp, SM, CM)):
        at = at.fn
    if isinstance(at, Fn):
        return '%s:%s %s' % (I.relfile(at.module.file), at.node.lineno, at.qualname)
    if isinstance(at, Cls):
        if at.node is not None and at.module is not None:
            return '%s:%s class %s' % (I.relfile(at.module.file), at.node.lineno, at.qualname)
        return at.qualname
    if isinstance(at, Obj) and at.cls.isexc:
        return site(I, at)
    if isinstance(at, Obj):
        return describe(I, at.cls)
    return repr(at)


def site(I, e):
    t = e.tag
    if isinstance(t, str):
        return t
    return e.cls.name


def reachable(I, roots, stop=()):
    seen = {}
    stack = list(roots)
    while stack:
        o = stack.pop()
        o = I.norm(o) if isinstance(o, Sym) else o
        if isinstance(o, Sym):
            if 'obj' in o.attr:
                stack.append(o.attr['obj'])
            elif 'kids' in o.attr:
                for k in o.attr['kids']:
                    stack.extend(k if type(k) is tuple else (k,))
            continue
        if type(o) is tuple:
            stack.extend(o)
            continue
        if not isinstance(o, Obj) or id(o) in seen or o in stop:
            continue
        seen[id(o)] = o
        stack.extend(o.d.values())
        if isinstance(o.p, list):
            stack.extend(o.p)
        elif type(o.p) is tuple:
            stack.extend(o.p)
        elif isinstance(o.p, DictP):
            for k, v in o.p.e.values():
                stack.append(k)
                stack.append(v)
    return seen


def is_mutable(I, o):
    if o.cls.isexc:
        return False
    return isinstance(o.p, (list, DictP)) and o.cls.name not in ('frozenset',) or bool(o.d) and not o.cls.native


def install(I):
    I.violations = []
    I.checks = 0
    N = {}

    def native(name):
        def deco(f):
            N[name] = Native('sa.' + name, f)
            return f
        return deco

    def kwnorm(k):
        return {a: I.norm(b) for a, b in k.items()}

    @native('choose')
    def choose(I, a, k):
        opts = a
        if len(opts) == 1 and isinstance(opts[0], int) and not isinstance(opts[0], bool):
            i = I.choose('choice', opts[0])
            I.relabel('choice=%d' % i)
            return i
        i = I.choose('choice', len(opts))
        I.relabel('choice=%s' % I.show(opts[i]))
        return opts[i]

    @native('flag')
    def flag(I, a, k):
        return I.pred(I.norm(a[0]), *a[1:])
    N['pred'] = N['flag']

    @native('sym')
    def sym(I, a, k):
        s = Sym(I.norm(a[0]), [I.norm(t) for t in a[1:]])
        k = kwnorm(k)
        for key, v in k.items():
            if key == 'elem_types':
                v = tuple(I.norm(x) for x in I.tolist(v))
            s.attr[key] = v
        return s

    @native('json')
    def json_(I, a, k):
        s = Sym(I.norm(a[0]), ALLJSON)
        s.attr['finite'] = True
        for key, v in kwnorm(k).items():
            s.attr[key] = v
        return s

    @native('string')
    def string(I, a, k):
        s = Sym(I.norm(a[0]), ['str'])
        s.attr.update(kwnorm(k))
        return s

    @native('integer')
    def integer(I, a, k):
        s = Sym(I.norm(a[0]), ['int'])
        kw = kwnorm(k)
        if 'ge' in kw:
            I.assume_rel(s, kw['ge'], EQ | GT)
        if 'le' in kw:
            I.assume_rel(s, kw['le'], EQ | LT)
        return s

    @native('number')
    def number(I, a, k):
        s = Sym(I.norm(a[0]), ['int', 'float'])
        s.attr['finite'] = True
        return s

    @native('other')
    def other(I, a, k):
        return Sym(I.norm(a[0]), ['other'])

    @native('distinct')
    def distinct(I, a, k):
        for i in range(len(a)):
            for j in range(i):
                x, y = I.norm(a[i]), I.norm(a[j])
                if isinstance(x, Sym) or isinstance(y, Sym):
                    I.assume_rel(x, y, LT | GT)
                elif x == y:
                    raise Prune()
        return None

    @native('assume')
    def assume(I, a, k):
        if not I.truth(a[0]):
            raise Prune()
        return None

    @native('prune')
    def prune(I, a, k):
        raise Prune()

    @native('undecided')
    def undecided(I, a, k):
        I.unsup(I.norm(a[0]) if a else 'driver')

    @native('check')
    def check(I, a, k):
        I.checks += 1
        if not I.truth(a[0]):
            report(I, a[1:], k)
            return False
        return True

    def report(I, a, k):
        rule = I.norm(a[0])
        msg = I.norm(a[1]) if len(a) > 1 else ''
        at = a[2] if len(a) > 2 else k.get('at')
        detail = ', '.join(I.show(x) for x in a[3:])
        where = describe(I, at) if at is not None else None
        I.violations.append({'rule': rule, 'msg': msg if isinstance(msg, str) else I.show(msg), 'at': where, 'detail': detail,
                             'driver': I.loc(),
                             'path': [l if '=' in l and '==' not in l and '!=' not in l and '>=' not in l and '<=' not in l or n != 2 else '%s: %s' % (l, 'no' if k else 'yes') for (l, k, n) in I.decisions],
                             'calls': calls(I)})

    def calls(I):
        seen, out = set(), []
        for f in reversed(I.loc_trace):
            q = '%s:%s' % (I.relfile(f.module.file), f.qualname)
            if q not in seen:
                seen.add(q)
                out.append(q)
            if len(out) >= 25:
                break
        return out
    I.report = report
    I.calls_made = calls

    @native('fail')
    def fail(I, a, k):
        I.checks += 1
        report(I, a, k)
        return False

    @native('site')
    def site_(I, a, k):
        e = I.norm(a[0])
        return site(I, e)

    @native('events')
    def events(I, a, k):
        kind = I.norm(a[0]) if a else None
        out = []
        for e in I.events:
            if kind is None or e[0] == kind:
                out.append(tuple(e))
        return I.list(out)

    @native('clear_events')
    def clear_events(I, a, k):
        del I.events[:]
        return None

    @native('mark')
    def mark(I, a, k):
        o = I.new(I.B['object'])
        I.watch = o.oid
        I.writes = []
        I.fills = []
        return None

    @native('unmark')
    def unmark(I, a, k):
        I.watch = None
        return None

    @native('overwrites')
    def overwrites(I, a, k):
        """like writes(), without first assignments of attributes (lazily filled caches)"""
        return writes_of(I, a, I.writes)

    @native('writes')
    def writes(I, a, k):
        """writes, since mark(), to state that existed at mark(): list of (object, what, where)"""
        return writes_of(I, a, I.writes + I.fills)

    def writes_of(I, a, ws):
        out = []
        within = reachable(I, a) if a else None
        for (o, what, loc) in ws:
            if isinstance(o, Obj):
                if within is not None and id(o) not in within:
                    continue
                out.append((o, what if isinstance(what, str) else I.show(what), loc or '?'))
            elif within is None:
                out.append((str(o), what if isinstance(what, str) else I.show(what), loc or '?'))
        return I.list(out)

    @native('shares')
    def shares(I, a, k):
        """do the two object graphs share a mutable object?"""
        x = reachable(I, [a[0]])
        y = reachable(I, [a[1]])
        for i in x:
            if i in y and is_mutable(I, x[i]):
                return True
        return False

    @native('reaches')
    def reaches(I, a, k):
        return any(o is I.norm(a[1]) for o in reachable(I, [a[0]]).values())

    @native('typename')
    def typename(I, a, k):
        return I.typeof(a[0]).name

    @native('is_int_valued')
    def is_int_valued(I, a, k):
        v = I.norm(a[0])
        t = I.typeof(v).name
        if t in ('int',):
            return True
        if t == 'float':
            return I.integral(v)
        return False

    @native('shape')
    def shape(I, a, k):
        """pin the shape of an unknown value (type, and length if a collection)"""
        v = I.norm(a[0])
        if isinstance(v, Sym):
            t = I.pick_type(v)
            if t in ('list', 'dict', 'tuple', 'useq', 'umap'):
                I.children(v)
            if t == 'bool':
                I.concretize_bool(v)
        return v

    @native('show')
    def show(I, a, k):
        return I.show(a[0])

    @native('more_steps')
    def more_steps(I, a, k):
        """a larger budget for this partition"""
        I.steps -= a[0]

    @native('fs_hook')
    def fs_hook(I, a, k):
        I.memo['FSHOOK'] = a[0]

    @native('http_hook')
    def http_hook(I, a, k):
        I.memo['HTTPHOOK'] = a[0]

    @native('fs')
    def fs(I, a, k):
        I.memo.setdefault('FS', {})[I.norm(a[0])] = a[1]

    @native('multiple')
    def multiple(I, a, k):
        """is the first number an exact multiple of the second (which is not zero)?"""
        import fractions
        x, y = I.norm(a[0]), I.norm(a[1])
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return fractions.Fraction(str(x)) % fractions.Fraction(str(y)) == 0
        t = I.exactmod(*[v if isinstance(v, Sym) else str(fractions.Fraction(str(v))) for v in (x, y)])
        return I.truth(I.compare('==', t, 0))

    @native('long_integers')
    def long_integers(I, a, k):
        """from here on, texts of integers may exceed what int() converts"""
        I.memo['INTLIMIT'] = True

    @native('thorough')
    def thorough(I, a, k):
        return bool(getattr(I, 'tier', 'quick') == 'thorough')

    @native('decided_equal')
    def decided_equal(I, a, k):
        return I.tkey(a[0]) == I.tkey(a[1])

    @native('term')
    def term(I, a, k):
        return I.term(I.norm(a[0]), a[2:], (I.norm(a[1]),))

    @native('jsontext')
    def jsontext(I, a, k):
        return I.memo_jsontext(a[0]) if hasattr(I, 'memo_jsontext') else I.unsup('jsontext')
    I.native_module('sa', N)
