"""Abstract value model of the analysed Python program.

Constants of the source language are represented by the host constant of the
same value (None, bool, int, float, str, bytes, Ellipsis, NotImplemented,
tuple, slice).  Everything else is one of the classes below.  A value whose
content the analysis does not know is a Sym: a lattice element carrying the set
of types it may still have; what is learnt about it on a partition (its type,
its order relative to other scalars, equality, truth of an uninterpreted
predicate) is kept in the partition's fact store (sa/facts.py).
"""


class EngineSignal(BaseException):
    pass


class Prune(EngineSignal):
    """The current partition is contradictory: discard it."""


class Unsupported(EngineSignal):
    """A construct outside the analysed subset: the partition is undecided."""

    def __init__(self, msg, loc=None):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.loc = loc


class Diverges(EngineSignal):
    """The analysed program provably never leaves a loop."""

    def __init__(self, loc):
        BaseException.__init__(self, loc)
        self.loc = loc


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, obj):
        Exception.__init__(self)
        self.obj = obj


class Cls:
    __slots__ = ('name', 'qualname', 'bases', 'mro', 'ns', 'module', 'node', 'native', 'enum_members',
                 'meta', 'isexc', 'slots_', 'file', 'cache')

    def __init__(self, name, bases, ns, module=None, node=None, native=False):
        self.name = name
        self.qualname = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.native = native
        self.enum_members = None
        self.meta = None
        self.mro = c3(self)
        self.isexc = any(b.isexc for b in bases)
        self.file = None
        self.cache = {}

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def lookup_owner(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return MISSING, None

    def sub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.qualname


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent MRO for %s' % cls.name)
        out.append(cand)
        for s in seqs:
            if s[0] is cand:
                del s[0]


class _Missing:
    def __repr__(self):
        return '<missing>'

    def __bool__(self):
        return False


MISSING = _Missing()


class Fn:
    __slots__ = ('name', 'qualname', 'node', 'env', 'module', 'defaults', 'kwdefaults', 'isgen',
                 'owner', 'attrs', 'locals', 'globals_', 'nonlocals', 'doc')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class Native:
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = None

    def __repr__(self):
        return '<native %s>' % self.name


class Mod:
    __slots__ = ('name', 'ns', 'file', 'state', 'tree', 'native')

    def __init__(self, name, ns=None, file=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.file = file
        self.state = 0
        self.tree = None
        self.native = False

    def __repr__(self):
        return '<module %s>' % self.name


class Prop:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class SM:
    def __init__(self, fn):
        self.fn = fn


class CM:
    def __init__(self, fn):
        self.fn = fn


class CachedProp:
    def __init__(self, fn, name=None):
        self.fn = fn
        self.name = name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """typing constructs, type variables and other inert things"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


class Unmodelled(Opaque):
    """a name of the standard library this analysis has no model of: it may be imported, but whoever uses it gets no verdict"""


class UnionT:
    def __init__(self, members):
        self.members = members


class Obj:
    """A heap object.  d: instance attributes; p: payload of a built-in type."""
    __slots__ = ('cls', 'd', 'p', 'oid', 'base', 'tag', '__weakref__')
    counter = 0

    def __init__(self, cls, p=None):
        self.cls = cls
        self.d = {}
        self.p = p
        Obj.counter += 1
        self.oid = Obj.counter
        self.base = False
        self.tag = None

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.oid)


class Sym:
    """An unknown value.  types: the set of type names it may have.
    term: None for an input, otherwise a structural description (op, args)."""
    __slots__ = ('name', 'types', 'term', 'attr', 'sid')
    counter = 0

    def __init__(self, name, types, term=None):
        self.name = name
        self.types = frozenset(types)
        self.term = term
        self.attr = {}
        Sym.counter += 1
        self.sid = Sym.counter

    def __repr__(self):
        return '?%s' % self.name


class Env:
    __slots__ = ('vars', 'parent', 'fn', 'mod', 'iscls', 'comp', 'cls', 'closing')

    def __init__(self, parent, mod, fn=None, iscls=False, comp=False):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.fn = fn
        self.iscls = iscls
        self.comp = comp
        self.cls = None
        self.closing = False


CONST = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))


def is_const(v):
    return isinstance(v, CONST)


def deep_const(v):
    if isinstance(v, CONST):
        return True
    if type(v) is tuple:
        return all(deep_const(x) for x in v)
    if isinstance(v, slice):
        return deep_const(v.start) and deep_const(v.stop) and deep_const(v.step)
    return False
