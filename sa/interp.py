"""Abstract interpreter over the Python syntax tree.

The transfer functions below map the constructs of the source language onto the
abstract values of sa/values.py.  The analysed code is only ever *parsed*
(ast.parse); no module of the repository is imported or executed.  Where a
condition is not decided by the abstract state the interpreter splits the
partition (self.choose), and the explorer in sa/explore.py visits every
partition.
"""
import ast
import gc
import importlib
import importlib.util
import os
import re as _re
import sys
import weakref
from .values import *
from .values import MISSING
from .facts import Order, LT, EQ, GT, ALLR
from . import lang

RET, BRK, CNT = 'ret', 'brk', 'cnt'
_BRK = (BRK, None)
_CNT = (CNT, None)

PURE = ('bisect', 'heapq', 'graphlib', 'colorsys', 'keyword')
MAXDEPTH = 900      # Python's own limit is 1000 frames
MAXSTEPS = 400000

BINOPS = {
    ast.Add: ('+', '__add__', '__radd__', '__iadd__'), ast.Sub: ('-', '__sub__', '__rsub__', '__isub__'),
    ast.Mult: ('*', '__mul__', '__rmul__', '__imul__'),
    ast.Div: ('/', '__truediv__', '__rtruediv__', '__itruediv__'),
    ast.FloorDiv: ('//', '__floordiv__', '__rfloordiv__', '__ifloordiv__'),
    ast.Mod: ('%', '__mod__', '__rmod__', '__imod__'), ast.Pow: ('**', '__pow__', '__rpow__', '__ipow__'),
    ast.BitOr: ('|', '__or__', '__ror__', '__ior__'), ast.BitAnd: ('&', '__and__', '__rand__', '__iand__'),
    ast.BitXor: ('^', '__xor__', '__rxor__', '__ixor__'), ast.LShift: ('<<', '__lshift__', '__rlshift__', '__ilshift__'),
    ast.RShift: ('>>', '__rshift__', '__rrshift__', '__irshift__'), ast.MatMult: ('@', '__matmul__', '__rmatmul__', '__imatmul__'),
}
import operator as _op
HOSTOP = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod, '**': _op.pow,
          '|': _op.or_, '&': _op.and_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift, '@': _op.matmul}
CMPD = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__'),
        '==': ('__eq__', '__eq__'), '!=': ('__ne__', '__ne__')}
CMPA = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
HOSTCMP = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge, '==': _op.eq, '!=': _op.ne}
CMPMASK = {'<': LT, '<=': LT | EQ, '>': GT, '>=': GT | EQ, '==': EQ, '!=': LT | GT}

TYPECLASS = {'bool': 'num', 'int': 'num', 'float': 'num', 'str': 'str', 'NoneType': 'none', 'bytes': 'bytes',
             'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'useq': 'useq', 'umap': 'umap', 'other': 'other'}


MATCH_NONE = Opaque('match-none')


class DictP:
    __slots__ = ('e', 'slow')

    def __init__(self):
        self.e = {}
        self.slow = 0

    def copy(self):
        n = DictP()
        n.e = dict(self.e)
        n.slow = self.slow
        return n


class ObjDictP(DictP):
    """the __dict__ of an object: a live view of its attributes"""
    __slots__ = ('I', 'o')
    slow = 0

    def __init__(self, I, o):
        self.I = I
        self.o = o

    @property
    def e(self):
        return {self.I.fastkey(k): (k, v) for k, v in self.o.d.items()}

    def copy(self):
        n = DictP()
        n.e = self.e
        return n


class NsDictP(ObjDictP):
    """the namespace of a module: a live view, read only"""

    @property
    def e(self):
        return {self.I.fastkey(k): (k, v) for k, v in self.o.ns.items()}


class Frame:
    __slots__ = ('fn', 'node')

    def __init__(self, fn, node):
        self.fn = fn
        self.node = node


_fninfo_cache = {}


class _FnInfo(ast.NodeVisitor):
    def __init__(self):
        self.locals = set()
        self.globals_ = set()
        self.nonlocals = set()
        self.isgen = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)

    def visit_FunctionDef(self, n):
        self.locals.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.locals.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus targets inside comprehensions bind in the enclosing function
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.locals.add(x.target.id)
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                self.isgen = True

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.locals.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.locals.add(a.asname or a.name)

    def visit_Global(self, n):
        self.globals_.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.locals.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.locals.add(n.rest)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


def fninfo(node):
    r = _fninfo_cache.get(node)
    if r is None:
        v = _FnInfo()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v.locals.add(x.arg)
        if a.vararg:
            v.locals.add(a.vararg.arg)
        if a.kwarg:
            v.locals.add(a.kwarg.arg)
        if isinstance(node, ast.Lambda):
            v.visit(node.body)
        else:
            for s in node.body:
                v.visit(s)
        v.locals -= v.globals_ | v.nonlocals
        r = v
        _fninfo_cache[node] = r
    return r


_hasyield_cache = {}


def hasyield(node):
    r = _hasyield_cache.get(node)
    if r is None:
        r = False
        stack = [node]
        first = True
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if not first and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            first = False
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _hasyield_cache[node] = r
    return r


class Interp:
    def __init__(self, root, stubdir, driverdir):
        self.root = root
        self.stubdir = stubdir
        self.driverdir = driverdir
        self.modules = {}
        self.in_base = True
        self.active = True
        self.epoch = 0
        self.keep = []            # what is identified by its address stays alive for the partition
        self.slot = 0             # never reset: slots of dictionaries stay distinct across partitions
        self.undo = []
        self.frames = []
        self.steps = 0
        self.excstack = []
        self.prefix = []
        self.decisions = []
        self.order = Order()
        self.memo = {}
        self.base_ids = []
        self.ids = []
        self.kh = {}              # slot -> hash the key had when it was put there
        self.events = []
        self.uniq = 0
        self.ver = 0
        self.mark = 0
        self.watch = None
        self.fills = []
        self.writes = []
        self.touched = set()      # functions of the repository entered
        self.loc_trace = []
        self.files = set()
        self.missing_subpackage = set()
        from . import builtins_model
        self.B = builtins_model.install(self)
        self.EX = {
            'expr': None}
        self._ev = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith('ev_') and hasattr(ast, n[3:])}
        self._ex = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith('ex_') and hasattr(ast, n[3:])}
        from . import stdlib_model
        stdlib_model.install(self)

    # ------------------------------------------------------------------ paths
    def reset(self, prefix):
        for f in reversed(self.undo):
            f()
        self.undo = []
        if not self.in_base:
            self.keep = []
        self.epoch += 1
        if self.epoch % 64 == 0:
            gc.collect()          # never within a partition: what it finalises is of earlier ones
        self.frames = []
        self.steps = 0
        self.excstack = []
        self.prefix = prefix
        self.decisions = []
        self.order = Order()
        self.memo = {}
        self.kh = {}              # slot -> hash the key had when it was put there
        self.events = []
        self.uniq = 0
        self.ver = 0
        self.mark = 0
        self.watch = None
        self.writes = []
        self.fills = []
        self.loc_trace = []
        self.ids = list(self.base_ids)
        self.active = True

    def choose(self, label, n):
        """Split the partition n ways; return which part this one is."""
        if n == 1:
            return 0
        if self.in_base:
            raise Unsupported('case split while interpreting module bodies: %s' % label, self.loc())
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
        self.decisions.append((label, k, n))
        return k

    def fork(self, label):
        return self.choose(label, 2) == 0

    def loc(self):
        for f in reversed(self.frames):
            if f.node is not None and f.fn is not None:
                return '%s:%s in %s' % (self.relfile(f.fn.module.file), getattr(f.node, 'lineno', '?'), f.fn.qualname)
        return '?'

    def repo_loc(self):
        for f in reversed(self.frames):
            if f.node is not None and f.fn is not None and f.fn.module.file and f.fn.module.file.startswith(self.root):
                return '%s:%s in %s' % (self.relfile(f.fn.module.file), getattr(f.node, 'lineno', '?'), f.fn.qualname)
        return None

    def relfile(self, p):
        if p and p.startswith(self.root):
            return os.path.relpath(p, self.root)
        return os.path.basename(p) if p else '?'

    def unsup(self, msg):
        raise Unsupported(msg, self.loc())

    # ------------------------------------------------------------- heap utils
    def new(self, cls, p=None):
        o = Obj(cls, p)
        o.base = self.in_base
        return o

    def list(self, items):
        return self.new(self.B['list'], list(items))

    def dict(self, pairs=()):
        d = self.new(self.B['dict'], DictP())
        for k, v in pairs:
            self.dput(d, k, v)
        return d

    def set(self, items=(), frozen=False):
        s = self.new(self.B['frozenset' if frozen else 'set'], DictP())
        for x in items:
            self.dput(s, x, None)
        return s

    def recur(self, last, env):
        """called after every pass of a while loop: the same state over and over is divergence"""
        sig = [len(self.decisions), self.ver, len(self.events), self.uniq, len(env.vars)]
        self.mark = Obj.counter
        vals = [v for kv in env.vars.items() for v in kv]
        if last and last[0] == sig and len(vals) == len(last[1]) and all(a is b or (type(a) is type(b) and is_const(a) and a == b) for a, b in zip(vals, last[1])):
            n = last[2] + 1
            if n > 8 and self.repo_loc() == self.loc() and not self.in_base:
                raise Diverges(self.loc())
            return (sig, vals, n)
        return (sig, vals, 0)

    def touch(self, o, what=''):
        if type(getattr(o, 'p', None)) is NsDictP:
            self.unsup('a change of the namespace of a module')
        if o.oid <= self.mark:
            self.ver += 1
        if o.base and not self.in_base:
            d, p = dict(o.d), o.p
            if isinstance(p, list):
                p = list(p)
            elif isinstance(p, DictP):
                p = p.copy()

            def restore(o=o, d=d, p=p):
                o.d = d
                o.p = p
            self.undo.append(restore)
        if self.watch is not None and o.oid <= self.watch:
            if not isinstance(o.p, (list, DictP)) and isinstance(what, str) and o.d.get(what) is None:
                # a first assignment, such as a lazily filled cache
                self.fills.append((o, what, self.repo_loc() or self.loc()))
            else:
                self.writes.append((o, what, self.repo_loc() or self.loc()))

    def nsset(self, ns, k, v, what=None):
        self.ver += 1
        if not self.in_base:
            old = ns.get(k, MISSING)

            def restore():
                if old is MISSING:
                    ns.pop(k, None)
                else:
                    ns[k] = old
            self.undo.append(restore)
            if self.watch is not None and what is not None:
                self.writes.append((what, k, self.repo_loc() or self.loc()))
        ns[k] = v

    def exc(self, name, *args):
        c = self.B[name] if isinstance(name, str) else name
        o = self.new(c)
        o.p = tuple(args)
        o.tag = self.repo_loc() or self.loc()
        return PyExc(o)

    def rethrow(self, e):
        """A host exception raised by a constant operation -> exception of the analysed program"""
        n = type(e).__name__
        if 'Sym' in str(e) or "'Obj'" in str(e):
            self.unsup('abstract operand in a constant operation: %s' % e)
        if n in self.B:
            return self.exc(n, *[a if is_const(a) else str(a) for a in e.args])
        if isinstance(e, UnicodeError):
            return self.exc('UnicodeError', str(e))
        self.unsup('host exception %r' % e)

    # ---------------------------------------------------------------- symbols
    def norm(self, v):
        if type(v) is Sym:
            a = v.attr
            if 'val' in a:
                r = a['val']
                return self.norm(r) if type(r) is Sym else r
            if 'obj' in a:
                return a['obj']
            if v.types == _NONE:
                return None
            if v.term is not None and v.term[0] == 'lin':
                b, k, c = v.term[1]
                if 'val' in b.attr:
                    return k * b.attr['val'] + c
            elif v.term is not None and v.term[0] in _REEVAL:
                return self.reeval(v)
        return v

    def reeval(self, v):
        op, args = v.term
        new = [self.norm(x) for x in args]
        if all(x is y for x, y in zip(new, args)):
            return v
        if op == 'cat':
            r = self.cat(new)
        elif op == 'replace':
            if not all(isinstance(x, str) for x in new):
                return v
            r = new[0].replace(*new[1:])
        elif op in ('translate', 're.multi'):
            if not isinstance(new[0], str):
                return v
            m = lang.Chain([(lang.Translate if op == 'translate' else lang.Multi)(new[1])])
            st, r = m.feed(m.init, 0, new[0])
            r += m.flush(st)
        elif op == 'str':
            if not is_const(new[0]):
                return v
            r = str(new[0])
        else:
            return v
        if r is not v:
            v.attr['val'] = r
        return self.norm(r) if type(r) is Sym else r

    # ------------------------------------------------- regular-language domain
    def langof(self, s):
        s = self.norm(s)
        if isinstance(s, str):
            return lang.word(s)
        L = s.attr.get('lang')
        if L is not None:
            return L
        L = lang.ANY
        if s.term is not None:
            op, args = s.term
            try:
                if op == 'cat':
                    L = lang.concat([self.langof(x) for x in args])
                elif op == 'replace' and len(args) == 3 and isinstance(args[1], str) and isinstance(args[2], str) and args[1]:
                    L = lang.image(lang.Replace(args[1], args[2]), self.langof(args[0]))
                elif op == 'translate':
                    L = lang.image(lang.Translate(args[1]), self.langof(args[0]))
                elif op == 're.multi':
                    L = lang.image(lang.Multi(args[1]), self.langof(args[0]))
                elif op == 'str' and isinstance(args[0], Sym) and args[0].types == _INTS:
                    L = lang.canonical_int()
                    lo, hi = self.interval(args[0])
                    if lo is not None and lo >= 1:
                        L = lang.regex('[1-9][0-9]*')
                    elif lo is not None and lo >= 0:
                        L = lang.canonical_nat()
                    elif hi is not None and hi <= -1:
                        L = lang.regex('-[1-9][0-9]*')
                elif op == 'quote':
                    L = lang.quoted(self.langof(args[0]), args[1])
                elif op == 'slice' and type(args[1]) is slice and isinstance(args[1].start, int) and args[1].start > 0 \
                        and args[1].stop is None and args[1].step is None:
                    L = lang.tail(self.langof(args[0]), args[1].start)
            except lang.NoLang:
                L = lang.ANY
        return L

    def member(self, s, L, label):
        """is the unknown string in the language?  refines"""
        s = self.norm(s)
        if isinstance(s, str):
            return L.accepts(s)
        cur = self.langof(s)
        i = lang.inter(cur, L)
        if i.empty():
            return False
        if i is cur:
            return True
        ok = self.fork(label)
        self.setlang(s, i if ok else lang.diff(cur, L))
        return ok

    def setlang(self, s, L):
        s.attr['lang'] = L
        w = L.single()
        if w is not None:
            self.assume_rel(s, w, EQ)
            s.attr['val'] = w

    def strparts(self, v):
        out = []
        for p in (v.term[1] if isinstance(v, Sym) and v.term and v.term[0] == 'cat' else (v,)):
            p = self.norm(p)
            if isinstance(p, Sym) and 'as' in p.attr:
                p = p.attr['as']
            q = p.term[1] if isinstance(p, Sym) and p.term and p.term[0] == 'cat' else (p,)
            if p is not v and any(isinstance(x, Sym) and ('as' in x.attr or x.term and x.term[0] == 'cat') for x in q):
                q = self.strparts(p)
            for x in q:
                x = self.norm(x)
                if x == '' and isinstance(x, str):
                    continue
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        return out

    def chain(self, v):
        """(root, machines) of nested constant replacements"""
        ms = []
        while isinstance(v, Sym) and v.term is not None:
            op, args = v.term
            if op == 'replace' and len(args) == 3 and isinstance(args[1], str) and isinstance(args[2], str) and args[1]:
                ms.append(lang.Replace(args[1], args[2]))
            elif op == 'translate':
                ms.append(lang.Translate(args[1]))
            elif op == 're.multi':
                ms.append(lang.Multi(args[1]))
            else:
                break
            v = self.norm(args[0])
        return v, ms[::-1]

    def mkchain(self, op, args):
        """term for a replacement, simplified when the composite is the identity on the possible values"""
        t = self.term(op, args, ('str',))
        if t.attr.get('simplified'):
            return self.norm(t)
        t.attr['simplified'] = True
        root, ms = self.chain(t)
        if ms and isinstance(root, Sym):
            try:
                x = self.norm(args[0])
                one = lang.Chain(ms[-1:])
                if isinstance(x, Sym) and lang.differ(one, lang.IDENT, self.langof(x)) is None:
                    t.attr['val'] = x
                elif lang.differ(lang.Chain(ms), lang.IDENT, self.langof(root)) is None:
                    t.attr['val'] = root
            except lang.NoLang:
                pass
        return self.norm(t)

    def streq(self, a, b):
        """equality of two strings, at least one unknown: bool, or None when not decided structurally"""
        if a is b:
            return True
        pa, pb = self.strparts(a), self.strparts(b)
        n0 = len(pa) + len(pb)
        # common prefix and suffix
        while pa and pb:
            x, y = pa[0], pb[0]
            if x is y or (isinstance(x, str) and x == y):
                pa, pb = pa[1:], pb[1:]
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa = ([x[n:]] if x[n:] else []) + pa[1:]
                pb = ([y[n:]] if y[n:] else []) + pb[1:]
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if x is y or (isinstance(x, str) and x == y):
                pa, pb = pa[:-1], pb[:-1]
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa = pa[:-1] + ([x[:-n]] if x[:-n] else [])
                pb = pb[:-1] + ([y[:-n]] if y[:-n] else [])
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            r = pa or pb
            if any(isinstance(x, str) for x in r):
                return False
            if len(r) == 1 and (r[0] is a or r[0] is b):
                return None
            return all(self.eq(x, '') for x in r)
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            (rx, mx), (ry, my) = self.chain(x), self.chain(y)
            if (mx or my) and rx is ry and isinstance(rx, Sym):
                try:
                    if lang.differ(lang.Chain(mx), lang.Chain(my), self.langof(rx)) is None:
                        return True
                except lang.NoLang:
                    pass
            elif mx and my and not isinstance(rx, str) and not isinstance(ry, str):
                # the same injective function on both sides
                try:
                    if lang.differ(lang.Chain(mx), lang.Chain(my), lang.ANY) is None and self.injective(mx):
                        return self.eq(rx, ry)
                except lang.NoLang:
                    pass
        if lang.inter(lang.concat([self.langof(x) for x in pa]), lang.concat([self.langof(x) for x in pb])).empty():
            return False
        # unambiguous separators
        seps = {c for p in pa + pb if isinstance(p, str) for c in p}
        for c in sorted(seps):
            no = lang.allof(lang.cs_neg(((ord(c), ord(c)),)))
            if all(isinstance(p, str) or lang.subset(self.langof(p), no) for p in pa + pb):
                sa, sb = self.segs(pa, c), self.segs(pb, c)
                if len(sa) != len(sb):
                    return False
                return all(self.eq(self.cat(x), self.cat(y)) for x, y in zip(sa, sb))
        if len(pa) + len(pb) < n0 or len(pa) == 1 and len(pb) == 1 and (pa[0] is not a or pb[0] is not b):
            if not (len(pa) == 1 and len(pb) == 1 and {id(pa[0]), id(pb[0])} == {id(a), id(b)}):
                x, y = self.cat(pa), self.cat(pb)
                if not (x is a and y is b):
                    return self.eq(x, y)
        return None

    def injective(self, ms):
        """is the replacement chain injective?  decided by exhibiting its inverse"""
        try:
            inv = [lang.inverse(m) for m in reversed(ms)]
            return lang.differ(lang.Chain(list(ms) + inv), lang.IDENT, lang.ANY) is None
        except lang.NoLang:
            return False

    def segs(self, parts, c):
        out = [[]]
        for p in parts:
            if isinstance(p, str):
                bits = p.split(c)
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            else:
                out[-1].append(p)
        return out

    def splitstr(self, s, sep):
        """s.split(sep) for a one-character constant separator"""
        no = lang.allof(lang.cs_neg(((ord(sep), ord(sep)),)))
        pre = []
        for p in self.strparts(s):
            if not isinstance(p, str) and not lang.subset(self.langof(p), no):
                # split the unknown part by its number of separators
                if p.term is not None and p.term[0] in ('replace', 'translate') and 'as' not in p.attr:
                    pass
                L = self.langof(p)
                opts = []
                for k in range(0, 4):
                    R, sg = lang.segments(L, sep, k)
                    if not R.empty():
                        opts.append((k, R, sg))
                if not opts:
                    raise Prune()
                i = self.choose('number of %r in %s' % (sep, p.name), len(opts))
                k, R, sg = opts[i]
                self.relabel('number of %r in %s=%d' % (sep, p.name, k))
                self.setlang(p, R)
                if k == 0:
                    pre.append(self.norm(p))
                    continue
                toks = []
                for j, L in enumerate(sg):
                    t = Sym('%s|%d' % (p.name, j), ('str',))
                    self.setlang(t, L)
                    toks.append(self.norm(t))
                    toks.append(sep)
                c = self.cat(toks[:-1])
                if 'val' not in p.attr:
                    if isinstance(c, str):
                        p.attr['val'] = c
                    else:
                        p.attr['as'] = c
                pre.extend(toks[:-1])
            else:
                pre.append(p)
        return [self.cat(x) for x in self.segs(pre, sep)]

    def term(self, op, args, types, name=None):
        """A memoised structural term: equal operation on equal operands is the same unknown."""
        key = ('T', op, tuple(self.tkey(a) for a in args))
        s = self.memo.get(key)
        if s is None:
            s = Sym(name or '%s(%s)' % (op, ','.join(self.show(a) for a in args)), types, (op, tuple(args)))
            self.memo[key] = s
        return s

    def identity_number(self, v):
        """id(): different for different objects that are alive; that of an object
        that is gone may or may not be given to another one of its type."""
        v = self.norm(v)
        if isinstance(v, Obj) and type(v.tag) is not Sym:
            for i, (ref, cls, n) in enumerate(self.ids):
                if ref() is v:
                    return n
            for i, (ref, cls, n) in enumerate(self.ids):
                if ref() is None and cls is v.cls and not self.in_base:
                    if self.fork('id() of a %s that is gone is given to another' % cls.name):
                        self.ids[i] = (weakref.ref(v), cls, n)
                        return n
                    break
            n = 0x7f0000000000 + 64 * len(self.ids)
            self.ids.append((weakref.ref(v), v.cls, n))
            if self.in_base:
                self.base_ids.append(self.ids[-1])
            return n
        k = self.tkey(v)
        n = self.memo.get(('ID', k))
        if n is None:
            self.uniq += 1
            n = self.memo[('ID', k)] = 0x7e0000000000 + 64 * self.uniq
        return n

    def tkey(self, a):
        a = self.norm(a)
        if type(a) is Sym:
            return ('s', a.sid)
        if isinstance(a, Obj):
            if type(a.tag) is Sym:
                return ('s', a.tag.sid)
            if a.cls is self.B['list'] and isinstance(a.p, list):
                return ('l', tuple(self.tkey(x) for x in a.p))
            return ('o', a.oid)
        if type(a) is tuple:
            return ('t', tuple(self.tkey(x) for x in a))
        if isinstance(a, slice):
            return ('sl', self.tkey(a.start), self.tkey(a.stop), self.tkey(a.step))
        if is_const(a):
            return ('c', type(a).__name__, a)
        self.keep.append(a)
        return ('i', id(a))

    def pred(self, label, *args):
        """Uninterpreted predicate: one truth value per argument tuple."""
        key = ('P', label, tuple(self.tkey(a) for a in args))
        r = self.memo.get(key)
        if r is None:
            r = self.fork('%s(%s)' % (label, ', '.join(self.show(a) for a in args)))
            self.memo[key] = r
        return r

    def sym(self, name, *types):
        return Sym(name, types)

    def pick_type(self, s):
        """Narrow an unknown to one type (case split)."""
        if len(s.types) > 1:
            ts = sorted(s.types)
            k = self.choose('type(%s)' % s.name, len(ts))
            s.types = frozenset([ts[k]]) if True else s.types
            # label with the type picked
            self.relabel('type(%s)=%s' % (s.name, ts[k]))
        (t,) = s.types
        return t

    def relabel(self, text):
        if self.decisions:
            l, k, n = self.decisions[-1]
            self.decisions[-1] = (text, k, n)

    def narrow(self, s, types, label):
        """Is the unknown's type in `types`?  Narrows."""
        inn = s.types & types
        out = s.types - types
        if not inn:
            return False
        if not out:
            return True
        if self.fork('%s is %s' % (s.name, label)):
            s.types = frozenset(inn)
            return True
        s.types = frozenset(out)
        return False

    def concretize_bool(self, s):
        if 'val' not in s.attr:
            s.attr['val'] = self.fork('value of %s' % s.name)
        return s.attr['val']

    def onode(self, v):
        """order-domain node of a scalar"""
        if type(v) is Sym:
            if v.term and v.term[0] == 'lin':
                base, k, c = v.term[1]
                if k == 1:
                    return ('lin', base, c)
                return v
            return v
        return v

    def rel(self, a, b, mask, label):
        """Is relation(a,b) within mask?  a, b scalars, at least one unknown."""
        # -x + c ? y  with y constant
        for (p, q, flip) in ((a, b, False), (b, a, True)):
            if type(p) is Sym and p.term and p.term[0] == 'lin' and p.term[1][1] == -1 and not isinstance(q, Sym):
                base, _, c = p.term[1]
                m = mask
                # p ? q  <=> c - base ? q <=> base inv? c - q
                if flip:
                    m = _flip(m)
                return self.rel(base, c - q, _flip(m), label)
        if type(a) is Sym and type(b) is Sym and a.term and b.term and a.term[0] == 'lin' and b.term[0] == 'lin' \
                and a.term[1][1] == -1 and b.term[1][1] == -1:
            return self.rel(self.lin(b.term[1][0], 1, -b.term[1][2]), self.lin(a.term[1][0], 1, -a.term[1][2]), mask, label)
        # integer offset against an integer constant: x + c ? k  <=>  x ? k - c
        for (p, q, flip) in ((a, b, False), (b, a, True)):
            if type(p) is Sym and p.term and p.term[0] == 'lin' and type(q) is int and type(p.term[1][2]) is int \
                    and p.term[1][0].types == _INTS:
                base, k, c = p.term[1]
                m = mask if not flip else _flip(mask)
                base = self.norm(base)
                if type(base) is int:
                    d = base + c
                    return bool(m & (LT if d < q else EQ if d == q else GT))
                return self.rel(base, q - c, m, label)
        x, y = self.onode(a), self.onode(b)
        poss = self.order.possible(x, y) & self.bounded(a, b)
        if poss & mask == 0:
            return False
        if poss & ~mask & 7 == 0:
            return True
        ok = self.fork(label)
        want = (poss & mask) if ok else (poss & ~mask & 7)
        if not self.order.assume(x, y, want):
            raise Prune()
        self.tighten(a)
        self.tighten(b)
        return ok

    def interval(self, s):
        """integer bounds of an unknown integer implied by its order relations to constants"""
        i = self.order.idx.get(('s', s.sid))
        lo, hi = None, None
        if i is None:
            return lo, hi
        ne = set()
        row = self.order.m[i]
        for j, (k, c, isc) in enumerate(self.order.nodes):
            if isc and type(c) in (int, float) and c == c and abs(c) != float('inf'):
                r = row[j]
                if r & LT == 0:
                    v = int(c) + 1 if r == GT and c == int(c) else int(-(-c // 1))
                    lo = v if lo is None or v > lo else lo
                if r & GT == 0:
                    v = int(c) - 1 if r == LT and c == int(c) else int(c // 1)
                    hi = v if hi is None or v < hi else hi
                if r & EQ == 0 and c == int(c):
                    ne.add(int(c))
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi

    def bounded(self, a, b):
        m = 7
        if type(a) is Sym and type(b) is Sym:
            if a.types == b.types == _INTS:
                (al, ah), (bl, bh) = self.interval(a), self.interval(b)
                if al is not None and bh is not None:
                    m &= GT if al > bh else GT | EQ if al == bh else 7
                if ah is not None and bl is not None:
                    m &= LT if ah < bl else LT | EQ if ah == bl else 7
            return m
        for (p, q, flip) in ((a, b, False), (b, a, True)):
            if type(p) is Sym and p.types == _INTS and type(q) in (int, float):
                lo, hi = self.interval(p)
                r = 7
                if lo is not None:
                    if lo > q:
                        r &= GT
                    elif lo == q:
                        r &= GT | EQ
                if hi is not None:
                    if hi < q:
                        r &= LT
                    elif hi == q:
                        r &= LT | EQ
                m &= _flip(r) if flip else r
        return m

    def tighten(self, s):
        if type(s) is not Sym or s.types != _INTS or s.term is not None or 'val' in s.attr:
            return
        lo, hi = self.interval(s)
        if lo is not None and hi is not None:
            if lo > hi:
                raise Prune()
            if lo == hi:
                self.order.assume(s, lo, EQ)
                s.attr['val'] = lo

    def assume_rel(self, a, b, mask):
        x, y = self.onode(a), self.onode(b)
        if not self.order.assume(x, y, mask):
            raise Prune()
        self.tighten(a)
        self.tighten(b)

    def lin(self, base, k, c):
        base = self.norm(base)
        if not isinstance(base, Sym):
            return k * base + c
        if k == 1 and c == 0:
            return base
        key = ('L', base.sid, k, c)
        s = self.memo.get(key)
        if s is None:
            nm = base.name if k == 1 else '-%s' % base.name
            s = Sym('%s%+d' % (nm, c) if isinstance(c, int) else '%s+%s' % (nm, c), base.types, ('lin', (base, k, c)))
            self.memo[key] = s
        return s

    def linparts(self, v):
        if type(v) is Sym:
            if v.term and v.term[0] == 'lin':
                return v.term[1]
            return (v, 1, 0)
        return None

    def integral(self, s):
        s = self.norm(s)
        if not isinstance(s, Sym):
            return float(s).is_integer() if not isinstance(s, (int,)) else True
        if s.types <= _INTS:
            return True
        t = self.pick_type(s)
        if t == 'int':
            return True
        if t == 'bool':
            self.concretize_bool(s)
            return True
        return self.pred('integral', s)

    def symlen(self, s):
        n = self.term('len', [s], ('int',))
        if 'nn' not in n.attr:
            n.attr['nn'] = True
            self.assume_rel(n, 0, EQ | GT)
        return n

    def children(self, s):
        """Lazy content of an unknown collection: None, or list of items / (key, value) pairs."""
        t = self.pick_type(s)
        if 'kids' not in s.attr:
            n = self.choose('len(%s)' % s.name, s.attr.get('maxlen', 2) + 1)
            self.relabel('len(%s)=%d' % (s.name, n))
            depth = s.attr.get('depth', 2)
            jt = s.attr.get('elem_types', ALLJSON)
            if depth <= 1:
                jt = tuple(x for x in jt if x not in COLLECTIONS)
            if t in ('dict', 'umap'):
                ks = [Sym('%s.k%d' % (s.name, i), ('str',)) for i in range(n)]
                for i in range(n):
                    for j in range(i):
                        self.assume_rel(ks[i], ks[j], LT | GT)
                s.attr['kids'] = [(k, Sym('%s.v%d' % (s.name, i), jt)) for i, k in enumerate(ks)]
            else:
                s.attr['kids'] = [Sym('%s[%d]' % (s.name, i), jt) for i in range(n)]
            for c in s.attr['kids']:
                c = c[1] if type(c) is tuple else c
                c.attr['depth'] = depth - 1
                for a in ('maxlen', 'elem_types', 'finite', 'plain'):
                    if a in s.attr:
                        c.attr[a] = s.attr[a]
        return s.attr['kids']

    # ------------------------------------------------------------------- show
    def show(self, v, depth=2):
        v = self.norm(v)
        if is_const(v):
            return repr(v)
        if type(v) is tuple:
            return '(%s)' % ', '.join(self.show(x, depth - 1) for x in v)
        if isinstance(v, Sym):
            return '?' + v.name
        if isinstance(v, Obj):
            if depth <= 0:
                return '<%s>' % v.cls.name
            if isinstance(v.p, list):
                return '[%s]' % ', '.join(self.show(x, depth - 1) for x in v.p[:8])
            if isinstance(v.p, DictP):
                if v.cls.sub(self.B['dict']):
                    return '{%s}' % ', '.join('%s: %s' % (self.show(k, depth - 1), self.show(x, depth - 1))
                                              for k, x in list(v.p.e.values())[:8])
                return '{%s}' % ', '.join(self.show(k, depth - 1) for k, x in list(v.p.e.values())[:8])
            if v.cls.isexc:
                return '%s%s' % (v.cls.name, self.show(v.p or (), depth - 1))
            if 'data' in v.d and depth > 0:
                return '%s(%s)' % (v.cls.name, self.show(v.d['data'], depth - 1))
            if '_keys' in v.d:
                return '%s(%s)' % (v.cls.name, self.show(v.d['_keys'], depth - 1))
            return '<%s>' % v.cls.name
        if isinstance(v, slice):
            return 'slice(%s,%s,%s)' % (self.show(v.start), self.show(v.stop), self.show(v.step))
        return repr(v)

    # ---------------------------------------------------------------- types
    def typeof(self, v):
        v = self.norm(v)
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            return self.symcls(self.pick_type(v), v)
        n = _HOSTTYPE.get(type(v))
        if n is None:
            self.unsup('type of %r' % (v,))
        return self.B[n]

    def symcls(self, t, s=None):
        if t in ('useq', 'umap', 'other'):
            return self.B[t]
        return self.B[t]

    def isinstance_(self, v, c):
        v = self.norm(v)
        c = self.norm(c)
        if type(c) is tuple:
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, UnionT):
            return any(self.isinstance_(v, self.B['NoneType'] if x is None else x) for x in c.members)
        if isinstance(c, Opaque):
            self.gap(c)
            raise self.exc('TypeError', 'isinstance() arg 2 must be a type')
        if not isinstance(c, Cls):
            raise self.exc('TypeError', 'isinstance() arg 2 must be a type')
        if isinstance(v, Sym):
            yes = frozenset(t for t in v.types if self.subclass(self.symcls(t), c))
            return self.narrow(v, yes, c.name)
        return self.subclass(self.typeof(v), c)

    def subclass(self, a, c):
        if c in a.mro:
            return True
        # virtual subclassing (collections.abc registration and structural hooks)
        reg = self.virtual.get(c.name) if c.native or c.module is None or c.module.native else None
        if reg is not None and self.abc.get(c.name) is c:
            for k in a.mro:
                if k.native and k.name in reg and self.B.get(k.name) is k:
                    return True
                # registered through one of its sub-ABCs
                for sub in self.abcsubs.get(c.name, ()):
                    if self.abc.get(sub) is k:
                        return True
            meths = self.structural.get(c.name)
            if meths:
                for m in meths:
                    x = a.lookup(m)
                    if x is MISSING or x is None:
                        return False
                return True
        return False

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.norm(v)
        if isinstance(v, Unmodelled):
            self.gap(v)
        if isinstance(v, CONST):
            return bool(v)
        if type(v) is tuple:
            return len(v) > 0
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__')
            if m is not MISSING and m is not None:
                r = self.norm(self.call_method(v, m, []))
                if isinstance(r, Sym):
                    return self.truth(r)
                if not isinstance(r, bool):
                    raise self.exc('TypeError', '__bool__ should return bool')
                return r
            m = v.cls.lookup('__len__')
            if m is not MISSING and m is not None:
                r = self.norm(self.call_method(v, m, []))
                return self.truth(r)
            return True
        if isinstance(v, Sym):
            t = self.pick_type(v)
            if t == 'NoneType':
                return False
            if t == 'bool':
                return self.concretize_bool(v)
            if t in ('int', 'float'):
                return self.rel(v, 0, LT | GT, '%s != 0' % v.name)
            if t == 'str':
                return not self.eq(v, '')
            if t in ('list', 'tuple', 'dict', 'useq', 'umap'):
                return len(self.children(v)) > 0
            return True
        return True

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b as a truth value (host bool)."""
        return self.truth(self.compare('==', a, b))

    def same(self, a, b):
        """a is b"""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
                return a is b
            if is_const(a) and is_const(b):
                return type(a) is type(b) and a == b
            if type(a) is tuple and type(b) is tuple:
                return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b)) and len(a) == 0
            return False
        if sb and not sa:
            a, b, sa, sb = b, a, sb, sa
        if not sb:
            # unknown vs known
            if b is None:
                return self.narrow(a, _NONE, 'None')
            if b is True or b is False:
                if not self.narrow(a, _BOOL, 'bool'):
                    return False
                return self.concretize_bool(a) is b
            if b is Ellipsis or b is NotImplemented:
                return False
            if isinstance(b, (int, float, str)):
                t = type(b).__name__
                if t not in a.types:
                    return False
                return self.eq(a, b)
            return False
        if not (a.types & b.types):
            return False
        if not a.types & COLLECTIONS and not b.types & COLLECTIONS and 'other' not in a.types \
                and ('s', a.sid) in self.order.idx and ('s', b.sid) in self.order.idx and not self.order.possible(a, b) & EQ:
            return False
        r = self.pred('is', *sorted((a, b), key=lambda s: s.sid))
        if r and a.types <= _STRINT and b.types <= _STRINT and a.types == b.types and len(a.types) == 1:
            self.assume_rel(a, b, EQ)
        return r

    def key_eq(self, a, b):
        if self.same_quick(a, b):
            return True
        ha, hb = self.hash_term(a), self.hash_term(b)
        if self.hash_known(ha) and self.hash_known(hb) and ha != hb:
            return False
        return self.eq(a, b)

    def same_quick(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b
        return False

    def hash_known(self, h):
        if type(h) is tuple:
            return all(self.hash_known(x) for x in h) if h and h[0] != 's' else False
        return True

    def hash_term(self, v):
        v = self.norm(v)
        if isinstance(v, Sym):
            t = self.pick_type(v)
            if t in ('list', 'dict'):
                raise self.exc('TypeError', 'unhashable type: %r' % t)
            if t == 'bool':
                return ('c', self.concretize_bool(v))
            if v.term and v.term[0] == 'hash':
                return v.term[1][0].h if isinstance(v.term[1][0], _HK) else ('s', v.sid)
            i = self.order.idx.get(('s', v.sid))
            if i is not None:
                best = ('s', v.sid)
                for j, (kk, c, isc) in enumerate(self.order.nodes):
                    if self.order.m[i][j] == EQ:
                        if isc:
                            return ('c', c)
                        if kk[0] == 's' and kk[1] < best[1]:
                            best = kk
                if v.types == _INTS:
                    lo, hi = self.interval(v)
                    if lo is not None and lo == hi:
                        return ('c', lo)
                return best
            return ('s', v.sid)
        if is_const(v):
            return ('c', v)
        if type(v) is tuple:
            return ('t',) + tuple(self.hash_term(x) for x in v)
        if isinstance(v, Obj):
            m = v.cls.lookup('__hash__')
            if m is None:
                raise self.exc('TypeError', 'unhashable type: %r' % v.cls.name)
            if m is MISSING or isinstance(m, Native) and m.name == 'object.__hash__':
                if v.cls.sub(self.B['frozenset']):
                    return ('fs',) + tuple(sorted((repr(self.hash_term(k)) for k, _ in v.p.e.values())))
                if is_const(v.p) and v.p is not None and v.cls.sub(self.B['str']) or isinstance(v.p, int) and v.cls.sub(self.B['int']):
                    return ('c', v.p)
                return ('i', v.oid)
            r = self.norm(self.call_method(v, m, []))
            if isinstance(r, Sym):
                if r.term and r.term[0] == 'hash':
                    return r.term[1][0].h
                return ('s', r.sid)
            if is_const(r):
                return ('c', r)
            self.unsup('hash of %r' % v)
        if isinstance(v, slice):
            raise self.exc('TypeError', 'unhashable type: slice')
        self.keep.append(v)
        return ('i', id(v))

    def hash_value(self, v):
        h = self.hash_term(v)
        key = ('H', h)
        s = self.memo.get(key)
        if s is None:
            s = Sym('hash(%s)' % self.show(v), ('int',), ('hash', (_HK(h),)))
            self.memo[key] = s
        return s

    def fastkey(self, k):
        if is_const(k):
            return ('c', k)
        if type(k) is tuple:
            fs = [self.fastkey(self.norm(x)) for x in k]
            if any(f is None for f in fs):
                return None
            return ('t', tuple(fs))
        if isinstance(k, Sym):
            return None
        if isinstance(k, Obj):
            m = k.cls.lookup('__hash__')
            e = k.cls.lookup('__eq__')
            if isinstance(e, Native) and isinstance(m, Native):
                if is_const(k.p) and k.p is not None and k.cls.sub(self.B['str']):
                    return ('c', k.p)
                if isinstance(k.p, int) and k.cls.sub(self.B['int']):
                    return ('c', k.p)
                if k.cls.sub(self.B['frozenset']):
                    return None
                if m.name == 'object.__hash__':
                    return ('i', k.oid)
            return None
        if isinstance(k, slice):
            raise self.exc('TypeError', 'unhashable type: slice')
        self.keep.append(k)
        return ('x', id(k))

    def dfind(self, d, key):
        """hostkey of key in DictP-backed object, or None"""
        p = d.p
        key = self.norm(key)
        fk = self.fastkey(key)
        if fk is not None:
            if fk in p.e:
                return fk
            if not p.slow:
                return None
        h = self.hash_term(key)  # raises for unhashables
        known = self.hash_known(h)
        self.lasth = h if known else None
        for hk, (k, _) in list(p.e.items()):
            if fk is not None and hk[0] != 'o':
                continue
            if self.same_quick(k, key):
                return hk
            if known:
                kh = self.kh.get(hk)
                if kh is None:
                    kh = self.hash_term(k)
                    if not self.hash_known(kh):
                        kh = h
                if kh != h:
                    continue
            if self.eq(k, key):
                return hk
        return None

    def dput(self, d, key, val):
        key = self.norm(key)
        self.lasth = None
        hk = self.dfind(d, key)
        p = d.p
        if type(p) is ObjDictP:
            if type(key) is not str:
                self.unsup('an attribute name that is not a constant')
            self.touch(p.o, key)
            p.o.d[key] = val
            return
        if hk is not None:
            p.e[hk] = (p.e[hk][0], val)
            return
        fk = self.fastkey(key)
        if fk is None:
            self.uniq += 1
            self.slot += 1
            fk = ('o', self.slot)
            if self.lasth is not None:
                self.kh[fk] = self.lasth
            p.slow += 1
        p.e[fk] = (key, val)

    def dget(self, d, key):
        hk = self.dfind(d, key)
        if hk is None:
            return MISSING
        return d.p.e[hk][1]

    def ddel(self, d, hk):
        if type(d.p) is ObjDictP:
            k = d.p.e[hk][0]
            self.touch(d.p.o, k)
            del d.p.o.d[k]
            return
        if hk[0] == 'o':
            d.p.slow -= 1
        del d.p.e[hk]

    # -------------------------------------------------------------- compare
    def compare(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        sa, sb = type(a) is Sym, type(b) is Sym
        if not sa and not sb:
            if is_const(a) and is_const(b) or deep_const(a) and deep_const(b):
                try:
                    return HOSTCMP[op](a, b)
                except TypeError as e:
                    raise self.rethrow(e)
            if type(a) is tuple and type(b) is tuple:
                return self.seqcmp(op, a, b)
        return self.richcmp(op, a, b)

    def seqcmp(self, op, a, b):
        if op in ('==', '!='):
            r = len(a) == len(b) and all(self.same_quick(x, y) or self.eq(x, y) for x, y in zip(a, b))
            return r if op == '==' else not r
        for x, y in zip(a, b):
            if not (self.same_quick(x, y) or self.eq(x, y)):
                return self.compare(op, x, y)
        return HOSTCMP[op](len(a), len(b))

    def richcmp(self, op, a, b):
        d, rd = CMPD[op]
        tried = False
        if isinstance(a, Obj) and isinstance(b, Obj) and b.cls is not a.cls and b.cls.sub(a.cls):
            m = b.cls.lookup(rd)
            if m is not MISSING and m is not None and m is not a.cls.lookup(rd):
                r = self.norm(self.call_method(b, m, [a]))
                if r is not NotImplemented:
                    return r
                tried = True
        r = self.cmp_slot(op, d, a, b)
        if r is not NotImplemented:
            return r
        if not tried:
            r = self.cmp_slot({'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op], rd, b, a)
            if r is not NotImplemented:
                return r
        if op in ('==', '!='):
            r = isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and self.same(a.self, b.self) or self.same(a, b)
            return r is (op == '==')
        raise self.exc('TypeError', "'%s' not supported between instances" % op)

    def cmp_slot(self, op, d, a, b):
        if isinstance(a, Obj):
            m = a.cls.lookup(d)
            if m is not MISSING and m is not None:
                return self.norm(self.call_method(a, m, [b]))
            return NotImplemented
        if isinstance(a, Sym):
            return self.symcmp(op, a, b)
        if isinstance(b, Sym) and (is_const(a) or type(a) is tuple):
            return self.symcmp(op, a, b)
        if is_const(a) and is_const(b):
            return getattr(a, d)(b) if hasattr(a, d) else NotImplemented
        return NotImplemented

    def symcmp(self, op, a, b):
        """a, b: at least one unknown; the other unknown/const/tuple/Obj"""
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            s = b if isinstance(a, Obj) else a
            # builtin containers against unknown containers
            if o.cls.native and o.cls.name in ('list', 'dict') and op in ('==', '!='):
                if not self.narrow(s, frozenset([o.cls.name]), o.cls.name):
                    return op == '!='
                r = self.eq(self.materialize(s), o)
                return r if op == '==' else not r
            return NotImplemented
        if type(a) is tuple or type(b) is tuple:
            return NotImplemented
        if op in ('==', '!='):
            if a is b:
                return op == '=='
        ca, cb = self.tclasses(a), self.tclasses(b)
        common = ca & cb
        if not common:
            return NotImplemented
        if len(ca) > 1 or len(cb) > 1:
            # split on comparable classes
            for s, c in ((a, ca), (b, cb)):
                if isinstance(s, Sym) and len(c) > 1:
                    self.pick_class(s)
            return self.symcmp(op, a, b) if not (self.norm(a) is None or self.norm(b) is None) else self.compare(op, a, b)
        (c,) = common
        if c == 'none':
            return NotImplemented if op not in ('==', '!=') else op == '=='
        if c == 'num':
            for s in (a, b):
                if isinstance(s, Sym) and 'bool' in s.types:
                    if self.narrow(s, _BOOL, 'bool'):
                        self.concretize_bool(s)
            a, b = self.norm(a), self.norm(b)
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return HOSTCMP[op](a, b)
            return self.rel(a, b, CMPMASK[op], '%s %s %s' % (self.show(a), op, self.show(b)))
        if c == 'str':
            if op in ('==', '!='):
                q = self.str_eq(a, b)
                return q if op == '==' else not q
            return self.rel(a, b, CMPMASK[op], '%s %s %s' % (self.show(a), op, self.show(b)))
        if op in ('==', '!='):
            if c in ('list', 'dict', 'tuple') and isinstance(a, Sym) and isinstance(b, Sym):
                r = self.eq(self.materialize(a), self.materialize(b))
            else:
                x, y = sorted((a, b), key=lambda s: s.sid if isinstance(s, Sym) else -1)
                r = self.pred('eq', x, y)
            return r if op == '==' else not r
        return NotImplemented

    def materialize(self, s):
        """heap object view of an unknown list/dict (memoised)"""
        t = self.pick_type(s)
        if 'obj' not in s.attr:
            kids = self.children(s)
            if t == 'list':
                s.attr['obj'] = self.list(kids)
                s.attr['obj'].tag = s
            elif t == 'tuple':
                s.attr['obj'] = tuple(kids)
            elif t == 'dict':
                s.attr['obj'] = self.dict(kids)
                s.attr['obj'].tag = s
            else:
                self.unsup('content of %s' % t)
        return s.attr['obj']

    def intof(self, x):
        """what int() makes of a text, when that has been asked (or the text is known)"""
        if isinstance(x, str):
            return int(x) if len(x) < 1000 and lang.canonical_nat().accepts(x) else None
        r = self.memo.get(('T', 'int', (('s', x.sid),)))
        return None if r is None else self.norm(r)

    def str_eq(self, a, b):
        if self.order.possible(a, b) & EQ == 0:
            return False
        q = self.streq(a, b)
        if q is not None:
            return q
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            if not self.langof(a).accepts(b):
                return False
        ia, ib = self.intof(a), self.intof(b)
        both = ia is not None and ib is not None
        if both:
            # int() is a function, and one-to-one on canonical numerals
            if ia is ib:
                return True
            can = lang.canonical_nat()
            inj = lang.subset(self.langof(a), can) and (can.accepts(b) if isinstance(b, str) else lang.subset(self.langof(b), can))
            x, y = self.onode(ia), self.onode(ib)
            poss = self.order.possible(x, y) & self.bounded(ia, ib) if isinstance(ia, Sym) or isinstance(ib, Sym) else (EQ if ia == ib else LT | GT)
            if not poss & EQ:
                return False
            if inj and poss == EQ:
                return True
        elif not isinstance(b, str) and a.attr.get('int?') is not None and b.attr.get('int?') is not None and a.attr['int?'] != b.attr['int?']:
            return False
        r = self.rel(a, b, EQ, '%s == %s' % (self.show(a), self.show(b)))
        if both and (isinstance(ia, Sym) or isinstance(ib, Sym)):
            if r:
                self.assume_rel(ia, ib, EQ)
            elif inj:
                self.assume_rel(ia, ib, LT | GT)
        if isinstance(b, str):
            if r:
                a.attr['val'] = b
            elif 'lang' in a.attr:
                self.setlang(a, lang.diff(a.attr['lang'], lang.word(b)))
        elif r and a.term is None and b.term is None and 'as' not in a.attr and 'as' not in b.attr and len(a.types) == 1 and len(b.types) == 1:
            if 'lang' in a.attr or 'lang' in b.attr:
                L = lang.inter(self.langof(a), self.langof(b))
                self.setlang(a, L)
                if 'val' in a.attr:
                    b.attr['val'] = a.attr['val']
                    return r
            for k, v in b.attr.items():
                a.attr.setdefault(k, v)
            b.attr['val'] = a
        return r

    def str_distinct_old(self, a, b):
        """cheap syntactic refutation of equality of structured strings"""
        pa = a.term[1] if isinstance(a, Sym) and a.term and a.term[0] == 'cat' else (a,)
        pb = b.term[1] if isinstance(b, Sym) and b.term and b.term[0] == 'cat' else (b,)
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return True
        if isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if n and pa[-1][-n:] != pb[-1][-n:]:
                return True
        # constant against a longer constant skeleton
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and isinstance(x[0], str):
                if sum(len(p) for p in y if isinstance(p, str)) > len(x[0]):
                    return True
        # same skeleton, one differing unknown part
        if len(pa) == len(pb) and len(pa) > 1:
            diff = [(x, y) for x, y in zip(pa, pb) if not self.same_quick(x, y)]
            if len(diff) == 1 and all(isinstance(z, (str, Sym)) for z in diff[0]):
                x, y = diff[0]
                if isinstance(x, str) and isinstance(y, str):
                    return True
                return not self.eq(x, y)
        return False

    def tclasses(self, v):
        if isinstance(v, Sym):
            return {TYPECLASS.get(t, t) for t in v.types}
        n = _HOSTTYPE.get(type(v))
        return {TYPECLASS.get(n, n)}

    def pick_class(self, s):
        cs = sorted(self.tclasses(s))
        if len(cs) > 1:
            k = self.choose('kind(%s)' % s.name, len(cs))
            s.types = frozenset(t for t in s.types if TYPECLASS.get(t, t) == cs[k])
            self.relabel('kind(%s)=%s' % (s.name, cs[k]))
        return cs[0] if len(cs) == 1 else cs[k]

    # ------------------------------------------------------------------ binop
    def binop(self, opinfo, a, b, inplace=False):
        sym, d, rd, idn = opinfo
        a, b = self.norm(a), self.norm(b)
        if is_const(a) and is_const(b) or (deep_const(a) and deep_const(b)):
            try:
                return HOSTOP[sym](a, b)
            except Exception as e:
                if sym == '|' and (a is None or b is None):
                    return Opaque('union')
                raise self.rethrow(e)
        if isinstance(a, Obj):
            if inplace:
                m = a.cls.lookup(idn)
                if m is not MISSING and m is not None:
                    r = self.norm(self.call_method(a, m, [b]))
                    if r is not NotImplemented:
                        return r
            m = a.cls.lookup(d)
            if m is not MISSING and m is not None:
                r = self.norm(self.call_method(a, m, [b]))
                if r is not NotImplemented:
                    return r
        if isinstance(b, Obj):
            m = b.cls.lookup(rd)
            if m is not MISSING and m is not None:
                r = self.norm(self.call_method(b, m, [a]))
                if r is not NotImplemented:
                    return r
        if type(a) is tuple and type(b) is tuple and sym == '+':
            return a + b
        if type(a) is tuple and isinstance(b, int) and sym == '*':
            return a * b
        if sym == '|' and isinstance(a, (Cls, UnionT)) and (isinstance(b, (Cls, UnionT)) or b is None):
            ms = []
            for x in (a, b):
                ms.extend(x.members if isinstance(x, UnionT) else [x])
            return UnionT(ms)
        self.gap(a)
        self.gap(b)
        if sym == '|' and (isinstance(a, Opaque) or isinstance(b, Opaque)):
            return Opaque('union')
        if sym == '%' and isinstance(a, str) and isinstance(b, Obj):
            r = self.percent(a, b)
            if r is not None:
                return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = self.symarith(sym, a, b)
            if r is not NotImplemented:
                return r
        pa, pb = self.scalar(a), self.scalar(b)
        if pa is not a or pb is not b:
            return self.binop(opinfo, pa, pb)
        raise self.exc('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (sym, self.show(a), self.show(b)))

    def scalar(self, v):
        """the number or string an instance of a subclass of int, float or str is"""
        if isinstance(v, Obj) and (is_const(v.p) or isinstance(v.p, Sym)) and any(v.cls.sub(self.B[t]) for t in ('int', 'str', 'float')):
            return v.p
        return v

    def percent(self, a, b):
        """'...%(key)s...' % mapping and '...%s...' % one object"""
        parts, used = [], 0
        pieces = _re.split(r'(%(?:\([^)]*\))?[srd%])', a)
        for i, x in enumerate(pieces):
            if i % 2 == 0:
                if '%' in x:
                    return None
                parts.append(x)
            elif x == '%%':
                parts.append('%')
            else:
                v = b if '(' not in x else self.getitem(b, x[2:-2])
                used += '(' not in x
                if x[-1] == 'd' and not self.tclasses(v) <= {'num'}:
                    return None
                parts.append(self.repr(v) if x[-1] == 'r' else self.str(v))
        return self.cat(parts) if used <= 1 else None

    def symarith(self, sym, a, b):
        for s in (a, b):
            if isinstance(s, Sym):
                self.pick_class(s)
                if 'bool' in s.types and self.narrow(s, _BOOL, 'bool'):
                    self.concretize_bool(s)
        a, b = self.norm(a), self.norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return self.binop([v for v in BINOPS.values() if v[0] == sym][0], a, b)
        ca, cb = self.tclasses(a), self.tclasses(b)
        if ca == {'str'} and sym == '%' and isinstance(a, str):
            return self.term('fmt%', [a, b if not isinstance(b, Obj) else self.show(b)], ('str',))
        if ca == {'str'} and cb == {'str'} and sym == '+':
            return self.cat([a, b])
        if ca == {'str'} and sym == '*' or cb == {'str'} and sym == '*':
            return self.term('*', [a, b], ('str',))
        if ca == {'num'} and cb == {'num'}:
            if sym in '+-':
                la, lb = self.linparts(a), self.linparts(b)
                if la and not lb and isinstance(b, (int, float)):
                    base, k, c = la
                    return self.lin(base, k, c + b if sym == '+' else c - b)
                if lb and not la and isinstance(a, (int, float)):
                    base, k, c = lb
                    return self.lin(base, k, c + a) if sym == '+' else self.lin(base, -k, a - c)
                if la and lb and la[0] is lb[0]:
                    k = la[1] + lb[1] if sym == '+' else la[1] - lb[1]
                    c = la[2] + lb[2] if sym == '+' else la[2] - lb[2]
                    if k == 0:
                        return c
                    if k in (1, -1):
                        return self.lin(la[0], k, c)
                if sym == '-':
                    # difference of two unknowns: its sign is their order
                    d = self.term('diff', [a, b], ('int', 'float') if self.maybe_float(a, b) else ('int',))
                    if 'linked' not in d.attr:
                        d.attr['linked'] = (a, b)
                        r = self.sign_of(a, b)
                        self.assume_rel(d, 0, r)
                    return d
            if sym == '%' and b == 1:
                if self.integral(a):
                    return 0
                f = self.term('frac', [a], ('float',))
                if 'l' not in f.attr:
                    f.attr['l'] = 1
                    self.assume_rel(f, 0, GT)
                    self.assume_rel(f, 1, LT)
                return f
            if sym in ('//', '/', '%') and is_const(b) and b == 0:
                raise self.exc('ZeroDivisionError', 'division by zero')
            if sym in ('//', '/', '%') and isinstance(b, Sym):
                if self.rel(b, 0, EQ, '%s == 0' % self.show(b)):
                    raise self.exc('ZeroDivisionError', 'division by zero')
            if sym == '//' and b == 1 and 'int' in a.types and len(a.types) == 1:
                return a
            if sym == '%' and not self.maybe_float(a, b):
                return self.exactmod(a, b)
            return self.term(sym, [a, b], ('int', 'float') if self.maybe_float(a, b) or sym == '/' else ('int',))
        if cb & {'list'} or ca & {'list'}:
            x = self.materialize(a) if isinstance(a, Sym) else a
            y = self.materialize(b) if isinstance(b, Sym) else b
            return self.binop([v for v in BINOPS.values() if v[0] == sym][0], x, y)
        return NotImplemented

    def exactmod(self, a, b):
        """remainder of exact division (b is not zero)"""
        if str(b) == '1' and isinstance(a, Sym):
            if self.integral(a):
                return 0
            f = self.term('frac', [a], ('float',))
            if 'l' not in f.attr:
                f.attr['l'] = 1
                self.assume_rel(f, 0, GT)
                self.assume_rel(f, 1, LT)
            return f
        return self.term('exactmod', [v if isinstance(v, Sym) else str(v) for v in (a, b)], ('float',))

    def sign_of(self, a, b):
        if self.rel(a, b, LT, '%s < %s' % (self.show(a), self.show(b))):
            return LT
        if self.rel(a, b, EQ, '%s == %s' % (self.show(a), self.show(b))):
            return EQ
        return GT

    def maybe_float(self, *vs):
        return any(isinstance(v, float) or isinstance(v, Sym) and 'float' in v.types for v in vs)

    def cat(self, parts):
        out = []
        for p in parts:
            p = self.norm(p)
            if isinstance(p, Sym) and p.term and p.term[0] == 'cat':
                sub = p.term[1]
            else:
                sub = (p,)
            for q in sub:
                if isinstance(q, str) and q == '':
                    continue
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        return self.term('cat', out, ('str',))

    # -------------------------------------------------------------- attributes
    def bind(self, v, obj, cls):
        """descriptor get on class attribute v"""
        if isinstance(v, Fn) or isinstance(v, Native):
            return Bound(v, obj)
        if isinstance(v, SM):
            return v.fn
        if isinstance(v, CM):
            return Bound(v.fn, cls)
        if isinstance(v, Prop):
            if v.fget is None:
                raise self.exc('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [obj])
        if isinstance(v, CachedProp):
            r = self.call(v.fn, [obj])
            if isinstance(obj, Obj):
                w = self.watch
                self.watch = None
                self.touch(obj, v.name)
                self.watch = w
                obj.d[v.name] = r
            return r
        if isinstance(v, Obj):
            g = v.cls.lookup('__get__')
            if g is not MISSING:
                return self.call_method(v, g, [obj, cls])
        return v

    def getattr(self, o, name):
        r = self.getattr_(o, name)
        if r is MISSING:
            raise self.exc('AttributeError', '%s has no attribute %r' % (self.show(o, 1), name))
        return r

    def getattr_(self, o, name):
        o = self.norm(o)
        if isinstance(o, Obj):
            c = o.cls
            v, owner = c.lookup_owner(name)
            if v is not MISSING and self.is_data_descr(v):
                return self.bind(v, o, c)
            if name in o.d:
                return o.d[name]
            if v is not MISSING:
                return self.bind(v, o, c)
            if name == '__class__':
                return c
            if name == '__dict__':
                return self.objdict(o)
            if name == '__doc__':
                return None
            if c.isexc:
                if name == 'value' and c.sub(self.B['StopIteration']):
                    return o.p[0] if o.p else None
                if name == 'args':
                    return tuple(o.p or ())
                if name in ('__cause__', '__context__', '__traceback__'):
                    return o.d.get(name, None)
                if name == '__suppress_context__':
                    return '__cause__' in o.d
                if c.sub(self.B['KeyError']) and False:
                    pass
            ga = c.lookup('__getattr__')
            if ga is not MISSING:
                return self.call_method(o, ga, [name])
            # a gap of our model must never look like an AttributeError of the program
            for k in c.mro:
                h = _HOSTCLS.get(k.name) if k.native else None
                if h is not None and hasattr(h, name) or k.native and k.name in _LIBCLS:
                    self.unsup('attribute %s.%s is not modelled' % (k.name, name))
            return MISSING
        if isinstance(o, Cls):
            v = o.lookup(name)
            if v is not MISSING:
                if isinstance(v, SM):
                    return v.fn
                if isinstance(v, CM):
                    return Bound(v.fn, o)
                if isinstance(v, Obj):
                    g = v.cls.lookup('__get__')
                    if g is not MISSING:
                        return self.call_method(v, g, [None, o])
                return v
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name if o.module else 'builtins'
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__class__':
                return self.B['type']
            if name == '__dict__':
                return self.dict(list(o.ns.items()))
            if name == '__doc__':
                return o.ns.get('__doc__')
            if name == '__members__' and o.enum_members is not None:
                return self.dict(list(o.enum_members.items()))
            if name == '__abstractmethods__':
                return self.set()
            if name == 'mro':
                return Native('mro', lambda I, a, k: I.list(o.mro))
            if name == '__subclasses__':
                return Native('__subclasses__', lambda I, a, k: I.list(I.subclasses(o)))
            if name == 'register':
                self.unsup('ABC.register')
            h = _HOSTCLS.get(o.name) if o.native else None
            if h is not None and hasattr(h, name):
                self.unsup('attribute %s.%s is not modelled' % (o.name, name))
            return MISSING
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if name == '__name__':
                return o.name
            if name == '__dict__':
                if o.native:
                    self.unsup('the namespace of a module')
                return self.new(self.B['dict'], NsDictP(self, o))
            sub = o.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if o.native:
                return self.unmodelled(o, name)
            return MISSING
        if isinstance(o, Super):
            c = self.typeof(o.obj) if not isinstance(o.obj, Cls) else o.obj
            mro = c.mro
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    v = k.ns[name]
                    if isinstance(o.obj, Cls):
                        if isinstance(v, CM):
                            return Bound(v.fn, o.obj)
                        if isinstance(v, SM):
                            return v.fn
                        return v
                    return self.bind(v, o.obj, c)
            for k in mro[i + 1:]:
                h = _HOSTCLS.get(k.name) if k.native else None
                if h is not None and hasattr(h, name):
                    self.unsup('attribute %s.%s is not modelled' % (k.name, name))
            return MISSING
        if isinstance(o, Fn):
            if o.attrs and name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name
            if name == '__doc__':
                return o.doc
            if name == '__call__':
                return o
            if name in ('__wrapped__',):
                return MISSING
            if name == '__get__':
                return Native('function.__get__', lambda I, a, k: o if a[0] is None else Bound(o, a[0]))
            if name in ('__defaults__', '__code__', '__globals__', '__closure__', '__annotations__', '__kwdefaults__'):
                self.unsup('function attribute %s' % name)
            return MISSING
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.fn
            return self.getattr_(o.fn, name)
        if isinstance(o, Native):
            if o.attrs and name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name.split('.')[-1]
            if name == '__doc__':
                return None
            if name == '__module__':
                return 'builtins'
            if name == '__wrapped__':
                return MISSING
            self.unsup('attribute %s of native %s' % (name, o.name))
        if isinstance(o, Prop):
            if name in ('setter', 'getter', 'deleter'):
                def mk(I, a, k, o=o, name=name):
                    f = a[0]
                    return Prop(f if name == 'getter' else o.fget, f if name == 'setter' else o.fset,
                                f if name == 'deleter' else o.fdel)
                return Native('property.' + name, mk)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            return MISSING
        if isinstance(o, (SM, CM)):
            if name in ('__func__', '__wrapped__'):
                return o.fn
            return self.getattr_(o.fn, name)
        if isinstance(o, CachedProp):
            if name == 'func':
                return o.fn
            if name == 'attrname':
                return o.name
            return self.getattr_(o.fn, name)
        if isinstance(o, Opaque):
            return type(o)(o.name + '.' + name)
        if isinstance(o, slice):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
            if name == 'indices':
                def ind(I, a, k):
                    n = I.norm(a[0])
                    if not isinstance(n, int) or not deep_const(o):
                        I.unsup('slice.indices')
                    return o.indices(n)
                return Native('slice.indices', ind)
        # constants, tuples and unknown values: through their class
        c = self.typeof(o)
        if isinstance(o, Sym) and c.name in ('list', 'dict', 'tuple'):
            return self.getattr_(self.materialize(o), name)
        v = c.lookup(name)
        if v is not MISSING:
            return self.bind(v, o, c)
        if name == '__class__':
            return c
        h = _HOSTCLS.get(c.name)
        if h is not None and hasattr(h, name):
            if is_const(o) or type(o) is tuple:
                return Bound(Native('%s.%s' % (c.name, name), _constmethod(name)), o)
            self.unsup('attribute %s.%s is not modelled' % (c.name, name))
        return MISSING

    def is_data_descr(self, v):
        if isinstance(v, Prop):
            return True
        if isinstance(v, Obj):
            return v.cls.lookup('__set__') is not MISSING
        return False

    def objdict(self, o):
        return self.new(self.B['dict'], ObjDictP(self, o))

    def setattr(self, o, name, val):
        o = self.norm(o)
        if isinstance(o, Obj):
            sa = o.cls.lookup('__setattr__')
            if isinstance(sa, Fn):
                self.call_method(o, sa, [name, val])
                return
            self.setattr_plain(o, name, val)
            return
        if isinstance(o, Cls):
            if o.native and not self.in_base:
                raise self.exc('TypeError', "cannot set attribute of immutable type")
            self.nsset(o.ns, name, val, o)
            return
        if isinstance(o, Mod):
            self.nsset(o.ns, name, val, o)
            return
        if isinstance(o, (Fn, Native)):
            if o.attrs is None:
                o.attrs = {}
            self.nsset(o.attrs, name, val, o)
            return
        if isinstance(o, Super):
            # object.__setattr__ through super()
            self.setattr_plain(o.obj, name, val)
            return
        raise self.exc('AttributeError', '%s object has no attribute %r' % (self.typeof(o).name, name))

    def setattr_plain(self, o, name, val):
        """object.__setattr__"""
        c = o.cls
        v = c.lookup(name)
        if isinstance(v, Prop):
            if v.fset is None:
                raise self.exc('AttributeError', "property %r has no setter" % name)
            self.call(v.fset, [o, val])
            return
        if isinstance(v, Obj):
            s = v.cls.lookup('__set__')
            if s is not MISSING:
                self.call_method(v, s, [o, val])
                return
        if name == '__dict__':
            items = [(self.norm(k), x) for k, x in self.mapping_items(val)]
            if any(not isinstance(k, str) for k, _ in items):
                self.unsup('unknown attribute names')
            self.touch(o, name)
            o.d = dict(items)
            return
        slots = self.slots_of(c)
        if slots is not None and name not in slots:
            raise self.exc('AttributeError', '%s object has no attribute %r' % (c.name, name))
        self.touch(o, name)
        o.d[name] = val

    def slots_of(self, c):
        """the attributes instances of the class can have, or None: any"""
        if 'slots' not in c.cache:
            out = set()
            for k in c.mro:
                if k.native:
                    if k.name in ('object', 'list', 'dict', 'tuple', 'str', 'int', 'float', 'set', 'frozenset', 'Generic', 'ABC', 'Protocol', 'bytes') or k.name in self.abc:
                        continue
                    out = None
                    break
                s = k.ns.get('__slots__', MISSING)
                if s is MISSING:
                    out = None
                    break
                s = self.norm(s)
                names = [s] if isinstance(s, str) else [self.norm(x) for x in self.tolist(s)]
                if '__dict__' in names:
                    out = None
                    break
                out.update('_%s%s' % (k.name.lstrip('_'), n) if n.startswith('__') and not n.endswith('__') else n for n in names)
            c.cache['slots'] = out
        return c.cache['slots']

    def delattr(self, o, name, plain=False):
        o = self.norm(o)
        if isinstance(o, Obj):
            da = MISSING if plain else o.cls.lookup('__delattr__')
            if isinstance(da, Fn):
                self.call_method(o, da, [name])
                return
            v = o.cls.lookup(name)
            if isinstance(v, Prop):
                if v.fdel is None:
                    raise self.exc('AttributeError', "property %r has no deleter" % name)
                self.call(v.fdel, [o])
                return
            if isinstance(v, Obj):
                s = v.cls.lookup('__delete__')
                if s is not MISSING:
                    self.call_method(v, s, [o])
                    return
            if name in o.d:
                w = self.watch
                if isinstance(v, CachedProp):
                    self.watch = None
                self.touch(o, name)
                self.watch = w
                del o.d[name]
                return
            raise self.exc('AttributeError', name)
        if isinstance(o, Cls):
            if name in o.ns:
                v = o.ns[name]
                self.nsset(o.ns, name, v, o)
                del o.ns[name]
                return
        raise self.exc('AttributeError', name)

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        o = self.norm(o)
        k = self.norm(k)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is MISSING or m is None:
                raise self.exc('TypeError', '%s object is not subscriptable' % o.cls.name)
            return self.call_method(o, m, [k])
        if isinstance(o, Cls):
            if o.enum_members is not None:
                if isinstance(k, str) and k in o.enum_members:
                    return o.enum_members[k]
                raise self.exc('KeyError', k)
            m = o.lookup('__class_getitem__')
            if isinstance(m, (Fn, CM)):
                f = m.fn if isinstance(m, CM) else m
                return self.call(f, [o, k])
            return o
        if isinstance(o, Opaque):
            if o.name in ('Union', 'Optional'):
                ms = k if type(k) is tuple else (k,)
                if o.name == 'Optional':
                    ms = ms + (None,)
                return UnionT(list(ms))
            return o
        if isinstance(o, (str, bytes)) or type(o) is tuple:
            if type(o) is tuple or deep_const(k):
                if isinstance(k, Sym):
                    return self.symindex(o, k)
                if isinstance(k, Obj) and k.cls.lookup('__index__') is not MISSING:
                    k = self.call_method(k, k.cls.lookup('__index__'), [])
                try:
                    return o[k]
                except Exception as e:
                    raise self.rethrow(e)
            return self.term('getitem', [o, k], ('str',))
        if isinstance(o, Sym):
            t = self.pick_type(o)
            if t == 'str':
                if isinstance(k, slice):
                    return self.str_slice(o, k)
                self.unsup('index of unknown string')
            if t in ('list', 'tuple', 'dict'):
                return self.getitem(self.materialize(o), k)
            if t in ('useq', 'umap'):
                kids = self.children(o)
                if t == 'useq':
                    return self.getitem(tuple(kids), k)
                for kk, v in kids:
                    if self.eq(kk, k):
                        return v
                raise self.exc('KeyError', k)
            raise self.exc('TypeError', '%s object is not subscriptable' % t)
        raise self.exc('TypeError', '%s is not subscriptable' % self.show(o))

    def str_slice(self, s, k):
        if 'as' in s.attr:
            s = s.attr['as']
        if s.term and s.term[0] == 'cat':
            p = s.term[1]
            if isinstance(p[0], str) and isinstance(k.start, int) and 0 <= k.start <= len(p[0]) and k.stop is None and k.step is None:
                return self.cat([p[0][k.start:]] + list(p[1:]))
        if isinstance(k.start, Sym) and k.stop is None and k.step is None and k.start.term and k.start.term[0] == 'len':
            # s[len(x):]
            x = k.start.term[1][0]
            p = s.term[1] if s.term and s.term[0] == 'cat' else (s,)
            if p[0] is x:
                return self.cat(p[1:])
        return self.term('slice', [s, k], ('str',))

    def symindex(self, seq, k):
        n = len(seq)
        t = self.pick_type(k)
        if t == 'bool':
            return self.getitem(tuple(seq), int(self.concretize_bool(k)))
        if t != 'int':
            raise self.exc('TypeError', 'indices must be integers')
        i = self.pinint(k, -n, n - 1)
        if i is None:
            raise self.exc('IndexError', 'index out of range')
        return seq[i]

    def pinint(self, k, lo, hi):
        """Case split: which integer in [lo, hi] is the unknown equal to (None: outside)."""
        for i in range(lo, hi + 1):
            if self.rel(k, i, EQ, '%s == %d' % (k.name, i)):
                return i
        return None

    def pinslice(self, sl, n):
        """slice with unknown bounds over a sequence of known length n -> constant slice"""
        def pin(v):
            v = self.norm(v)
            if v is None or isinstance(v, int):
                return v
            if isinstance(v, Sym):
                t = self.pick_type(v)
                if t == 'NoneType':
                    return None
                if t == 'bool':
                    return int(self.concretize_bool(v))
                if t != 'int':
                    raise self.exc('TypeError', 'slice indices must be integers or None')
                i = self.pinint(v, -n, n)
                if i is not None:
                    return i
                if self.rel(v, 0, GT, '%s > 0' % v.name):
                    return n + 1
                return -n - 1
            if isinstance(v, Obj) and v.cls.lookup('__index__') is not MISSING:
                return self.call_method(v, v.cls.lookup('__index__'), [])
            raise self.exc('TypeError', 'slice indices must be integers or None')
        return slice(pin(sl.start), pin(sl.stop), pin(sl.step))

    def setitem(self, o, k, v):
        o = self.norm(o)
        if isinstance(o, Sym) and self.pick_type(o) in ('list', 'dict'):
            o = self.materialize(o)
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is not MISSING and m is not None:
                self.call_method(o, m, [k, v])
                return
        raise self.exc('TypeError', '%s does not support item assignment' % self.show(o))

    def delitem(self, o, k):
        o = self.norm(o)
        if isinstance(o, Sym) and self.pick_type(o) in ('list', 'dict'):
            o = self.materialize(o)
        if isinstance(o, Obj):
            m = o.cls.lookup('__delitem__')
            if m is not MISSING and m is not None:
                self.call_method(o, m, [k])
                return
        raise self.exc('TypeError', '%s does not support item deletion' % self.show(o))

    def contains(self, o, x):
        o = self.norm(o)
        x = self.norm(x)
        if isinstance(o, Obj):
            m = o.cls.lookup('__contains__')
            if m is None:
                raise self.exc('TypeError', 'not a container')
            if m is not MISSING:
                return self.truth(self.call_method(o, m, [x]))
            return any(self.same_quick(y, x) or self.eq(y, x) for y in self.iterate(o))
        if type(o) is tuple:
            return any(self.same_quick(y, x) or self.eq(y, x) for y in o)
        if isinstance(o, str):
            if isinstance(x, str):
                return x in o
            if isinstance(x, Sym):
                if self.narrow(x, frozenset(['str']), 'str'):
                    for p in ([x] if not (x.term and x.term[0] == 'cat') else x.term[1]):
                        pass
                    return self.pred('substr', x, o)
            raise self.exc('TypeError', "'in <string>' requires string as left operand")
        if isinstance(o, Cls) and o.enum_members is not None:
            return any(m is x for m in o.enum_members.values())
        if isinstance(o, Sym):
            t = self.pick_type(o)
            if t in ('list', 'tuple', 'useq'):
                return any(self.same_quick(y, x) or self.eq(y, x) for y in self.children(o))
            if t in ('dict', 'umap'):
                return any(self.same_quick(y, x) or self.eq(y, x) for y, _ in self.children(o))
            if t == 'str':
                if not self.isinstance_(x, self.B['str']):
                    raise self.exc('TypeError', "'in <string>' requires string as left operand")
                if isinstance(x, str) and o.term and o.term[0] == 'cat':
                    if any(isinstance(p, str) and x in p for p in o.term[1]):
                        return True
                if isinstance(x, str):
                    return self.member(o, lang.containing(x), '%r in %s' % (x, o.name))
                return self.pred('substr', x, o)
            raise self.exc('TypeError', 'argument of type %r is not iterable' % t)
        if isinstance(o, (Native, Fn, bytes)):
            self.unsup('in on %r' % (o,))
        raise self.exc('TypeError', 'argument is not iterable')

    def length(self, o):
        o = self.norm(o)
        if isinstance(o, Obj):
            m = o.cls.lookup('__len__')
            if m is MISSING or m is None:
                raise self.exc('TypeError', 'object of type %r has no len()' % o.cls.name)
            r = self.norm(self.call_method(o, m, []))
            return r
        if type(o) is tuple or isinstance(o, (str, bytes)):
            return len(o)
        if isinstance(o, Sym):
            t = self.pick_type(o)
            if t == 'str':
                return self.symlen(o)
            if t in ('list', 'tuple', 'dict', 'useq', 'umap'):
                return len(self.children(o))
            raise self.exc('TypeError', 'object of type %r has no len()' % t)
        if isinstance(o, Cls) and o.enum_members is not None:
            return len(o.enum_members)
        raise self.exc('TypeError', 'object of type %s has no len()' % self.show(o))

    # -------------------------------------------------------------- iteration
    def iterate(self, o):
        """host generator over the values the program would see"""
        o = self.norm(o)
        if isinstance(o, Obj):
            p = o.p
            it = o.cls.lookup('__iter__')
            if isinstance(it, Native):
                n = it.name
                if n == 'list.__iter__':
                    return self._iter_list(o)
                if n == 'dict.__iter__':
                    return self._iter_dict(o)
                if n == 'iterator.__iter__':
                    return self._iter_iter(o)
            if it is None:
                raise self.exc('TypeError', '%s object is not iterable' % o.cls.name)
            if it is not MISSING:
                r = self.norm(self.call_method(o, it, []))
                if isinstance(r, Obj) and r.cls is self.B['iterator']:
                    return self._iter_iter(r)
                if isinstance(r, Obj):
                    return self._iter_next(r)
                self.unsup('iterator %r' % (r,))
            gi = o.cls.lookup('__getitem__')
            if gi is not MISSING:
                return self._iter_getitem(o)
            raise self.exc('TypeError', '%s object is not iterable' % o.cls.name)
        if type(o) is tuple:
            return iter(o)
        if isinstance(o, str):
            return iter(list(o))
        if isinstance(o, bytes):
            return iter(list(o))
        if isinstance(o, Sym):
            t = self.pick_type(o)
            if t in ('list', 'tuple', 'useq'):
                if 'obj' in o.attr:
                    return self.iterate(o.attr['obj'])
                return iter(list(self.children(o)))
            if t in ('dict', 'umap'):
                return iter([k for k, _ in self.children(o)])
            if t == 'str':
                if o.term and o.term[0] == 'chars':
                    return iter(list(o.term[1]))
                self.unsup('iteration over unknown string')
            raise self.exc('TypeError', '%r object is not iterable' % t)
        if isinstance(o, Cls) and o.enum_members is not None:
            return iter(list(o.enum_members.values()))
        if isinstance(o, Opaque):
            self.unsup('iteration over %r' % o)
        raise self.exc('TypeError', '%s is not iterable' % self.show(o))

    def _iter_list(self, o):
        i = 0
        while i < len(o.p):
            yield o.p[i]
            i += 1

    def _iter_dict(self, o):
        n = len(o.p.e)
        for hk in list(o.p.e):
            if len(o.p.e) != n:
                raise self.exc('RuntimeError', 'dictionary changed size during iteration')
            if hk in o.p.e:
                yield o.p.e[hk][0]
        if len(o.p.e) != n:
            raise self.exc('RuntimeError', 'dictionary changed size during iteration')

    def _iter_iter(self, o):
        g = o.p
        while True:
            if o.oid <= self.mark:
                self.ver += 1
            try:
                v = next(g)
            except StopIteration:
                return
            yield v

    def _iter_next(self, r):
        m = r.cls.lookup('__next__')
        if m is MISSING:
            raise self.exc('TypeError', 'iter() returned non-iterator')
        while True:
            try:
                v = self.call_method(r, m, [])
            except PyExc as e:
                if e.obj.cls.sub(self.B['StopIteration']):
                    return
                raise
            yield v

    def _iter_getitem(self, o):
        i = 0
        while True:
            try:
                v = self.getitem(o, i)
            except PyExc as e:
                if e.obj.cls.sub(self.B['IndexError']):
                    return
                raise
            yield v
            i += 1

    def tolist(self, o):
        return list(self.iterate(o))

    def mkiter(self, host):
        """wrap a host iterator as an iterator object of the program"""
        return self.new(self.B['iterator'], iter(host))

    # ------------------------------------------------------------------ calls
    def call_method(self, obj, m, args, kw=None):
        if isinstance(m, (Fn, Native)):
            return self.call(m, [obj] + list(args), kw)
        return self.call(self.bind(m, obj, obj.cls if isinstance(obj, Obj) else self.typeof(obj)), args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Native):
            self.steps += 1
            return f.fn(self, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, SM):
            return self.call(f.fn, args, kw)
        f = self.norm(f)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not MISSING:
                return self.call_method(f, m, args, kw)
            raise self.exc('TypeError', '%s object is not callable' % f.cls.name)
        if isinstance(f, Opaque):
            self.gap(f)
            return f
        if isinstance(f, Sym):
            self.unsup('call of unknown %r' % f)
        raise self.exc('TypeError', '%s is not callable' % self.show(f))

    def instantiate(self, c, args, kw):
        if c.enum_members is not None:
            return self.enum_lookup(c, args)
        if c is self.B['type'] and len(args) == 1:
            return self.typeof(args[0])
        if not c.native and c.name and self.abstract_methods(c):
            raise self.exc('TypeError', "Can't instantiate abstract class %s" % c.name)
        if c is self.B['complex']:
            self.unsup('complex numbers')
        nw = c.lookup('__new__')
        if isinstance(nw, SM):
            nw = nw.fn
        o = self.call(nw, [c] + list(args), kw)
        oc = o.cls if isinstance(o, Obj) else None
        if oc is not None and oc.sub(c):
            init, owner = oc.lookup_owner('__init__')
            if init is not MISSING and not (isinstance(init, Native) and init.name == 'object.__init__'):
                self.call_method(o, init, args, kw)
            elif isinstance(nw, Native) and nw.name == 'object.__new__' and (args or kw):
                raise self.exc('TypeError', '%s() takes no arguments' % c.name)
        return o

    def abstract_methods(self, c):
        """does a class derived from ABC lack an implementation?"""
        if not any(b.name == 'ABC' for b in c.mro):
            return False
        seen = set()
        for b in c.mro:
            if b.native:
                continue
            for n, v in b.ns.items():
                if n not in seen:
                    seen.add(n)
                    f = v
                    while not isinstance(f, Fn):
                        f = getattr(f, 'fn', None) or getattr(f, 'fget', None)
                        if f is None:
                            break
                    if f is not None and f.attrs and f.attrs.get('__isabstractmethod__') is True:
                        return True
        return False

    def enum_lookup(self, c, args):
        v = self.norm(args[0])
        if isinstance(v, Obj) and v.cls is c:
            return v
        for m in c.enum_members.values():
            if isinstance(v, (Cls, Fn)):
                break
            if self.eq(v, m.d['_value_']):
                return m
        missing = c.lookup('_missing_')
        if missing is not MISSING:
            m = self.norm(self.call(self.getattr(c, '_missing_'), [v]))
            if isinstance(m, Obj) and m.cls is c:
                return m
            if m is not None:
                raise self.exc('TypeError', 'error in %s._missing_' % c.name)
        raise self.exc('ValueError', '%s is not a valid %s' % (self.show(v), c.name))

    def call_fn(self, f, args, kw):
        env = Env(f.env, f.module, f)
        self.bind_args(f, env.vars, args, kw)
        if len(self.frames) > MAXDEPTH:
            raise self.exc('RecursionError', 'maximum recursion depth exceeded')
        if f.isgen:
            g = self.new(self.B['generator'])
            g.p = self.run_gen(f, env)
            return g
        if f.module.file and f.module.file.startswith(self.root):
            self.touched.add((f.module.file, f.qualname, f.node.lineno))
            self.loc_trace.append(f)
        fr = Frame(f, f.node)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            r = self.block(f.node.body, env)
            if r is not None and r[0] is RET:
                return r[1]
            return None
        finally:
            self.frames.pop()

    def run_gen(self, f, env):
        if f.module.file and f.module.file.startswith(self.root):
            self.touched.add((f.module.file, f.qualname, f.node.lineno))
            self.loc_trace.append(f)
        saved = [Frame(f, f.node)]
        epoch = self.epoch
        it = self.gblock(f.node.body, env)
        send = None
        throw = None
        while True:
            self.frames.append(saved[0])
            try:
                if throw is not None:
                    t, throw = throw, None
                    v = it.throw(t)
                else:
                    v = it.send(send) if send is not None else next(it)
            except StopIteration as s:
                r = s.value
                return r[1] if r is not None and r[0] is RET else None
            finally:
                if self.frames:
                    self.frames.pop()
            self.ver += 1
            try:
                send = yield v
            except PyExc as e:
                throw = e
                send = None
            except GeneratorExit:
                if not self.active or epoch != self.epoch:
                    # left behind by another partition, and collected only now
                    return None
                self.frames.append(saved[0])
                env.closing = True
                try:
                    it.close()
                finally:
                    if self.frames:
                        self.frames.pop()
                raise

    def bind_args(self, f, vars, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        npos = len(pos)
        args = list(args)
        kw = dict(kw)
        if len(args) > npos:
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[npos:])
            else:
                raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qualname, npos, len(args)))
            args = args[:npos]
        elif a.vararg:
            vars[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars[n] = v
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vars:
                    raise self.exc('TypeError', '%s() got multiple values for argument %r' % (f.qualname, k))
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %r' % (f.qualname, k))
        if a.kwarg:
            vars[a.kwarg.arg] = self.dict(list(extra.items()))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars:
                j = i - (npos - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    raise self.exc('TypeError', '%s() missing required positional argument: %r' % (f.qualname, n))
        for n in kwonly:
            if n not in vars:
                if n in f.kwdefaults:
                    vars[n] = f.kwdefaults[n]
                else:
                    raise self.exc('TypeError', '%s() missing required keyword-only argument: %r' % (f.qualname, n))

    def mkfn(self, node, env, qual=None):
        info = fninfo(node)
        a = node.args
        name = getattr(node, 'name', '<lambda>')
        # qualified name
        e = env
        prefix = ''
        if env.iscls:
            prefix = env.cls[1] + '.'
        elif env.fn is not None:
            prefix = env.fn.qualname + '.<locals>.'
        cenv = env
        owner = None
        if env.iscls:
            owner = env.cls
        else:
            x = env
            while x is not None:
                if x.fn is not None and x.fn.owner is not None:
                    owner = x.fn.owner
                    break
                x = x.parent
        doc = None
        if not isinstance(node, ast.Lambda) and node.body and isinstance(node.body[0], ast.Expr) \
                and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            doc = node.body[0].value.value
        # class scopes are skipped in name resolution
        penv = env
        while penv is not None and penv.iscls:
            penv = penv.parent
        return Fn(name=name, qualname=prefix + name, node=node, env=penv, module=env.mod,
                  defaults=[self.ev(d, env) for d in a.defaults],
                  kwdefaults={k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                  isgen=info.isgen, owner=owner, attrs=None, locals=info.locals, globals_=info.globals_,
                  nonlocals=info.nonlocals, doc=doc)

    # ------------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            f = e.fn
            if f is not None and not e.comp and not e.iscls:
                if name in f.globals_:
                    break
                if name in f.locals:
                    raise self.exc('UnboundLocalError', "cannot access local variable '%s'" % name)
            e = e.parent
        ns = env.mod.ns
        if name in ns:
            return ns[name]
        if name in self.B:
            return self.B[name]
        if name == '__class__':
            x = env
            while x is not None:
                if x.fn is not None and x.fn.owner is not None:
                    return x.fn.owner[0]
                x = x.parent
        if hasattr(_builtins, name):
            self.unsup('builtin %s is not modelled' % name)
        raise self.exc('NameError', "name '%s' is not defined" % name)

    def store(self, name, val, env):
        e = env
        while e.comp:
            e = e.parent_nc if False else e.parent
            if e is None:
                break
        if e is None or (e.fn is None and not e.iscls):
            self.nsset(env.mod.ns, name, val, env.mod)
            return
        if e.iscls:
            e.vars[name] = val
            return
        f = e.fn
        if name in f.globals_:
            self.nsset(env.mod.ns, name, val, env.mod)
            return
        if name in f.nonlocals:
            x = e.parent
            while x is not None:
                if not x.iscls and (name in x.vars or (x.fn is not None and name in x.fn.locals)):
                    x.vars[name] = val
                    self.ver += 1
                    return
                x = x.parent
            self.unsup('nonlocal %s' % name)
        e.vars[name] = val

    # ----------------------------------------------------------- expressions
    def ev(self, n, env):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('step budget exhausted', self.loc())
        h = self._ev.get(type(n))
        if h is None:
            self.unsup('expression %s' % type(n).__name__)
        return h(n, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.load(n.id, env)

    def ev_Attribute(self, n, env):
        o = self.ev(n.value, env)
        r = self.getattr_(o, self.mangle(n.attr, env))
        if r is MISSING:
            raise self.exc('AttributeError', '%s has no attribute %r' % (self.show(o, 1), n.attr))
        return r

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            x = env
            while x is not None:
                if x.iscls:
                    return '_%s%s' % (x.cls[1].split('.')[-1].lstrip('_'), name)
                if x.fn is not None and x.fn.owner is not None and x.fn.owner[0] is not None:
                    return '_%s%s' % (x.fn.owner[0].name.lstrip('_'), name)
                x = x.parent
        return name

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        return self.getitem(o, k)

    def ev_Slice(self, n, env):
        return slice(self.ev(n.lower, env) if n.lower else None, self.ev(n.upper, env) if n.upper else None,
                     self.ev(n.step, env) if n.step else None)

    def ev_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def ev_List(self, n, env):
        return self.list(self.elts(n.elts, env))

    def ev_Set(self, n, env):
        return self.set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def ev_Dict(self, n, env):
        d = self.dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, env)
                for kk, vv in self.mapping_items(m):
                    self.dput(d, kk, vv)
            else:
                kk = self.ev(k, env)
                self.dput(d, kk, self.ev(v, env))
        return d

    def mapping_items(self, m):
        m = self.norm(m)
        if isinstance(m, Obj) and isinstance(m.p, DictP) and m.cls.sub(self.B['dict']):
            return list(m.p.e.values())
        if isinstance(m, Sym):
            t = self.pick_type(m)
            if t in ('dict', 'umap'):
                return list(self.children(m))
            raise self.exc('TypeError', '%s object is not a mapping' % t)
        if isinstance(m, Obj):
            ks = self.getattr_(m, 'keys')
            if ks is MISSING:
                raise self.exc('TypeError', '%s object is not a mapping' % m.cls.name)
            return [(k, self.getitem(m, k)) for k in self.tolist(self.call(ks, []))]
        raise self.exc('TypeError', '%s is not a mapping' % self.show(m))

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.fmt(self.ev(v.value, env), v.conversion,
                                      self.ev(v.format_spec, env) if v.format_spec else ''))
        return self.cat(parts)

    def fmt(self, x, conv, spec):
        x = self.norm(x)
        if conv == ord('r'):
            x = self.repr(x)
        elif conv == ord('a'):
            x = self.repr(x)
        elif conv == ord('s'):
            x = self.str(x)
        if spec == '' or spec is None:
            if isinstance(x, Obj):
                m = x.cls.lookup('__format__')
                if isinstance(m, Fn):
                    return self.call_method(x, m, [''])
            return self.str(x)
        if isinstance(x, Obj):
            m = x.cls.lookup('__format__')
            if isinstance(m, Fn):
                return self.call_method(x, m, [spec])
        if is_const(x) and is_const(spec):
            try:
                return format(x, spec)
            except Exception as e:
                raise self.rethrow(e)
        return self.term('format', [x, spec], ('str',))

    ev_FormattedValue = None

    def str(self, x):
        x = self.norm(x)
        if isinstance(x, str):
            return x
        if is_const(x):
            return str(x)
        if isinstance(x, Sym):
            ts = x.types
            if ts == frozenset(['str']):
                return x
            if len(ts) > 1 and 'str' in ts:
                self.pick_class(x)
                return self.str(x)
            if ts == _BOOL:
                return str(self.concretize_bool(x))
            if x.term and x.term[0] == 'int' and ts == _INTS:
                t = self.norm(x.term[1][0])
                if (isinstance(t, str) or isinstance(t, Sym) and t.types == frozenset(['str'])) and \
                        lang.subset(self.langof(t), lang.canonical_int()):
                    return t
                if isinstance(t, Sym) and t.types == frozenset(['str']) and 'as' not in t.attr and t.term is None and \
                        lang.subset(self.langof(t), lang.concat([lang.word('+'), lang.canonical_nat()])):
                    u = Sym(t.name + '[1:]', ('str',))
                    self.setlang(u, lang.tail(self.langof(t)))
                    t.attr['as'] = self.cat(['+', self.norm(u)])
                    return self.norm(u)
            return self.norm(self.term('str', [x], ('str',)))
        if isinstance(x, Obj):
            m = x.cls.lookup('__str__')
            if isinstance(m, Fn):
                r = self.norm(self.call_method(x, m, []))
                if not (isinstance(r, str) or isinstance(r, Sym)):
                    raise self.exc('TypeError', '__str__ returned non-string')
                return r
            if isinstance(m, Native) and m.name != 'object.__str__':
                return self.call_method(x, m, [])
            return self.repr(x)
        return self.repr(x)

    def repr(self, x):
        x = self.norm(x)
        if is_const(x):
            return repr(x)
        if isinstance(x, Obj):
            m = x.cls.lookup('__repr__')
            if isinstance(m, Fn) or isinstance(m, Native) and (x.cls.isexc or x.cls.enum_members is not None):
                return self.call_method(x, m, [])
            if isinstance(x.p, list) and x.cls.native:
                parts = ['[']
                for i, y in enumerate(x.p):
                    if i:
                        parts.append(', ')
                    parts.append(self.repr(y))
                return self.cat(parts + [']'])
            if isinstance(x.p, DictP) and x.cls is self.B['dict']:
                parts = ['{']
                for i, (k, y) in enumerate(x.p.e.values()):
                    if i:
                        parts.append(', ')
                    parts += [self.repr(k), ': ', self.repr(y)]
                return self.cat(parts + ['}'])
            return self.term('repr', [x], ('str',))
        if type(x) is tuple:
            parts = ['(']
            for i, y in enumerate(x):
                if i:
                    parts.append(', ')
                parts.append(self.repr(y))
            return self.cat(parts + [',)' if len(x) == 1 else ')'])
        if isinstance(x, Sym):
            return self.term('repr', [x], ('str',))
        return repr(x)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.store(n.target.id, v, env)
        return v

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(BINOPS[type(n.op)], a, b)

    def ev_UnaryOp(self, n, env):
        v = self.norm(self.ev(n.operand, env))
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (bool, int, float)):
            try:
                return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
            except Exception as e:
                raise self.rethrow(e)
        if isinstance(v, Sym) and isinstance(n.op, ast.USub):
            self.pick_class(v)
            if self.tclasses(v) == {'num'}:
                base, k, c = self.linparts(v)
                return self.lin(base, -k, -c)
        if isinstance(v, Obj):
            m = v.cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)])
            if m is not MISSING:
                return self.call_method(v, m, [])
        if isinstance(v, Sym):
            self.unsup('unary operator on unknown')
        raise self.exc('TypeError', 'bad operand type for unary operator')

    def ev_Lambda(self, n, env):
        return self.mkfn(n, env)

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.cmpop(op, a, b)
            if i < len(n.ops) - 1 and not self.truth(r):
                return r
            a = b
        return r

    def cmpop(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.same(a, b)
        if t is ast.IsNot:
            return not self.same(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        return self.compare(CMPA[t], a, b)

    def ev_Call(self, n, env):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and not n.keywords:
            x = env
            while x is not None and not (x.fn is not None and not x.comp and self.is_method_env(x)):
                x = x.parent
            if x is None:
                raise self.exc('RuntimeError', 'super(): no arguments')
            f = x.fn
            a = f.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else a.vararg.arg
            return Super(f.owner[0], x.vars[first])
        f = self.ev(n.func, env)
        if not n.args and not n.keywords and type(f) is Native and f.name in ('locals', 'globals', 'vars'):
            return self.namespace(f.name, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.mapping_items(self.ev(k.value, env)):
                    kk = self.norm(kk)
                    if isinstance(kk, Sym):
                        self.unsup('unknown keyword name')
                    if not isinstance(kk, str):
                        raise self.exc('TypeError', 'keywords must be strings')
                    if kk in kw:
                        raise self.exc('TypeError', 'multiple values for keyword argument %r' % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise self.exc('TypeError', 'multiple values for keyword argument %r' % k.arg)
                kw[k.arg] = self.ev(k.value, env)
        fr = self.frames[-1] if self.frames else None
        saved = fr.node if fr else None
        if fr and hasattr(n, 'lineno'):
            fr.node = n
        try:
            return self.call(f, args, kw)
        finally:
            if fr:
                fr.node = saved

    def namespace(self, which, env):
        """globals(), locals() and vars() without arguments"""
        if which != 'globals':
            x = env
            while x is not None and x.comp:
                if which == 'locals':
                    self.unsup('locals() in a comprehension')
                x = x.parent
            if x is not None and x.iscls:
                return self.dict(list(x.vars.items()))
            if x is not None and x.fn is not None:
                a = getattr(x.fn.node, 'args', None)
                if a is None or any(n not in x.vars for n in x.vars):
                    self.unsup('locals()')
                names = [y.arg for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]]
                names = [n for n in names if n in x.vars] + [n for n in x.vars if n not in names]
                return self.dict([(n, x.vars[n]) for n in names if not n.startswith('.')])
        return self.new(self.B['dict'], NsDictP(self, env.mod))

    def is_method_env(self, x):
        f = x.fn
        return f.owner is not None and isinstance(f.node, (ast.FunctionDef,)) and f.qualname.rsplit('.', 1)[0] == f.owner[1]

    def ev_Starred(self, n, env):
        self.unsup('starred expression')

    # comprehensions
    def comp_envs(self, gens, env, outer=None):
        def rec(i, e):
            if i == len(gens):
                yield e
                return
            g = gens[i]
            if g.is_async:
                self.unsup('async comprehension')
            src = outer if i == 0 and outer is not None else self.iterate(self.ev(g.iter, e if i else env))
            for v in src:
                self.assign(g.target, v, e, comp=True)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    yield from rec(i + 1, e)
        outer_env = env
        while outer_env.iscls and outer_env.parent is not None:
            outer_env = outer_env.parent
        e = Env(outer_env, env.mod, env.fn, comp=True)
        return rec(0, e)

    def ev_ListComp(self, n, env):
        return self.list([self.ev(n.elt, e) for e in self.comp_envs(n.generators, env)])

    def ev_SetComp(self, n, env):
        s = self.set()
        for e in self.comp_envs(n.generators, env):
            self.dput(s, self.ev(n.elt, e), None)
        return s

    def ev_DictComp(self, n, env):
        d = self.dict()
        for e in self.comp_envs(n.generators, env):
            k = self.ev(n.key, e)
            self.dput(d, k, self.ev(n.value, e))
        return d

    def ev_GeneratorExp(self, n, env):
        first = self.iterate(self.ev(n.generators[0].iter, env))
        g = self.new(self.B['generator'])
        fr = self.frames[-1] if self.frames else None

        def run():
            for e in self.comp_envs(n.generators, env, first):
                yield self.ev(n.elt, e)
        g.p = run()
        return g

    def ev_Yield(self, n, env):
        self.unsup('yield in this position')

    def ev_Await(self, n, env):
        self.unsup('await')

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, env, comp=False):
        if isinstance(t, ast.Name):
            if comp:
                env.vars[t.id] = v
            else:
                self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.tolist(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env, comp)
                self.assign(t.elts[i].value, self.list(vals[i:len(vals) - after]), env, comp)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env, comp)
            else:
                if len(vals) != len(t.elts):
                    raise self.exc('ValueError', 'not enough values to unpack' if len(vals) < len(t.elts) else 'too many values to unpack')
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env, comp)
        else:
            self.unsup('assignment target %s' % type(t).__name__)

    # ------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            r = self.ex(s, env)
            if r is not None:
                return r
        return None

    def ex(self, s, env):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('step budget exhausted', self.loc())
        if self.frames:
            self.frames[-1].node = s
        h = self._ex.get(type(s))
        if h is None:
            self.unsup('statement %s' % type(s).__name__)
        return h(s, env)

    def ex_Expr(self, s, env):
        self.ev(s.value, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Return(self, s, env):
        return (RET, self.ev(s.value, env) if s.value else None)

    def ex_Break(self, s, env):
        return _BRK

    def ex_Continue(self, s, env):
        return _CNT

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
            if env.iscls and isinstance(s.target, ast.Name) and 'ClassVar' not in ast.dump(s.annotation):
                env.vars.setdefault('__annotations_order__', []).append(s.target.id)
        elif env.iscls and isinstance(s.target, ast.Name) and 'ClassVar' not in ast.dump(s.annotation):
            env.vars.setdefault('__annotations_order__', []).append(s.target.id)

    def ex_AugAssign(self, s, env):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, self.binop(op, cur, self.ev(s.value, env), True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            nm = self.mangle(t.attr, env)
            cur = self.getattr(o, nm)
            self.setattr(o, nm, self.binop(op, cur, self.ev(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, cur, self.ev(s.value, env), True))

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = env
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is not None:
                    del e.vars[t.id]
                elif t.id in env.mod.ns:
                    v = env.mod.ns[t.id]
                    self.nsset(env.mod.ns, t.id, v, env.mod)
                    del env.mod.ns[t.id]
                else:
                    raise self.exc('NameError', t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), self.mangle(t.attr, env))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                self.delitem(o, self.ev(t.slice, env))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.ex_Delete(ast.Delete(targets=t.elts), env)

    def ex_If(self, s, env):
        return self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def ex_For(self, s, env):
        for v in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            r = self.block(s.body, env)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
            if self.frames:
                self.frames[-1].node = s
        return self.block(s.orelse, env)

    def ex_While(self, s, env):
        last = None
        while self.truth(self.ev(s.test, env)):
            r = self.block(s.body, env)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
            last = self.recur(last, env)
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise Unsupported('step budget exhausted', self.loc())
        return self.block(s.orelse, env)

    def ex_Global(self, s, env):
        pass

    ex_Nonlocal = ex_Global

    def ex_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise self.exc('AssertionError', *([self.ev(s.msg, env)] if s.msg else []))

    def ex_FunctionDef(self, s, env):
        f = self.mkfn(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store(s.name, v, env)

    def ex_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.ev(b, env)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, Opaque):
                self.gap(v)
                if v.name == 'NamedTuple':
                    bases.append(self.modules['_sa_abc'].ns['_NamedTuple'])
                    continue
                if v.name in ('TypedDict',):
                    self.unsup('class based on %s' % v.name)
                continue
            else:
                self.unsup('base class %r' % (v,))
        meta = None
        kws = {}
        for k in s.keywords:
            v = self.ev(k.value, env)
            if k.arg == 'metaclass':
                meta = v
            else:
                kws[k.arg] = v
        if meta is not None and not (isinstance(meta, Cls) and meta.native):
            self.unsup('metaclass %r' % (meta,))
        qual = s.name
        if env.iscls:
            qual = env.cls[1] + '.' + s.name
        elif env.fn is not None:
            qual = env.fn.qualname + '.<locals>.' + s.name
        cell = [None, qual]
        cenv = Env(env, env.mod, None, iscls=True)
        cenv.cls = cell
        cenv.fn = None
        self.block(s.body, cenv)
        ns = cenv.vars
        nt = self.modules['_sa_abc'].ns.get('_NamedTuple')
        if nt is not None and nt in bases and any(isinstance(b, (ast.Name, ast.Attribute)) and ast.unparse(b).split('.')[-1] == 'NamedTuple' for b in s.bases):
            names = ns.get('__annotations_order__', [])
            ns['_fields'] = tuple(names)
            ns['_field_defaults'] = self.dict([(n, ns.pop(n)) for n in names if n in ns])
        c = self.make_class(s.name, bases, ns, env.mod, s, qual, kws)
        cell[0] = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store(s.name, v, env)

    def make_class(self, name, bases, ns, mod=None, node=None, qual=None, kws=None):
        order = ns.pop('__annotations_order__', [])
        if '__getattribute__' in ns:
            self.unsup('__getattribute__')
        if not bases:
            bases = [self.B['object']]
        # Generic[...] and friends contribute nothing
        seen = []
        for b in bases:
            if b not in seen:
                seen.append(b)
        bases = seen
        c = Cls(name, bases, ns, mod, node)
        c.qualname = qual or name
        c.slots_ = order
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        for nm in ('__new__',):
            if isinstance(ns.get(nm), Fn):
                ns[nm] = SM(ns[nm])
        for nm in ('__init_subclass__', '__class_getitem__'):
            if isinstance(ns.get(nm), Fn):
                ns[nm] = CM(ns[nm])
        for k, v in list(ns.items()):
            if isinstance(v, CachedProp):
                v.name = k
            elif isinstance(v, Obj):
                m = v.cls.lookup('__set_name__')
                if m is not MISSING:
                    self.call_method(v, m, [c, k])
        for b in bases:
            if b.enum_members is not None or b is self.B.get('Enum') or any(k is self.B.get('Enum') for k in b.mro):
                self.make_enum(c)
                break
        m = MISSING
        for k in c.mro[1:]:
            if '__init_subclass__' in k.ns:
                m = k.ns['__init_subclass__']
                break
        if isinstance(m, CM):
            self.call(m.fn, [c], kws or {})
        return c

    def make_enum(self, c):
        members = {}
        c.enum_members = members
        isstr = c.sub(self.B['str'])
        isint = c.sub(self.B['int'])
        auto = 0
        for k, v in list(c.ns.items()):
            if k.startswith('__') or isinstance(v, (Fn, Prop, SM, CM, CachedProp, Cls)):
                continue
            if k.startswith('_') and k.endswith('_'):
                continue
            if isinstance(v, Opaque) and v.name == 'auto':
                auto += 1
                v = k.lower() if isstr else 1 << auto - 1 if 'Flag' in self.B and c.sub(self.B['Flag']) else auto
            for m in members.values():
                if self.eq(m.d['_value_'], v):
                    c.ns[k] = m
                    members[k] = m
                    break
            else:
                o = self.new(c)
                o.p = v if (isstr or isint) else None
                o.d.update(_value_=v, value=v, name=k, _name_=k)
                members[k] = o
                c.ns[k] = o
                if '__new__' in c.ns:
                    self.unsup('__new__ of an enumeration')
                init = c.lookup('__init__')
                if isinstance(init, Fn):
                    self.call_method(o, init, list(v) if type(v) is tuple else [v])

    def ex_Raise(self, s, env):
        if s.exc is None:
            if not self.excstack:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise self.excstack[-1]
        v = self.norm(self.ev(s.exc, env))
        if isinstance(v, Cls):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Obj) or not v.cls.isexc:
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        if v.tag is None:
            v.tag = self.repo_loc() or self.loc()
        if s.cause is not None:
            cause = self.norm(self.ev(s.cause, env))
            if isinstance(cause, Cls) and cause.isexc:
                cause = self.instantiate(cause, [], {})
            if cause is not None and not (isinstance(cause, Obj) and cause.cls.isexc):
                raise self.exc('TypeError', 'exception causes must derive from BaseException')
            v.d['__cause__'] = cause
        if self.excstack and self.excstack[-1].obj is not v:
            v.d['__context__'] = self.excstack[-1].obj
        raise PyExc(v)

    def match_exc(self, e, t):
        t = self.norm(t)
        if type(t) is tuple:
            return any(self.match_exc(e, x) for x in t)
        if not isinstance(t, Cls):
            raise self.exc('TypeError', 'catching classes that do not inherit from BaseException is not allowed')
        return e.obj.cls.sub(t)

    def ex_Try(self, s, env):
        try:
            try:
                r = self.block(s.body, env)
            except PyExc as e:
                r = self.handlers(s, e, env)
            else:
                if r is None:
                    r = self.block(s.orelse, env)
        except PyExc as e:
            if s.finalbody:
                self.excstack.append(e)
                try:
                    r2 = self.block(s.finalbody, env)
                finally:
                    self.excstack.pop()
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.block(s.finalbody, env)
            if r2 is not None:
                return r2
        return r

    def handlers(self, s, e, env):
        for h in s.handlers:
            if h.type is None or self.match_exc(e, self.ev(h.type, env)):
                if h.name:
                    self.store(h.name, e.obj, env)
                self.excstack.append(e)
                try:
                    return self.block(h.body, env)
                finally:
                    self.excstack.pop()
                    if h.name:
                        env.vars.pop(h.name, None)
        raise e

    def ex_With(self, s, env):
        return self.with_items(s, 0, env)

    def with_items(self, s, i, env):
        if i == len(s.items):
            return self.block(s.body, env)
        it = s.items[i]
        cm = self.norm(self.ev(it.context_expr, env))
        enter, exit_ = self.cm_methods(cm)
        v = self.call_method(cm, enter, [])
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            r = self.with_items(s, i + 1, env)
        except PyExc as e:
            self.excstack.append(e)
            try:
                sup = self.truth(self.call_method(cm, exit_, [e.obj.cls, e.obj, None]))
            finally:
                self.excstack.pop()
            if sup:
                return None
            raise
        self.call_method(cm, exit_, [None, None, None])
        return r

    def cm_methods(self, cm):
        if not isinstance(cm, Obj):
            raise self.exc('TypeError', '%s does not support the context manager protocol' % self.show(cm))
        en, ex = cm.cls.lookup('__enter__'), cm.cls.lookup('__exit__')
        if en is MISSING or ex is MISSING:
            raise self.exc('TypeError', '%s does not support the context manager protocol' % cm.cls.name)
        return en, ex

    def ex_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                return self.block(c.body, env)
        return None

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.same(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, Cls) and c.native and c.name in ('str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'bytes'):
                    return self.match_pat(p.patterns[0], v, env)
                if isinstance(c, Cls) and c.native and c.name in ('str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'bytes', 'frozenset', 'bytearray'):
                    raise self.exc('TypeError', 'accepts 1 positional sub-pattern')
                ma = self.getattr_(c, '__match_args__')
                names = () if ma is MISSING else tuple(self.tolist(ma))
                if len(p.patterns) > len(names):
                    raise self.exc('TypeError', 'accepts %d positional sub-patterns' % len(names))
                for k, q in zip(names, p.patterns):
                    a = self.getattr_(v, self.norm(k))
                    if a is MISSING or not self.match_pat(q, a, env):
                        return False
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.getattr_(v, k)
                if a is MISSING or not self.match_pat(q, a, env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            vv = self.norm(v)
            if isinstance(vv, str) or not self.isinstance_(v, self.abc['Sequence']) or self.isinstance_(v, (self.B['str'], self.B['bytes'])):
                return False
            vals = self.tolist(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(vals) < len(p.patterns) - 1:
                    return False
                for q, x in zip(p.patterns[:i], vals[:i]):
                    if not self.match_pat(q, x, env):
                        return False
                if p.patterns[i].name:
                    self.store(p.patterns[i].name, self.list(vals[i:len(vals) - after]), env)
                return all(self.match_pat(q, x, env) for q, x in zip(p.patterns[i + 1:], vals[len(vals) - after:]))
            return len(vals) == len(p.patterns) and all(self.match_pat(q, x, env) for q, x in zip(p.patterns, vals))
        if isinstance(p, ast.MatchMapping):
            if not self.isinstance_(v, self.abc['Mapping']):
                return False
            keys = [self.ev(k, env) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                x = self.call(self.getattr(v, 'get'), [k, MATCH_NONE])
                if x is MATCH_NONE or not self.match_pat(q, x, env):
                    return False
            if p.rest is not None:
                rest = self.call(self.B['dict'], [v])
                for k in keys:
                    self.delitem(rest, k)
                self.store(p.rest, rest, env)
            return True
        self.unsup('pattern %s' % type(p).__name__)

    # ------------------------------------------------ generator-mode statements
    def gblock(self, stmts, env):
        for s in stmts:
            if hasyield(s):
                r = yield from self.gex(s, env)
            else:
                r = self.ex(s, env)
            if r is not None:
                return r
        return None

    def gev(self, e, env):
        """expression at a position where yield is supported"""
        if isinstance(e, ast.Yield):
            v = (yield from self.gev(e.value, env)) if e.value else None
            r = yield v
            return r
        if isinstance(e, ast.YieldFrom):
            src = self.norm((yield from self.gev(e.value, env)))
            if isinstance(src, Obj) and src.cls is self.B['generator']:
                r = yield from src.p
                return r
            for v in self.iterate(src):
                yield v
            return None
        if isinstance(e, ast.NamedExpr) and hasyield(e.value):
            v = yield from self.gev(e.value, env)
            self.store(e.target.id, v, env)
            return v
        if not hasyield(e):
            return self.ev(e, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = yield from self.gev(x, env)
                if x is not e.values[-1] and self.truth(v) is isinstance(e.op, ast.Or):
                    break
            return v
        if isinstance(e, ast.IfExp):
            c = yield from self.gev(e.test, env)
            return (yield from self.gev(e.body if self.truth(c) else e.orelse, env))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) or isinstance(e, ast.Compare) and len(e.ops) > 1:
            self.unsup('yield in this position')
        # the parts in order of evaluation, each replaced by its value
        new = (yield from self.gparts(e, env))
        return self.ev(new, env)

    def gparts(self, e, env):
        kw = {}
        names = e._fields
        if isinstance(e, ast.Dict):
            keys, values = [], []
            for k, v in zip(e.keys, e.values):
                keys.append(None if k is None else self.known((yield from self.gev(k, env)), k))
                values.append(self.known((yield from self.gev(v, env)), v))
            return ast.copy_location(ast.Dict(keys=keys, values=values), e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return e
        for n in names:
            v = getattr(e, n, None)
            if isinstance(v, list):
                out = []
                for x in v:
                    out.append((yield from self.gpart(x, env)))
                kw[n] = out
            else:
                kw[n] = (yield from self.gpart(v, env))
        return ast.copy_location(type(e)(**kw), e)

    def gpart(self, x, env):
        if isinstance(x, (ast.Starred, ast.keyword, ast.FormattedValue, ast.Slice)):
            return (yield from self.gparts(x, env))
        if isinstance(x, ast.expr):
            return self.known((yield from self.gev(x, env)), x)
        return x

    def known(self, v, e):
        return ast.copy_location(ast.Constant(value=v), e)

    def gex(self, s, env):
        if self.frames:
            self.frames[-1].node = s
        t = type(s)
        if t is ast.Expr:
            yield from self.gev(s.value, env)
            return None
        if t is ast.Assign:
            v = yield from self.gev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
            return None
        if t is ast.AnnAssign:
            v = yield from self.gev(s.value, env)
            self.assign(s.target, v, env)
            return None
        if t is ast.AugAssign and not hasyield(s.target):
            # the target is read first
            x = s.target
            if isinstance(x, ast.Name):
                x2, cur = x, self.load(x.id, env)
            else:
                x2 = (yield from self.gparts(x, env))
                cur = self.ev(x2, env)
            v = yield from self.gev(s.value, env)
            self.assign(x2, self.binop(BINOPS[type(s.op)], cur, v, True), env)
            return None
        if t is ast.Raise:
            exc = None if s.exc is None else self.known((yield from self.gev(s.exc, env)), s.exc)
            cause = None if s.cause is None else self.known((yield from self.gev(s.cause, env)), s.cause)
            return self.ex(ast.copy_location(ast.Raise(exc=exc, cause=cause), s), env)
        if t is ast.Assert:
            c = yield from self.gev(s.test, env)
            if not self.truth(c):
                return self.ex(ast.copy_location(ast.Assert(test=ast.Constant(value=False), msg=s.msg), s), env)
            return None
        if t is ast.Match:
            v = yield from self.gev(s.subject, env)
            for c in s.cases:
                if self.match_pat(c.pattern, v, env):
                    ok = True
                    if c.guard is not None:
                        g = yield from self.gev(c.guard, env)
                        ok = self.truth(g)
                    if ok:
                        return (yield from self.gblock(c.body, env))
            return None
        if t is ast.Return:
            v = yield from self.gev(s.value, env)
            return (RET, v)
        if t is ast.If:
            c = yield from self.gev(s.test, env)
            return (yield from self.gblock(s.body if self.truth(c) else s.orelse, env))
        if t is ast.For:
            for v in self.iterate((yield from self.gev(s.iter, env))):
                self.assign(s.target, v, env)
                r = yield from self.gblock(s.body, env)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
            return (yield from self.gblock(s.orelse, env))
        if t is ast.While:
            last = None
            while self.truth((yield from self.gev(s.test, env))):
                r = yield from self.gblock(s.body, env)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
                last = self.recur(last, env)
                self.steps += 1
                if self.steps > MAXSTEPS:
                    raise Unsupported('step budget exhausted', self.loc())
            return (yield from self.gblock(s.orelse, env))
        if t is ast.Try:
            try:
                try:
                    r = yield from self.gblock(s.body, env)
                except PyExc as e:
                    r = yield from self.ghandlers(s, e, env)
                else:
                    if r is None:
                        r = yield from self.gblock(s.orelse, env)
            except PyExc as e:
                if s.finalbody:
                    r2 = yield from self.gblock(s.finalbody, env)
                    if r2 is not None:
                        return r2
                raise
            except GeneratorExit:
                if env.closing and s.finalbody:
                    self.block(s.finalbody, env)
                raise
            if s.finalbody:
                r2 = yield from self.gblock(s.finalbody, env)
                if r2 is not None:
                    return r2
            return r
        if t is ast.With:
            return (yield from self.gwith(s, 0, env))
        self.unsup('yield inside %s' % t.__name__)

    def ghandlers(self, s, e, env):
        for h in s.handlers:
            if h.type is None or self.match_exc(e, self.ev(h.type, env)):
                if h.name:
                    self.store(h.name, e.obj, env)
                self.excstack.append(e)
                try:
                    return (yield from self.gblock(h.body, env))
                finally:
                    if self.excstack:
                        self.excstack.pop()
                    if h.name:
                        env.vars.pop(h.name, None)
        raise e

    def gwith(self, s, i, env):
        if i == len(s.items):
            return (yield from self.gblock(s.body, env))
        it = s.items[i]
        cm = self.norm(self.ev(it.context_expr, env))
        enter, exit_ = self.cm_methods(cm)
        v = self.call_method(cm, enter, [])
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            r = yield from self.gwith(s, i + 1, env)
        except PyExc as e:
            if self.truth(self.call_method(cm, exit_, [e.obj.cls, e.obj, None])):
                return None
            raise
        except GeneratorExit:
            if env.closing:
                ge = self.exc('GeneratorExit')
                self.call_method(cm, exit_, [ge.obj.cls, ge.obj, None])
            raise
        self.call_method(cm, exit_, [None, None, None])
        return r

    # ---------------------------------------------------------------- imports
    def ex_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), env)

    def ex_ImportFrom(self, s, env):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            pkg = env.mod.name
            isp = env.mod.file and os.path.basename(env.mod.file) == '__init__.py'
            parts = pkg.split('.')
            drop = s.level - 1 if isp else s.level
            parts = parts[:len(parts) - drop] if drop else parts
            name = '.'.join(parts + ([s.module] if s.module else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                al = m.ns.get('__all__')
                names = [x for x in self.tolist(al)] if al is not None else [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.store(k, self.from_mod(m, k), env)
            else:
                self.store(a.asname or a.name, self.from_mod(m, a.name), env)

    def from_mod(self, m, name):
        if name in m.ns:
            return m.ns[name]
        if m.native:
            if (m.name, name) in self.missing_subpackage:
                raise self.exc('ImportError', name)
            return self.unmodelled(m, name)
        sub = m.name + '.' + name
        try:
            return self.import_module(sub)
        except PyExc:
            raise self.exc('ImportError', "cannot import name '%s' from '%s'" % (name, m.name))

    def unmodelled(self, m, name):
        """a name of a native module without a model: importing it is harmless, using it leaves the question open"""
        if m.name.split('.')[0] not in sys.stdlib_module_names:
            self.unsup('%s.%s is not modelled' % (m.name, name))
        try:
            if not hasattr(importlib.import_module(m.name), name):
                importlib.import_module(m.name + '.' + name)
        except ImportError:
            raise self.exc('ImportError', "cannot import name '%s' from '%s'" % (name, m.name))
        return Unmodelled('%s.%s' % (m.name, name))

    def gap(self, v):
        if isinstance(v, Unmodelled):
            self.unsup('%s is not modelled' % v.name)

    def find_module(self, name):
        rel = name.replace('.', '/')
        for d in (self.root, self.stubdir, self.driverdir):
            for cand in (os.path.join(d, rel, '__init__.py'), os.path.join(d, rel + '.py')):
                if os.path.isfile(cand):
                    return cand
        if name in PURE:
            # standard-library modules written in Python are analysed like the program
            cand = os.path.join(os.path.dirname(os.__file__), rel + '.py')
            if os.path.isfile(cand):
                return cand
        return None

    def import_module(self, name):
        if '.' in name:
            self.import_module(name.rsplit('.', 1)[0])
        m = self.modules.get(name)
        if m is not None:
            return m
        f = self.find_module(name)
        if f is None:
            if name.split('.')[0] in ('jschon',) or name in self.absent:
                raise self.exc('ModuleNotFoundError', "No module named '%s'" % name)
            if name.split('.')[0] in sys.stdlib_module_names:
                try:
                    known = importlib.util.find_spec(name) is not None
                except ImportError:
                    known = False
                if known:
                    m = self.modules[name] = Mod(name, {'__name__': name}, None)
                    m.native = True
                    return m
                raise self.exc('ModuleNotFoundError', "No module named '%s'" % name)
            self.unsup('import of %s is not modelled' % name)
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        tree = parse_cached(f, src)
        m = Mod(name, {}, f)
        m.tree = tree
        if f.startswith(self.root):
            self.files.add(f)
        m.ns['__name__'] = name
        m.ns['__file__'] = '/src/' + self.relfile(f)
        self.modules[name] = m
        if not self.in_base:
            self.undo.append(lambda: self.modules.pop(name, None))
        if '.' in name:
            p, c = name.rsplit('.', 1)
            self.nsset(self.modules[p].ns, c, m)
        env = Env(None, m, None)
        fr = Frame(Fn(name='<module>', qualname='<module>', module=m, node=tree, env=None, owner=None, locals=set(),
                      globals_=set(), nonlocals=set(), isgen=False, attrs=None, defaults=[], kwdefaults={}, doc=None), tree)
        self.frames.append(fr)
        # module bodies executed late (import inside a function) become part of the base heap
        was = self.in_base
        try:
            self.block(tree.body, env)
        except PyExc:
            self.modules.pop(name, None)
            raise
        finally:
            self.frames.pop()
        return m


class _HK:
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __repr__(self):
        return 'h%r' % (self.h,)


_trees = {}


def parse_cached(f, src):
    k = (f, hash(src))
    if k not in _trees:
        _trees[k] = ast.parse(src, f)
    return _trees[k]


def _constmethod(name):
    def m(I, args, kw):
        recv = args[0]
        rest = [I.norm(a) for a in args[1:]]
        if type(recv) is tuple or not all(deep_const(a) for a in rest) or not all(deep_const(I.norm(v)) for v in kw.values()):
            I.unsup('%s.%s with abstract arguments' % (type(recv).__name__, name))
        try:
            r = getattr(recv, name)(*rest, **{k: I.norm(v) for k, v in kw.items()})
        except Exception as e:
            raise I.rethrow(e)
        return tolang(I, r)
    return m


def tolang(I, r):
    if isinstance(r, list):
        return I.list([tolang(I, x) for x in r])
    if isinstance(r, dict):
        return I.dict([(tolang(I, k), tolang(I, v)) for k, v in r.items()])
    if type(r) is tuple:
        return tuple(tolang(I, x) for x in r)
    if is_const(r):
        return r
    I.unsup('result %r' % (r,))


def _flip(m):
    return (LT if m & GT else 0) | (m & EQ) | (GT if m & LT else 0)


_NONE = frozenset(['NoneType'])
_BOOL = frozenset(['bool'])
_REEVAL = frozenset(['cat', 'replace', 'str', 'translate', 're.multi'])
_STRINT = frozenset(['str', 'int'])
_INTS = frozenset(['int'])
COLLECTIONS = frozenset(['list', 'tuple', 'dict', 'useq', 'umap'])
ALLJSON = ('NoneType', 'bool', 'int', 'float', 'str', 'list', 'dict')

_HOSTTYPE = {type(None): 'NoneType', bool: 'bool', int: 'int', float: 'float', complex: 'complex', str: 'str', bytes: 'bytes',
             tuple: 'tuple', type(Ellipsis): 'ellipsis', type(NotImplemented): 'NotImplementedType', slice: 'slice',
             Cls: 'type', Fn: 'function', Bound: 'method', Native: 'builtin_function', Mod: 'module', Prop: 'property',
             SM: 'staticmethod', CM: 'classmethod', Super: 'super', Opaque: 'typing_construct', UnionT: 'typing_construct',
             CachedProp: 'cached_property'}
import collections as _c
import builtins as _builtins
import decimal as _decimal
import fractions as _fractions
import uuid as _uuid
import pathlib as _pathlib
import io as _io
import re as _re
_HOSTCLS = {'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'str': str, 'bytes': bytes, 'int': int,
            'float': float, 'tuple': tuple, 'deque': _c.deque, 'range': range, 'slice': slice, 'object': object, 'type': type,
            'generator': type((lambda: (yield))()), 'BaseException': BaseException, 'OSError': OSError, 'complex': complex,
            'property': property, 'OrderedDict': _c.OrderedDict, 'defaultdict': _c.defaultdict}
_HOSTCLS.update({'Pattern': _re.Pattern, 'Match': _re.Match, 'TextIOWrapper': _io.TextIOWrapper, 'Path': _pathlib.Path, 'UUID': _uuid.UUID,
                 'Decimal': _decimal.Decimal, 'Fraction': _fractions.Fraction})
# classes of third-party libraries: whatever is not modelled may exist
_LIBCLS = {'URIReference', 'Validator', 'Response', 'Logger', 'HTTPError', 'RequestException'}
