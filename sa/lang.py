"""Regular-language domain for unknown strings.

A language is a minimal deterministic automaton over code-point intervals, kept
in canonical form, so that equal languages are the same object.  Regular
expressions of the analysed program, the built-in string tests and int() are
translated to languages; str.replace / str.translate with constant arguments are
sequential transducers whose images, composition and equivalence are decided
exactly.
"""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:          # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

MAXCP = 0x10FFFF
FULL = ((0, MAXCP),)


class NoLang(Exception):
    """not expressible in the domain"""


# ------------------------------------------------------------- code point sets
def cs_norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_neg(ivs):
    out, p = [], 0
    for lo, hi in cs_norm(ivs):
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def cs_and(a, b):
    return cs_neg(cs_norm(list(cs_neg(a)) + list(cs_neg(b))))


_cls = {}


def charset(name):
    """code points c with chr(c).<name>()"""
    r = _cls.get(name)
    if r is None:
        f = getattr(str, name)
        out, start = [], None
        for c in range(MAXCP + 1):
            if f(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        r = _cls[name] = tuple(out)
    return r


# ------------------------------------------------------------------- automata
class Lang:
    """canonical minimal DFA: rows[i] = tuple of (lo, hi, target); state 0 initial; missing = reject"""
    __slots__ = ('rows', 'acc', 'key', '_memo')

    def __init__(self, rows, acc):
        self.rows = rows
        self.acc = acc
        self.key = (rows, acc)
        self._memo = {}

    def empty(self):
        return not self.acc

    def step(self, s, c):
        for lo, hi, t in self.rows[s]:
            if lo <= c <= hi:
                return t
        return None

    def accepts(self, w):
        s = 0
        for ch in w:
            s = self.step(s, ord(ch))
            if s is None:
                return False
        return s in self.acc

    def word(self):
        """a shortest member, preferring printable characters"""
        if not self.acc:
            return None
        seen = {0: ''}
        q = [0]
        for s in q:
            if s in self.acc:
                return seen[s]
            for lo, hi, t in self.rows[s]:
                if t not in seen:
                    seen[t] = seen[s] + chr(_nice(lo, hi))
                    q.append(t)
        return None

    def single(self):
        """the only member, or None"""
        if not self.acc:
            return None
        w, s, n = '', 0, 0
        while True:
            row = self.rows[s]
            if s in self.acc:
                return w if not row else None
            if len(row) != 1 or row[0][0] != row[0][1] or n > 4000:
                return None
            w += chr(row[0][0])
            s = row[0][2]
            n += 1

    def finite_words(self, limit):
        """all members if at most `limit`, else None"""
        out = []

        def rec(s, w):
            if len(w) > 200 or len(out) > limit:
                raise OverflowError
            if s in self.acc:
                out.append(w)
            for lo, hi, t in self.rows[s]:
                if hi - lo > limit:
                    raise OverflowError
                for c in range(lo, hi + 1):
                    rec(t, w + chr(c))
        try:
            rec(0, '')
        except (OverflowError, RecursionError):
            return None
        return out if len(out) <= limit else None


def _nice(lo, hi):
    for a, b in ((97, 122), (48, 57), (65, 90), (33, 126), (0, MAXCP)):
        x = max(lo, a)
        if x <= min(hi, b):
            return x
    return lo


_intern = {}


def canon(trans, acc, init=0):
    """trans: list of rows [(lo,hi,t)], any DFA -> canonical Lang"""
    n = len(trans)
    # co-reachable states
    rev = [[] for _ in range(n)]
    for i, row in enumerate(trans):
        for _, _, t in row:
            rev[t].append(i)
    live = set(acc)
    st = list(live)
    while st:
        x = st.pop()
        for y in rev[x]:
            if y not in live:
                live.add(y)
                st.append(y)
    if init not in live:
        k = ((), frozenset())
        if k not in _intern:
            _intern[k] = Lang(((),), frozenset())
        return _intern[k]
    # reachable
    order = [init]
    seen = {init}
    for s in order:
        for _, _, t in trans[s]:
            if t in live and t not in seen:
                seen.add(t)
                order.append(t)
    # partition refinement (Moore)
    block = {s: int(s in acc) for s in order}
    nb = len(set(block.values()))
    while True:
        sig = {}
        new = {}
        for s in order:
            row = []
            for lo, hi, t in sorted(trans[s]):
                if t not in seen:
                    continue
                b = block[t]
                if row and row[-1][2] == b and row[-1][1] + 1 == lo:
                    row[-1] = (row[-1][0], hi, b)
                else:
                    row.append((lo, hi, b))
            k = (block[s], tuple(row))
            new[s] = sig.setdefault(k, len(sig))
        block = new
        if len(sig) == nb:
            break
        nb = len(sig)
    rep = {}
    for s in order:
        rep.setdefault(block[s], s)
    # canonical numbering
    num = {block[init]: 0}
    q = [block[init]]
    rows = []
    for b in q:
        row = []
        for lo, hi, t in sorted(trans[rep[b]]):
            if t not in seen:
                continue
            tb = block[t]
            if tb not in num:
                num[tb] = len(num)
                q.append(tb)
            if row and row[-1][2] == num[tb] and row[-1][1] + 1 == lo:
                row[-1] = (row[-1][0], hi, num[tb])
            else:
                row.append((lo, hi, num[tb]))
        rows.append(tuple(row))
    rows = tuple(rows)
    ac = frozenset(num[block[s]] for s in order if s in acc)
    k = (rows, ac)
    if k not in _intern:
        _intern[k] = Lang(rows, ac)
    return _intern[k]


class Nfa:
    """builder; edges on code points, eps, start-anchored eps, end-anchored eps"""

    def __init__(self):
        self.e = []

    def state(self):
        self.e.append([])
        return len(self.e) - 1

    def chars(self, a, ivs, b):
        for lo, hi in ivs:
            self.e[a].append(('c', lo, hi, b))

    def eps(self, a, b, kind='e'):
        self.e[a].append((kind, b))

    def lang(self, init, final):
        """determinise; nfa states are (q, mode): mode 1 = rest is '' or newline, 2 = rest is ''"""
        def closure(states, atstart):
            out = set(states)
            st = list(states)
            while st:
                q, m = st.pop()
                for ed in self.e[q]:
                    k = ed[0]
                    if k == 'c':
                        continue
                    if k == 'start' and not atstart:
                        continue
                    nm = m
                    if k == 'end':
                        nm = max(m, 1)
                    elif k == 'endz':
                        nm = 2
                    x = (ed[1], nm)
                    if x not in out:
                        out.add(x)
                        st.append(x)
            return frozenset(out)
        i = closure([(init, 0)], True)
        num = {i: 0}
        q = [i]
        trans = []
        acc = set()
        for S in q:
            n = num[S]
            if any(x[0] == final for x in S):
                acc.add(n)
            pts = {}
            segs = []
            for (s, m) in S:
                if m == 2:
                    continue
                for ed in self.e[s]:
                    if ed[0] != 'c':
                        continue
                    _, lo, hi, t = ed
                    if m == 1:
                        if lo <= 10 <= hi:
                            segs.append((10, 10, (t, 2)))
                    else:
                        segs.append((lo, hi, (t, 0)))
            cuts = sorted({x for lo, hi, _ in segs for x in (lo, hi + 1)})
            row = []
            for a, b in zip(cuts, cuts[1:]):
                tg = [t for lo, hi, t in segs if lo <= a and b - 1 <= hi]
                if not tg:
                    continue
                T = closure(tg, False)
                if T not in num:
                    if len(num) > 3000:
                        raise NoLang('automaton too large')
                    num[T] = len(num)
                    q.append(T)
                row.append((a, b - 1, num[T]))
            trans.append(row)
        return canon(trans, acc)


def product(a, b, op):
    k = (op, id(b))
    r = a._memo.get(k)
    if r is not None:
        return r[0]
    num = {(0, 0): 0}
    q = [(0, 0)]
    trans, acc = [], set()
    for (x, y) in q:
        n = num[(x, y)]
        ax = x is not None and x in a.acc
        by = y is not None and y in b.acc
        if (op == 'and' and ax and by) or (op == 'or' and (ax or by)) or (op == 'diff' and ax and not by):
            acc.add(n)
        ra = a.rows[x] if x is not None else ()
        rb = b.rows[y] if y is not None else ()
        cuts = sorted({c for lo, hi, _ in ra for c in (lo, hi + 1)} | {c for lo, hi, _ in rb for c in (lo, hi + 1)})
        row = []
        for lo, nx in zip(cuts, cuts[1:]):
            tx = next((t for l, h, t in ra if l <= lo <= h), None)
            ty = next((t for l, h, t in rb if l <= lo <= h), None)
            if tx is None and ty is None or op == 'and' and (tx is None or ty is None) or op == 'diff' and tx is None:
                continue
            p = (tx, ty)
            if p not in num:
                num[p] = len(num)
                q.append(p)
            row.append((lo, nx - 1, num[p]))
        trans.append(row)
    r = canon(trans, acc)
    a._memo[k] = (r, b)
    return r


def inter(a, b):
    return product(a, b, 'and')


def union(a, b):
    return product(a, b, 'or')


def diff(a, b):
    return product(a, b, 'diff')


def subset(a, b):
    return a is b or diff(a, b).empty()


def embed(n, L):
    """copy of L in builder n -> (init, final)"""
    base = [n.state() for _ in L.rows]
    f = n.state()
    for i, row in enumerate(L.rows):
        for lo, hi, t in row:
            n.e[base[i]].append(('c', lo, hi, base[t]))
        if i in L.acc:
            n.eps(base[i], f)
    return base[0], f


def concat(parts):
    if len(parts) == 1:
        return parts[0]
    k = ('cat',) + tuple(id(p) for p in parts)
    r = parts[0]._memo.get(k)
    if r is not None:
        return r[0]
    n = Nfa()
    first = None
    last = None
    for L in parts:
        i, f = embed(n, L)
        if first is None:
            first = i
        else:
            n.eps(last, i)
        last = f
    r = n.lang(first, last)
    parts[0]._memo[k] = (r, parts)
    return r


_words = {}


def word(w):
    r = _words.get(w)
    if r is None:
        rows = [[(ord(c), ord(c), i + 1)] for i, c in enumerate(w)] + [[]]
        r = _words[w] = canon(rows, {len(w)})
    return r


def allof(ivs, minimum=0):
    """strings of characters in the set, of at least the given length"""
    n = minimum + 1
    rows = [[(lo, hi, min(i + 1, n - 1)) for lo, hi in ivs] for i in range(n)]
    return canon(rows, {n - 1})


ANY = allof(FULL)
EMPTY = diff(word('a'), word('a'))
NONEMPTY = allof(FULL, 1)


def containing(w):
    return concat([ANY, word(w), ANY])


def starting(w):
    return concat([word(w), ANY])


def ending(w):
    return concat([ANY, word(w)])


# ----------------------------------------------------------- regular expressions
_relang = {}


def regex(pattern, method='fullmatch', flags=0):
    """strings w with re.<method>(pattern, w)"""
    k = (pattern, method, flags)
    r = _relang.get(k)
    if r is None:
        try:
            r = _regex(pattern, method, flags)
        except NoLang as e:
            r = e
        except re.error as e:
            r = NoLang(str(e))
        _relang[k] = r
    if isinstance(r, NoLang):
        raise r
    return r


def _regex(pattern, method, flags):
    p = sp.parse(pattern, flags)
    fl = p.state.flags
    if fl & re.IGNORECASE or fl & re.MULTILINE or fl & re.LOCALE:
        raise NoLang('flags')
    n = Nfa()
    i, f = n.state(), n.state()
    a, b = n.state(), n.state()
    if method == 'search':
        n.chars(i, FULL, i)
    n.eps(i, a)
    build(n, p, a, b, fl)
    n.eps(b, f)
    if method in ('search', 'match'):
        n.chars(f, FULL, f)
    return n.lang(i, f)


def _plainops(seq):
    for op, av in seq:
        yield op, av
        if op is sc.BRANCH:
            for alt in av[1]:
                yield from _plainops(alt)
        elif op is sc.SUBPATTERN:
            yield from _plainops(av[3])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            yield from _plainops(av[2])


def ends(pattern, flags=0):
    """strings w where re.match(pattern, w) ends at the end of w (leftmost alternatives first, as re does):
    threads in order of preference, cut below the first that has matched"""
    k = (pattern, 'ends', flags)
    if k in _relang:
        return _relang[k]
    p = sp.parse(pattern, flags)
    fl = p.state.flags
    if fl & re.IGNORECASE or fl & re.MULTILINE or fl & re.LOCALE:
        raise NoLang('flags')
    for op, av in _plainops(p):
        if op is sc.AT or op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[2].getwidth()[0] == 0:
            raise NoLang('priority')
    n = Nfa()
    init, final = n.state(), n.state()
    build(n, p, init, final, fl)

    def closure(states):
        out, seen = [], set()

        def visit(q):
            if q in seen:
                return False
            seen.add(q)
            if q == final:
                out.append(None)
                return True
            for ed in n.e[q]:
                if ed[0] == 'c':
                    out.append(ed)
                elif visit(ed[1]):
                    return True
            return False
        for q in states:
            if visit(q):
                break
        return tuple(out)
    i = closure([init])
    num, q, trans, acc = {i: 0}, [i], [], set()
    for S in q:
        if S and S[-1] is None:
            acc.add(num[S])
        cuts = sorted({x for ed in S if ed for x in (ed[1], ed[2] + 1)})
        row = []
        for a, b in zip(cuts, cuts[1:]):
            tg = list(dict.fromkeys(ed[3] for ed in S if ed and ed[1] <= a and b - 1 <= ed[2]))
            if tg:
                T = closure(tg)
                if T not in num:
                    if len(num) > 1000:
                        raise NoLang('automaton too large')
                    num[T] = len(num)
                    q.append(T)
                row.append((a, b - 1, num[T]))
        trans.append(row)
    _relang[k] = canon(trans, acc)
    return _relang[k]


def words_of(pattern, flags=0, limit=12):
    """the words a pattern matches, where no match depends on its surroundings; NoLang otherwise"""
    p = sp.parse(pattern, flags)
    if any(op is sc.AT for op, av in _plainops(p)):
        raise NoLang('anchor')
    ws = regex(pattern, 'fullmatch', flags).finite_words(limit)
    if not ws or any(not w or any(v != w and v.startswith(w) for v in ws) for w in ws):
        raise NoLang('words')
    return ws


def catset(c, fl):
    asc = fl & re.ASCII
    name = str(c)
    neg = '_NOT_' in name
    if 'DIGIT' in name:
        s = ((48, 57),) if asc else charset('isdecimal')
    elif 'SPACE' in name:
        s = ((9, 13), (32, 32)) if asc else charset('isspace')
    elif 'WORD' in name:
        s = ((48, 57), (65, 90), (95, 95), (97, 122)) if asc else cs_norm(list(charset('isalnum')) + [(95, 95)])
    else:
        raise NoLang(name)
    return cs_neg(s) if neg else s


def inset(items, fl):
    ivs, neg = [], False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            ivs.append((av, av))
        elif op is sc.RANGE:
            ivs.append(tuple(av))
        elif op is sc.CATEGORY:
            ivs.extend(catset(av, fl))
        else:
            raise NoLang(str(op))
    s = cs_norm(ivs)
    return cs_neg(s) if neg else s


def build(n, seq, a, b, fl):
    cur = a
    for op, av in seq:
        nx = n.state()
        if op is sc.LITERAL:
            n.chars(cur, ((av, av),), nx)
        elif op is sc.NOT_LITERAL:
            n.chars(cur, cs_neg(((av, av),)), nx)
        elif op is sc.ANY:
            n.chars(cur, FULL if fl & re.DOTALL else cs_neg(((10, 10),)), nx)
        elif op is sc.IN:
            n.chars(cur, inset(av, fl), nx)
        elif op is sc.BRANCH:
            for alt in av[1]:
                x, y = n.state(), n.state()
                n.eps(cur, x)
                build(n, alt, x, y, fl)
                n.eps(y, nx)
        elif op is sc.SUBPATTERN:
            group, add, dele, sub = av
            if add or dele:
                raise NoLang('inline flags')
            build(n, sub, cur, nx, fl)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 64 or (hi is not sc.MAXREPEAT and hi > 64):
                raise NoLang('repeat')
            x = cur
            for _ in range(lo):
                y = n.state()
                build(n, sub, x, y, fl)
                x = y
            # edges in order of preference (see ends)
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT:
                loop = n.state()
                n.eps(x, loop)
                y = n.state()
                if not greedy:
                    n.eps(loop, nx)
                build(n, sub, loop, y, fl)
                n.eps(y, loop)
                if greedy:
                    n.eps(loop, nx)
            else:
                for _ in range(hi - lo):
                    y = n.state()
                    if not greedy:
                        n.eps(x, nx)
                    build(n, sub, x, y, fl)
                    if greedy:
                        n.eps(x, nx)
                    x = y
                n.eps(x, nx)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                n.eps(cur, nx, 'start')
            elif av is sc.AT_END:
                n.eps(cur, nx, 'end')
            elif av is sc.AT_END_STRING:
                n.eps(cur, nx, 'endz')
            else:
                raise NoLang('anchor')
        else:
            raise NoLang(str(op))
        cur = nx
    n.eps(cur, b)


def pyint():
    """strings accepted by int()"""
    r = _relang.get('pyint')
    if r is None:
        sp_ = allof(charset('isspace'))
        d = charset('isdecimal')
        n = Nfa()
        s0, s1, s2, s3, f = [n.state() for _ in range(5)]
        n.eps(s0, s1)
        n.chars(s0, ((43, 43), (45, 45)), s1)
        n.chars(s1, d, s2)
        n.chars(s2, d, s2)
        n.chars(s2, ((95, 95),), s3)
        n.chars(s3, d, s2)
        n.eps(s2, f)
        r = _relang['pyint'] = concat([sp_, n.lang(s0, f), sp_])
    return r


CANON_INT = None


def canonical_int():
    return regex('-?[1-9][0-9]*|0')


def canonical_nat():
    return regex('[1-9][0-9]*|0')


# ----------------------------------------------------------------- transducers
class Replace:
    """str.replace(a, b) as a sequential machine; state = matched proper prefix of a"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.special = frozenset(a)

    init = ''

    def step(self, s, c):
        buf = s + c
        if buf == self.a:
            return '', self.b
        out = ''
        while buf and not self.a.startswith(buf):
            out += buf[0]
            buf = buf[1:]
        return buf, out

    def flush(self, s):
        return s


class Multi:
    """simultaneous replacement of words, none of which starts another one (re.sub)"""

    def __init__(self, table):
        self.m = tuple(sorted(table))
        self.special = frozenset(c for w, r in self.m for c in w)

    init = ''

    def step(self, s, c):
        buf, out = s + c, ''
        while buf:
            for w, r in self.m:
                if buf.startswith(w):
                    out += r
                    buf = buf[len(w):]
                    break
            else:
                if any(w.startswith(buf) for w, r in self.m):
                    break
                out += buf[0]
                buf = buf[1:]
        return buf, out

    def flush(self, s):
        out = ''
        while s:
            for w, r in self.m:
                if s.startswith(w):
                    out += r
                    s = s[len(w):]
                    break
            else:
                out += s[0]
                s = s[1:]
        return out


def inverse(m):
    """a candidate for the inverse of a machine"""
    if isinstance(m, Replace) and m.b:
        return Replace(m.b, m.a)
    if isinstance(m, Multi) and all(r for w, r in m.m):
        return Multi([(r, w) for w, r in m.m])
    if isinstance(m, Translate):
        t = [(chr(v) if isinstance(v, int) else v, chr(k)) for k, v in m.t.items()]
        if all(r for r, w in t):
            return Multi(t)
    raise NoLang('inverse')


class Translate:
    def __init__(self, table):
        self.t = dict(table)
        self.special = frozenset(chr(k) for k in self.t)

    init = ''

    def step(self, s, c):
        r = self.t.get(ord(c), c)
        return '', '' if r is None else chr(r) if isinstance(r, int) else r

    def flush(self, s):
        return ''


class Chain:
    """composition, first machine first"""

    def __init__(self, ms):
        self.ms = tuple(ms)
        sp_ = set()
        for m in self.ms:
            sp_ |= m.special
        self.special = frozenset(sp_)
        self.init = tuple(m.init for m in self.ms)

    def feed(self, st, i, w):
        """feed w to machine i onward -> output of the last"""
        st = list(st)
        cur = w
        for j in range(i, len(self.ms)):
            out = ''
            s = st[j]
            for c in cur:
                s, o = self.ms[j].step(s, c)
                out += o
            st[j] = s
            cur = out
        return tuple(st), cur

    def step(self, st, c):
        return self.feed(st, 0, c)

    def flush(self, st):
        out = ''
        st = tuple(st)
        for i in range(len(self.ms)):
            w = self.ms[i].flush(st[i])
            st, o = self.feed(st, i + 1, w)
            out += o
        return out


def reps(L, s, special):
    """representative characters of the transitions of state s: every special one, two others per interval"""
    for lo, hi, t in L.rows[s]:
        others = 0
        c = _nice(lo, hi)
        cand = list(range(c, min(hi, c + 40) + 1)) + list(range(lo, min(hi, lo + 40) + 1))
        used = set()
        for x in cand:
            ch = chr(x)
            if ch not in special and ch not in used:
                used.add(ch)
                yield ch, t
                others += 1
                if others == 2:
                    break
        for ch in special:
            if lo <= ord(ch) <= hi:
                yield ch, t


def differ(f, g, L, limit=12):
    """a word of L on which the sequential functions f and g differ; None if equal on L; NoLang if undecided"""
    special = f.special | g.special
    start = (0, f.init, g.init, 0, '')
    seen = {start: ''}
    q = [start]
    for cur in q:
        s, x, y, side, delay = cur
        w = seen[cur]
        if s in L.acc:
            a = (delay if side == 0 else '') + f.flush(x)
            b = (delay if side == 1 else '') + g.flush(y)
            if a != b:
                return w
        for c, t in reps(L, s, special):
            x2, ox = f.step(x, c)
            y2, oy = g.step(y, c)
            a = (delay if side == 0 else '') + ox
            b = (delay if side == 1 else '') + oy
            n = 0
            while n < len(a) and n < len(b) and a[n] == b[n]:
                n += 1
            a, b = a[n:], b[n:]
            if a and b:
                # outputs diverge: any completion within L is a witness
                k = completion(L, t)
                return w + c + k
            if len(a) > limit or len(b) > limit:
                raise NoLang('delay')
            st = (t, x2, y2, 0 if a else 1, a or b)
            if st not in seen:
                if len(seen) > 20000:
                    raise NoLang('size')
                seen[st] = w + c
                q.append(st)
    return None


def completion(L, s):
    seen = {s: ''}
    q = [s]
    for x in q:
        if x in L.acc:
            return seen[x]
        for lo, hi, t in L.rows[x]:
            if t not in seen:
                seen[t] = seen[x] + chr(_nice(lo, hi))
                q.append(t)
    return ''


IDENT = Chain(())


def image(m, L):
    """language of outputs of the sequential machine on L"""
    key = ('img', type(m).__name__, getattr(m, 'a', None), getattr(m, 'b', None), repr(getattr(m, 't', None)), getattr(m, 'm', None))
    r = L._memo.get(key)
    if r is not None:
        return r
    n = Nfa()
    num = {}
    final = n.state()

    def st(k):
        if k not in num:
            num[k] = n.state()
            q.append(k)
        return num[k]

    def emit(a, w, b):
        for c in w[:-1]:
            x = n.state()
            n.chars(a, ((ord(c), ord(c)),), x)
            a = x
        if w:
            n.chars(a, ((ord(w[-1]), ord(w[-1])),), b)
        else:
            n.eps(a, b)
    q = []
    i = st((0, m.init))
    for (s, x) in q:
        here = num[(s, x)]
        if s in L.acc:
            emit(here, m.flush(x), final)
        for lo, hi, t in L.rows[s]:
            spec = sorted(ord(c) for c in m.special if lo <= ord(c) <= hi)
            for c in spec:
                x2, o = m.step(x, chr(c))
                emit(here, o, st((t, x2)))
            rest = cs_and(((lo, hi),), cs_neg([(c, c) for c in spec])) if spec else ((lo, hi),)
            if rest:
                # an ordinary character: output is the held prefix followed by itself
                c = chr(rest[0][0])
                x2, o = m.step(x, c)
                if not o.endswith(c):
                    raise NoLang('transducer')
                a = here
                for ch in o[:-1]:
                    z = n.state()
                    n.chars(a, ((ord(ch), ord(ch)),), z)
                    a = z
                n.chars(a, rest, st((t, x2)))
        if len(num) > 5000:
            raise NoLang('size')
    r = n.lang(i, final)
    L._memo[key] = r
    return r


# -------------------------------------------------------------------- segments
def segments(L, sep, k):
    """for words of L with exactly k occurrences of the one-character sep: (restricted L, languages of the k+1 segments)"""
    seg = allof(cs_neg(((ord(sep), ord(sep)),)))
    parts = []
    for i in range(k):
        parts += [seg, word(sep)]
    parts.append(seg)
    R = inter(L, concat(parts))
    if R.empty():
        return R, []
    # states after i separators
    out = []
    starts = {0}
    for i in range(k + 1):
        reach = set(starts)
        st = list(starts)
        while st:
            s = st.pop()
            for lo, hi, t in R.rows[s]:
                if (lo, hi) == (ord(sep), ord(sep)):
                    continue
                if lo <= ord(sep) <= hi and lo != hi:
                    pass
                if t not in reach:
                    reach.add(t)
                    st.append(t)
        # language of segment i: from any start to any state with a sep edge (or accepting if last)
        n = Nfa()
        num = {s: n.state() for s in reach}
        i0, f = n.state(), n.state()
        for s in starts:
            n.eps(i0, num[s])
        nxt = set()
        for s in reach:
            for lo, hi, t in R.rows[s]:
                ivs = cs_and(((lo, hi),), cs_neg(((ord(sep), ord(sep)),)))
                if ivs and t in num:
                    n.chars(num[s], ivs, num[t])
                if lo <= ord(sep) <= hi:
                    nxt.add(t)
                    if i < k:
                        n.eps(num[s], f)
            if i == k and s in R.acc:
                n.eps(num[s], f)
        out.append(n.lang(i0, f))
        starts = nxt
    return R, out


def tail(L, n=1):
    """languages of w[n:] for w in L"""
    cur = {0}
    for _ in range(n):
        cur = {t for s in cur for _, _, t in L.rows[s]} | {s for s in ()}
    b = Nfa()
    base = [b.state() for _ in L.rows]
    i, f = b.state(), b.state()
    for s, row in enumerate(L.rows):
        for lo, hi, t in row:
            b.e[base[s]].append(('c', lo, hi, base[t]))
        if s in L.acc:
            b.eps(base[s], f)
    for s in cur:
        b.eps(i, base[s])
    return b.lang(i, f)


def quoted(L, safe):
    """language of urllib.parse.quote(w, safe) for w in L (non-ASCII characters: any run of 2-4 escaped bytes)"""
    import string
    keep = set(string.ascii_letters + string.digits + '_.-~') | {c for c in safe if ord(c) < 128}
    hi4 = regex('%[89A-F][0-9A-F]')
    multi = union(union(concat([hi4] * 2), concat([hi4] * 3)), concat([hi4] * 4))
    n = Nfa()
    base = [n.state() for _ in L.rows]
    f = n.state()
    i = n.state()
    n.eps(i, base[0])
    for s, row in enumerate(L.rows):
        if s in L.acc:
            n.eps(base[s], f)
        for lo, hi, t in row:
            for c in range(lo, min(hi, 127) + 1):
                if chr(c) in keep:
                    n.chars(base[s], ((c, c),), base[t])
                else:
                    a = base[s]
                    w = '%%%02X' % c
                    for ch in w[:-1]:
                        z = n.state()
                        n.chars(a, ((ord(ch), ord(ch)),), z)
                        a = z
                    n.chars(a, ((ord(w[-1]), ord(w[-1])),), base[t])
            if hi > 127:
                a, b = embed(n, multi)
                n.eps(base[s], a)
                for x in (b if isinstance(b, (list, tuple, set, frozenset)) else [b]):
                    n.eps(x, base[t])
    return n.lang(i, f)


def unambiguous(A, B):
    """does every word of A.B have one decomposition?"""
    # y is nonempty, x and xy in A
    n = Nfa()
    base = [n.state() for _ in A.rows]
    i, f = n.state(), n.state()
    for s, row in enumerate(A.rows):
        for lo, hi, t in row:
            n.e[base[s]].append(('c', lo, hi, base[t]))
        if s in A.acc:
            n.eps(base[s], f)
            n.eps(i, base[s])
    ya = diff(n.lang(i, f), word(''))
    if ya.empty():
        return True
    # y with z and yz in B
    n = Nfa()
    base = [n.state() for _ in B.rows]
    i, f = n.state(), n.state()
    n.eps(i, base[0])
    for s, row in enumerate(B.rows):
        for lo, hi, t in row:
            n.e[base[s]].append(('c', lo, hi, base[t]))
        if not inter(frm(B, s), B).empty():
            n.eps(base[s], f)
    return inter(ya, n.lang(i, f)).empty()


def frm(L, s0):
    """words that lead from state s0 to acceptance"""
    n = Nfa()
    base = [n.state() for _ in L.rows]
    i, f = n.state(), n.state()
    n.eps(i, base[s0])
    for s, row in enumerate(L.rows):
        for lo, hi, t in row:
            n.e[base[s]].append(('c', lo, hi, base[t]))
        if s in L.acc:
            n.eps(base[s], f)
    return n.lang(i, f)


def align(parts, langs):
    """parts (languages) distributed over a concatenation of languages: list of (i, j) per language, or None"""
    memo = {}
    n, m = len(parts), len(langs)

    def go(i, k):
        if k == m:
            return [] if i == n else None
        key = (i, k)
        if key in memo:
            return memo[key]
        memo[key] = None
        for j in range(i, n + 1):
            if subset(concat(parts[i:j]) if j > i else word(''), langs[k]):
                r = go(j, k + 1)
                if r is not None:
                    memo[key] = [(i, j)] + r
                    break
        return memo[key]
    return go(0, 0)
