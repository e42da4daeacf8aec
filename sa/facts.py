"""Per-partition fact store: a relational order domain over scalars.

For each pair of scalar values (unknowns and constants of one comparison class)
the store keeps the set of relations still possible, a subset of {<,=,>}, closed
under composition (path consistency of the point algebra).  A query that is not
decided by the closed store is a case split made by the caller.
"""
from .values import Sym

LT, EQ, GT = 1, 2, 4
ALLR = 7
_INV = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}
_SING = {
    (LT, LT): LT, (LT, EQ): LT, (LT, GT): ALLR,
    (EQ, LT): LT, (EQ, EQ): EQ, (EQ, GT): GT,
    (GT, LT): ALLR, (GT, EQ): GT, (GT, GT): GT,
}
_COMP = {}
for _a in range(8):
    for _b in range(8):
        r = 0
        for x in (1, 2, 4):
            for y in (1, 2, 4):
                if _a & x and _b & y:
                    r |= _SING[x, y]
        _COMP[_a, _b] = r


class Order:
    def __init__(self):
        self.nodes = []
        self.idx = {}
        self.m = []

    def _add(self, key, const=None, isconst=False):
        i = self.idx.get(key)
        if i is not None:
            return i
        n = len(self.nodes)
        self.idx[key] = n
        for row in self.m:
            row.append(ALLR)
        self.m.append([ALLR] * n + [EQ])
        self.nodes.append((key, const, isconst))
        if isconst:
            for j in range(n):
                _, c, isc = self.nodes[j]
                if isc:
                    try:
                        r = LT if const < c else EQ if const == c else GT
                    except TypeError:
                        continue
                    self.m[n][j] = r
                    self.m[j][n] = _INV[r]
            self._close(n)
        return n

    def node(self, v):
        """v: host scalar, Sym, or ('lin', Sym, c)"""
        if isinstance(v, Sym):
            return self._add(('s', v.sid))
        if type(v) is tuple:
            _, s, c = v
            key = ('lin', s.sid, c)
            new = key not in self.idx
            i = self._add(key)
            if new:
                # relate to the base and to sibling offsets
                for (k, cc, isc), j in zip(list(self.nodes), range(len(self.nodes))):
                    other = None
                    if k == ('s', s.sid):
                        other = 0
                    elif k[0] == 'lin' and k[1] == s.sid:
                        other = k[2]
                    if other is not None and j != i:
                        self._set(i, j, LT if c < other else EQ if c == other else GT)
                b = self._add(('s', s.sid))
                self._set(i, b, LT if c < 0 else EQ if c == 0 else GT)
            return i
        return self._add(('c', isinstance(v, str), v), v, True)

    def _set(self, i, j, r):
        nr = self.m[i][j] & r
        if nr == self.m[i][j]:
            return nr != 0
        if nr == 0:
            return False
        self.m[i][j] = nr
        self.m[j][i] = _INV[nr]
        work = [(i, j)]
        n = len(self.nodes)
        m = self.m
        while work:
            a, b = work.pop()
            rab = m[a][b]
            for k in range(n):
                if k == a or k == b:
                    continue
                t = m[a][k] & _COMP[rab, m[b][k]]
                if t != m[a][k]:
                    if t == 0:
                        return False
                    m[a][k] = t
                    m[k][a] = _INV[t]
                    work.append((a, k))
                t = m[k][b] & _COMP[m[k][a], rab]
                if t != m[k][b]:
                    if t == 0:
                        return False
                    m[k][b] = t
                    m[b][k] = _INV[t]
                    work.append((k, b))
        return True

    def _close(self, i):
        n = len(self.nodes)
        m = self.m
        for j in range(n):
            if j == i:
                continue
            for k in range(n):
                if k == i or k == j:
                    continue
                t = m[i][k] & _COMP[m[i][j], m[j][k]]
                if t != m[i][k]:
                    m[i][k] = t
                    m[k][i] = _INV[t]

    def possible(self, a, b):
        i, j = self.node(a), self.node(b)
        return self.m[i][j]

    def assume(self, a, b, r):
        i, j = self.node(a), self.node(b)
        return self._set(i, j, r)
