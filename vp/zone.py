# -*- coding: utf-8 -*-
"""Integer relations: difference bounds (x - y <= c) together with linear
equalities.  Both are sound over mathematical integers; the variable 0 is the
constant zero."""
from fractions import Fraction
from math import gcd

INF = None
# bounds are only ever relaxed to one of these
THRESHOLDS = [-4096, -64, -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8, 64, 4096]


def integral(row):
    """the row with integer coefficients without a common factor"""
    m = 1
    for a in row.values():
        if type(a) is not int:
            m = m * a.denominator // gcd(m, a.denominator)
    if m != 1 or any(type(a) is not int for a in row.values()):
        row = {k: int(a * m) for k, a in row.items()}
    g = gcd(*row.values())
    row = {k: (a // g if g > 1 else a) for k, a in row.items() if a or k is None}
    row.setdefault(None, 0)
    return row


def combine(r, piv, v):
    """r without v"""
    f, g = r[v], piv[v]
    if g < 0:
        f, g = -f, -g
    q = {k: a * g for k, a in r.items()}
    for k, a in piv.items():
        q[k] = q.get(k, 0) - f * a
    h = gcd(*q.values())
    return {k: (a // h if h > 1 else a) for k, a in q.items() if a or k is None}


class Rel:
    """d: closed difference bounds, e: equalities as rows {var: coefficient},
    row[None] is the constant; every row sums to zero"""
    __slots__ = ("d", "e")

    def __init__(self, d=None, e=None):
        self.d = {} if d is None else d
        self.e = [] if e is None else e

    def copy(self):
        return Rel(dict(self.d), [dict(r) for r in self.e])

    # ------------------------------------------------------------ bounds
    def get(self, x, y):
        if x == y:
            return 0
        return self.d.get((x, y))

    def vars(self):
        s = set()
        for x, y in self.d:
            s.add(x)
            s.add(y)
        for r in self.e:
            s.update(v for v in r if v is not None)
        s.discard(0)
        return s

    def add_le(self, x, y, c):
        """x - y <= c; False when impossible"""
        if x == y:
            return c >= 0
        old = self.d.get((x, y))
        if old is not None and old <= c:
            return True
        back = self.d.get((y, x))
        if back is not None and back + c < 0:
            return False
        self.d[(x, y)] = c
        into = [(x, 0)] + [(i, v) for (i, j), v in self.d.items() if j == x and i != y]
        out = [(y, 0)] + [(j, v) for (i, j), v in self.d.items() if i == y and j != x]
        for i, a in into:
            for j, b in out:
                if i == j:
                    if a + b + c < 0:
                        return False
                    continue
                k = self.d.get((i, j))
                if k is None or a + b + c < k:
                    self.d[(i, j)] = a + b + c
        return True

    def close(self):
        """full closure (after widening); False when impossible"""
        vs = sorted({x for p in self.d for x in p})
        d = self.d
        for k in vs:
            ik = [(i, d[(i, k)]) for i in vs if (i, k) in d]
            kj = [(j, d[(k, j)]) for j in vs if (k, j) in d]
            for i, a in ik:
                for j, b in kj:
                    s = a + b
                    if i == j:
                        if s < 0:
                            return False
                        continue
                    o = d.get((i, j))
                    if o is None or s < o:
                        d[(i, j)] = s
        return True

    def forget(self, v):
        for k in [k for k in self.d if v in k]:
            del self.d[k]
        self.elim(v)

    # -------------------------------------------------------- equalities
    def elim(self, v):
        """projects the equalities away from v"""
        piv = None
        for r in self.e:
            if v in r:
                piv = r
                break
        if piv is None:
            return
        self.e.remove(piv)
        self.e = [combine(r, piv, v) if v in r else r for r in self.e]
        self.e = [r for r in self.e if len(r) > 1]

    def reduce_row(self, row):
        row = integral(row)
        for r in self.e:
            p = min(k for k in r if k is not None)
            if p in row:
                row = combine(row, r, p)
        row.setdefault(None, 0)
        return row

    def add_eq(self, row):
        """sum of row = 0; False when impossible"""
        self.canon()
        row = self.reduce_row(row)
        if len(row) == 1:
            return row[None] == 0
        self.e.append(row)
        self.canon()
        return True

    def canon(self):
        """reduced row echelon form, pivots the smallest variables"""
        rows = [integral(r) for r in self.e]
        done = []
        allv = sorted({k for r in rows for k in r if k is not None})
        for v in allv:
            piv = None
            for r in rows:
                if v in r:
                    piv = r
                    break
            if piv is None:
                continue
            rows.remove(piv)
            if piv[v] < 0:
                piv = {k: -a for k, a in piv.items()}
            for lst in (rows, done):
                for n, r in enumerate(lst):
                    if v in r:
                        lst[n] = combine(r, piv, v)
            done.append(piv)
        self.e = done

    def ekey(self):
        self.canon()
        return tuple(tuple(sorted(((k if k is not None else -1), a) for k, a in r.items())) for r in self.e)

    # ------------------------------------------------------------ queries
    def upper(self, expr, depth=2):
        """an upper bound of a linear expression {var: coef, None: c}, or None"""
        best = self._upper1(expr)
        if depth == 0:
            return best
        vs = [k for k in expr if k is not None]
        for r in self.e:
            for v in vs:
                if v in r:
                    f = expr[v] // r[v] if type(expr[v]) is int and expr[v] % r[v] == 0 else Fraction(expr[v]) / r[v]
                    e2 = dict(expr)
                    for k, a in r.items():
                        e2[k] = e2.get(k, 0) - f * a
                    for k in [k for k in e2 if e2[k] == 0 and k is not None]:
                        del e2[k]
                    b = self.upper(e2, depth - 1)
                    if b is not None and (best is None or b < best):
                        best = b
        return best

    def _upper1(self, expr):
        c = expr.get(None, 0)
        pos = [(k, a) for k, a in expr.items() if k is not None and a > 0]
        neg = [(k, -a) for k, a in expr.items() if k is not None and a < 0]
        # greedy pairing of a positive and a negative variable
        best = None
        tot = c
        ok = True
        pos2, neg2 = [list(x) for x in pos], [list(x) for x in neg]
        for p in pos2:
            for q in neg2:
                if p[1] == 0 or q[1] == 0:
                    continue
                b = self.get(p[0], q[0])
                if b is None:
                    continue
                m = min(p[1], q[1])
                tot += m * b
                p[1] -= m
                q[1] -= m
        for k, a in pos2:
            if a:
                b = self.get(k, 0)
                if b is None:
                    ok = False
                    break
                tot += a * b
        if ok:
            for k, a in neg2:
                if a:
                    b = self.get(0, k)
                    if b is None:
                        ok = False
                        break
                    tot += a * b
        if ok:
            best = tot
        # plain intervals
        tot = c
        for k, a in pos:
            b = self.get(k, 0)
            if b is None:
                return best
            tot += a * b
        for k, a in neg:
            b = self.get(0, k)
            if b is None:
                return best
            tot += a * b
        return tot if best is None else min(best, tot)

    def lower(self, expr):
        u = self.upper({k: -a for k, a in expr.items()})
        return None if u is None else -u

    # -------------------------------------------------------- lattice
    def rename(self, m):
        """keeps only the variables of m (old -> new)"""
        z = Rel({}, [])
        mm = dict(m)
        mm[0] = 0
        for (x, y), c in self.d.items():
            if x in mm and y in mm:
                z.d[(mm[x], mm[y])] = c
        e = self.copy()
        for v in e.vars():
            if v not in m:
                e.elim(v)
        z.e = [{(None if k is None else m[k]): a for k, a in r.items()} for r in e.e]
        z.canon()
        return z

    def leq(self, o):
        """is this at least as precise as o?"""
        for k, c in o.d.items():
            mine = self.d.get(k)
            if mine is None or mine > c:
                return False
        for r in o.e:
            row = self.reduce_row(r)
            if any(k is not None for k in row) or row[None] != 0:
                return False
        return True

    def join(self, o):
        d = {}
        for k, c in self.d.items():
            c2 = o.d.get(k)
            if c2 is not None:
                d[k] = max(c, c2)
        return Rel(d, hull(self, o))

    def widen(self, o):
        """self: the stored bounds; o: the new ones"""
        d = {}
        for k, c in self.d.items():
            c2 = o.d.get(k)
            if c2 is None:
                continue
            if c2 <= c:
                d[k] = c
            else:
                for t in THRESHOLDS:
                    if t >= c2:
                        d[k] = t
                        break
        return Rel(d, hull(self, o))


def gens(e, vs):
    """point and basis of the solutions of the equalities over vs"""
    r = Rel({}, [dict(x) for x in e])
    r.canon()
    piv = {min(k for k in row if k is not None): row for row in r.e}
    free = [v for v in vs if v not in piv]
    pt = {v: Fraction(0) for v in vs}
    for p, row in piv.items():
        pt[p] = -Fraction(row.get(None, 0)) / row[p]
    basis = []
    for f in free:
        b = {v: Fraction(0) for v in vs}
        b[f] = Fraction(1)
        for p, row in piv.items():
            b[p] = -Fraction(row.get(f, 0)) / row[p]
        basis.append(b)
    return pt, basis


def hull(a, b):
    """equalities of the affine hull"""
    if not a.e or not b.e:
        return []
    vs = sorted({k for r in a.e + b.e for k in r if k is not None})
    p1, b1 = gens(a.e, vs)
    p2, b2 = gens(b.e, vs)
    dirs = b1 + b2 + [{v: p2[v] - p1[v] for v in vs}]
    # null space of the directions: rows with  row . dir = 0 for all dirs
    m = Rel({}, [dict({v: x for v, x in d.items() if x != 0}, **{}) for d in dirs if any(x != 0 for x in d.values())])
    rows = []
    for r in m.e:
        r[None] = 0
    m.canon()
    piv = {min(k for k in row if k is not None): row for row in m.e}
    free = [v for v in vs if v not in piv]
    out = []
    for f in free:
        row = {f: Fraction(1)}
        for p, r in piv.items():
            a_ = -Fraction(r.get(f, 0)) / r[p]
            if a_ != 0:
                row[p] = a_
        row[None] = -sum(c * p1[k] for k, c in row.items())
        out.append(row)
    z = Rel({}, out)
    z.canon()
    return z.e
