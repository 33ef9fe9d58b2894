"""Numeric abstract domain: linear expressions over symbols and a zone (difference bounds) of the symbols."""
from fractions import Fraction

TAME = 2 ** 63 - 1          # upper bound of a length or of a counter (trusted, see DESIGN.md)
SLACK = 2 ** 20


def C(c):
    return (c, ())


def S(s):
    return (0, ((s, 1),))


def ladd(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1]:
        return (a[0] + k * b[0], b[1] if k == 1 else tuple((s, k * x) for s, x in b[1]))
    d = dict(a[1])
    for s, x in b[1]:
        y = d.get(s, 0) + k * x
        if y:
            d[s] = y
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def laddc(a, c):
    return (a[0] + c, a[1])


def lscale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, x * k) for s, x in a[1]))


def lsubst(e, m):
    """Substitute symbols by expressions."""
    hit = False
    for s, _ in e[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return e
    r = (e[0], tuple((s, x) for s, x in e[1] if s not in m))
    for s, x in e[1]:
        if s in m:
            r = ladd(r, m[s], x)
    return r


class Zone:
    """Closed difference bounds: m[a][b] = c means a - b <= c; 0 is the constant zero."""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {0: {}} if m is None else m

    def copy(self):
        return Zone({a: dict(r) for a, r in self.m.items()})

    def edge(self, a, b, c):
        """Add a - b <= c. False if it is a contradiction."""
        m = self.m
        if a == b:
            return c >= 0
        ra = m.get(a)
        if ra is None:
            ra = m[a] = {}
        rb = m.get(b)
        if rb is None:
            rb = m[b] = {}
        o = ra.get(b)
        if o is not None and o <= c:
            return True
        r = rb.get(a)
        if r is not None and r + c < 0:
            return False
        outs = [(y, d) for y, d in rb.items() if y != a]
        outs.append((b, 0))
        for x, rx in m.items():
            if x == a:
                dx = 0
            else:
                dx = rx.get(a)
                if dx is None:
                    continue
            base = dx + c
            for y, d in outs:
                if x != y:
                    n = base + d
                    p = rx.get(y)
                    if p is None or n < p:
                        rx[y] = n
        return True

    def diff(self, a, b):
        if a == b:
            return 0
        r = self.m.get(a)
        return None if r is None else r.get(b)

    def sup(self, e):
        """Upper bound of the expression, None if unbounded."""
        c, t = e
        n = len(t)
        if n == 0:
            return c
        if n == 1:
            s, k = t[0]
            if k > 0:
                u = self.diff(s, 0)
                return None if u is None else c + k * u
            u = self.diff(0, s)
            return None if u is None else c - k * u
        if n == 2 and t[0][1] == 1 and t[1][1] == -1:
            u = self.diff(t[0][0], t[1][0])
            if u is not None:
                return c + u
        elif n == 2 and t[0][1] == -1 and t[1][1] == 1:
            u = self.diff(t[1][0], t[0][0])
            if u is not None:
                return c + u
        best = None
        pos = [(s, k) for s, k in t if k > 0]
        neg = [(s, -k) for s, k in t if k < 0]
        if len(pos) <= 3 and len(neg) <= 3 and pos and neg:
            for i, (s, k) in enumerate(pos):
                for j, (q, l) in enumerate(neg):
                    u = self.diff(s, q)
                    if u is None:
                        continue
                    x = min(k, l)
                    rest = [(y, z) for ii, (y, z) in enumerate(pos) if ii != i] + [(y, -z) for jj, (y, z) in enumerate(neg) if jj != j]
                    if k > x:
                        rest.append((s, k - x))
                    if l > x:
                        rest.append((q, -(l - x)))
                    r = self.sup((c + x * u, tuple(sorted(rest))))
                    if r is not None and (best is None or r < best):
                        best = r
        tot = c
        for s, k in t:
            u = self.diff(s, 0) if k > 0 else self.diff(0, s)
            if u is None:
                tot = None
                break
            tot += abs(k) * u
        if tot is not None and (best is None or tot < best):
            best = tot
        return best

    def le0(self, e):
        """Is e <= 0 entailed?"""
        u = self.sup(e)
        return u is not None and u <= 0

    def keep(self, syms):
        self.m = {a: {b: c for b, c in r.items() if b in syms} for a, r in self.m.items() if a in syms}
        if 0 not in self.m:
            self.m[0] = {}


def affine_join(ra, rb):
    """Affine hull of two vectors of expressions (same length).

    Returns (rows, pivots): rows over the new symbols 1..n, pivot i is the value of row pivots[i-1]."""
    n = len(ra)
    rows = []
    piv = []
    basis = []          # (lead column, reduced vector, combination {pivot no: coef})
    same = ra is rb
    for j in range(n):
        a, b = ra[j], rb[j]
        v = {}
        for s, k in a[1]:
            v[(0, s)] = k
        if not same:
            for s, k in b[1]:
                v[(1, s)] = k
            if b[0] != a[0]:
                v[(2, 0)] = b[0] - a[0]
        comb = {}
        for lead, bv, bc in basis:
            x = v.get(lead)
            if x:
                f = Fraction(x, 1) / bv[lead]
                if f.denominator == 1:
                    f = int(f)
                for c, y in bv.items():
                    z = v.get(c, 0) - f * y
                    if z:
                        v[c] = z
                    else:
                        v.pop(c, None)
                for p, y in bc.items():
                    z = comb.get(p, 0) + f * y
                    if z:
                        comb[p] = z
                    else:
                        comb.pop(p, None)
        if not v and all(x == int(x) for x in comb.values()):
            # row = a0 + sum comb_p * (x_p - a0_p)
            c = a[0]
            t = []
            for p, x in comb.items():
                x = int(x)
                c -= x * ra[piv[p]][0]
                t.append((p + 1, x))
            rows.append((c, tuple(sorted(t))))
            continue
        p = len(piv)
        piv.append(j)
        if v:
            lead = min(v)
            nc = {q: -x for q, x in comb.items()}
            nc[p] = 1
            basis.append((lead, v, nc))
        rows.append(S(p + 1))
    return rows, piv
