"""Exact polyhedral oracles for solution sets of interval linear systems, orthant by orthant.

A constraint is (g, h) meaning g.x >= h with rational entries; vertices are enumerated by brute force over n-subsets.
"""
import itertools
import math
from fractions import Fraction as F

from .linsys import solve


def orthants(m):
    return list(itertools.product((1, -1), repeat=m))


def orthant_cons(s):
    n = len(s)
    return [([F(s[j]) if i == j else F(0) for i in range(n)], F(0)) for j in range(n)]


def rows(A, s):
    """For x in orthant s: the linear forms of the lower and the upper end of every row of A x."""
    lo = [[F(p[0]) if t > 0 else F(p[1]) for p, t in zip(r, s)] for r in A]
    hi = [[F(p[1]) if t > 0 else F(p[0]) for p, t in zip(r, s)] for r in A]
    return lo, hi


def neg(g):
    return [-v for v in g]


def united(A, b, s):
    """United solution set within orthant s (Oettli-Prager): lo(x) <= sup b, hi(x) >= inf b."""
    lo, hi = rows(A, s)
    c = orthant_cons(s)
    for l, h, p in zip(lo, hi, b):
        c.append((neg(l), -F(p[1])))
        c.append((h, F(p[0])))
    return c


def tolerable(A, b, s):
    """Tolerable solution set within orthant s: lo(x) >= inf b, hi(x) <= sup b."""
    lo, hi = rows(A, s)
    c = orthant_cons(s)
    for l, h, p in zip(lo, hi, b):
        c.append((l, F(p[0])))
        c.append((neg(h), -F(p[1])))
    return c


def box(m, r):
    out = []
    for j in range(m):
        e = [F(int(i == j)) for i in range(m)]
        out += [(e, -F(r)), (neg(e), -F(r))]
    return out


def holds(cons, x):
    return all(sum(g * v for g, v in zip(c, x)) >= h for c, h in cons)


def _ints(g, h):
    """The same inequality with coprime integer coefficients."""
    v = [F(x) for x in g] + [F(h)]
    d = math.lcm(*(x.denominator for x in v))
    w = [x.numerator * (d // x.denominator) for x in v]
    k = math.gcd(*w) or 1
    return tuple(x // k for x in w)


def _det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def vertices(cons, m):
    """All vertices of {x: g.x >= h}, deduplicated (integer Cramer rule for m <= 3)."""
    uniq, seen = [], set()
    for g, h in cons:
        if all(v == 0 for v in g):
            if h > 0:
                return []
            continue
        k = _ints(g, h)
        if k not in seen:
            seen.add(k)
            uniq.append(k)
    out, pts = [], set()
    for sub in itertools.combinations(uniq, m):
        if m == 1:
            d, num = sub[0][0], [sub[0][1]]
        elif m == 2:
            r, s = sub
            d = r[0] * s[1] - r[1] * s[0]
            num = [r[2] * s[1] - r[1] * s[2], r[0] * s[2] - r[2] * s[0]]
        elif m == 3:
            r, s, t = sub
            d = _det3(r, s, t)
            if d:
                num = [_det3((r[3], r[1], r[2]), (s[3], s[1], s[2]), (t[3], t[1], t[2])),
                       _det3((r[0], r[3], r[2]), (s[0], s[3], s[2]), (t[0], t[3], t[2])),
                       _det3((r[0], r[1], r[3]), (s[0], s[1], s[3]), (t[0], t[1], t[3]))]
        else:
            x = solve([g[:m] for g in sub], [g[m] for g in sub])
            if x is None:
                continue
            d = math.lcm(*(v.denominator for v in x))
            num = [v.numerator * (d // v.denominator) for v in x]
        if not d:
            continue
        if d < 0:
            d, num = -d, [-v for v in num]
        if all(sum(g[i] * num[i] for i in range(m)) >= g[m] * d for g in uniq):
            t = tuple(F(v, d) for v in num)
            if t not in pts:
                pts.add(t)
                out.append(list(t))
    return out


def hull(A, b, kind, clip=None):
    """Exact hull of the united or tolerable solution set (within |x_j| <= clip); (hull or None, all vertices)."""
    m = len(A[0])
    f = united if kind == 'uni' else tolerable
    vs = []
    for s in orthants(m):
        c = f(A, b, s)
        if clip is not None:
            c = c + box(m, clip)
        vs += vertices(c, m)
    if not vs:
        return None, vs
    return [(min(v[j] for v in vs), max(v[j] for v in vs)) for j in range(m)], vs
