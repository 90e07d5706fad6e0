"""Exact oracles for interval linear systems (ends given as plain numbers, everything computed in rationals)."""
import itertools
from fractions import Fraction as F


def solve(A, b):
    """Exact solution of a square rational system, None when singular."""
    n = len(A)
    M = [list(map(F, r)) + [F(v)] for r, v in zip(A, b)]
    for j in range(n):
        p = next((i for i in range(j, n) if M[i][j] != 0), None)
        if p is None:
            return None
        M[j], M[p] = M[p], M[j]
        pv = M[j][j]
        M[j] = [v / pv for v in M[j]]
        for i in range(n):
            if i != j and M[i][j] != 0:
                f = M[i][j]
                M[i] = [u - f * v for u, v in zip(M[i], M[j])]
    return [M[i][n] for i in range(n)]


def det(A):
    n = len(A)
    M = [list(map(F, r)) for r in A]
    d = F(1)
    for j in range(n):
        p = next((i for i in range(j, n) if M[i][j] != 0), None)
        if p is None:
            return F(0)
        if p != j:
            M[j], M[p] = M[p], M[j]
            d = -d
        d *= M[j][j]
        for i in range(j + 1, n):
            if M[i][j] != 0:
                f = M[i][j] / M[j][j]
                M[i] = [u - f * v for u, v in zip(M[i], M[j])]
    return d


def _signs(n):
    return list(itertools.product((1, -1), repeat=n))


def midrad(p):
    a, b = F(p[0]), F(p[1])
    return (a + b) / 2, (b - a) / 2


def vertex_matrices(A):
    """All Rohn vertex matrices A_yz of a (rows of pairs), with the sign vectors y."""
    n, m = len(A), len(A[0])
    mr = [[midrad(p) for p in r] for r in A]
    for y in _signs(n):
        for z in _signs(m):
            yield y, [[mr[i][j][0] - y[i] * z[j] * mr[i][j][1] for j in range(m)] for i in range(n)]


def regular(A):
    s = None
    for _, M in vertex_matrices(A):
        d = det(M)
        if d == 0:
            return False
        if s is None:
            s = d > 0
        elif (d > 0) != s:
            return False
    return True


def hull(A, b):
    """Exact interval hull of the united solution set of a square regular system, None when singular."""
    n = len(A)
    if not regular(A):
        return None
    lo, hi = [None] * n, [None] * n
    for y, M in vertex_matrices(A):
        rhs = [midrad(p)[0] + y[i] * midrad(p)[1] for i, p in enumerate(b)]
        x = solve(M, rhs)
        for k in range(n):
            lo[k] = x[k] if lo[k] is None or x[k] < lo[k] else lo[k]
            hi[k] = x[k] if hi[k] is None or x[k] > hi[k] else hi[k]
    return list(zip(lo, hi))


def point_system(rng, A, b):
    """A random point system inside the interval one (doubles)."""
    def pick(p):
        u = rng.random()
        if u < .4:
            return p[0]
        if u < .8:
            return p[1]
        t = rng.random()
        v = p[0] * (1 - t) + p[1] * t
        return min(max(v, p[0]), p[1])
    return [[pick(p) for p in r] for r in A], [pick(p) for p in b]


def rowvals(row, x):
    """Exact interval value of row @ x for a rational point x."""
    lo = hi = F(0)
    for p, v in zip(row, x):
        v = F(v)
        u, w = F(p[0]) * v, F(p[1]) * v
        lo += min(u, w)
        hi += max(u, w)
    return lo, hi


def in_united(A, b, x):
    """Oettli-Prager: every row of A x meets b."""
    for r, p in zip(A, b):
        lo, hi = rowvals(r, x)
        if lo > F(p[1]) or hi < F(p[0]):
            return False
    return True


def in_tolerable(A, b, x):
    for r, p in zip(A, b):
        lo, hi = rowvals(r, x)
        if lo < F(p[0]) or hi > F(p[1]):
            return False
    return True
