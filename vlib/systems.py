"""Generated interval linear systems (nested lists of pairs)."""


def interval(rng, c, r):
    return [c - r, c + r]


def square(rng, n, kind=None, R=None):
    """kinds: dd (strictly diagonally dominant), any, int, point, midI, perm (row-permuted dd), tri, wide."""
    kind = kind or rng.choice(('dd', 'dd', 'any', 'int', 'point', 'midI', 'perm', 'tri', 'wide'))
    R = rng.choice((0, .02, .1, .3)) if R is None else R
    if kind == 'wide':
        R = rng.choice((.6, 1, 2))
    if kind in ('point', 'tri') and rng.random() < .5:
        R = 0
    zp = rng.choice((0, 0, .3, .6))
    A, b = [], []
    for i in range(n):
        r = []
        for j in range(n):
            c, rad = rng.uniform(-3, 3), R * rng.random()
            if kind == 'point':
                rad = 0
            elif kind == 'midI':
                c, rad = float(i == j), rng.randint(0, 7) / (8. * n) * (.999 if R else .3)
            elif kind == 'tri' and j < i:
                c = rad = 0
            elif kind == 'int':
                c, rad = rng.randint(-4, 4), rng.choice((0, 0, 1))
                if i == j:
                    c = rng.choice((-1, 1)) * rng.randint(2 * n, 4 * n)
            if kind in ('dd', 'perm'):
                c, rad = rng.uniform(-1, 1), R * rng.random()
                if i == j:
                    c = rng.choice((-1, 1)) * rng.uniform((1 + 2 * R) * n, 3 * n + 1)
            if i != j and kind not in ('midI',) and rng.random() < zp:
                c = rad = 0
                if rng.random() < .3 and kind != 'point':
                    rad = R
                if rng.random() < .2 and kind != 'point':
                    c = rad = R / 2
            if kind == 'midI':
                r.append([1 - rad, 1 + rad] if i == j else [-rad, rad])
            else:
                r.append(interval(rng, c, rad))
        A.append(r)
        b.append(rhs(rng, kind == 'int', kind == 'point' and rng.random() < .5))
    if kind == 'perm':
        p = list(range(n))
        rng.shuffle(p)
        A, b = [A[i] for i in p], [b[i] for i in p]
    return kind, A, b


def rhs(rng, ints=False, thin=False):
    if ints:
        c, r = rng.randint(-5, 5), rng.randint(0, 2)
    else:
        c, r = rng.uniform(-5, 5), rng.uniform(0, 2)
        if rng.random() < .1:
            r = rng.uniform(0, 1e-6)
        if rng.random() < .1:
            c = 0.
    if thin or rng.random() < .1:
        r = 0
    return interval(rng, c, r)


def dominant(A):
    """Strict diagonal dominance of every point matrix."""
    for i, r in enumerate(A):
        lo, hi = r[i]
        d = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        if not d > sum(max(abs(p[0]), abs(p[1])) for j, p in enumerate(r) if j != i) * (1 + 1e-9):
            return False
    return True


def rect(rng, n, m, R=None, feasible=True, ints=None):
    """n equations, m unknowns; with feasible the system is built around a solution of one of its point systems."""
    R = rng.choice((0, .05, .2, .5)) if R is None else R
    ints = rng.random() < .3 if ints is None else ints
    x = [rng.randint(-4, 4) if ints else rng.uniform(-4, 4) for _ in range(m)]
    A, b = [], []
    for i in range(n):
        r, v = [], 0.
        for j in range(m):
            c = rng.randint(-5, 5) if ints else rng.uniform(-3, 3)
            rad = (rng.randint(0, 1) if R else 0) if ints else R * rng.random()
            if rng.random() < .1:
                c = 0
            t = rng.choice((-1, 0, 1, rng.uniform(-1, 1))) if not ints else rng.choice((-1, 0, 1))
            r.append([c - rad, c + rad])
            v += (c + t * rad) * x[j]
        rb = rng.randint(0, 3) if ints else rng.uniform(.01, 2)
        if not feasible:
            v += rng.choice((0, 0, 0, rng.uniform(-5, 5) if not ints else rng.randint(-5, 5)))
        off = rng.randint(-rb, rb) if ints else rng.uniform(-rb, rb) * .9
        A.append(r)
        b.append([v + off - rb, v + off + rb])
    return A, b


def scaled(rng, A, b, p=.25, up=40, down=20):
    """The same system in other units: right-hand side, rows or unknowns multiplied by powers of two."""
    if rng.random() >= p:
        return A, b
    n, m = len(A), len(A[0])
    power = lambda: 2. ** rng.choice((rng.randint(0, up), -rng.randint(0, down)) if down else (rng.randint(0, up),))
    kind = rng.choice(('b', 'b', 'rows', 'columns'))
    rs, cs, bs = [1.] * n, [1.] * m, 1.
    if kind == 'b':
        bs = power()
    elif kind == 'rows':
        rs = [2. ** rng.randint(-6, 6) for _ in rs]
    else:
        cs = [2. ** rng.randint(-6, 6) for _ in cs]
    return ([[[v * rs[i] * cs[j] for v in p] for j, p in enumerate(r)] for i, r in enumerate(A)], [[v * rs[i] * bs for v in p] for i, p in enumerate(b)])
