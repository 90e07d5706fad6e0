"""C22: lineqs and lineqs3D return the ordered vertices and the faces of the solution set of linear inequalities."""
from fractions import Fraction as F
from .. import polys as P
from ..lib import ip, np, fits, NARROW

ID = 'C22'
RULE = ('one system A x >= b in two or three variables: returned vertices and faces against exact vertex enumeration in rationals, '
        'clipped by the given borders when the set is unbounded')
N = {'quick': 330, 'thorough': 9000}
CASE_TIMEOUT = 60


def required(tier):
    return {'sets_2d': 1200, 'sets_3d': 500, 'bounded': 500, 'unbounded': 400, 'empty': 200, 'automatic_window': 300, 'ordered': 500,
            'faces_judged': 1500, 'degenerate': 30, 'repeated_rows': 200, 'other_scales': 200, 'narrow_types': 250}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        m = 2 if rng.random() < .7 else 3
        n = rng.randint(1, 7)
        dt = rng.choice(('u1', 'u8', 'u4', 'f4', 'f2', 'i1', 'list')) if rng.random() < .3 else None
        ints = dt not in (None, 'list') or rng.random() < .5
        x0 = [rng.uniform(-3, 3) for _ in range(m)]
        A, b = [], []
        for _ in range(n):
            r = [rng.randint(-3, 3) for _ in range(m)] if ints else [rng.uniform(-3, 3) for _ in range(m)]
            if rng.random() < .15:
                r[rng.randrange(m)] = 0
            A.append(r)
            v = sum(p * q for p, q in zip(r, x0))
            b.append(rng.randint(-6, 2) if ints else v - rng.choice((rng.uniform(0, 4), rng.uniform(0, 4), rng.uniform(0, 1), rng.uniform(-1, 0))))
        if rng.random() < (.3 if m == 2 else .5):
            lim = [rng.randint(3, 8) if ints else rng.uniform(3, 8) for _ in range(2 * m)]
            for j in range(m):
                for s in (1, -1):
                    A.append([s * int(i == j) for i in range(m)])
                    b.append(-lim[2 * j + (s > 0)])
        u = rng.random()
        k = rng.randrange(len(A))
        if u < .12:                 # the same inequality twice, or scaled
            q = rng.choice((1, 1, 2, 3)) if ints else 1     # coefficients are rounded to 12 digits, so scaled fractional rows are not parallel
            A.append([q * v for v in A[k]])
            b.append(q * b[k])
        elif u < .2:                # an equation
            A.append([-v for v in A[k]])
            b.append(-b[k])
        elif u < .27:               # a strip
            A.append([-v for v in A[k]])
            b.append(-b[k] - rng.choice((1, 2)))
        elif u < .32:
            A.append([0] * m)
            b.append(rng.choice((-1, 0, 1) if ints else (-1, 0, 1, 1e-4, 1e-7, 1e-9, -1e-7)))
        elif u < .42:               # a point or a contradiction in some coordinates
            for j in rng.sample(range(m), rng.randint(1, m)):
                v = rng.randint(-3, 3) * rng.choice((1, 1, .5))
                A += [[q * int(i == j) for i in range(m)] for q in (1, -1)]
                b += [v, -v + rng.choice((0, 0, 0, 1e-3, 1e-5, -1e-3, -1e-5))]
        elif u < .47 and m == 3:    # another inequality with equal differences of coefficients and right-hand side
            t = rng.choice((1, 2, -1))
            A.append([v + t for v in A[k]])
            b.append(b[k] + t)
        p = list(range(len(A)))
        rng.shuffle(p)
        A, b = [A[i] for i in p], [b[i] for i in p]
        if not any(any(r) for r in A):
            continue
        if dt and dt[0] == 'u':
            A, b = [[abs(v) for v in r] for r in A], [abs(v) for v in b]
        s = 1. if dt or rng.random() < .7 else 2. ** rng.choice((rng.randint(0, 30), -rng.randint(0, 6)))
        b = [v * s for v in b] if s != 1 else b
        bounds = [[-7.] * m, [9.] * m] if rng.random() < .5 else [[-4. - i for i in range(m)], [5. + 2 * i for i in range(m)]]
        yield {'k': '%dd' % m, 'A': A, 'b': b, 'bounds': [[v * s for v in p] for p in bounds], 'scale': s, 'int': ints and rng.random() < .5,
               'dt': dt}


def near(v, w, t):
    return all(abs(float(x) - float(y)) <= t for x, y in zip(v, w))


def tol(pts, s=1):
    return 1e-6 * (s + max([abs(float(x)) for p in pts for x in p] + [0]))


def clip(lo, hi):
    out = []
    for j in range(len(lo)):
        e = [F(int(i == j)) for i in range(len(lo))]
        out += [(e, F(lo[j])), (P.neg(e), -F(hi[j]))]
    return out


def rank(vs, s=1):
    return int(np.linalg.matrix_rank(np.array([[float(x - y) for x, y in zip(v, vs[0])] for v in vs]), tol=1e-7 * s)) if vs else -1


def convex_order(pts, t):
    """Consecutive points of a planar polygon turn one way."""
    pts = [np.array(p, float) for p in pts]
    clean = []
    for p in pts:
        if not clean or np.max(abs(p - clean[-1])) > t:
            clean.append(p)
    while len(clean) > 1 and np.max(abs(clean[0] - clean[-1])) <= t:
        clean.pop()
    k = len(clean)
    if k < 3:
        return True
    e = [clean[(i + 1) % k] - clean[i] for i in range(k)]
    if len(clean[0]) == 2:
        cr = [e[i][0] * e[(i + 1) % k][1] - e[i][1] * e[(i + 1) % k][0] for i in range(k)]
    else:
        cs = [np.cross(e[i], e[(i + 1) % k]) for i in range(k)]
        big = max(cs, key=lambda v: np.linalg.norm(v))
        cr = [float(v @ big) / (np.linalg.norm(big) or 1) for v in cs]
    s = max(abs(v) for v in cr)
    return all(v >= -1e-6 * s - 1e-9 for v in cr) or all(v <= 1e-6 * s + 1e-9 for v in cr)


def judge(ctx, name, c, cons, bounds, V, m, extra, window=None):
    """V: list of faces (3D) or one face (2D) as lists of points."""
    s = c.get('scale', 1)
    R = 10**6 * max(1, int(s))
    show = lambda: '%s(%s, bounds=%s) -> %s' % (name, c, bounds, V)
    full = P.vertices(cons + P.box(m, R), m)
    unb = any(abs(x) >= R for v in full for x in v)
    pts = [p for f in V for p in f]
    if not ctx.expect(all(np.isfinite(x) for p in pts for x in p), 'infinite-vertex:' + name, show):
        return
    if not full:
        ctx.event('empty')
        ctx.expect(not pts, 'vertices-of-empty-set:' + name, show)
        return
    if not unb:
        ctx.event('bounded')
        act, want = cons, full
    elif bounds is not None:
        ctx.event('unbounded')
        act = cons + clip(*bounds)
        want = P.vertices(act, m)
    else:
        ctx.event('automatic_window')
        want, act = P.vertices(cons, m), cons
        t = tol(pts + want, s)
        ctx.expect(pts, 'empty-window:' + name, show)
        ctx.expect(all(any(near(p, w, t) for p in pts) for w in want), 'vertex-lost:automatic:' + name, lambda: show() + ' exact %s' % fl(want))
    t = tol(pts + want, s)
    rk = rank(want, s)
    if not (unb and bounds is None):
        lost = [w for w in want if not any(near(p, w, t) for p in pts)]
        extra_ = [p for p in pts if not any(near(p, w, t) for w in want)]
        if rk == 0 and not pts and any(sum(x != 0 for x in g) > 1 for g, h in act if sum(x * y for x, y in zip(g, want[0])) == h):
            # oblique lines through one point need not meet after rounding
            ctx.event('point_lost')
        else:
            ctx.expect(not lost, 'vertex-lost:' + name, lambda: show() + ' exact %s' % fl(want))
            ctx.expect(not extra_, 'foreign-vertex:' + name, lambda: show() + ' exact %s' % fl(want))
    if rk < m:
        ctx.event('degenerate')
    for p in pts:
        if not ctx.expect(all(sum(float(x) * y for x, y in zip(g, p)) - float(h) >= -t * (1 + sum(abs(float(x)) for x in g)) for g, h in act), 'outside:' + name,
                          lambda: show() + ' point %s' % (p,)):
            break
    for f in V:
        if len(f) > 2:
            ctx.event('ordered')
            ctx.expect(convex_order(f, t), 'order:' + name, lambda: show() + ' face %s' % (f,))
    if m == 3 and rk == 3 and not (unb and bounds is None):
        planes = {}
        for g, h in act:
            tight = [w for w in want if sum(x * y for x, y in zip(g, w)) == h]
            if rank(tight, s) == 2:
                planes[tuple(sorted(map(tuple, tight)))] = tight
        ctx.event('faces_judged', len(planes))
        for tight in planes.values():
            ctx.expect(any(all(any(near(p, w, t) for p in f) for w in tight) and all(any(near(p, w, t) for w in tight) for p in f) for f in V),
                       'face-lost:' + name, lambda: show() + ' face %s' % fl(tight))


def fl(vs):
    return [[float(x) for x in v] for v in vs]


def parallel_hazard(A):
    """Rows that are almost, but not exactly, parallel: their intersection is not determined by rounded data."""
    rows = [r for r in A if any(r)]
    for i in range(len(rows)):
        for j in range(i):
            u, v = rows[i], rows[j]
            nu, nv = sum(x * x for x in u) ** .5, sum(x * x for x in v) ** .5
            if len(u) == 2:
                s = abs(u[0] * v[1] - u[1] * v[0]) / (nu * nv)
            else:
                s = float(np.linalg.norm(np.cross(u, v))) / (nu * nv)
            if 0 < s < 1e-4 and (s > 1e-12 or any(v != int(v) for v in u + v)):
                return True
    return False


def check(ctx, c):
    A, b = c['A'], c['b']
    m = len(A[0])
    if parallel_hazard(A):
        ctx.event('nearly_parallel_skipped')
        return
    if len({tuple(r) + (h,) for r, h in zip(A, b)}) < len(A):
        ctx.event('repeated_rows')
    kind = int if c['int'] and all(float(v).is_integer() for r in A for v in r) and all(float(v).is_integer() for v in b) else float
    if c.get('dt') == 'list':
        MA, Mb = A, b
    elif c.get('dt') in NARROW and fits(c['dt'], [v for r in A for v in r] + b):
        MA, Mb = np.array(A, dtype=NARROW[c['dt']]), np.array(b, dtype=NARROW[c['dt']])
        ctx.event('narrow_types')
    else:
        MA, Mb = np.array(A, dtype=kind), np.array(b, dtype=kind)
    cons = [([F(v) for v in r], F(w)) for r, w in zip(A, b)]
    ctx.event('sets_%dd' % m)
    if c['scale'] != 1:
        ctx.event('other_scales')
    for bounds in (None, c['bounds']):
        if m == 2:
            V = [[[float(x) for x in p] for p in ip.lineqs(MA, Mb, show=False, bounds=bounds)]]
            judge(ctx, 'lineqs', c, cons, bounds, V, 2, None)
        else:
            V = [[[float(x) for x in p] for p in f] for f in ip.lineqs3D(MA, Mb, show=False, bounds=bounds)]
            judge(ctx, 'lineqs3D', c, cons, bounds, V, 3, None)
    ctx.distinct((A, b))
