"""C20: inner and outer estimates of the tolerable solution set (Neumaier box, Rohn consistency='tol')."""
from fractions import Fraction as F
from .. import exact as E, linsys as L, polys as P, systems as S
from ..lib import ip, np, mat, vec, plain, is_array

ID = 'C20'
RULE = ('one system with a known tolerable point: every Neumaier box is multiplied back exactly and must stay inside the right-hand side; '
        'Rohn(consistency=tol) is compared with the exact hull of the tolerable set (orthant polyhedra in rationals)')
N = {'quick': 220, 'thorough': 5000}
CASE_TIMEOUT = 60


def required(tier):
    return {'boxes_judged': 1500, 'boundary_centers': 100, 'weighted': 600, 'rectangular': 500, 'hulls_judged': 250, 'empty_judged': 40, 'narrow_judged': 100}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n, m = rng.randint(1, 5), rng.choice((1, 2, 2, 3, 3))
        ints = rng.random() < .4
        y = [float(rng.randint(-3, 3)) if ints else rng.choice((0., rng.uniform(-3, 3))) for _ in range(m)]
        A, b = [], []
        for i in range(n):
            r = []
            for j in range(m):
                c = rng.randint(-4, 4) if ints else rng.uniform(-3, 3)
                rad = rng.choice((0, 0, 1)) if ints else rng.choice((0, rng.uniform(0, .5)))
                r.append([c - rad, c + rad])
            if all(p == [0, 0] for p in r):
                r[0] = [1, 2]
            lo, hi = (float(v) for v in L.rowvals(r, y))
            d, e = (rng.randint(0, 3), rng.randint(0, 3)) if ints else (rng.uniform(0, 3), rng.uniform(0, 3))
            if rng.random() < .1:
                d = 0
            A.append(r)
            b.append([lo - d, hi + e])
        yield {'k': 'box', 'A': A, 'b': b, 'y': y, 'ws': [None] + [[rng.choice((1, 2, .5, 3.7, .1)) for _ in range(m)] for _ in range(2)], 'form': rng.choice(('f', 'f', 'i', 'il', 'l'))}
        if rng.random() < .15:
            # a regular point matrix and narrow right-hand sides: the starting point of the search is well inside
            m = rng.choice((1, 2, 3))
            A = [[[v, v] for v in [rng.choice((-1, 1)) * rng.choice((4, 5, rng.uniform(3, 5))) if i == j else rng.choice((0, 1, rng.uniform(-1, 1))) for j in range(m)]] for i in range(m)]
            size = [rng.choice((0, 1, 1e3, 1e6)) * rng.choice((-1, 1)) for _ in range(m)]
            b = [[v - r, v + r] for v, r in [(v, max(1, abs(v)) * 10 ** rng.uniform(-9, -3)) for v in size]]
            yield {'k': 'hull', 'A': A, 'b': b, 'narrow': True}
        if rng.random() < .35:
            mode = rng.choice(('in', 'in', 'shift'))
            if mode == 'shift':
                b = [[p[0] + t, p[1] + t] for p, t in zip(b, [rng.choice((-4, 4, 0)) for _ in b])]
            yield {'k': 'hull', 'A': A, 'b': b}


def show_case(c):
    return '%s' % c


def check(ctx, c):
    A, b = c['A'], c['b']
    n, m = len(A), len(A[0])
    if n != m:
        ctx.event('rectangular')
    if c['k'] == 'hull':
        return do_hull(ctx, c)
    y = c['y']
    gap = [(F(p[1]) - F(p[0])) / 2 - max(abs((F(p[0]) + F(p[1])) / 2 - v) for v in L.rowvals(r, y)) for r, p in zip(A, b)]
    scale = max(sum(max(abs(F(q[0])), abs(F(q[1]))) * (1 + abs(F(v))) for q, v in zip(r, y)) + abs(F(p[0])) + abs(F(p[1])) for r, p in zip(A, b))
    t = F(1e-12) * scale
    if min(gap) < 0:
        ctx.event('center_not_tolerable')
        return
    if min(gap) == 0:
        ctx.event('boundary_centers')
    for w in c['ws']:
        kw = {} if w is None else {'w': np.array(w)}
        ws = [F(1)] * m if w is None else [F(v) for v in w]
        if w is not None:
            ctx.event('weighted')
        # an array of float or of whole numbers, a list
        Y = np.array(y) if c['form'] == 'f' else list(y) if c['form'] == 'l' else [int(v) if v == int(v) else v for v in y]
        V = ip.linear.Neumaier(mat(A), vec(b), np.array(Y) if c['form'] == 'i' else Y, **kw)
        show = lambda: 'Neumaier(%s, %s, %s, w=%s) -> %r' % (A, b, y, w, V)
        if not ctx.expect(is_array(V) and V.shape == (m,), 'result-shape', show):
            continue
        box = [(F(plain(v.a)), F(plain(v.b))) for v in V]
        ctx.event('boxes_judged')
        for r, p in zip(A, b):
            s = (F(0), F(0))
            for q, v in zip(r, box):
                s = E.kadd(s, E.kmul((F(q[0]), F(q[1])), (min(v), max(v))))
            if not ctx.expect(s[0] >= F(p[0]) - t and s[1] <= F(p[1]) + t, 'not-tolerable', lambda: show() + ' row %s maps to [%r, %r], allowed %s' % (r, float(s[0]), float(s[1]), p)):
                break
        rad = min(g / sum(max(abs(F(q[0])), abs(F(q[1]))) * v for q, v in zip(r, ws)) for g, r in zip(gap, A))
        tt = F(1e-11) * scale * (1 + max(ws))
        for v, ce, wi in zip(box, y, ws):
            ctx.expect(abs((v[0] + v[1]) / 2 - F(ce)) <= tt, 'center', show)
            ctx.expect((v[1] - v[0]) / 2 >= rad * wi - tt, 'too-small', lambda: show() + ' radius at least %r' % float(rad * wi))
    ctx.distinct((A, b, y))


def do_hull(ctx, c):
    A, b = c['A'], c['b']
    m = len(A[0])
    h, vs = P.hull(A, b, 'tol', clip=10**7)
    try:
        x = ip.linear.Rohn(mat(A), vec(b), consistency='tol')
    except Exception as e:
        if type(e) not in (Exception, ValueError):
            raise
        if c.get('narrow'):
            ctx.expect(False, 'declared-empty:narrow', lambda: '%s: %r' % (c, e))
        elif h is None:
            ctx.event('empty_judged')
        elif any(abs(v) >= 10**7 for q in h for v in q):
            ctx.event('unbounded')
        else:
            # a set without interior may be lost to rounding; a point well inside may not
            if all(q[1] - q[0] > F(1e-3) for q in h):
                mid = [sum(v[j] for v in vs) / len(vs) for j in range(m)]
                ok = L.in_tolerable(A, [[F(p[0]) + F(1e-6), F(p[1]) - F(1e-6)] for p in b], mid)
                ctx.expect(not ok, 'declared-empty', lambda: '%s has the tolerable point %s' % (c, [float(v) for v in mid]))
        return
    box = [(plain(v.a), plain(v.b)) for v in x]
    if h is None:
        # the set is empty; only sets that become nonempty under a perturbation of 1e-6 may be reported
        h2, _ = P.hull(A, [[F(p[0]) - F(1e-6), F(p[1]) + F(1e-6)] for p in b], 'tol', clip=10**7)
        ctx.event('empty_judged')
        ctx.expect(h2 is not None, 'empty-set-estimated', lambda: '%s -> %s' % (c, box))
        return
    if any(abs(v) >= 10**7 for q in h for v in q):
        ctx.event('unbounded')
        return
    ctx.event('hulls_judged')
    if c.get('narrow'):
        ctx.event('narrow_judged')
    ctx.expect(len(box) == m and all(abs(F(u) - v) <= F(1e-6) * (1 + abs(v)) for p, q in zip(box, h) for u, v in zip(p, q)), 'hull',
               lambda: '%s -> %s, exact %s' % (c, box, [(float(u), float(v)) for u, v in h]))
    ctx.distinct((A, b))
