"""C16: partitioning solvers (PSS, PPS) enclose the united solution set at every budget and are optimal on convergence."""
from fractions import Fraction as F
from .. import linsys as L, polys as P, systems as S
from ..lib import ip, np, mat, vec, plain, is_array

ID = 'C16'
RULE = ('one system solved by PSS or PPS under one iteration budget (all components or one), the result compared with the exact '
        'hull of the united solution set')
N = {'quick': 130, 'thorough': 3500}
CASE_TIMEOUT = 20
TOL = 1e-9


def required(tier):
    return {'judged_PSS': 1000, 'judged_PPS': 700, 'interrupted': 600, 'optimal_judged': 250, 'rectangular': 80, 'single_component': 150}


def probes():
    # a linear program on which the simplex method cycled, in native code that no signal interrupts
    yield {'k': 'rect', 'A': [[[4, 4], [0, 0], [1, 1]], [[-4, -4], [-1, -1], [-2, -2]], [[-2, -2], [-5, -5], [4, 4]], [[2, 2], [1, 1], [-3, -3]]], 'b': [[3.0, 3.0], [-7.0, -5.0], [7.0, 11.0], [-9.0, -7.0]], 'runs': [[2000, None, 1e-06, 2.0], [1, 0, 1e-12, None]]}


def gen(rng, tier, shard, nshards):
    for i in range(N[tier]):
        if rng.random() < .2:
            m = rng.choice((1, 2, 2, 2, 3))
            A, b = S.rect(rng, m + rng.randint(1, 2), m, rng.choice((0, .02, .1, .3)))
            kind = 'rect'
        else:
            n = rng.choice((1, 2, 2, 2, 2, 3, 3, 4 if tier == 'thorough' else 3))
            kind, A, b = S.square(rng, n, rng.choice(('dd', 'dd', 'any', 'int', 'int', 'point', 'midI', 'perm', 'wide')))
        A1, b = S.scaled(rng, A, b, up=30, down=20)
        c = {'k': kind if A1 == A else kind + '-scaled', 'A': A1, 'b': b, 'runs': []}
        A = A1
        for _ in range(2):
            c['runs'].append([rng.choice((0, 1, 2, 3, 5, 10, 40, 2000, 2000)), rng.choice((None, None, rng.randrange(len(A[0])))),
                              rng.choice((1e-12, 1e-12, 1e-6, .5)), rng.choice((None, None, rng.choice((0, .1, 2., 50.))))])
        yield c


def solve(ctx, name, A, b, **kw):
    try:
        x = getattr(ip.linear, name)(mat(A), vec(b), **kw)
    except (ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError):
        ctx.event('rejected_' + name)
        return None
    except Exception as e:
        if type(e) is Exception:
            ctx.event('rejected_' + name)
            return None
        raise
    if not is_array(x):
        ctx.violation('result-shape:' + name, lambda: repr(x))
        return None
    return [(plain(v.a), plain(v.b)) for v in x]


def converging(ctx, name, A, b, x, kw):
    """Whether a larger budget improves the result, that is, the iterations had not ended."""
    y = solve(ctx, name, A, b, maxiter=20000, tol=1e-12, **kw)
    return y is not None and y != x


def check(ctx, c):
    A, b = c['A'], c['b']
    rect = c['k'].startswith('rect')
    if rect:
        h, _ = P.hull(A, b, 'uni', clip=10**12)
        if h is not None and any(abs(v) >= 10**12 for q in h for v in q):
            h = None
        if h is not None and any(u == v for u, v in h) and max(abs(v) for p in b for v in p) > 1e4:
            h = None        # a set without interior within the tolerance of the linear programs
    else:
        h = L.hull(A, b)
    if h is None:
        ctx.event('singular_or_unbounded')
        return
    # pivoting by size in columns can fail on rows of quite different sizes
    dom = not rect and S.dominant(A) and max(abs(r[i][0]) for i, r in enumerate(A)) <= 16 * min(abs(r[i][0]) for i, r in enumerate(A))
    for name in ('PSS',) if rect else ('PSS', 'PPS'):
        for mi, nu, tol, grow in c['runs']:
            kw = {}
            if grow is not None and name == 'PSS':     # a starting box that contains the solution set
                ctx.event('starting_boxes')
                kw['x0'] = vec([[float(q[0]) - grow - 1e-9 * (1 + abs(float(q[0]))), float(q[1]) + grow + 1e-9 * (1 + abs(float(q[1])))] for q in h])
            x = solve(ctx, name, A, b, maxiter=mi, nu=nu, tol=tol, **kw)
            if x is None:
                ctx.expect(not dom, 'dominant-system-rejected:' + name, lambda: '%s maxiter=%s nu=%s tol=%s' % (c, mi, nu, tol))
                continue
            want = h if nu is None else [h[nu]]
            if not ctx.expect(len(x) == len(want), 'result-length:' + name, lambda: '%s -> %s' % (c, x)):
                continue
            ctx.event('judged_' + name)
            if rect:
                ctx.event('rectangular')
            if nu is not None:
                ctx.event('single_component')
            if mi < 2000:
                ctx.event('interrupted')
            for k, ((lo, hi), q) in enumerate(zip(x, want)):
                show = lambda: '%s(maxiter=%s nu=%s tol=%s) %s: %s, hull %s' % (name, mi, nu, tol, c, x, [(float(u), float(v)) for u, v in want])
                if not ctx.expect(lo == lo and hi == hi, 'nan:' + name, show):
                    continue
                t = F(1e-6 if c['k'].endswith('-scaled') else TOL) * max(abs(v) for u in h for v in u) + F(1e-14)
                ctx.expect((lo == -np.inf or F(lo) <= q[0] + t) and (hi == np.inf or F(hi) >= q[1] - t),
                           'solution-lost:%s%s%s' % (name, ':interrupted' if mi < 2000 else '', ':rect' if rect else ''), show)
                if mi == 2000 and tol == 1e-12 and c['k'] in ('dd', 'int', 'point', 'midI'):
                    ctx.event('optimal_judged')
                    t = F(1e-7) * (1 + max(abs(v) for u in h for v in u))
                    sharp = lo != -np.inf and hi != np.inf and F(lo) >= q[0] - t and F(hi) <= q[1] + t
                    if not sharp and converging(ctx, name, A, b, x, dict(kw, nu=nu)):
                        ctx.event('slow')
                        break
                    ctx.expect(sharp, 'not-optimal:' + name, show)
    ctx.distinct((A, b))
