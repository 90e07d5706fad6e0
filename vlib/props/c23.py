"""C23: IntLinIncR2 and IntLinIncR3 return the vertices of the united / tolerable solution set in every orthant."""
import matplotlib
matplotlib.use('Agg')
from fractions import Fraction as F
import matplotlib.pyplot as plt
from .. import polys as P, systems as S
from ..lib import ip, np, mat, vec
from .c22 import judge, clip, rank, tol, near, fl

ID = 'C23'
RULE = ('one interval system in two or three unknowns: the vertices returned for every orthant against exact orthant polyhedra in rationals, '
        'united and tolerable, with and without borders, drawn and not drawn, alone and after an unbounded system')
N = {'quick': 60, 'thorough': 2200}
CASE_TIMEOUT = 120
ORTS = {2: [(1, 1), (-1, 1), (-1, -1), (1, -1)],
        3: [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1), (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]}


def required(tier):
    return {'sets_2d': 500, 'sets_3d': 150, 'bounded': 800, 'empty': 500, 'unbounded': 15, 'tolerable': 250, 'drawn': 30, 'after_unbounded': 40, 'several_orthants': 60, 'other_scales': 60, 'automatic_window': 100}


def gen(rng, tier, shard, nshards):
    for i in range(N[tier]):
        m = 2 if rng.random() < .75 else 3
        u = rng.random()
        if u < .15:
            # unbounded in several orthants, with vertices at quite different distances
            A, b = [], []
            for _ in range(rng.randint(1, m)):
                r = [rng.choice(([-q, p], [-p, q], [0, 0], [p, p])) for q, p in ((rng.choice((0, .015625, .125, 1)), rng.choice((1, 4))) for _ in range(m))]
                if not any(q[1] > q[0] for q in r):
                    r[rng.randrange(m)] = [-.0625, 2]
                A.append(r)
                v = rng.choice((1, 2, 5)) * rng.choice((-1, 1))
                b.append([v, v + rng.choice((.5, 1))])
        elif u < .55:
            kind, A, b = S.square(rng, m, rng.choice(('dd', 'any', 'int', 'point', 'wide', 'perm')))
        else:
            A, b = S.rect(rng, rng.randint(1, 4), m, ints=rng.random() < .6)
        if rng.random() < .3:
            b = [[p[0] - q, p[1] + q] for p, q in zip(b, [rng.choice((1, 2, 5)) for _ in b])]
        s = 1. if rng.random() < .75 else 2. ** rng.choice((rng.randint(0, 26), -rng.randint(0, 6)))
        b = [[v * s for v in p] for p in b] if s != 1 else b
        yield {'k': '%dd' % m, 'A': A, 'b': b, 'bounds': [[-7. * s] * m, [9. * s] * m], 'scale': s, 'show': i < 6, 'before': rng.random() < .3}


def hazard(A):
    """Thin coefficients or right-hand sides whose lower and upper forms nearly but not exactly coincide."""
    return any(0 < p[1] - p[0] < 1e-4 for r in A for p in r)


def check(ctx, c):
    A, b = c['A'], c['b']
    m = len(A[0])
    if hazard(A) or any(0 < p[1] - p[0] < 1e-7 * c['scale'] for p in b):
        ctx.event('nearly_thin_skipped')
        return
    f = ip.IntLinIncR2 if m == 2 else ip.IntLinIncR3
    name = 'IntLinIncR%d' % m
    MA, Mb = mat(A), vec(b)
    z = c['scale']
    R = 10**6 * max(1, int(z))
    if z != 1:
        ctx.event('other_scales')
    for cons in ('uni', 'tol'):
        con = P.united if cons == 'uni' else P.tolerable
        full = [P.vertices(con(A, b, s) + P.box(m, R), m) for s in ORTS[m]]
        unb = any(abs(x) >= R for W in full for v in W for x in v)
        if unb and any(1000 * z < abs(x) < R for W in full for v in W for x in v):
            ctx.event('huge_skipped')
            continue
        if sum(bool(W) for W in full) > 1:
            ctx.event('several_orthants')
        if cons == 'tol':
            ctx.event('tolerable')
        for bounds in (None, c['bounds']):
            if c['before']:
                # an unbounded set drawn before must leave no window behind
                ctx.event('after_unbounded')
                ip.lineqs(np.array([[1., 0.], [0., 1.]]), np.array([0.1, 0.1]), show=False)
            kw = dict(show=False, consistency=cons, bounds=bounds)
            if cons == 'uni' and bounds is None:
                kw.pop('consistency')
            V = f(MA, Mb, **kw)
            ctx.event('sets_%dd' % m)
            if not ctx.expect(len(V) == len(ORTS[m]), 'orthant-count:' + name, lambda: '%s(%s) -> %s' % (name, c, V)):
                continue
            faces = []
            for v in V:
                if m == 2:
                    faces.append([[[float(x) for x in p] for p in v]])
                else:
                    faces.append([[[float(x) for x in p] for p in fc] for fc in v])
            if unb and bounds is None:
                # the window is chosen by the package: every orthant shows its own vertices, inside the set
                for s, fs, W in zip(ORTS[m], faces, full):
                    pts = [p for fc in fs for p in fc]
                    want = [w for w in W if all(abs(x) < R for x in w)]
                    t = tol(pts + want, z)
                    ctx.event('automatic_window')
                    ctx.expect(all(np.isfinite(x) for p in pts for x in p), 'infinite-vertex:' + name, lambda: '%s(%s, %s) -> %s' % (name, c, cons, V))
                    for p in pts:
                        if not ctx.expect(all(sum(float(x) * y for x, y in zip(g, p)) - float(h) >= -t * (1 + sum(abs(float(x)) for x in g)) for g, h in con(A, b, s)),
                                          'outside:' + name, lambda: '%s(%s, %s) orthant %s point %s' % (name, c, cons, s, p)):
                            break
                    if rank(want, z) == m or rank(W, z) == m:
                        ctx.expect(all(any(near(p, w, t) for p in pts) for w in want), 'vertex-lost:automatic:' + name,
                                   lambda: '%s(%s, %s) orthant %s -> %s, exact %s' % (name, c, cons, s, fs, fl(want)))
            else:
                for s, fs in zip(ORTS[m], faces):
                    judge(ctx, '%s:%s' % (name, cons), dict(c, orthant=s), con(A, b, s), bounds, fs, m, None)
            if c['show']:
                ctx.event('drawn')
                drawn = f(MA, Mb, **dict(kw, show=True))
                plt.close('all')
                ctx.expect(repr(drawn) == repr(V), 'drawing-changes-result:' + name, lambda: '%s(%s)' % (name, c))
    ctx.distinct((A, b))
