"""C27: a WILS model reports the true value of its objective at its coefficients, reaches the tolerable optimum and predicts enclosures."""
from fractions import Fraction as F
from .. import exact as E, linsys as L, lp, systems as S
from ..lib import ip, np, mat, vec, tolist
from .c18 import constraint, excess

ID = 'C27'
RULE = ('one WILS model fitted to one interval data set with given objective, norm, weights, smoothing, constraint, starting point and budget; '
        'its value against the defining formula in rationals and against an LP optimum, its predictions against exact ranges')
N = {'quick': 700, 'thorough': 15000}
CASE_TIMEOUT = 60


def required(tier):
    return {'values_judged': 3000, 'optimum_judged': 500, 'constrained_optimum_judged': 100, 'constraints_judged': 150, 'started': 500,
            'smoothed': 1500, 'weighted': 1500, 'predictions': 5000, 'refits': 500, 'point_data': 300}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        m = rng.randint(1, 4)
        A, b = S.rect(rng, rng.randint(1, 6), m, feasible=rng.random() < .6)
        point = rng.random() < .15
        if point:
            A = [[[p[0], p[0]] for p in r] for r in A]
        c = {'k': 'fit', 'A': A, 'b': b, 'point': point, 'objective': rng.choice(('Tol', 'Tol', 'Tol', 'Uni', 'Uss')), 'norm': rng.choice(('inf', 'inf', 'l1')),
             'alpha': rng.choice((0, 0, .3, .5, .9)), 'beta': rng.choice((1, 1, 2, .5)), 'w': None, 'cons': None, 'x0': None, 'opts': {}}
        u = rng.random()
        if u < .5:
            c['w'] = [rng.choice((1, 2, .5, 10, .1, 0 if rng.random() < .5 else 1)) for _ in b] if rng.random() < .7 else [rng.choice((1, 2, 3)) for _ in b]
        elif u < .6:
            c['w'] = rng.choice((2., .1, 3))
        if rng.random() < .35:
            x = [rng.uniform(-3, 3) for _ in range(m)]
            c['cons'] = []
            for _ in range(rng.randint(1, 3)):
                r = [rng.randint(-2, 2) if rng.random() < .5 else round(rng.uniform(-2, 2), 1) for _ in range(m)]
                v = sum(p * q for p, q in zip(r, x))
                c['cons'].append([r, rng.choice((None, v - rng.uniform(0, 2))), rng.choice((None, v + rng.uniform(0, 2)))])
        if rng.random() < .3:
            c['x0'] = [rng.choice((rng.uniform(-5, 5), 0, rng.randint(-3, 3))) for _ in range(m)]
        u = rng.random()
        if u < .6:
            c['opts'] = {'nsims': 300, 'maxiter': 20000}
        elif u < .75:
            c['opts'] = rng.choice(({'maxiter': rng.choice((0, 1, 5, 40))}, {'tolx': 1e-3}, {'tolf': 1e-3}, {'alpha': 2., 'h0': .1}))
        c['T'], _ = S.rect(rng, rng.randint(1, 4), m, R=rng.choice((0, .3)))
        c['A2'], c['b2'] = S.rect(rng, rng.randint(1, 5), m)
        yield c


def smoothed(c):
    n = len(c['b'])
    w = [1.] * n if c['w'] is None else c['w'] if isinstance(c['w'], list) else [c['w']] * n
    a, be = F(c['alpha']), F(c['beta'])
    out = [be * F(w[0]) * (1 - a)]
    for v in w[1:]:
        out.append(be * (F(v) * (1 - a) + a * out[-1]))
    return out


def objective(c, x):
    """The objective and the magnitude of its terms at x in rationals, constraints aside."""
    vals, scale = [], F(0)
    for r, p, w in zip(c['A'], c['b'], smoothed(c)):
        lo, hi = L.rowvals([[F(v) for v in q] for q in r], x)
        p = [F(v) for v in p]
        ym, yr = (p[0] + p[1]) / 2, (p[1] - p[0]) / 2
        if c['objective'] == 'Tol':
            v = yr - max(abs(ym - lo), abs(ym - hi))
        elif c['objective'] == 'Uni':
            v = yr - (0 if lo <= ym <= hi else min(abs(ym - lo), abs(ym - hi)))
        else:
            v = yr + (hi - lo) / 2 - abs(ym - (hi + lo) / 2)
        vals.append(w * v)
        scale += abs(w) * (abs(ym) + yr + sum(max(abs(F(q[0])), abs(F(q[1]))) * abs(t) for q, t in zip(r, x)))
    return (min(vals) if c['norm'] == 'inf' else sum(vals)), scale


def optimum(c):
    """Coefficients maximizing the tolerable objective over the constraints (a candidate: re-evaluated exactly by the caller)."""
    A, b, w = c['A'], c['b'], [float(v) for v in smoothed(c)]
    if c['norm'] == 'inf':
        return lp.optimum(A, b, w, c['cons'], 'Tol')
    n, m = len(A), len(A[0])
    G, h = [], []
    for i in range(n):      # t_i <= yr - (+-(ym - value))
        ym, yr = (b[i][0] + b[i][1]) / 2, (b[i][1] - b[i][0]) / 2
        e = [0.] * n
        e[i] = 1.
        lo, hi = [p[0] for p in A[i]], [p[1] for p in A[i]]
        G.append(hi + [-v for v in lo] + e)
        h.append(yr + ym)
        G.append([-v for v in lo] + hi + e)
        h.append(yr - ym)
    for j in range(2 * m):
        e = [0.] * (2 * m + n)
        e[j] = -1.
        G.append(e)
        h.append(0.)
    for r, l, u in c['cons'] or []:
        if u is not None:
            G.append(list(r) + [-v for v in r] + [0.] * n)
            h.append(u)
        if l is not None:
            G.append([-v for v in r] + list(r) + [0.] * n)
            h.append(-l)
    z = lp.lp([0.] * (2 * m) + [-v for v in w], G, h)
    return None if z is None else z[:m] - z[m:2 * m]


def check(ctx, c):
    A, b = c['A'], c['b']
    m = len(A[0])
    X = np.array([[p[0] for p in r] for r in A], dtype=float) if c['point'] else mat(A)
    if c['point']:
        ctx.event('point_data')
    y = vec(b)
    kw = dict(c['opts'], objective=c['objective'], norm=c['norm'])
    if c['w'] is not None:
        kw['weight'] = np.array(c['w']) if isinstance(c['w'], list) else c['w']
        ctx.event('weighted')
    if c['alpha']:
        ctx.event('smoothed')
    if c['x0'] is not None:
        kw['x0'] = np.array(c['x0'])
        ctx.event('started')
    if c['cons']:
        kw['constraint'] = constraint(c['cons'])
    mod = ip.WILS(alpha=c['alpha'], beta=c['beta'])
    mod.fit(X, y, **kw)
    e = mod.estimator
    show = lambda: '%s -> %s' % (c, e)
    x, fr = e['xr'], e['fr']
    if not ctx.expect(np.shape(x) == (m,) and np.all(np.isfinite(x)) and np.isfinite(fr), 'result-form', show):
        return
    tag = ':%s:%s' % (c['objective'], c['norm'])
    xs = [F(float(v)) for v in x]
    val, scale = objective(c, xs)
    t = F(1e-9) * (1 + scale)
    ex = excess(c['cons'], x)
    ctx.event('values_judged')
    ctx.expect(e['ccode'] in (1, 2, 3, 4, 5) and 0 <= e['nit'] <= kw.get('maxiter', 2000) + 1 and e['ncalls'] >= e['nit'], 'counters', show)
    if ex == 0:
        ctx.expect(abs(F(float(fr)) - val) <= t, 'value-at-coefficients' + tag, lambda: show() + ' value %r' % float(val))
    else:
        ctx.expect(F(float(fr)) - val <= t, 'penalty-sign' + tag, lambda: show() + ' value %r' % float(val))
    if c['x0'] is not None and excess(c['cons'], c['x0']) == 0:
        v0, s0 = objective(c, [F(v) for v in c['x0']])
        ctx.expect(F(float(fr)) >= v0 - F(1e-9) * (1 + s0), 'worse-than-start' + tag, lambda: show() + ' start %r' % float(v0))
    if c['objective'] == 'Tol' and c['opts'].get('maxiter') == 20000:
        if c['cons']:
            ctx.event('constraints_judged')
            ctx.expect(ex <= F(1e-6), 'constraint-violated' + tag, lambda: show() + ' by %r' % float(ex))
        z = optimum(c)
        if z is None or excess(c['cons'], z) > F(1e-8):
            ctx.event('no_lp_optimum')
        else:
            opt, _ = objective(c, [F(float(v)) for v in z])
            ctx.event('constrained_optimum_judged' if c['cons'] else 'optimum_judged')
            ctx.expect(opt - F(float(fr)) <= F(1e-6) * (1 + abs(opt)), 'not-optimal' + tag, lambda: show() + ' reaches less than %r at %s' % (float(opt), list(z)))
    # predictions enclose the exact ranges, and are no wider than rounding requires
    p = mod.predict(mat(c['T']))
    if ctx.expect(p.shape == (len(c['T']),), 'prediction-form', lambda: '%s -> %s' % (show(), p)):
        for r, (lo, hi) in zip(c['T'], tolist(p)):
            ctx.event('predictions')
            a, d = L.rowvals([[F(v) for v in q] for q in r], xs)
            s = F(1e-13) * (1 + sum(max(abs(F(q[0])), abs(F(q[1]))) * abs(v) for q, v in zip(r, xs)))
            ctx.expect(F(lo) <= a and d <= F(hi), 'prediction-encloses', lambda: '%s predicts %s for %s, range %s' % (show(), [lo, hi], r, [float(a), float(d)]))
            ctx.expect(a - F(lo) <= s and F(hi) - d <= s, 'prediction-wide', lambda: '%s predicts %s for %s, range %s' % (show(), [lo, hi], r, [float(a), float(d)]))
    # a model fitted to other data in between gives the same
    if c['opts']:
        ctx.event('refits')
        mod.fit(mat(c['A2']), vec(c['b2']), constraint=kw.get('constraint'), maxiter=5)
        mod.fit(X, y, **kw)
        f = mod.estimator
        ctx.expect(np.array_equal(f['xr'], x) and f['fr'] == fr and (f['nit'], f['ncalls'], f['ccode']) == (e['nit'], e['ncalls'], e['ccode']), 'refit-differs',
                   lambda: '%s then %s' % (show(), f))
    ctx.distinct((A, b, c['objective'], c['norm']))
