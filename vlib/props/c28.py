"""C28: an ISPAE model reports the true value of its objective, reaches the tolerable optimum over polynomials and predicts enclosures."""
from fractions import Fraction as F
import pandas as pd
from .. import lp
from ..lib import ip, np, mk, vec, tolist

ID = 'C28'
RULE = ('one ISPAE model (basis, orders, bias, objective, norm, weights) fitted to one interval data set; its value against ranges of the '
        'polynomials computed from exact coefficients, against optima of an exchange of LPs, its predictions against those ranges')
N = {'quick': 36, 'thorough': 2500}
HANG_JUDGED = False
CASE_TIMEOUT = 120
BASES = ('monom', 'chebyshev', 'hermite', 'laguerre', 'legendre')


def required(tier):
    return dict({'values_judged': 250, 'optimum_judged': 100, 'exchange_rounds': 250, 'predictions': 500, 'ranges_judged': 800, 'smoothed': 60, 'frames_compared': 250,
                 'started': 45, 'no_bias': 60, 'budgeted': 30, 'point_data': 45}, **{'basis_' + b: 30 for b in BASES})


def coefs(basis, d):
    """Power basis coefficients of the basis polynomial of degree d, by its recurrence in rationals."""
    p, q = [F(1)], {'hermite': [F(0), F(2)], 'laguerre': [F(1), F(-1)]}.get(basis, [F(0), F(1)])
    if basis == 'monom':
        return [F(0)] * d + [F(1)]
    if d == 0:
        return p
    for n in range(1, d):
        x = [F(0)] + q
        if basis == 'chebyshev':
            r = [2 * v for v in x]
            s = F(1)
        elif basis == 'hermite':
            r = [2 * v for v in x]
            s = F(2 * n)
        elif basis == 'legendre':
            r = [F(2 * n + 1, n + 1) * v for v in x]
            s = F(n, n + 1)
        else:
            r = [F(2 * n + 1, n + 1) * (q[i] if i < len(q) else 0) - x[i] / (n + 1) for i in range(len(x))]
            s = F(n, n + 1)
        for i, v in enumerate(p):
            r[i] -= s * v
        p, q = q, r
    return q


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n, m = rng.randint(1, 8), rng.randint(1, 3)
        order = rng.choice((1, 2, 3, [rng.randint(1, 4) for _ in range(m)]))
        wid = rng.choice((0, 0, .1, .5, 1.5))
        cell = lambda: (lambda c, r: [c - wid * r, c + wid * r])(rng.choice((rng.uniform(-2, 2), rng.randint(-2, 2))), rng.random())
        c = {'k': 'fit', 'X': [[cell() for _ in range(m)] for _ in range(n)], 'order': order, 'bias': rng.random() < .65, 'basis': rng.choice(BASES),
             'y': [[v - s, v + t] for v, s, t in [(rng.uniform(-3, 3), rng.uniform(0, 2), rng.uniform(0, 2)) for _ in range(n)]],
             'objective': rng.choice(('Tol', 'Tol', 'Tol', 'Uni')), 'norm': rng.choice(('inf', 'inf', 'l1')), 'alpha': rng.choice((0, 0, .5)),
             'beta': rng.choice((1, 1, 2)), 'w': rng.choice((None, None, 2, [rng.choice((1, 2, .5, 0 if rng.random() < .3 else 1)) for _ in range(n)])), 'x0': None,
             'opts': {'nsims': 300, 'maxiter': 20000}, 'frame': rng.choice(('frame', 'frame', 'named', 'array')),
             'T': [[cell() for _ in range(m)] for _ in range(rng.randint(1, 4))]}
        if rng.random() < .2:
            c['opts'] = rng.choice(({}, {'maxiter': rng.choice((0, 1, 10))}, {'tolx': 1e-3}))
        k = sum(order if isinstance(order, list) else [order] * m) + c['bias']
        if rng.random() < .25:
            c['x0'] = [rng.choice((rng.uniform(-2, 2), 0., 1.)) for _ in range(k)]
        if rng.random() < .15:      # data in other units
            s = 2. ** rng.choice((10, 20, -10))
            c['y'] = [[v * s for v in p] for p in c['y']]
        # frames cut out of larger ones: rows keep the labels they had, test data may have more columns in another order
        c['labels'], c['cols'] = rng.choice(('range', 'range', 'cut', 'text')), rng.choice(('same', 'same', 'permuted', 'extra'))
        c['probe'] = [rng.uniform(-2, 2) for _ in range(k)]
        yield c


def layout(c):
    """(column or None for the bias, degree) of every coefficient."""
    m = len(c['X'][0])
    order = c['order'] if isinstance(c['order'], list) else [c['order']] * m
    return [(None, 0)] * c['bias'] + [(j, d) for j in range(m) for d in range(1, order[j] + 1)]


def polys(c, beta):
    """One polynomial per column (floats from exact sums) and the constant."""
    m = len(c['X'][0])
    P, const = [[F(0)] * 5 for _ in range(m)], F(0)
    for (j, d), v in zip(layout(c), beta):
        if j is None:
            const += F(float(v))
        else:
            for i, a in enumerate(coefs(c['basis'], d)):
                P[j][i] += a * F(float(v))
    return P, const


def prange(p, lo, hi):
    """Range of a polynomial over an interval and the points of its ends: critical points in floating point, values in rationals."""
    pts = [F(lo), F(hi)]
    d = [float(i * v) for i, v in enumerate(p)][1:]
    s = max(abs(v) for v in d) if d else 0
    while d and abs(d[-1]) <= 1e-300 * s:
        d.pop()
    if len(d) > 1:
        for r in np.roots(d[::-1]):
            if lo <= r.real <= hi:
                pts.append(F(float(r.real)))
    ev = lambda x: sum((v * x ** i for i, v in enumerate(p)), F(0))
    vals = [(ev(x), x) for x in pts]
    return min(vals), max(vals)


def ranges(c, beta, X):
    """Ranges of the model over the rows with points where their ends are attained, and a magnitude."""
    P, const = polys(c, beta)
    out = []
    for r in X:
        lo = hi = const
        s, xl, xh = abs(const), [], []
        for p, (a, b) in zip(P, r):
            (l, ul), (h, uh) = prange(p, a, b)
            lo, hi = lo + l, hi + h
            xl.append(float(ul))
            xh.append(float(uh))
            g = max(abs(a), abs(b), 1)
            s += sum(abs(v) * F(g) ** i for i, v in enumerate(p))
        out.append((lo, hi, xl, xh, s))
    return out


def smoothed(c):
    n = len(c['y'])
    w = [1.] * n if c['w'] is None else c['w'] if isinstance(c['w'], list) else [c['w']] * n
    a, be = F(c['alpha']), F(c['beta'])
    out = [be * F(w[0]) * (1 - a)]
    for v in w[1:]:
        out.append(be * (F(v) * (1 - a) + a * out[-1]))
    return out


def objective(c, beta):
    vals, scale = [], F(0)
    for (lo, hi, _, _, s), p, w in zip(ranges(c, beta, c['X']), c['y'], smoothed(c)):
        ym, yr = (F(p[0]) + F(p[1])) / 2, (F(p[1]) - F(p[0])) / 2
        if c['objective'] == 'Tol':
            v = yr - max(abs(ym - lo), abs(ym - hi))
        else:
            v = yr - (0 if lo <= ym <= hi else min(abs(ym - lo), abs(ym - hi)))
        vals.append(w * v)
        scale += abs(w) * (abs(ym) + yr + s)
    return (min(vals) if c['norm'] == 'inf' else sum(vals)), scale


def features(c, x):
    return [float(sum(a * F(x[j]) ** i for i, a in enumerate(coefs(c['basis'], d)))) if j is not None else 1. for j, d in layout(c)]


def optimum(ctx, c, first):
    """Coefficients good for the tolerable objective: LPs over the points found worst so far. Returns (value, coefficients)."""
    n, k, w = len(c['y']), len(layout(c)), [float(v) for v in smoothed(c)]
    G, h = [], []
    if c['norm'] == 'l1':
        nt = n
        cost = [0.] * k + [-v for v in w]
    else:
        nt, cost = 1, [0.] * k + [-1.]

    def add(i, x):
        ym, yr = (c['y'][i][0] + c['y'][i][1]) / 2, (c['y'][i][1] - c['y'][i][0]) / 2
        f = features(c, x)
        e = [0.] * nt
        if c['norm'] != 'l1' and w[i] == 0:
            return                  # the row contributes the constant 0, see below
        e[i if c['norm'] == 'l1' else 0] = 1. if c['norm'] == 'l1' else 1. / w[i]
        G.append(f + e)
        h.append(yr + ym)
        G.append([-v for v in f] + e)
        h.append(yr - ym)
    if c['norm'] != 'l1' and 0 in w:
        G.append([0.] * k + [1.])
        h.append(0.)
    for i, r in enumerate(c['X']):
        for x in {tuple((p[0] + p[1]) / 2 for p in r), tuple(p[0] for p in r), tuple(p[1] for p in r)}:
            add(i, x)
    beta, best = first, None
    for _ in range(12):
        ctx.event('exchange_rounds')
        for i, (_, _, xl, xh, _) in enumerate(ranges(c, beta, c['X'])):
            add(i, xl)
            add(i, xh)
        z = lp.lp(cost, G, h)
        if z is None:
            break
        beta = z[:k]
        v, _ = objective(c, beta)
        if best is None or v > best[0]:
            best = (v, list(beta))
        top = float(-np.dot(cost, z))       # no coefficients can exceed this
        if top - float(v) <= 1e-8 * (1 + abs(top)):
            break
    return best


def frame(c, X, test=False):
    point = all(p[0] == p[1] for r in X for p in r)
    cells = [[p[0] if point else mk(p) for p in r] for r in X]
    if c['frame'] == 'array':
        if point:
            return np.array(cells)
        out = np.empty((len(X), len(X[0])), dtype=object)
        for i, r in enumerate(cells):
            for j, v in enumerate(r):
                out[i, j] = v
        return out
    names = ['c%d' % j for j in range(len(X[0]))] if c['frame'] == 'named' else list(range(len(X[0])))
    df = pd.DataFrame({q: [r[j] for r in cells] for j, q in enumerate(names)})
    if c['labels'] != 'range':
        df.index = [(7 * i + 3) % 11 if c['labels'] == 'cut' else 'row %d' % (5 * i % 9) for i in range(len(X))]
    if test and c['cols'] != 'same':
        df = df[names[::-1]].copy()
        if c['cols'] == 'extra':
            df.insert(len(names) // 2, 'other' if c['frame'] == 'named' else 100, [1e3] * len(X))
    return df


def snapshot(f):
    if isinstance(f, pd.DataFrame):
        return list(f.columns), [[repr(v) for v in f[q]] for q in f.columns]
    return f.shape, [repr(v) for v in f.flat]


def check(ctx, c):
    fr_X = frame(c, c['X'])
    before = snapshot(fr_X)
    kw = dict(c['opts'], order=c['order'], objective=c['objective'], norm=c['norm'], bias=c['bias'])
    if c['w'] is not None:
        kw['weight'] = np.array(c['w']) if isinstance(c['w'], list) else c['w']
    if c['alpha']:
        ctx.event('smoothed')
    if c['x0'] is not None:
        kw['x0'] = np.array(c['x0'])
        ctx.event('started')
    if not c['bias']:
        ctx.event('no_bias')
    if c['opts'].get('maxiter') != 20000:
        ctx.event('budgeted')
    if not isinstance(fr_X, np.ndarray) and fr_X.dtypes.iloc[0] != object:
        ctx.event('point_data')
    ctx.event('basis_' + c['basis'])
    mod = ip.ISPAE(alpha=c['alpha'], beta=c['beta'], basis=c['basis'])
    mod.fit(fr_X, vec(c['y']), **kw)
    e = mod.estimator
    show = lambda: '%s -> %s' % (c, e)
    beta, fr = e['xr'], e['fr']
    ctx.event('frames_compared')
    ctx.expect(snapshot(fr_X) == before, 'data-changed', show)
    if not ctx.expect(np.shape(beta) == (len(layout(c)),) and np.all(np.isfinite(beta)) and np.isfinite(fr), 'result-form', show):
        return
    tag = ':%s:%s' % (c['objective'], c['norm'])
    val, scale = objective(c, beta)
    ctx.event('values_judged')
    ctx.expect(e['ccode'] in (1, 2, 3, 4, 5) and 0 <= e['nit'] <= c['opts'].get('maxiter', 2000) + 1 and e['ncalls'] >= e['nit'], 'counters', show)
    ctx.expect(abs(F(float(fr)) - val) <= F(1e-8) * (1 + scale), 'value-at-coefficients' + tag, lambda: show() + ' value %r' % float(val))
    if c['x0'] is not None:
        v0, s0 = objective(c, c['x0'])
        ctx.expect(F(float(fr)) >= v0 - F(1e-8) * (1 + s0), 'worse-than-start' + tag, lambda: show() + ' start %r' % float(v0))
    if c['objective'] == 'Tol' and c['opts'].get('maxiter') == 20000:
        best = optimum(ctx, c, [float(v) for v in beta])
        if best is None:
            ctx.event('no_lp_optimum')
        else:
            ctx.event('optimum_judged')
            ctx.expect(best[0] - F(float(fr)) <= F(1e-5) * (1 + abs(best[0])), 'not-optimal' + tag,
                       lambda: show() + ' reaches less than %r at %s' % (float(best[0]), best[1]))
    # ranges of the model and its predictions
    frT = frame(c, c['T'], True)
    ctx.event('cut_frames', c['frame'] != 'array' and c['labels'] != 'range')
    ctx.event('other_columns', c['frame'] != 'array' and c['cols'] != 'same')
    before = snapshot(frT)
    p = mod.predict(frT)
    ctx.expect(snapshot(frT) == before, 'test-data-changed', show)
    exact = ranges(c, beta, c['T'])
    terms = [[F(0), F(0)] for _ in c['T']]
    for (j, d), v in zip(layout(c), beta):
        for t, r in zip(terms, c['T']):
            lo = hi = F(1)
            if j is not None:
                (lo, _), (hi, _) = prange(coefs(c['basis'], d), *r[j])
            a, b = sorted((lo * F(float(v)), hi * F(float(v))))
            t[0], t[1] = t[0] + a, t[1] + b
    p = [[float(np.asarray(v.a)), float(np.asarray(v.b))] if not isinstance(v, (int, float)) else [v, v] for v in p]
    if ctx.expect(len(p) == len(c['T']), 'prediction-form', lambda: '%s predicts %s' % (show(), p)):
        for (lo, hi), (a, b, _, _, s), (ta, tb), r in zip(p, exact, terms, c['T']):
            ctx.event('predictions')
            t = F(1e-12) * (1 + s) * 10
            if not np.isfinite(lo) or not np.isfinite(hi):
                ctx.violation('prediction-form', lambda: '%s predicts %s' % (show(), p))
                continue
            ctx.expect(F(lo) <= a + t and b - t <= F(hi), 'prediction-encloses', lambda: '%s predicts %s for %s, range %s' % (show(), [lo, hi], r, [float(a), float(b)]))
            ctx.expect(F(lo) >= ta - t and F(hi) <= tb + t, 'prediction-wide', lambda: '%s predicts %s for %s, sum of ranges %s' % (show(), [lo, hi], r, [float(ta), float(tb)]))
    # the interval value for any coefficients, over the fitted data with its bias column
    if c['frame'] != 'array':
        for bt in (beta, np.array(c['probe'])):
            df = frame(c, c['T'], True)
            if c['bias']:
                df.insert(0, 'bias', [1] * len(c['T']))
            q = tolist(mod.value(bt, df))
            for (lo, hi), (a, b, _, _, s) in zip(q, ranges(c, bt, c['T'])):
                ctx.event('ranges_judged')
                t = F(1e-11) * (1 + s)
                ctx.expect(abs(F(float(lo)) - a) <= t and abs(F(float(hi)) - b) <= t, 'range-of-model', lambda: '%s %s: %s, range %s' % (c, list(bt), [lo, hi], [float(a), float(b)]))
    # one polynomial over one column, of degrees 1, 2, ... or those given, before any fit of this object
    fresh = ip.ISPAE(basis=c['basis'])
    col = [r[0] for r in c['T']]
    for co, deg in ((c['probe'][:4], None), (c['probe'][:2], [4, 1][:len(c['probe'][:2])])):
        x = vec(col)
        got = tolist(fresh.value_of_one_col(np.array(co), x) if deg is None else fresh.value_of_one_col(np.array(co), x, deg=deg))
        p1 = [F(0)] * 5
        for d, v in zip(deg or range(1, len(co) + 1), co):
            for i, a in enumerate(coefs(c['basis'], d)):
                p1[i] += a * F(v)
        for (lo, hi), (xa, xb) in zip(got, col):
            (a, _), (b, _) = prange(p1, xa, xb)
            ctx.event('columns_judged')
            t = F(1e-11) * sum(abs(v) * F(max(abs(xa), abs(xb), 1)) ** i for i, v in enumerate(p1)) + F(1e-11)
            ctx.expect(abs(F(float(lo)) - a) <= t and abs(F(float(hi)) - b) <= t, 'range-of-column', lambda: '%s %s %s: %s, range %s' % (c['basis'], co, deg, [lo, hi], [float(a), float(b)]))
    ctx.distinct((c['X'], c['order'], c['basis'], c['objective'], c['norm']))
