"""C19: ralgb5 reports the best observed point, true counters and exit codes, and minimizes convex functions."""
from fractions import Fraction as F
from .. import lp
from ..lib import ip, np
from intvalpy.kernel.ralgb5 import ralgb5

ID = 'C19'
RULE = ('one convex function minimized by ralgb5 with every call of the objective recorded; the recorded trace is checked against the '
        'returned point, value, counters and exit code, and the value against the known minimum')
N = {'quick': 260, 'thorough': 6000}
CASE_TIMEOUT = 60


def required(tier):
    return {'traces': 1500, 'calls_recorded': 150000, 'minimum_judged': 500, 'code_1': 200, 'code_2': 50, 'code_3': 50, 'code_4': 50, 'code_5': 50}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        m = rng.randint(1, 5)
        kind = rng.choice(('poly', 'poly', 'quad', 'dist', 'sumabs', 'linear', 'interp'))
        c = {'k': kind, 'm': m, 'opts': {}}
        c['x0'] = [rng.choice((0, rng.uniform(-5, 5), rng.randint(-3, 3))) for _ in range(m)]
        if rng.random() < .2:
            c['x0'] = [int(v) for v in c['x0']]
        if kind == 'poly':      # max(g_i x + h_i) with 0 in the hull of the g_i
            G = [[rng.uniform(-3, 3) for _ in range(m)] for _ in range(m + rng.randint(0, 3))]
            w = [rng.uniform(.2, 1) for _ in G]
            G.append([-sum(wi * g[j] for wi, g in zip(w, G)) for j in range(m)])
            c['G'], c['h'] = G, [rng.uniform(-5, 5) for _ in G]
        elif kind == 'interp':  # max |g_i x - h_i| over fewer rows than unknowns: a whole plane of minima
            c['G'] = [[rng.choice((rng.uniform(-3, 3), rng.randint(-3, 3))) for _ in range(m)] for _ in range(rng.randint(1, m))]
            y = [rng.uniform(-3, 3) for _ in range(m)]
            c['h'] = [sum(a * b for a, b in zip(g, y)) for g in c['G']]
        elif kind in ('quad', 'dist', 'sumabs'):
            c['c'] = [rng.uniform(-5, 5) for _ in range(m)]
            c['s'] = [10 ** rng.uniform(-1, 1) for _ in range(m)]
        else:
            c['G'] = [[rng.uniform(-1, 1) + .1 for _ in range(m)]]
        u = rng.random()
        if u < .4:
            c['opts'] = {'nsims': 300, 'maxiter': 20000}
        elif u < .8:
            c['opts'] = rng.choice(({'maxiter': rng.choice((0, 1, 2, 5, 20, 50))}, {'tolx': rng.choice((1e-3, .3, 10.))}, {'tolf': rng.choice((1e-3, .1))},
                                    {'tolg': rng.choice((1e-2, 1., 10.))}, {'alpha': rng.choice((1.5, 2., 3.)), 'h0': rng.choice((.1, 2., 1e-3, 50., 1000.))},
                                    {'nsims': rng.choice((2, 5, 10)), 'tolf': 1e-4}, {'nh': rng.choice((1, 2, 5)), 'q1': .8, 'q2': 1.2}))
        yield c


def function(c):
    k = c['k']
    if k in ('poly', 'linear'):
        G, h = np.array(c['G']), np.array(c.get('h', [0.]))

        def f(x):
            v = G @ x + h
            i = int(np.argmax(v))
            return float(v[i]), G[i].copy()
        return f
    if k == 'interp':
        G, h = np.array(c['G'], dtype=float), np.array(c['h'])

        def f(x):
            v = G @ x - h
            i = int(np.argmax(np.abs(v)))
            return float(abs(v[i])), G[i] * np.sign(v[i])
        return f
    ce, s = np.array(c['c']), np.array(c['s'])
    if k == 'quad':
        return lambda x: (float(np.sum(s * (x - ce) ** 2)), 2 * s * (x - ce))
    if k == 'dist':
        def f(x):
            d = float(np.sqrt(np.sum(s * (x - ce) ** 2)))
            return d, s * (x - ce) / d if d > 0 else np.zeros(len(ce))
        return f
    return lambda x: (float(np.sum(s * np.abs(x - ce))), s * np.sign(x - ce))


def minimum(c):
    if c['k'] == 'linear':
        return None
    if c['k'] != 'poly':
        return 0.
    m = c['m']
    z = lp.lp([0.] * m + [1.], [list(g) + [-1.] for g in c['G']], [-v for v in c['h']])
    return None if z is None else function(c)(z[:m])[0]


def line_searches(trace):
    """Indices of the calls that end a line search (the step direction no longer points against the subgradient); None when unclear."""
    ends = []
    for k in range(1, len(trace)):
        d = trace[k - 1][0] - trace[k][0]
        g = trace[k][2]
        v, size = float(d @ g), float(np.linalg.norm(d) * np.linalg.norm(g))
        if not np.isfinite(size) or size == 0 or np.linalg.norm(d) < 1e-9 * (1 + np.abs(trace[k][0]).max()) or abs(v) <= 1e-6 * size:
            return None
        if v <= 0:
            ends.append(k)
    return ends


def check(ctx, c):
    f = function(c)
    trace = []

    def calcfg(x):
        v, g = f(x)
        trace.append((np.array(x, dtype=float), v, np.array(g, dtype=float)))
        return v, g
    x0 = np.array(c['x0'])
    keep = x0.copy()
    o = c['opts']
    with np.errstate(all='ignore'):
        res = ralgb5(calcfg, x0, **o)
    show = lambda: '%s -> %s after %d calls' % (c, res, len(trace))
    if not ctx.expect(isinstance(res, tuple) and len(res) == 5 and np.shape(res[0]) == (c['m'],), 'result-form', show):
        return
    x, fr, nit, ncalls, code = res
    ctx.event('traces')
    ctx.event('calls_recorded', len(trace))
    ctx.event('code_%s' % code)
    ctx.expect(all(np.isfinite(t[0]).all() for t in trace), 'called-at-non-finite-point', show)
    ctx.expect(np.array_equal(x0, keep), 'starting-point-changed', show)
    ctx.expect(ncalls == len(trace), 'call-counter', show)
    ctx.expect(np.array_equal(trace[0][0], keep), 'first-call-not-at-start', show)
    fs = [t[1] for t in trace]
    ctx.expect(fr == min(fs), 'not-the-best-observed', lambda: show() + ' best %r' % min(fs))
    ctx.expect(any(t[1] == fr and np.array_equal(t[0], x) for t in trace), 'point-and-value-differ', lambda: show() + ' f(x)=%r' % f(x)[0])
    if len(trace) > 1 and 2 not in (code,):
        g = trace[0][2]
        step = trace[1][0] - keep
        h0 = o.get('h0', 1)
        ctx.expect(np.allclose(step, -h0 * g / np.linalg.norm(g), rtol=1e-9, atol=1e-12), 'first-step', lambda: '%s: %s, subgradient %s' % (c, step, g))
    norms = [float(np.linalg.norm(t[2])) for t in trace]
    drift = 1e-12 * max(float(np.abs(t[0]).max()) for t in trace)   # rounding of the objective itself
    tolg, tolx, tolf = (o.get(q, 1e-12) for q in ('tolg', 'tolx', 'tolf'))
    nsims, maxiter = o.get('nsims', 30), o.get('maxiter', 2000)
    ctx.expect(all(v >= tolg for v in norms[:-1]), 'continued-past-small-subgradient', show)
    ctx.expect((norms[-1] < tolg) == (code == 2), 'code-2', show)
    ctx.expect(nit <= maxiter + 1 and (code != 4 or nit >= maxiter), 'iteration-counter', show)
    ctx.expect(len(trace) - 1 >= nit, 'iteration-counter', show)
    if code == 3:
        # at a minimum the transformed space can degenerate until no step is left at all
        best = minimum(c)
        ctx.expect(np.linalg.norm(trace[-1][0] - trace[-2][0]) < tolx or best is not None and fr - best <= 1e-9 * (1 + abs(best)) + drift, 'code-3', show)
    if code == 1:
        last = min(fs[:max(1, len(fs) - nsims)])
        ctx.expect(len(fs) > nsims - 1 and last - fr <= tolf * max(1, abs(fr)) * (1 + 1e-9) + 1e-15, 'code-1', lambda: show() + ' best earlier %r' % last)
    ends = line_searches(trace)
    if ends is not None:
        # best value after every line search; the window is the last nsims of them
        ctx.event('searches_reconstructed', len(ends))
        best = [fs[0]]
        k = 0
        for e in ends:
            best.append(min(best[-1], min(fs[k + 1:e + 1])))
            k = e
        for t in range(nsims, len(best) - 1):
            if best[t - nsims] - best[t] < .5 * tolf * max(1, abs(best[t])) and not ends[t - 1] == len(trace) - 1:
                ctx.violation('continued-past-stagnation', lambda: show() + ' window of %d ends at call %d: %r -> %r' % (nsims, ends[t - 1], best[t - nsims], best[t]))
                break
        if code in (1, 4) and ends and ends[-1] == len(trace) - 1:
            ctx.event('iterations_counted')
            ctx.expect(nit == len(ends) - (code == 1), 'iteration-counter', lambda: show() + ' line searches %d' % len(ends))
            if code == 1:
                ctx.expect(len(best) > nsims and best[-1 - nsims] - best[-1] <= 2 * tolf * max(1, abs(best[-1])), 'code-1', show)
    if code == 5:
        tail = fs[-400:]
        best = minimum(c)
        at_minimum = best is not None and fr - best <= 1e-9 * (1 + abs(best)) + drift    # the degenerate space again
        ctx.expect(len(fs) > 500 and (at_minimum or all(p >= q - 1e-6 * (1 + abs(p)) for p, q in zip(tail, tail[1:]))), 'code-5', show)
    if code not in (1, 2, 3, 4, 5):
        ctx.violation('exit-code', show)
    if c['k'] == 'linear':
        ctx.expect(code != 1 and code != 3, 'unbounded-converged', show)
    elif not o or o.get('maxiter') == 20000:
        best = minimum(c)
        if best is not None:
            ctx.event('minimum_judged')
            ctx.expect(fr - best <= (1e-6 if o else 1e-2) * (1 + abs(best)) + drift, 'not-minimal:' + c['k'], lambda: show() + ' minimum %r' % best)
    ctx.distinct((c['k'], c['x0'], c['m']))
