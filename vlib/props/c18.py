"""C18: Tol.maximize / ChebNorm.minimize reach the global optimum within the constraints; every functional reports the value at its point."""
from fractions import Fraction as F
from .. import systems as S, lp
from ..lib import ip, np, mat, vec
from .c17 import exact

ID = 'C18'
RULE = ('one system optimized with given weights, linear constraints, starting point and iteration budget; returned value against the '
        'functional at the returned point (rationals), against the starting point, against an LP optimum, constraints against the point')
N = {'quick': 260, 'thorough': 3500}
CASE_TIMEOUT = 60


def required(tier):
    return {'values_judged': 2000, 'optimum_judged': 800, 'constrained_optimum_judged': 250, 'constraints_judged': 300, 'reused_constraints': 100,
            'budgeted': 200, 'weighted': 400, 'started': 200, 'own_factor': 400, 'own_factor_optimum': 60}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        A, b = S.rect(rng, rng.randint(1, 6), rng.randint(1, 4), feasible=rng.random() < .6)
        n, m = len(A), len(A[0])
        u = rng.random()
        if u < .06:          # a variable that does not occur, equal or proportional rows, identically zero matrix
            j = rng.randrange(m)
            A = [[[0., 0.] if q == j else p for q, p in enumerate(r)] for r in A]
        elif u < .12 and n > 1:
            A[1], b[1] = [list(p) for p in A[0]], list(b[0])
        elif u < .14:
            A = [[[0., 0.] for p in r] for r in A]
        c = {'k': 'opt', 'A': A, 'b': b, 'w': None, 'cons': None, 'x0': None, 'opts': {}}
        u = rng.random()
        if u < .35:
            c['w'] = [rng.choice((1, 2, .5, 10, .1, 0 if rng.random() < .5 else 1)) for _ in b]
        elif u < .45:
            c['w'] = rng.choice((2., .1, 3))
        if rng.random() < .08:     # rows and columns of different magnitudes
            j = rng.randrange(n * m)
            A[j // m][j % m] = [v * 20 for v in A[j // m][j % m]]
            c['uneven'] = True
        if rng.random() < .5:
            x = [rng.uniform(-3, 3) for _ in range(m)]
            cons = []
            for _ in range(rng.randint(1, 3)):
                r = [rng.randint(-2, 2) if rng.random() < .5 else round(rng.uniform(-2, 2), 1) for _ in range(m)]
                v = sum(p * q for p, q in zip(r, x))
                cons.append([r, rng.choice((None, v - rng.uniform(0, 2))), rng.choice((None, v + rng.uniform(0, 2)))])
            if m > 1 and rng.random() < .12:     # two rows at a small angle
                r = [rng.uniform(-2, 2) for _ in range(m)]
                t = rng.choice((.3, .1, .05))
                q = [a + rng.uniform(-t, t) for a in ([v for v in r] if rng.random() < .5 else [-v for v in r])]
                cons = [[r, None, sum(a * b for a, b in zip(r, x))], [q, None, sum(a * b for a, b in zip(q, x))]]
                c['angle'] = t
            c['cons'] = cons
            if rng.random() < .35:
                c['mu'] = rng.choice((0., .1, 1, rng.uniform(0, 3), 10, 1000))
        if rng.random() < .3:
            c['x0'] = [rng.uniform(-5, 5) for _ in range(m)]
        u = rng.random()
        if u < .5:
            c['opts'] = {'nsims': 300, 'maxiter': 20000}
        elif u < .7:
            c['opts'] = rng.choice(({'maxiter': rng.choice((0, 1, 3, 10, 60))}, {'tolx': 1e-3}, {'tolf': 1e-3}, {'tolg': 1e-3},
                                    {'alpha': 2., 'h0': .1}, {'nsims': 5, 'tolf': 1e-4}))
        c['A2'], c['b2'] = S.rect(rng, n, m)
        c['big'] = rng.choice((1, 100, .01))
        yield c


def constraint(cons, mu=None):
    C = np.array([r for r, _, _ in cons], dtype=float)
    if all(v == int(v) for r, _, _ in cons for v in r):      # integers, unsigned ones where possible, or a list
        C = [C.astype(int).tolist(), C.astype(np.int8), C.astype(np.uint8) if C.min() >= 0 else C][len(cons) % 3]
    lo = [l for _, l, _ in cons]
    hi = [u for _, _, u in cons]
    kw = {}
    if any(v is not None for v in lo):
        kw['lb'] = np.array([-np.inf if v is None else v for v in lo])
    if any(v is not None for v in hi):
        kw['ub'] = np.array([np.inf if v is None else v for v in hi])
    return ip.LinearConstraint(C, **kw) if mu is None else ip.LinearConstraint(C, mu=mu, **kw)


def excess(cons, x):
    out = F(0)
    for r, l, u in cons or []:
        v = sum(F(p) * F(float(q)) for p, q in zip(r, x))
        if l is not None:
            out = max(out, F(l) - v)
        if u is not None:
            out = max(out, v - F(u))
    return out


def violations(cons, x):
    """Sum of the amounts by which the bounds are missed."""
    out = F(0)
    for r, l, u in cons:
        v = sum(F(p) * F(float(q)) for p, q in zip(r, x))
        out += max(F(0), F(l) - v if l is not None else 0) + max(F(0), v - F(u) if u is not None else 0)
    return out


def check(ctx, c):
    A, b, w = c['A'], c['b'], c['w']
    n, m = len(A), len(A[0])
    MA, Mb = mat(A), vec(b)
    thin = all(p[0] == p[1] for r in A for p in r)      # then Tol, Uni and Uss are one concave function
    ws = [1.] * n if w is None else [float(w)] * n if not isinstance(w, list) else w
    for name in ('Tol', 'Uni', 'Uss', 'ChebNorm'):
        cls = getattr(ip.linear, name)
        f = cls.minimize if name == 'ChebNorm' else cls.maximize
        sgn = -1 if name == 'ChebNorm' else 1
        kw = dict(c['opts'])
        if w is not None:
            kw['weight'] = np.array(w) if isinstance(w, list) else w
            ctx.event('weighted')
        if c['x0'] is not None:
            kw['x0'] = np.array(c['x0'])
            ctx.event('started')
        fine = c['opts'].get('maxiter') == 20000
        if c['opts'] and not fine:
            ctx.event('budgeted')
        if c['cons']:
            lc = kw['linear_constraint'] = constraint(c['cons'], c.get('mu'))
            if c['big'] != 1 or len(c['cons']) % 2:
                # the same constraint object used for another system first
                other = mat([[[v * c['big'] for v in p] for p in r] for r in c['A2']])
                f(other, vec(c['b2']), linear_constraint=lc, maxiter=5)
                ctx.event('reused_constraints')
        res = f(MA, Mb, **kw)
        show = lambda: '%s %s -> %s' % (name, c, res)
        if not ctx.expect(isinstance(res, tuple) and len(res) == 5, 'result-form:' + name, show):
            continue
        x, fr, nit, ncalls, ccode = res
        if not ctx.expect(np.shape(x) == (m,) and np.all(np.isfinite(x)) and np.isfinite(fr), 'result-form:' + name, show):
            continue
        val, scale = exact(A, b, [float(v) for v in x], ws)
        best = (max if name == 'ChebNorm' else min)(val[name])
        ctx.event('values_judged')
        ctx.expect(ccode in (1, 2, 3, 4, 5) and 0 <= nit <= kw.get('maxiter', 2000) + 1 and ncalls >= nit, 'counters:' + name, show)
        t = F(1e-9) * (1 + scale)
        ex = excess(c['cons'], x)
        mu = c.get('mu') if c['cons'] else None
        if mu is not None:
            # the factor given by the user multiplies the sum of the violations
            ctx.event('own_factor')
            pen = F(mu) * violations(c['cons'], x)
            ctx.expect(abs(F(float(fr)) - (best - sgn * pen)) <= t * (1 + F(mu)), 'penalty-factor:' + name, lambda: show() + ' value %r, penalty %r' % (float(best), float(pen)))
        elif ex == 0:
            ctx.expect(abs(F(float(fr)) - best) <= t, 'value-at-point:' + name, lambda: show() + ' value at the point %r' % float(best))
        else:
            ctx.expect(sgn * (F(float(fr)) - best) <= t, 'penalty-sign:' + name, lambda: show() + ' value at the point %r' % float(best))
        if c['x0'] is not None and excess(c['cons'], c['x0']) == 0:
            v0, s0 = exact(A, b, c['x0'], ws)
            start = (max if name == 'ChebNorm' else min)(v0[name])
            ctx.expect(sgn * (F(float(fr)) - start) >= -F(1e-9) * (1 + s0), 'worse-than-start:' + name, lambda: show() + ' start %r' % float(start))
        if (name in ('Tol', 'ChebNorm') or thin) and (fine or not c['opts']):
            if c['cons'] and mu is None:
                ctx.event('constraints_judged')
                ctx.expect(ex <= F(1e-6), 'constraint-violated:' + name, lambda: show() + ' by %r' % float(ex))
            z = lp.optimum(A, b, ws, c['cons'], 'ChebNorm' if name == 'ChebNorm' else 'Tol', mu)
            if z is None:
                ctx.event('no_lp_optimum')
                continue
            if mu is None and excess(c['cons'], z) > F(1e-8):
                ctx.event('inaccurate_lp')
                continue
            zv, _ = exact(A, b, [float(v) for v in z], ws)
            opt = (max if name == 'ChebNorm' else min)(zv[name])
            if mu is not None:
                opt -= sgn * F(mu) * violations(c['cons'], z)
            ctx.event('own_factor_optimum' if mu is not None else 'constrained_optimum_judged' if c['cons'] else 'optimum_judged')
            ctx.expect(sgn * (opt - F(float(fr))) <= F(1e-6 if fine else 1e-2) * (1 + abs(opt)), 'not-optimal:' + name,
                       lambda: show() + ' reaches less than %r at %s' % (float(opt), list(z)))
    ctx.distinct((A, b))
