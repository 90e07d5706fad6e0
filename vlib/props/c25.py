"""C25: Krawczyk and Hansen-Sengupta keep every root of the box, shrink it and never declare a box with a root empty."""
from fractions import Fraction as F
import mpmath
from ..lib import ip, np, mk, vec, tolist

ID = 'C25'
RULE = ('one box with planted roots of one equation or system (polynomial or transcendental, with interval parameters) contracted by one '
        'method and iteration budget; every planted root and the box are looked up in the result, its width compared with the theoretical limit')
N = {'quick': 840, 'thorough': 24000}
CASE_TIMEOUT = 60
METHODS = ('Krawczyk', 'HansenSengupta')


def required(tier):
    return {'Krawczyk': 1500, 'HansenSengupta': 1300, 'roots_kept': 3500, 'far_roots': 400, 'regular': 1200, 'width_judged': 400, 'refused': 5, 'no_root_inside': 150,
            'scalar': 500, 'dim_1': 200, 'dim_2': 500, 'dim_3': 300, 'budgeted': 500, 'transcendental': 500}


def dy(rng, lo, hi, k=64):
    return rng.randint(int(lo * k), int(hi * k)) / k


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n = rng.choice((0, 0, 1, 2, 2, 3))
        m = max(n, 1)
        w = rng.choice((.03, .1, .3, 1, 3))
        c = {'k': 'sys', 'n': n, 'A': [[dy(rng, -1, 1) + (rng.choice((2, 3, -3)) if i == j else 0) for j in range(m)] for i in range(m)],
             'Q': [[[dy(rng, -.5, .5) * rng.choice((0, 1)) for _ in range(m)] for _ in range(m)] for _ in range(m)],
             'C': [dy(rng, -.5, .5) * rng.choice((0, 0, 1)) for _ in range(m)],                       # x_i^3
             't': [rng.choice((None, None, None, 'sin', 'exp', 'cos')) if n < 3 else None for _ in range(m)], 's': [dy(rng, -1, 1) for _ in range(m)],
             'r': [dy(rng, -2, 2) for _ in range(m)], 'e': [[dy(rng, 0, .2) * rng.choice((0, 1)), dy(rng, 0, .2) * rng.choice((0, 1))] for _ in range(m)],
             'box': [[dy(rng, 0, w), dy(rng, 0, w)] for _ in range(m)], 'maxiter': rng.choice((0, 1, 2, 5, 2000, 2000, 2000, 2000)), 'method': rng.choice(METHODS)}
        if rng.random() < .5:         # a second point of the box that the parameters make a root
            c['x2'] = [rng.choice((v - p, v + q, v + dy(rng, -p, q))) for v, (p, q) in zip(c['r'], c['box'])]
        if rng.random() < .1:
            c['perm'] = True          # rows exchanged: no dominance, but the preconditioner takes care
        if rng.random() < .15:
            c['shift'] = rng.choice((5, -20, 100.5))      # right-hand side moved: usually nothing left in the box
        yield c


def fun(c):
    """f without its parameter, for intervals, numbers of mpmath or fractions; fns maps names to functions."""
    m = len(c['r'])

    def f(x, i, fns):
        s = sum(c['A'][i][j] * x[j] for j in range(m))
        for j in range(m):
            for k in range(m):
                if c['Q'][i][j][k]:
                    s = s + c['Q'][i][j][k] * (x[j] * x[k])
        if c['C'][i]:
            s = s + c['C'][i] * (x[i] * x[i] * x[i])
        if c['t'][i]:
            s = s + c['s'][i] * fns[c['t'][i]](x[i])
        return s

    def d(x, i, l, fns):
        s = c['A'][i][l] + sum((c['Q'][i][l][k] + c['Q'][i][k][l]) * x[k] for k in range(m))
        if c['C'][i] and i == l:
            s = s + 3 * c['C'][i] * (x[i] * x[i])
        if c['t'][i] and i == l:
            t = c['t'][i]
            s = s + (c['s'][i] * fns['exp'](x[i]) if t == 'exp' else c['s'][i] * fns['cos'](x[i]) if t == 'sin' else -c['s'][i] * fns['sin'](x[i]))
        return s
    return f, d


IV = {'sin': ip.sin, 'exp': ip.exp, 'cos': ip.cos}


def setup_case(c):
    m = len(c['r'])
    f, d = fun(c)
    mp = mpmath.MPContext()
    mp.prec = 200
    r = [mp.mpf(v) for v in c['r']]
    fns = {'sin': mp.sin, 'exp': mp.exp, 'cos': mp.cos}
    par = []
    for i in range(m):
        v = f(r, i, fns)
        lo, hi = float(v), float(v)
        if mp.mpf(lo) != v:               # not exact: one double below and above
            lo, hi = np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf)
        q = c.get('shift', 0) if i == 0 else 0
        lo, hi = lo - c['e'][i][0] + q, hi + c['e'][i][1] + q
        if not q:
            lo, hi = min(lo, float(mp.floor(v * 2 ** 60) / 2 ** 60)), max(hi, float(mp.ceil(v * 2 ** 60) / 2 ** 60))
        if 'x2' in c and not any(c['t']):
            v = fval(c, [F(w) for w in c['x2']], i) + F(q)
            if F(float(v)) == v:
                lo, hi = min(lo, float(v)), max(hi, float(v))
        par.append(mk([float(lo), float(hi)]))
    order = list(range(m))[::-1] if c.get('perm') else list(range(m))
    if c['n'] == 0:
        return (lambda x: f([x], 0, IV) - par[0]), (lambda x: d([x], 0, 0, IV)), par, order
    return (lambda x: ip.asinterval([f(x, i, IV) - par[i] for i in order])), (lambda x: ip.asinterval([[d(x, i, l, IV) for l in range(m)] for i in order])), par, order


def roots(ctx, c, par, box):
    """The planted point, and points of the box moved from it that are roots for another value of the parameters."""
    out = [[F(v) for v in c['r']]]
    if 'x2' in c and not any(c['t']):
        x = [F(v) for v in c['x2']]
        if all(F(tolist(p)[0]) <= fval(c, x, i) <= F(tolist(p)[1]) for i, p in enumerate(par)):
            out.append(x)
            ctx.event('far_roots')
    if any(c['t']):
        return out
    m = len(c['r'])
    P = [tolist(p) for p in par]
    for s in ([1] * m, [-1] * m, [1] + [0] * (m - 1), [0] * (m - 1) + [-1]):
        for h in (F(1, 4), F(1, 32), F(1, 256)):
            x = [F(v) + h * q for v, q in zip(c['r'], s)]
            if all(b[0] <= v <= b[1] for v, b in zip(x, box)) and all(F(P[i][0]) <= fval(c, x, i) <= F(P[i][1]) for i in range(m)):
                out.append(x)
    return out


def fval(c, x, i):
    m = len(x)
    return sum(F(c['A'][i][j]) * x[j] for j in range(m)) + sum(F(c['Q'][i][j][k]) * x[j] * x[k] for j in range(m) for k in range(m)) + F(c['C'][i]) * x[i] ** 3


def check(ctx, c):
    m, name = len(c['r']), c['method']
    f, J, par, order = setup_case(c)
    box = [[v - p, v + q] for v, (p, q) in zip(c['r'], c['box'])]
    x0 = mk(box[0]) if c['n'] == 0 else vec(box)
    M = getattr(ip.nonlinear, name)
    # regularity of the Jacobian over the box
    j0 = J(x0)
    j0 = np.array([[tolist(j0)]]) if c['n'] == 0 else np.array(tolist(j0), dtype=float)
    jm, jr = (j0[..., 0] + j0[..., 1]) / 2, (j0[..., 1] - j0[..., 0]) / 2
    try:
        La = np.abs(np.linalg.inv(jm))
        beta = float(np.max(np.sum(La @ jr, axis=1)))
    except np.linalg.LinAlgError:
        La, beta = None, np.inf
    beta = beta if np.isfinite(beta) else np.inf
    ctx.event(name)
    ctx.event('scalar' if c['n'] == 0 else 'dim_%d' % m)
    if c['maxiter'] != 2000:
        ctx.event('budgeted')
    if any(c['t']):
        ctx.event('transcendental')
    before = tolist(x0)
    out = lambda r: '%s: %s' % (c, r)
    root = 'shift' not in c
    try:
        with np.errstate(all='ignore'):
            X = M(f, J, x0, maxiter=c['maxiter'])
    except Exception as e:
        if not root:
            ctx.event('no_root_inside')
            return
        ctx.expect(not beta < .2, 'refused-regular:' + name, lambda: out(repr(e)))
        ctx.event('refused')
        return
    ctx.expect(tolist(x0) == before, 'box-changed:' + name, lambda: out(X))
    got = [tolist(X)] if c['n'] == 0 else tolist(X)
    if not ctx.expect(len(got) == m, 'result-form:' + name, lambda: out(X)):
        return
    nan = any(v != v for p in got for v in p)
    if not root:
        ctx.event('no_root_inside')
        f0 = f(x0)
        f0 = [tolist(f0)] if c['n'] == 0 else tolist(f0)
        ctx.expect(any(p[0] <= 0 <= p[1] for p in f0) or nan, 'root-free-box-returned:' + name, lambda: out(X))
    if nan:
        ctx.expect(not root, 'box-with-root-declared-empty:' + name, lambda: out(X))
        return
    ctx.expect(all(b[0] <= p[0] <= p[1] <= b[1] for p, b in zip(got, box)), 'outside-the-box:' + name, lambda: out(X))
    if root:
        for x in roots(ctx, c, par, box):
            ctx.event('roots_kept')
            ctx.expect(all(F(p[0]) <= v <= F(p[1]) for p, v in zip(got, x)), 'root-lost:' + name, lambda: out('%s does not contain %s' % (X, [float(v) for v in x])))
        if beta < .2:
            ctx.event('regular')
            if c['maxiter'] == 2000:
                ctx.event('width_judged')
                wp = np.array([tolist(par[i])[1] - tolist(par[i])[0] for i in order])
                limit = 4 * float(np.max(La @ wp)) + 1e-9
                wid = max(p[1] - p[0] for p in got)
                ctx.expect(wid <= limit, 'not-contracted:' + name, lambda: out('%s, width %r, limit %r' % (X, wid, limit)))
    ctx.distinct((c['A'], c['r'], c['box'], name))
