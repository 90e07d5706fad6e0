"""C29: the test systems have exactly their documented elements for every dimension and parameter, and refuse others."""
from fractions import Fraction as F
from ..lib import ip, np, tolist

ID = 'C29'
RULE = ('one test system built for given dimension and parameters; every element of matrix and right-hand side against the documented '
        'formula in rationals (one unit in the last place allowed where the formula itself rounds), outside parameters against refusal')
N = {'quick': 2000, 'thorough': 100000}
CASE_TIMEOUT = 30
ip_sys = ('Shary_system', 'Neumaier_system', 'Toft_system')


def required(tier):
    return {'Shary_system': 500, 'Neumaier_system': 500, 'Toft_system': 500, 'elements': 30000, 'refused': 150, 'defaults': 300, 'overwritten': 1500, 'border_parameters': 100}


def gen(rng, tier, shard, nshards):
    num = lambda lo, hi: rng.choice((rng.uniform(lo, hi), rng.randint(int(lo), int(hi)), round(rng.uniform(lo, hi), 2)))
    for _ in range(N[tier]):
        f = rng.choice(ip_sys)
        n = rng.randint(2, 9)
        kw = {}
        if f == 'Shary_system':
            if rng.random() < .7:
                kw['N'] = rng.choice((n - 1, n, n + num(0, 5), n - 1 + rng.random()))
            if rng.random() < .7:
                a = rng.choice((rng.random(), .5, 1, 0.01))
                kw['alpha'], kw['beta'] = a, rng.choice((a, 1, a + (1 - a) * rng.random()))
            u = rng.random()
            if u < .1:
                kw['N'] = n - 1 - rng.choice((1, .5, 1e-9))
            elif u < .2:
                kw['alpha'], kw['beta'] = rng.choice(((.5, .4), (.5, 1.5), (-.1, .5), (.9, .1), (-2, -1), (1.0000001, 1.0000002)))
        elif f == 'Neumaier_system':
            kw['theta'] = num(0, 12)
            if rng.random() < .5:
                kw['infb'] = -num(0, 5)
            if rng.random() < .5:
                kw['supb'] = num(0, 5)
            if rng.random() < .1:
                kw['infb'] = kw['supb'] = num(-3, 3)
        else:
            if rng.random() < .8:
                kw['r'] = num(0, 2)
            if rng.random() < .8:
                kw['R'] = num(0, 2)
            if rng.random() < .1:
                kw[rng.choice('rR')] = -rng.choice((1, .1, 1e-9))
        yield {'k': f, 'n': n, 'kw': kw, 'np': rng.random() < .2}


def spec(c):
    """Documented ends, or None for a refusal."""
    n, kw = c['n'], {k: F(v) for k, v in c['kw'].items()}
    if c['k'] == 'Shary_system':
        N, a, b = kw.get('N', F(n)), kw.get('alpha', F(.23)), kw.get('beta', F(.35))
        if N < n - 1 or not 0 <= a <= b <= 1:
            return None
        return [[(F(n - 1), N) if i == j else (a - 1, 1 - b) for j in range(n)] for i in range(n)], [(F(1 - n), F(n - 1))] * n
    if c['k'] == 'Neumaier_system':
        t = kw['theta']
        return [[(t, t) if i == j else (F(0), F(2)) for j in range(n)] for i in range(n)], [(kw.get('infb', F(-1)), kw.get('supb', F(1)))] * n
    r, R = kw.get('r', F(0)), kw.get('R', F(0))
    if r < 0 or R < 0:
        return None
    rows = [[(max(i, j) + 1 - r, max(i, j) + 1 + r) if not (i < n - 1 and j < n - 1) else (1 - r, 1 + r) if i == j else (F(0), F(0)) for j in range(n)] for i in range(n)]
    for k in range(n):
        rows[k][n - 1] = rows[n - 1][k] = (k + 1 - r, k + 1 + r)
    return rows, [(1 - R, 1 + R)] * n


def near(v, w):
    f = float(w)
    return F(float(v)) == w or float(v) in (f, float(np.nextafter(f, np.inf)), float(np.nextafter(f, -np.inf)))


def check(ctx, c):
    f = getattr(ip, c['k'])
    n = np.int64(c['n']) if c['np'] else c['n']
    kw = {k: np.float64(v) if c['np'] else v for k, v in c['kw'].items()}
    want = spec(c)
    ctx.event(c['k'])
    if len(kw) < {'Shary_system': 3, 'Neumaier_system': 3, 'Toft_system': 2}[c['k']]:
        ctx.event('defaults')
    try:
        A, b = f(n, **kw)
    except Exception as e:
        ctx.expect(want is None, 'refused:' + c['k'], lambda: '%s: %r' % (c, e))
        ctx.event('refused')
        return
    show = lambda: '%s -> %s, %s' % (c, A, b)
    if not ctx.expect(want is not None, 'accepted:' + c['k'], show):
        return
    if c['k'] == 'Shary_system' and (kw.get('N') == c['n'] - 1 or kw.get('alpha') == kw.get('beta') or kw.get('beta') == 1):
        ctx.event('border_parameters')
    n = c['n']
    for rep in (0, 1):
        if not ctx.expect(A.shape == (n, n) and b.shape == (n,), 'shape:' + c['k'], show):
            return
        for i in range(n):
            for j in range(n):
                ctx.event('elements')
                e = tolist(A[i, j])
                ctx.expect(near(e[0], want[0][i][j][0]) and near(e[1], want[0][i][j][1]), 'matrix:' + c['k'],
                           lambda: '%s: element %d, %d is %s, expected %s' % (c, i, j, e, [float(v) for v in want[0][i][j]]))
            e = tolist(b[i])
            ctx.expect(near(e[0], want[1][i][0]) and near(e[1], want[1][i][1]), 'rhs:' + c['k'], lambda: '%s: component %d is %s, expected %s' % (c, i, e, [float(v) for v in want[1][i]]))
        if rep == 0:
            # elements are separate: changing one changes only that one, and no later system
            ctx.event('overwritten')
            A[0, 0] = ip.Interval(77, 78)
            b[0] = ip.Interval(77, 78)
            ok = all(tolist(A[i, j]) != [77, 78] for i in range(n) for j in range(n) if i or j) and all(tolist(b[i]) != [77, 78] for i in range(1, n))
            ctx.expect(ok, 'shared-elements:' + c['k'], show)
            A, b = f(c['n'], **kw)
    ctx.distinct((c['k'], n, c['kw']))
