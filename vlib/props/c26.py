"""C26: globopt returns a box of the initial one whose lower value bounds the global minimum, at any budget."""
from fractions import Fraction as F
import mpmath
from ..lib import ip, np, vec, tolist

ID = 'C26'
RULE = ('one function over one box minimized by globopt at several budgets with every evaluated box recorded; the returned value against '
        'values of the function at planted minimizers and other points in rationals (or at 200 bits), the trace against the budget')
N = {'quick': 200, 'thorough': 1200}
CASE_TIMEOUT = 100
KINDS = ('quad', 'quart', 'abs', 'rastrigin', 'wave', 'product', 'flat', 'overest', 'twin')


def required(tier):
    return dict({'runs': 700, 'witnesses': 6000, 'boxes_recorded': 25000, 'converged': 150, 'out_of_budget': 250, 'monotone_pairs': 400, 'many_minimizers': 25,
                 'corner_minimizer': 60}, **{'kind_' + k: 15 for k in KINDS})


def dy(rng, lo, hi, k=16):
    return rng.randint(int(lo * k), int(hi * k)) / k


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n = rng.choice((1, 1, 2, 2, 3))
        k = rng.choice(KINDS)
        box = []
        for _ in range(n):
            a = dy(rng, -3, 2)
            box.append([a, a + rng.choice((0, .5, 1, 2, 4, dy(rng, .1, 3))) if n > 1 else a + rng.choice((.5, 1, 3))])
        if rng.random() < .2:
            box = [[int(p[0]), int(p[0]) + rng.randint(1, 3)] for p in box]
        # minimizers: inside, at a corner, or on a bisection plane
        z = []
        for p in box:
            z.append(rng.choice((p[0], p[1], (p[0] + p[1]) / 2, p[0] + (p[1] - p[0]) * rng.randint(0, 16) / 16)))
        c = {'k': k, 'n': n, 'box': box, 'z': z, 's': [dy(rng, .2, 3) for _ in range(n)], 'c0': dy(rng, -3, 3), 'w': rng.choice((1, 2, 5)),
             'budgets': sorted(rng.sample(range(0, 40), 2)) + [rng.choice((60, 120))], 'tol': rng.choice((1e-2, 1e-4, 1e-7, 1e-10, .5)),
             'pts': [[rng.randint(0, 64) / 64 for _ in range(n)] for _ in range(6)]}
        if k == 'overest':
            # evaluations are too low everywhere but at the minimizer, so its box waits behind many others
            c['w'] = rng.choice((8, 24, 60, 100))
            c['box'] = [[a, a + 2] if i == 0 else [a, a] for i, (a, _) in enumerate(box)]
            c['z'] = [p[0] + (p[1] - p[0]) * rng.choice((0, rng.randint(0, 64) / 64, 1)) for p in c['box']]
            c['budgets'] = [rng.randint(20, 100), rng.choice((300, 600, 1200))]
            c['tol'] = rng.choice((1e-4, 1e-8))
        elif k == 'twin':
            # two valleys, one of them slightly deeper; the shallow one looks better to interval evaluation
            c['n'], c['box'] = 1, [[-3., 3.]]
            c['z'] = [rng.choice((-1, 1)) * rng.choice((.5, 1., 1.25))]
            c['w'] = rng.choice((2 ** -4, 2 ** -8, 2 ** -12, 2 ** -20))
            c['s'] = [dy(rng, .2, 3)]
            c['pts'] = [[rng.randint(0, 64) / 64] for _ in range(6)]
            c['budgets'] = [rng.randint(5, 40), 120, 400]
        yield c


def fun(c, sin, cos, absf, pi):
    """The function for coordinates supporting + - *; every kind is at least c0 with equality at z (and at other points of some kinds)."""
    n, z, s, w = c['n'], c['z'], c['s'], c['w']
    k = c['k']

    def f(x):
        d = [x[j] - z[j] for j in range(n)]
        if k == 'quad':
            t = [s[j] * d[j] ** 2 for j in range(n)]
        elif k == 'quart':          # minimizers z and z + 1
            t = [s[j] * (d[j] * (d[j] - 1)) ** 2 for j in range(n)]
        elif k == 'abs':
            t = [s[j] * absf(d[j]) for j in range(n)]
        elif k == 'rastrigin':
            t = [d[j] ** 2 + s[j] * (1 - cos(w * pi * d[j])) for j in range(n)]
        elif k == 'wave':
            t = [s[j] * sin(w * d[j]) ** 2 for j in range(n)]
        elif k == 'product':        # not separable, dependent occurrences
            e = sum(d[1:], d[0])
            t = [e ** 2] + [s[j] * d[j] ** 2 - s[j] * d[j] ** 2 * d[j] ** 2 * 2 ** -8 for j in range(n)]
        elif k == 'overest':
            t = [s[0] * absf(d[0]) + w * (absf(d[0]) * x[0] - absf(d[0]) * x[0])] + [0 * d[j] for j in range(1, n)]
        elif k == 'twin':           # (x - z)^2 (x + z)^2 plus a slope that is zero at z and makes -z higher, written out to overestimate near z
            g = d[0] * (d[0] + 2 * z[0])
            sg = 1 if z[0] < 0 else -1
            t = [s[0] * g ** 2 + w * absf(d[0]) + (x[0] * d[0] - x[0] * d[0]) * (3 - sg * x[0]) * 2 ** -3]
        else:                       # does not depend on the last coordinate
            t = [s[0] * d[0] ** 2] + [0 * d[j] for j in range(1, n)]
        return sum(t[1:], t[0]) + c['c0']
    return f


def check(ctx, c):
    n = c['n']
    box = c['box']
    x0 = vec(box)
    before = tolist(x0)
    ifun = fun(c, ip.sin, ip.cos, abs, 3.141592653589793)
    exact = c['k'] not in ('rastrigin', 'wave')
    mp = mpmath.MPContext()
    mp.prec = 300
    efun = fun(c, mp.sin, mp.cos, abs, mp.mpf(3.141592653589793))
    ctx.event('kind_' + c['k'])
    pts = [c['z']] + [[p[0] + (p[1] - p[0]) * t for p, t in zip(box, q)] for q in c['pts']]
    if c['k'] == 'quart' and all(v + 1 <= p[1] for v, p in zip(c['z'], box)):
        pts.append([v + 1 for v in c['z']])
        ctx.event('many_minimizers')
    if c['k'] == 'flat' and n > 1:
        pts += [[c['z'][0]] + [p[i] for p in box[1:]] for i in (0, 1)]
        ctx.event('many_minimizers')
    if all(v in p for v, p in zip(c['z'], box)):
        ctx.event('corner_minimizer')
    vals = []
    for p in pts:
        assert all(b[0] <= v <= b[1] for v, b in zip(p, box))
        vals.append(fun(c, None, None, abs, None)([F(v) for v in p]) if exact else efun([mp.mpf(v) for v in p]))
    best = min(vals)
    last = None
    for mi in c['budgets']:
        seen = []

        def g(x):
            seen.append(tuple(map(tuple, tolist(x))))
            return ifun(x)
        with np.errstate(all='ignore'):
            res = ip.nonlinear.globopt(g, x0, tol=c['tol'], maxiter=mi)
        show = lambda: '%s budget %d -> %s' % (c, mi, res)
        ctx.event('runs')
        ctx.event('boxes_recorded', len(seen))
        if not ctx.expect(isinstance(res, tuple) and len(res) == 2 and np.shape(res[0]) == (n,), 'result-form', show):
            return
        B, v = tolist(res[0]), tolist(res[1])
        ctx.expect(tolist(x0) == before, 'box-changed', show)
        ctx.expect(all(b[0] <= p[0] <= p[1] <= b[1] for p, b in zip(B, box)), 'outside-the-box', show)
        ctx.expect(v == tolist(ifun(res[0])), 'value-is-not-of-the-box', show)
        low = F(v[0]) if exact else mp.mpf(v[0])
        ctx.event('witnesses', len(vals))
        ctx.expect(low <= best, 'above-the-minimum', lambda: show() + ' value %s at %s' % (float(best), pts[vals.index(best)]))
        ctx.expect(v[1] >= float(best) - 1e-9 if c['z'] in pts else True, 'upper-below-minimum', show)
        boxes = set(seen)
        done = v[1] - v[0] < c['tol']
        ctx.event('converged' if done else 'out_of_budget')
        ctx.expect(all(b[0] <= p[0] <= p[1] <= b[1] for bx in boxes for p, b in zip(bx, box)), 'evaluated-outside', show)
        ctx.expect(len(boxes) <= 2 * (mi + 1) + 1, 'over-budget', lambda: show() + ' %d boxes' % len(boxes))
        thin = all(p[0] == p[1] or np.nextafter(p[0], np.inf) >= p[1] for p in B)
        if not done and not thin:
            ctx.expect(len(boxes) >= 2 * mi + 1, 'stopped-early', lambda: show() + ' %d boxes' % len(boxes))
        if done:
            # the smallest possible search: nothing wider than the tolerance was good enough before
            ctx.expect(float(best) - v[0] <= c['tol'] + 1e-9, 'far-below-the-minimum', show)
        if last is not None:
            ctx.event('monotone_pairs')
            ctx.expect(v[0] >= last - 1e-12 * (1 + abs(last)), 'worse-with-larger-budget', lambda: show() + ' smaller budget %r' % last)
        last = v[0]
    ctx.distinct((c['k'], box, c['z']))
