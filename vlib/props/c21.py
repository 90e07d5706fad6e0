"""C21: Subdiff returns the formal solution in Kaucher arithmetic of systems with strictly diagonally dominant matrices."""
from fractions import Fraction as F
from .. import exact as E, linsys as L
from ..lib import ip, np, mat, vec, plain, is_array

ID = 'C21'
RULE = ('one proper, improper or mixed system with a strictly diagonally dominant matrix; the returned vector is substituted into the '
        'system by exact Kaucher arithmetic and compared with the right-hand side and with the planted solution')
N = {'quick': 800, 'thorough': 24000}
CASE_TIMEOUT = 60


def required(tier):
    return {'solutions_judged': 1200, 'improper_coefficients': 3000, 'straddling_improper': 1500, 'improper_components': 600, 'damped': 300,
            'planted': 500, 'tolerable_boxes': 60, 'other_scales': 300}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n = rng.choice((1, 2, 2, 3, 3, 4, 5))
        ints = rng.random() < .25
        imp = rng.choice((0, 0, .5, 1))
        wide = rng.choice((.2, 1, 3))
        A = []
        for i in range(n):
            r = []
            for j in range(n):
                if rng.random() < .15 and i != j:
                    p = [0, 0]
                elif ints:
                    c, rad = rng.randint(-1, 1), rng.randint(0, 2)
                    p = [c - rad, c + rad]
                else:
                    c, rad = rng.uniform(-1, 1) * rng.choice((.1, 1)), rng.uniform(0, wide)
                    p = [c - rad, c + rad]
                r.append(p)
            off = sum(max(abs(p[0]), abs(p[1])) for j, p in enumerate(r) if j != i)
            s = rng.choice((-1, 1))
            lo = off + 1 if ints else off * rng.uniform(1.15, 3) + rng.uniform(.2, 2)
            hi = lo + (rng.randint(0, 2) if ints else rng.uniform(0, wide))
            r[i] = [s * lo, s * hi] if s > 0 else [s * hi, s * lo]
            A.append([p[::-1] if rng.random() < imp else p for p in r])
        c = {'k': 'plant' if rng.random() < .5 else 'rhs', 'A': A, 'tau': rng.choice((1, 1, .7, .5, .9))}
        v = []
        pim = rng.choice((0, .5, 1))
        for _ in range(n):
            ce, rad = (rng.randint(-4, 4), rng.randint(0, 4)) if ints else (rng.uniform(-5, 5) * rng.choice((0, 1, 1)), rng.uniform(0, 4))
            v.append([ce - rad, ce + rad][::-1 if rng.random() < pim else 1])
        if c['k'] == 'plant':
            c['x'] = v
            c['b'] = [[float(w) for w in kdot(r, v)] for r in A]
        else:
            c['b'] = v
        if rng.random() < .2:       # the same system in other units
            s = 2. ** rng.choice((rng.randint(1, 30), -rng.randint(1, 20)))
            c['b'] = [[w * s for w in p] for p in c['b']]
            c['size'] = s
            if 'x' in c:
                c['x'] = [[w * s for w in p] for p in c['x']]
        yield c


def kdot(r, x):
    s = (F(0), F(0))
    for q, v in zip(r, x):
        s = E.kadd(s, E.kmul((F(q[0]), F(q[1])), (F(v[0]), F(v[1]))))
    return s


def check(ctx, c):
    A, b = c['A'], c['b']
    n = len(b)
    kw = {} if c['tau'] == 1 else {'tau': c['tau']}
    if kw:
        ctx.event('damped')
    for r in A:
        for p in r:
            if p[0] > p[1]:
                ctx.event('improper_coefficients')
                if p[0] > 0 > p[1]:
                    ctx.event('straddling_improper')
    x = ip.linear.Subdiff(mat(A), vec(b), **kw)
    show = lambda: 'Subdiff(%s, %s, tau=%s) -> %r' % (A, b, c['tau'], x)
    if not ctx.expect(is_array(x) and x.shape == (n,), 'result-shape', show):
        return
    xs = [(plain(v.a), plain(v.b)) for v in x]
    if not ctx.expect(all(np.isfinite(v) for p in xs for v in p), 'not-finite', show):
        return
    ctx.event('solutions_judged')
    scale = max(sum(max(abs(F(q[0])), abs(F(q[1]))) * max(abs(F(v[0])), abs(F(v[1]))) for q, v in zip(r, xs)) + abs(F(p[0])) + abs(F(p[1])) for r, p in zip(A, b))
    one = F(c.get('size', 1))
    if one != 1:
        ctx.event('other_scales')
    t = F(1e-9) * (one + scale)
    for r, p in zip(A, b):
        s = kdot(r, xs)
        if not ctx.expect(abs(s[0] - F(p[0])) <= t and abs(s[1] - F(p[1])) <= t, 'not-a-formal-solution',
                          lambda: show() + ' row %s gives [%r, %r] for %s' % (r, float(s[0]), float(s[1]), p)):
            break
    ctx.event('improper_components', sum(p[0] > p[1] for p in xs))
    if c['k'] == 'plant':
        ctx.event('planted')
        ctx.expect(all(abs(u - v) <= 1e-7 * (float(one) + float(scale)) for p, q in zip(xs, c['x']) for u, v in zip(p, q)), 'not-the-planted-solution',
                   lambda: show() + ' planted %s' % c['x'])
    if all(p[0] <= p[1] for r in A for p in r) and all(p[0] <= p[1] for p in b) and all(p[0] < p[1] for p in xs):
        # a proper formal solution of a proper system is a box of tolerable solutions
        ctx.event('tolerable_boxes')
        wide = [[F(p[0]) - t, F(p[1]) + t] for p in b]
        for v in ([p[0] for p in xs], [p[1] for p in xs], [p[i % 2] for i, p in enumerate(xs)]):
            ctx.expect(L.in_tolerable(A, wide, v), 'not-tolerable', show)
    ctx.distinct((A, b))
