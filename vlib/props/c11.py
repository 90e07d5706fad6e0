"""C11: set operations and relations: intersection, membership, subset family, ordering, metric, sign, comparison matrix."""
import itertools
import math
import operator
import numpy as np
from fractions import Fraction as F
from .. import exact as E, gen as G
from ..lib import ip, mk, vec, arr, plain, is_array, Interval

ID = 'C11'
RULE = ('one group of set relations evaluated on a pair of intervals or interval arrays and compared with the relation '
        'between the exact sets of reals')
N = {'quick': 17500, 'thorough': 350000}


def required(tier):
    return {'intersections': 5000, 'empty_intersections': 1000, 'membership': 10000, 'subset': 4000, 'order': 8000, 'dist': 2000,
            'sign': 500, 'compmat': 300, 'infinite': 300}


def rel(rng):
    """A pair of proper intervals in an interesting relative position."""
    regs = [rng.choice(('int', 'dec', 'unit', 'dyad', 'small', 'mid', 'ulp', 'log', 'bigint'))]
    x = G.pair(rng, regimes=regs)
    u = rng.random()
    if u < .3:
        y = G.pair(rng, regimes=regs)
    else:
        pool = [x[0], x[1], G.num(rng, regs[0])]
        for v in list(pool):
            pool.append(float(v))
            pool.append(math.nextafter(v, rng.choice((-math.inf, math.inf))))
        t = rng.random()
        pool.append(float(x[0]) * t + float(x[1]) * (1 - t))
        y = sorted((rng.choice(pool), rng.choice(pool)))
    if rng.random() < .06:
        y = [y[0], math.inf] if rng.random() < .5 else [-math.inf, y[1]]
    return (x, y) if rng.random() < .5 else (y, x)


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        n = rng.choice((0, 0, 1, 2, 3))
        ps = [rel(rng) for _ in range(n or 1)]
        if u < .35:
            k = 'inter'
        elif u < .5:
            k = 'member'
        elif u < .65:
            k = 'subset'
        elif u < .8:
            k = 'order'
        elif u < .92:
            k = 'dist'
        elif u < .97:
            k = 'sign'
        else:
            m = rng.randint(1, 4)
            yield {'k': 'compmat', 'A': [[G.pair(rng, regimes=['int', 'dec', 'unit']) for _ in range(m)] for _ in range(m)]}
            continue
        c = {'k': k, 'n': n, 'p': ps, 'form': rng.choice(('VV', 'VI', 'IV', 'VN', 'NV')), 'm2': n == 3 and rng.random() < .3}
        if k == 'dist':
            c['p'] = [[bounded(x), bounded(y)] for x, y in ps]
            if rng.random() < .4:
                c['p'] = [[a if rng.random() < .6 else a[::-1], b] for a, b in c['p']]
            c['z'] = [G.pair(rng, regimes=['dec', 'int', 'mid']) for _ in ps]
            c['order'] = rng.choice((None, None, None, None, 1, 1, 2, 2, 3, 3, 8, 30, 80))
        if k == 'order' or k in ('member', 'subset') and rng.random() < .4:
            c['p'] = [[a if rng.random() < .7 else a[::-1], b if rng.random() < .7 else b[::-1]] for a, b in ps]
        yield c


def bounded(p):
    return [max(-1e100, min(1e100, v)) for v in p]


def side(c, i):
    if not c['n']:
        return mk(c['p'][0][i])
    return vec([p[i] for p in c['p']])


def check(ctx, c):
    globals()['do_' + c['k']](ctx, c)
    ctx.distinct(c)


def els(X):
    return list(X) if is_array(X) else [X]


def do_inter(ctx, c):
    prs = [list(map(list, p)) for p in c['p']]
    f = c['form'] if c['n'] else rng_form(c)
    X, Y = side(c, 0), side(c, 1)
    if c['n'] and f in ('VI', 'VN'):
        Y = mk(prs[0][1]) if f == 'VI' else prs[0][1][0]
        prs = [[p[0], prs[0][1] if f == 'VI' else [prs[0][1][0]] * 2] for p in prs]
    elif c['n'] and f in ('IV', 'NV'):
        X = mk(prs[0][0]) if f == 'IV' else prs[0][0][0]
        prs = [[prs[0][0] if f == 'IV' else [prs[0][0][0]] * 2, p[1]] for p in prs]
    elif not c['n'] and f == 'IN':
        Y = prs[0][1][0]
        prs = [[prs[0][0], [Y, Y]]]
    if any(math.isinf(v) for v in (X, Y) if isinstance(v, float)):
        return
    R, S = ip.intersection(X, Y), ip.intersection(Y, X)
    if not ctx.expect(is_array(R) == bool(c['n']) and len(els(R)) == len(prs), 'intersection-shape:' + f, lambda: '%s -> %r' % (c, R)):
        return
    for (x, y), r, s in zip(prs, els(R), els(S)):
        ctx.event('intersections')
        if any(math.isinf(v) for v in x + y):
            ctx.event('infinite')
        lo, hi = max(x[0], y[0]), min(x[1], y[1])
        a, b = plain(r.a), plain(r.b)
        show = lambda: '%s: %s & %s -> [%r,%r]' % (c, x, y, a, b)
        if lo <= hi:
            ctx.expect(a == lo and b == hi, 'intersection:' + f, show)
        else:
            ctx.event('empty_intersections')
            # a gap within 1e-15 counts as touching; the result is then the gap itself
            near = lo - hi <= 1e-15
            ok = (a != a and b != b) or (near and sorted((a, b)) == sorted((lo, hi)))
            ctx.expect(ok, 'empty-intersection:' + f, show)
            ctx.expect(near or bool(ip.isnan(r)), 'empty-not-nan:' + f, show)
        ctx.expect((a == s.a or (a != a and s.a != s.a)) and (b == s.b or (b != b and s.b != s.b)), 'intersection-not-commutative:' + f,
                   lambda: '%s: %r vs %r' % (c, r, s))


def rng_form(c):
    return {'VV': 'II', 'VI': 'II', 'IV': 'II', 'VN': 'IN', 'NV': 'IN'}[c['form']]


def do_member(ctx, c):
    x, y = c['p'][0]
    X, Y = mk(x), mk(y)
    pts = [y[0], y[1], x[0], x[1], 0, 0.0]
    for v in (x[0], x[1]):
        if not math.isinf(v):
            pts += [math.nextafter(v, math.inf), math.nextafter(v, -math.inf)]
    for v in pts:
        ctx.event('membership')
        w = x[0] <= v <= x[1]
        with np.errstate(all='ignore'):
            f4 = np.float32(v)
        ctx.expect((f4 in X) == (x[0] <= float(f4) <= x[1]), 'membership:float32', lambda: '%s: %r in %s' % (c, f4, x))
        for t in (v, np.float64(v)):
            if isinstance(v, int) and abs(v) > 2**53 and t is not v:
                continue
            ctx.expect((t in X) == w, 'membership:number', lambda: '%s: %r in %s' % (c, t, x))
    w = x[0] <= y[0] and y[1] <= x[1]
    ctx.expect((Y in X) == w, 'membership:interval', lambda: '%s' % c)
    if c['n']:
        V = vec([p[0] for p in c['p']])
        v = c['p'][0][1][0]
        if not math.isinf(v):
            w = any(p[0][0] <= v <= p[0][1] for p in c['p'])
            ctx.expect((v in V) == w, 'membership:array', lambda: '%s: %r' % (c, v))
        # an array in an array: whether some element contains its counterpart
        w = any(p[0][0] <= p[1][0] and p[1][1] <= p[0][1] for p in c['p'])
        ctx.expect((vec([p[1] for p in c['p']]) in V) == w, 'membership:arrays', lambda: '%s' % c)


def do_subset(ctx, c):
    X, Y = side(c, 0), side(c, 1)
    prs = c['p']
    if c['m2'] and c['n'] == 3:
        X, Y = X.reshape((3, 1)), Y.reshape((3, 1))
    sub = [y[0] <= x[0] and x[1] <= y[1] for x, y in prs]
    psub = [y[0] < x[0] and x[1] < y[1] for x, y in prs]
    sup = [x[0] <= y[0] and y[1] <= x[1] for x, y in prs]
    psup = [x[0] < y[0] and y[1] < x[1] for x, y in prs]
    for nm, w in (('subset', all(sub)), ('superset', all(sup)), ('proper_subset', all(psub)), ('proper_superset', all(psup)),
                  ('supercontain', all(sup))):
        ctx.event('subset')
        r = getattr(ip, nm)(X, Y)
        ctx.expect(bool(r) == w, nm, lambda: '%s -> %r' % (c, r))
    r = ip.contain(X, Y)
    ctx.expect([bool(v) for v in np.asarray(r).flat] == sub, 'contain', lambda: '%s -> %r' % (c, r))


OPS = {'lt': lambda p, q: p < q, 'le': lambda p, q: p <= q, 'gt': lambda p, q: p > q, 'ge': lambda p, q: p >= q}


def narrow(vs):
    """Numbers of narrow numpy types near the given ones."""
    with np.errstate(all='ignore'):
        for v in vs:
            yield np.float32(v)
            if abs(v) < 6e4:
                yield np.float16(v)
            if abs(v) < 120:
                yield np.int8(int(v))
                yield np.uint8(abs(int(v)))
            elif abs(v) < 2**31:
                yield np.int32(int(v))


def do_order(ctx, c):
    for x, y in c['p']:
        X, Y = mk(x), mk(y)
        if any(math.isinf(v) for v in x + y):
            continue
        for nm, f in OPS.items():
            ctx.event('order')
            r = getattr(operator, nm)(X, Y)
            ctx.expect(bool(r) == (f(x[0], y[0]) and f(x[1], y[1])), 'order:' + nm, lambda: '%s -> %r' % (c, r))
            n = y[0]
            r = getattr(operator, nm)(X, n)
            ctx.expect(bool(r) == (f(x[0], n) and f(x[1], n)), 'order-number:' + nm, lambda: '%s -> %r' % (c, r))
            r = getattr(operator, nm)(n, X)
            ctx.expect(bool(r) == (f(n, x[0]) and f(n, x[1])), 'order-reflected:' + nm, lambda: '%s -> %r' % (c, r))
        for t in narrow(x + y):
            n = t.item()
            for nm, f in OPS.items():
                ctx.event('order_narrow')
                r = getattr(operator, nm)(X, t)
                ctx.expect(bool(r) == (f(x[0], n) and f(x[1], n)), 'order-number:' + nm, lambda: '%s: %r -> %r' % (c, t, r))
            eq = x[0] == n and x[1] == n
            ctx.expect((X == t) == eq and (X != t) == (not eq), 'order:eq-number', lambda: '%s: %r' % (c, t))
        eq = x[0] == y[0] and x[1] == y[1]
        ctx.expect((X == Y) == eq and (X != Y) == (not eq), 'order:eq', lambda: str(c))
        n = y[0]
        eq = x[0] == n and x[1] == n
        ctx.expect((X == n) == eq and (X != n) == (not eq), 'order:eq-number', lambda: str(c))
        Z = mk(list(x))
        ctx.expect(X == Z and not (X != Z), 'equality-not-reflexive', lambda: str(c))


def cheb(x, y):
    return max(abs(F(x[0]) - F(y[0])), abs(F(x[1]) - F(y[1])))


def do_dist(ctx, c):
    X, Y = side(c, 0), side(c, 1)
    Z = vec(c['z']) if c['n'] else mk(c['z'][0])
    if c['m2'] and c['n'] == 3:
        X, Y, Z = (t.reshape((3, 1)) for t in (X, Y, Z))
    o = c['order']
    d = (lambda p, q: float(ip.dist(p, q))) if o is None else (lambda p, q: float(ip.dist(p, q, order=o)))

    def want(i, j):
        s = [cheb(p, q) for p, q in zip(i, j)]
        if o is None:
            return max(s)
        m = max(s)
        if m == 0:
            return F(0)
        return m * F(float(sum((t / m)**o for t in s))**(1 / o))
    xs, ys = [p[0] for p in c['p']], [p[1] for p in c['p']]
    if o and o > 3 and not F(1, 100) < max(cheb(x, y) for x, y in zip(xs, ys)) < F(10)**(270 // o):
        return
    if o and max(cheb(x, y) for x, y in zip(xs, ys)) > F(10)**90 or o and 0 < max(cheb(x, y) for x, y in zip(xs, ys)) < F(1, 10**90):
        return
    ctx.event('dist')
    r = d(X, Y)
    w = want(xs, ys)
    show = lambda: '%s -> %r, expected %r' % (c, r, float(w))
    ctx.expect(abs(F(r) - w) <= w * F(1, 10**12) + F(1, 10**300), 'dist-value', show)
    ctx.expect(r == d(Y, X), 'dist-not-symmetric', show)
    ctx.expect(d(X, X) == 0, 'dist-to-itself', show)
    if w > F(1, 10**60):
        ctx.expect(r > 0, 'dist-zero-for-different', show)
    xz, zy = d(X, Z), d(Z, Y)
    ctx.expect(r <= (xz + zy) * (1 + 1e-12), 'triangle-inequality', lambda: '%s: %r > %r + %r' % (c, r, xz, zy))


def do_sign(ctx, c):
    for i in (0, 1):
        X = side(c, i)
        R = ip.sign(X)
        for p, r in zip([q[i] for q in c['p']], els(R)):
            ctx.event('sign')
            s = lambda v: (v > 0) - (v < 0)
            ctx.expect(r.a == s(p[0]) and r.b == s(p[1]), 'sign', lambda: '%s: %s -> %r' % (c, p, r))
            n = ip.isnan(mk(p))
            ctx.expect(not n, 'isnan-of-number', lambda: '%s' % c)
        ctx.expect(not np.any(ip.isnan(X)), 'isnan-of-array', lambda: str(c))
    e = Interval(math.nan, math.nan)
    ctx.expect(bool(ip.isnan(e)) and list(ip.isnan(ip.ArrayInterval([mk([1, 2]), e]))) == [False, True], 'isnan', str)


def do_compmat(ctx, c):
    A = arr([[p[0] for p in r] for r in c['A']], [[p[1] for p in r] for r in c['A']])
    M = ip.compmat(A)
    ctx.event('compmat')
    for i, r in enumerate(c['A']):
        for j, p in enumerate(r):
            mag = max(abs(p[0]), abs(p[1]))
            mig = 0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1]))
            ctx.expect(M[i, j] == (mig if i == j else -mag), 'compmat', lambda: '%s -> %r' % (c, M))
