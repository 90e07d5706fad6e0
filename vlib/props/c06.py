"""C06: powers: natural exponents are exact-range enclosures, other exponents on nonnegative bases, rejections."""
import math
from fractions import Fraction as F
from .. import exact as E, gen as G, mpx
from ..lib import ip, np, mk, vec, plain, is_array, tolist, asnum, NARROW
from ..mpx import M

ID = 'C06'
RULE = ('one power of a scalar or array interval whose every element was compared with the exact rational range '
        '(natural exponent) or the high-precision range (fractional or negative exponent)')
N = {'quick': 32000, 'thorough': 640000}


def required(tier):
    return {'natural_proper': 5000, 'natural_improper': 1500, 'straddling_even': 500, 'fractional': 2000, 'negative': 1000,
            'rejections': 300, 'large_exponents': 1000, 'narrow_exponents': 3000, 'array_elements': 3000}


def krange(x, n):
    a, b = F(x[0]), F(x[1])
    if a > b:
        h, l = krange((x[1], x[0]), n)
        return l, h
    c = [a**n, b**n]
    if n % 2 == 0 and n > 0 and a <= 0 <= b:
        c.append(F(0))
    return min(c), max(c)


REGS = (['int'], ['dec'], ['unit'], ['small', 'int'], ['dyad'], ['mid'], ['log'], ['ulp'], ['small'])


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        form = rng.choice(('s', 's', 'v', 'vn'))
        cnt = 1 if form == 's' else rng.randint(1, 4)
        if u < .62:
            regs = rng.choice(REGS)
            n = [rng.choice((0, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17)) for _ in range(cnt)]
            if form == 'v':
                n = [n[0]] * cnt
            xs = [G.pair(rng, regimes=regs) for _ in range(cnt)]
            xs = [x[::-1] if rng.random() < .3 else x for x in xs]
            if rng.random() < .0008:   # exponents beyond 16 bits
                x = [1 + rng.choice((1, -1)) * rng.randint(0, 50) / 4096, 1 + rng.choice((1, -1)) * rng.randint(0, 50) / 4096]
                s = rng.choice((1, -1))
                yield {'k': 'nat', 'form': 's', 'x': [sorted(v * s for v in x)], 'n': [rng.randint(2**15, 2**15 + 9000) if rng.random() < .7 else rng.randint(2**16, 2**16 + 99)], 'np': rng.choice(('py', 'np', 'i4', 'u4'))}
                continue
            if rng.random() < .08:     # exponents beyond those of ordinary use, bases whose powers stay within the doubles
                n = [rng.choice((18, 20, 31, 32, 33, 63, 64, 65, 100, 127, rng.randint(18, 127), rng.randint(128, 1200)))] * cnt
                m = 10 ** (290 / n[0])
                xs = [sorted(rng.choice((1, -1)) * m ** rng.uniform(-.5, 1) * rng.choice((1, 1, .5)) for _ in range(2)) for _ in range(cnt)]
                xs = [x[::-1] if rng.random() < .3 else x for x in xs]
                yield {'k': 'nat', 'form': form, 'x': xs, 'n': n, 'np': rng.choice(('py', 'np', 'i4') + (('i1', 'u1') if n[0] < 128 else ()))}
                continue
            yield {'k': 'nat', 'form': form, 'x': xs, 'n': n, 'np': rng.choice(('py', 'np', rng.choice(('i1', 'u1', 'u2', 'i4', 'u4', 'u8'))))}
        elif u < .95:
            p = [rng.choice((0.5, 1.5, 2.5, -0.5, 1 / 3, -1, -2, -3, -1.0, 2.0, -2.0, rng.uniform(-5, 5), rng.uniform(.01, 3)))
                 for _ in range(cnt)]
            if form == 'v':
                p = [p[0]] * cnt
            xs = []
            for _ in range(cnt):
                x = sorted(map(abs, G.pair(rng, 'pos', regimes=['dec', 'unit', 'mid', 'int', 'dyad', 'ulp'])))
                if x[0] < 1e-9:
                    x[0] = 0 if rng.random() < .5 and x[1] > 1e-9 else 1e-9
                if x[1] < x[0]:
                    x[1] = x[0]
                xs.append(x[::-1] if rng.random() < .25 else x)
            yield {'k': 'real', 'form': form, 'x': xs, 'n': p, 'np': rng.choice(('py', 'np'))}
        else:
            x = G.pair(rng, rng.choice(('neg', 'straddle')), regimes=['dec', 'small', 'int'])
            if not x[0] < 0:
                x = [-1.5, x[1]]
            yield {'k': 'rej', 'form': form, 'x': [x], 'n': [rng.choice((0.5, -1, -2, 1.5, -0.5, rng.uniform(.1, .9)))], 'np': 'py'}


def call(c):
    if c['np'] in NARROW:
        f = lambda v: asnum(v, c['np'])
    else:
        f = (lambda v: v) if c['np'] == 'py' else (lambda v: np.int64(v) if isinstance(v, int) else np.float64(v))
    if c['form'] == 's':
        return [mk(c['x'][0]) ** f(c['n'][0])]
    X = vec(c['x'])
    if c['form'] == 'v' or len(c['n']) == 1:
        R = X ** f(c['n'][0])
    else:
        R = X ** np.array(c['n'], dtype=NARROW.get(c['np']))
    assert is_array(R) and R.shape == X.shape
    return list(R.data)


def check(ctx, c):
    if c['k'] == 'rej':
        try:
            r = call(c)
        except ValueError:
            ctx.event('rejections')
            return
        ctx.violation('negative-base-accepted', '%s -> %s' % (c, r))
        return
    try:
        rs = call(c)
    except ValueError:
        ctx.violation('rejected', str(c))
        return
    # an array of mixed exponents is an array of floats for numpy when one is fractional
    if c['np'] in NARROW:
        ctx.event('narrow_exponents')
    for x, n, r in zip(c['x'], c['n'], rs):
        a, b = plain(r.a), plain(r.b)
        imp = x[0] > x[1]
        if c['form'] != 's':
            ctx.event('array_elements')
        show = lambda: '%s: %s ** %s -> [%r,%r], range [%s,%s]' % (c, x, n, a, b, fl(lo), fl(hi))
        if c['k'] == 'nat':
            lo, hi = krange(x, n)
            if max(abs(lo), abs(hi)) > F(10)**300:
                ctx.event('overflowing')
                ctx.expect(E.le(a, lo) and E.le(hi, b), 'overflow-not-enclosed', show)
                continue
            if n > 17:
                ctx.event('large_exponents')
            if imp and n % 2 == 0 and n > 0 and max(x) < 0:
                # an improper base of negative numbers: the repository's tests fix [a**n, b**n], not the dual range
                continue
            tag = 'improper' if imp else 'proper'
            ctx.event('natural_' + tag)
            if n % 2 == 0 and min(x) < 0 < max(x):
                ctx.event('straddling_even')
            ctx.expect(E.le(a, lo), 'natural-lower-lost:' + tag, show)
            ctx.expect(E.le(hi, b), 'natural-upper-lost:' + tag, show)
            tol = F(max(n, 1), 2**50)
            ctx.expect(lo - F(a) <= abs(lo) * tol + F(1, 2**1060), 'natural-lower-loose:' + tag, show)
            ctx.expect(F(b) - hi <= abs(hi) * tol + F(1, 2**1060), 'natural-upper-loose:' + tag, show)
        else:
            q = x[::-1] if imp else x
            lo, hi = mpx.rng_pow(q, n)
            if imp:
                lo, hi = hi, lo
            if hi > 1e300 and hi != M.inf or lo > 1e300 and lo != M.inf:
                continue
            ctx.event('fractional' if n > 0 else 'negative')
            tag = ('improper' if imp else 'proper') + (':zero' if q[0] == 0 else '')
            if not ctx.expect(a == a and b == b, 'real-nan:' + tag, show):
                continue
            if imp:
                # composition of rounded exp and log: compare to rounding error only
                ctx.expect(near(a, lo) and near(b, hi), 'real-wrong:' + tag, show)
                continue
            ctx.expect(M.mpf(a) <= lo, 'real-lower-lost:' + tag, show)
            ctx.expect(M.mpf(b) >= hi, 'real-upper-lost:' + tag, show)
            ctx.expect(near(a, lo) and near(b, hi), 'real-loose:' + tag, show)
    ctx.distinct((c['k'], c['form'], c['x'], c['n']))


def fl(v):
    return repr(float(v)) if isinstance(v, F) else M.nstr(v, 20)


def near(v, e):
    if e == M.inf:
        return v >= 1.7976931348623157e308
    return abs(M.mpf(v) - e) <= abs(e) * M.mpf(1e-12) + M.mpf(1e-300)
