"""C04: containment of the elementary functions, proper and improper arguments, scalars and arrays."""
import math
from .. import gen as G, mpx
from ..lib import ip, np, mk, vec, arr, plain, is_array, tolist, Interval
from ..mpx import M

ID = 'C04'
RULE = ('one application of exp/log/sqrt/sin/cos/abs (through np or intvalpy, on a scalar, a vector, a matrix or a '
        'plain number) whose every element was compared with the high-precision range of the function')
N = {'quick': 10400, 'thorough': 192000}
FUNS = ('exp', 'log', 'sqrt', 'sin', 'cos')
LEVEL = 'exploration'


def required(tier):
    return dict({'el_' + f: 1500 for f in FUNS}, improper_elements=2000, critical_point_inside=500, big_arguments=300)


def arg(rng, f):
    """A proper argument interval of the function."""
    u = rng.random()
    if f in ('sin', 'cos'):
        if u < .25:             # an end within ulps of a critical point or a zero of the function
            k = rng.randint(-50, 50) if u < .17 else rng.choice((-1, 1)) * int(10 ** rng.uniform(2, 15))
            x = float(k * M.pi / 2)
            for _ in range(rng.randint(0, 2)):
                x = math.nextafter(x, rng.choice((-math.inf, math.inf)))
            w = rng.choice((0, 1e-12, 1e-3, 1, 2, 3.5, 7, 1e-300))
            p = [x, x + w] if rng.random() < .5 else [x - w, x]
            return p
        if u < .55:
            x = rng.uniform(-30, 30)
            return [x, x + rng.choice((0, rng.uniform(0, 8), 1e-9))]
        if u < .7:
            x = rng.choice((-1, 1)) * rng.uniform(1, 2) * 10.0**rng.randint(2, 9)
            return sorted([x, x + rng.uniform(0, 7)])
        return G.pair(rng, regimes=['int', 'small', 'unit', 'dec', 'dyad', 'ulp', 'mid'])
    if f == 'exp':
        if u < .15:
            return sorted([rng.uniform(690, 715), rng.uniform(690, 715)])
        if u < .3:
            return sorted([rng.uniform(-760, -690), rng.uniform(-760, 5)])
        if u < .4:
            return sorted(rng.uniform(-3, 3) for _ in range(2))
        return [max(-1e4, min(1e4, v)) for v in G.pair(rng, regimes=['int', 'small', 'unit', 'dec', 'dyad', 'ulp', 'log'])]
    regs = ['int', 'small', 'unit', 'dec', 'dyad', 'ulp', 'mid', 'log', 'wide']
    if u < .1:
        p = G.pair(rng, 'near', regimes=['ulp', 'small'])
    elif u < .2:
        p = [1.0, 1.0]
        for i in (0, 1):
            for _ in range(rng.randint(0, 3)):
                p[i] = math.nextafter(p[i], i * 2)
    elif u < .5:            # every digit in use, where the library of the system is least accurate
        p = [rng.choice((rng.uniform(.8, 1.25), rng.uniform(.9, 1.1), rng.uniform(0, 10))) for _ in range(2)]
    else:
        p = G.pair(rng, rng.choice(('pos', 'pos', 'thin', 'near', 'zero_lo')), regimes=[rng.choice(regs)])
    p = sorted(map(abs, p))
    return p


def gen(rng, tier, shard, nshards):
    last = None
    for _ in range(N[tier]):
        if last and rng.random() < .1:      # an argument that nearly repeats the one before
            yield dict(last, x=nearby(rng, last['x'], 10.0 ** -rng.randint(5, 14)))
            last = None
            continue
        f = rng.choice(FUNS)
        form = rng.choice(('s', 's', 's', 'v', 'm', 'n', 'mixed'))
        imp = lambda p: p[::-1] if rng.random() < .4 else p
        via = rng.choice(('np', 'ip'))
        if form == 's':
            x = imp(arg(rng, f))
        elif form in ('v', 'mixed'):
            x = [imp(arg(rng, f)) for _ in range(rng.randint(1, 6))]
        elif form == 'm':
            m = rng.randint(1, 3)
            x = [[imp(arg(rng, f)) for _ in range(m)] for _ in range(rng.randint(1, 3))]
        else:
            x = arg(rng, f)[rng.randint(0, 1)]
            via = 'ip'
        last = {'k': form, 'f': f, 'x': x, 'via': via}
        yield last


def nearby(rng, x, t):
    if isinstance(x, list):
        return [nearby(rng, v, t) for v in x]
    return x * (1 + rng.choice((-1, 0, 1)) * t)


def check(ctx, c):
    f, x, k = c['f'], c['x'], c['k']
    if k == 's':
        X, flat = mk(x), [x]
    elif k in ('v', 'mixed'):
        X, flat = vec(x), x
    elif k == 'm':
        X, flat = arr([[p[0] for p in r] for r in x], [[p[1] for p in r] for r in x]), [p for r in x for p in r]
    else:
        X, flat = x, [[x, x]]
    R = getattr(np if c['via'] == 'np' else ip, f)(X)
    if k in ('s', 'n'):
        els = [R]
    else:
        if not ctx.expect(is_array(R) and R.shape == X.shape, 'result-shape:' + f, lambda: '%s -> %r' % (c, R)):
            return
        els = list(R.data.flat)
    for p, r in zip(flat, els):
        judge(ctx, c, f, p, r)
    ctx.distinct((k, f, x, c['via']))


def judge(ctx, c, f, p, r):
    improper = p[0] > p[1]
    q = p[::-1] if improper else p
    rg = mpx.RANGE[f](q)
    a, b = plain(r.a), plain(r.b)
    ctx.event('el_' + f)
    if f in ('sin', 'cos'):
        if max(map(abs, q)) > 1e6:
            ctx.event('big_arguments')
        if rg[0] == -1 or rg[1] == 1:
            ctx.event('critical_point_inside')
    lo, hi = rg
    if improper:
        ctx.event('improper_elements')
        lo, hi = hi, lo
    tag = f + (':improper' if improper else '')
    ok = a == a and b == b
    if not ctx.expect(ok, 'nan:' + tag, lambda: '%s: %s -> [%r,%r]' % (c, p, a, b)):
        return
    show = lambda: '%s: %s -> [%r,%r], range [%s,%s]' % (c, p, a, b, M.nstr(lo, 22), M.nstr(hi, 22))
    # sqrt is the composition exp(log/2): its dual image is not exactly that of the range, judged in C05 by tolerance
    if f == 'sqrt' and improper:
        return
    if improper and f in ('sin', 'cos'):
        # whether a critical point is reached is decided towards reaching it; near one the function is flat,
        # so for an improper argument this moves an end by at most the square of the angle in doubt
        t = M.mpf(2) ** -52 + (M.mpf(4e-15) * max(map(abs, q))) ** 2
        lo, hi = lo + t, hi - t
    ctx.expect(M.mpf(a) <= lo, 'lower-end-lost:' + tag, show)
    ctx.expect(M.mpf(b) >= hi, 'upper-end-lost:' + tag, show)
