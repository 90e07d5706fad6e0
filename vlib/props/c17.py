"""C17: recognizing functionals have their defining values, and their sign decides membership in the solution sets."""
from fractions import Fraction as F
from .. import linsys as L, systems as S
from ..lib import ip, np, mat, vec, fits, NARROW

ID = 'C17'
RULE = ('one interval system and several points (inside, on the boundary of, and outside the solution sets); Tol, Uni, Uss and ChebNorm '
        'values and constituents against their defining formulas in rationals, signs against exact membership')
N = {'quick': 1600, 'thorough': 40000}
CASE_TIMEOUT = 30


def required(tier):
    return {'values_judged': 20000, 'exact_judged': 8000, 'members_tol': 300, 'members_uni': 800, 'nonmembers_tol': 2000,
            'nonmembers_uni': 2000, 'boundary': 200, 'weighted': 5000}


def dyadic(rng, lo, hi, q):
    return rng.randint(lo * q, hi * q) / q


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n, m = rng.randint(1, 6), rng.randint(1, 5)
        ex = rng.random() < .6
        if ex:
            q = rng.choice((1, 1, 2, 8))
            A, b = [], []
            x0 = [dyadic(rng, -4, 4, q) for _ in range(m)]
            for i in range(n):
                r = []
                for j in range(m):
                    c, rad = dyadic(rng, -5, 5, q), rng.choice((0, 0, dyadic(rng, 0, 1, q)))
                    if rng.random() < .1:
                        c = rng.choice((0, rad, -rad))
                    r.append([c - rad, c + rad])
                lo, hi = (float(v) for v in L.rowvals(r, x0))
                # around the row's value at x0: x0 inside / on the edge of / outside the tolerable or united set
                u = rng.choice(('tol', 'toledge', 'uni', 'uniedge', 'out'))
                d = dyadic(rng, 0, 3, q)
                e = dyadic(rng, 0, 3, q)
                if u == 'tol':
                    p = [lo - d, hi + e]
                elif u == 'toledge':
                    p = rng.choice(([lo, hi + e], [lo - d, hi], [lo, hi]))
                elif u == 'uni':
                    p = rng.choice(([lo - d, lo + e], [hi - d, hi + e], [(lo + hi) / 2] * 2))
                elif u == 'uniedge':
                    p = rng.choice(([hi, hi + e], [lo - d, lo]))
                else:
                    p = rng.choice(([hi + 1 / q, hi + 1 / q + e], [lo - 1 / q - d, lo - 1 / q]))
                A.append(r)
                b.append(p)
            if rng.random() < .5:
                A = [[[int(v) if v == int(v) else v for v in p] for p in r] for r in A]
                b = [[int(v) if v == int(v) else v for v in p] for p in b]
            xs = [x0] + [[v + rng.choice((0, 1, -1, .5)) / q for v in x0] for _ in range(2)] + [[0.] * m]
            w = [rng.choice((1, 2, .5, 4, .25)) for _ in range(n)] if rng.random() < .5 else rng.choice((None, None, 2., .5))
        else:
            A, b = S.rect(rng, n, m, feasible=rng.random() < .7)
            xs = [[rng.choice((0, 1)) * rng.uniform(-5, 5) for _ in range(m)] for _ in range(3)]
            if n >= m:
                w0 = L.solve(*L.point_system(rng, A[:m], b[:m]))
                if w0:
                    xs.append([float(v) for v in w0])
            w = [rng.choice((1, 2, .1, 10, 3.7)) for _ in b] if rng.random() < .5 else None
        yield {'k': 'ex' if ex else 'fl', 'A': A, 'b': b, 'xs': xs, 'w': w}


def exact(A, b, x, w):
    n = len(A)
    ws = [F(1)] * n if w is None else [F(w)] * n if not isinstance(w, list) else [F(v) for v in w]
    out = {'Tol': [], 'Uni': [], 'Uss': [], 'ChebNorm': []}
    scale = F(0)
    for r, p, wi in zip(A, b, ws):
        lo, hi = L.rowvals(r, x)
        bm, br = (F(p[0]) + F(p[1])) / 2, (F(p[1]) - F(p[0])) / 2
        far = max(abs(bm - lo), abs(bm - hi))
        near = F(0) if lo <= bm <= hi else min(abs(bm - lo), abs(bm - hi))
        am, ar = (lo + hi) / 2, (hi - lo) / 2
        out['Tol'].append(wi * (br - far))
        out['Uni'].append(wi * (br - near))
        out['Uss'].append(wi * (br + ar - abs(bm - am)))
        out['ChebNorm'].append(wi * (br + far))
        s = abs(bm) + br + sum(max(abs(F(q[0])), abs(F(q[1]))) * abs(F(v)) for q, v in zip(r, x))
        scale = max(scale, wi * s)
    return out, scale


def check(ctx, c):
    A, b, w = c['A'], c['b'], c['w']
    MA, Mb = mat(A), vec(b)
    W = None if w is None else np.array(w) if isinstance(w, list) else w
    for i, x in enumerate(c['xs']):
        X = np.array(x)
        if c['k'] == 'ex':      # the same numbers in other types
            k = (None, 'i1', 'u1', 'f4', 'f2', 'u8', 'list')[(len(b) + 3 * len(x) + i) % 7]
            if k == 'list':
                X = [float(v) for v in x]
            elif k and fits(k, x):
                X = np.array(x, dtype=NARROW[k])
                ctx.event('narrow_types')
        want, scale = exact(A, b, x, w)
        tol_in, uni_in = L.in_tolerable(A, b, x), L.in_united(A, b, x)
        ctx.event('members_tol' if tol_in else 'nonmembers_tol')
        ctx.event('members_uni' if uni_in else 'nonmembers_uni')
        for name in ('Tol', 'Uni', 'Uss', 'ChebNorm'):
            f = getattr(ip.linear, name)
            kw = {} if W is None else {'weight': W}
            con = f.constituent(MA, Mb, X, **kw)
            val = f.value(MA, Mb, X, **kw)
            if W is not None:
                ctx.event('weighted')
            show = lambda: '%s A=%s b=%s x=%s w=%s -> %s %s, exact %s' % (name, A, b, x, w, con, val, [float(v) for v in want[name]])
            t = F(0) if c['k'] == 'ex' else scale * F(1e-12)
            got = [float(v) for v in np.asarray(con, dtype=float).ravel()]
            if not ctx.expect(len(got) == len(b), 'constituent-shape:' + name, show):
                continue
            ctx.event('values_judged')
            if c['k'] == 'ex':
                ctx.event('exact_judged')
            ctx.expect(all(abs(F(g) - v) <= t for g, v in zip(got, want[name])), 'constituent:' + name, show)
            best = (max if name == 'ChebNorm' else min)(want[name])
            if not ctx.expect(abs(F(float(val)) - best) <= t, 'value:' + name, show):
                continue
            if best == 0:
                ctx.event('boundary')
            if c['k'] == 'ex' and name in ('Tol', 'Uni', 'Uss'):
                ctx.expect((val >= 0) == (tol_in if name == 'Tol' else uni_in), 'membership:' + name, show)
    ctx.distinct((A, b, c['xs']))
