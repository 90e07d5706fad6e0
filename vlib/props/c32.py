"""C32: ive is the documented product; its condition number is that of one of the corner matrices, the least one when enough are drawn."""
import itertools
import math
from ..lib import ip, np, vec, mat
ID = 'C32'
RULE = ('one interval system with 0 to 4 uncertain elements in A and one call of ive; the condition number implied by the result against those of all '
        'corner matrices')
N = {'quick': 120, 'thorough': 2500}
CASE_TIMEOUT = 60


def required(tier):
    return {'calls': 500, 'corners': 2500, 'least_expected': 250, 'certain': 25, 'several_candidates': 200, 'negative': 20, 'rectangular': 150}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        n = rng.randint(1, 3)
        m = n + rng.choice((0, 0, 1, 2, 3))
        A = [[[v, v] for v in (rng.choice((rng.randint(-5, 5), round(rng.uniform(-4, 4), 2))) for _ in range(n))] for _ in range(m)]
        for i in range(n):
            A[i][i] = [v + rng.choice((-1, 1)) * 6 for v in A[i][i]]
        for _ in range(rng.choice((0, 1, 2, 3, 4))):
            i, j = rng.randrange(m), rng.randrange(n)
            w = rng.choice((.125, .5, 1, 2, 3))
            A[i][j] = [A[i][j][0] - w, A[i][j][1] + w] if A[i][j][0] == A[i][j][1] else A[i][j]
        x = [rng.uniform(-2, 2) for _ in range(n)]
        w = rng.choice((.25, 1, 4, 16, 30))
        b = []
        for r in A:
            c = sum((p[0] + p[1]) / 2 * v for p, v in zip(r, x)) + rng.choice((0, 0, 1)) * rng.uniform(-6, 6)
            b.append([c - w * rng.uniform(.5, 1), c + w * rng.uniform(.5, 1)])
        if rng.random() < .15:
            b[0] = [v + 40 for v in b[0]]       # incompatible
        yield {'k': 'ive', 'A': A, 'b': b, 'N': rng.choice((1, 2, 5, 40, 600, 600, 600)), 'seed': rng.randrange(2 ** 30), 'default': rng.random() < .3}


def check(ctx, c):
    A, b = mat(c['A']), vec(c['b'])
    m, n = len(c['A']), len(c['A'][0])
    np.random.seed(c['seed'])
    k = c['N']
    v = ip.ive(A, b) if k == 40 and c['default'] else ip.ive(A, b, N=k)
    ctx.event('calls')
    ctx.event('rectangular', m > n)
    xr, fr = ip.Tol.maximize(A, b)[:2]
    mags = [max(abs(p[0]), abs(p[1])) for p in c['b']]
    factor = math.sqrt(n) * float(fr) * math.sqrt(sum(float(t) ** 2 for t in xr)) / math.sqrt(sum(t * t for t in mags))
    ctx.event('negative', factor < 0)
    free = [(i, j) for i in range(m) for j in range(n) if c['A'][i][j][0] != c['A'][i][j][1]]
    base = np.array([[p[0] for p in r] for r in c['A']], dtype=float)
    conds = []
    for pick in itertools.product((0, 1), repeat=len(free)):
        M = base.copy()
        for (i, j), s in zip(free, pick):
            M[i, j] = c['A'][i][j][s]
        conds.append(float(np.linalg.cond(M)))
    ctx.event('corners', len(conds))
    ctx.event('certain', not free)
    show = lambda: '%s -> %s, factor %s, condition numbers %s' % (c, v, factor, sorted(conds))
    if not ctx.expect(isinstance(v, (float, np.floating)) and v == v, 'form', show):
        return
    close = lambda t: abs(v - factor * t) <= 1e-9 * abs(factor * t) * (1 + 1e-4 * t)
    ctx.event('several_candidates', len(set(conds)) > 1)
    if k >= 600 or not free or (k == 40 and len(free) == 1):
        ctx.event('least_expected')
        ctx.expect(close(min(conds)), 'not-least', show)
    else:
        ctx.expect(any(close(t) for t in conds), 'no-corner', show)
    ctx.distinct((c['A'], c['b']))
