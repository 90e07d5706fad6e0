"""C05: tightness and domain handling of the elementary functions."""
import math
from .. import gen as G, mpx
from ..lib import ip, np, mk, vec, plain, is_array, Interval
from ..mpx import M
from .c04 import arg, FUNS

ID = 'C05'
RULE = ('one application of an elementary function to one interval whose ends were compared, from the outside, with '
        'the high-precision range (overestimation), or whose out-of-domain outcome was judged')
N = {'quick': 24000, 'thorough': 480000}


def required(tier):
    return dict({'tight_' + f: 1000 for f in FUNS}, partly_outside=300, outside=300, infinite_ends=100, abs_judged=800)


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        v = rng.choice(('s', 's', 'v'))
        if u < .08:
            f = rng.choice(('log', 'sqrt'))
            yield {'k': 'part', 'f': f, 'x': [-abs(G.num(rng)) or -1.0, abs(G.num(rng, 'mid'))], 'form': v}
        elif u < .16:
            f = rng.choice(('log', 'sqrt'))
            a, b = sorted((-abs(G.num(rng)) or -1.0, -abs(G.num(rng)) or -2.0))
            yield {'k': 'out', 'f': f, 'x': [a, b], 'form': v}
        elif u < .2:
            f, x = rng.choice((('exp', [-math.inf, rng.uniform(-5, 5)]), ('exp', [rng.uniform(-5, 5), math.inf]),
                               ('log', [rng.uniform(0.1, 5), math.inf]), ('log', [0.0, rng.uniform(0.1, 5)]),
                               ('sqrt', [rng.uniform(0.1, 5), math.inf]), ('log', [0, math.inf])))
            yield {'k': 'inf', 'f': f, 'x': x, 'form': v}
        elif u < .28:
            yield {'k': 'abs', 'f': 'abs', 'x': G.pair(rng), 'form': v}
        else:
            f = rng.choice(FUNS)
            p = arg(rng, f)
            yield {'k': 'tight', 'f': f, 'x': p[::-1] if rng.random() < .3 else p, 'form': v}


def call(c):
    f = {'abs': abs}.get(c['f']) or getattr(np if c['form'] == 's' else ip, c['f'])
    if c['form'] == 's':
        return f(mk(c['x']))
    return f(vec([c['x'], [1.0, 2.0]]))[0]


def check(ctx, c):
    f, x = c['f'], c['x']
    r = call(c)
    a, b = plain(r.a), plain(r.b)
    ctx.distinct((f, x, c['form']))
    rg = None if f == 'abs' else mpx.RANGE[f](sorted(x))
    show = lambda: '%s -> [%r,%r], range %s' % (c, a, b, rg and [M.nstr(v, 20) for v in rg])
    if c['k'] == 'abs':
        ctx.event('abs_judged')
        lo = 0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
        ctx.expect(a == lo and b == max(abs(x[0]), abs(x[1])), 'abs-wrong', show)
        return
    if c['k'] == 'out':
        ctx.event('outside')
        ctx.expect(a != a and b != b, 'out-of-domain-value:' + f, show)
        return
    if a != a or b != b:
        ctx.violation('nan:' + f, show)
        return
    improper = x[0] > x[1]
    lo, hi = rg
    if improper:
        a, b = b, a
    if c['k'] == 'part':
        ctx.event('partly_outside')
        ctx.expect(M.mpf(a) <= lo and M.mpf(b) >= hi, 'in-domain-part-lost:' + f, show)
    if c['k'] == 'inf':
        ctx.event('infinite_ends')
        ctx.expect(M.mpf(a) <= lo and M.mpf(b) >= hi, 'infinite-end-lost:' + f, show)
    ctx.event('tight_' + f)
    ctx.expect(a <= b or improper, 'reversed:' + f, show)
    if f in ('sin', 'cos'):
        ctx.expect(-1 <= a and b <= 1, 'leaves-range:' + f, show)
        tol = 4 * M.mpf(2) ** -53 + (M.mpf(4e-15) * max(map(abs, x))) ** 2
    elif f in ('exp', 'sqrt'):
        ctx.expect(min(a, b) >= 0, 'leaves-range:' + f, show)
    near(ctx, a, lo, f, 'lower' + ('-improper' if improper else ''), show, tol if f in ('sin', 'cos') else None)
    near(ctx, b, hi, f, 'upper' + ('-improper' if improper else ''), show, tol if f in ('sin', 'cos') else None)


def near(ctx, v, e, f, side, show, tol):
    if abs(e) == M.inf:
        ctx.expect(v == e, 'loose:%s:%s' % (f, side), show)
        return
    if tol is None:
        rel = M.mpf(1e-12) if f == 'sqrt' else M.mpf(8) * M.mpf(2) ** -52
        tol = abs(e) * rel + M.mpf(1e-323)
    if abs(v) == math.inf:
        ctx.expect(abs(e) > 1.7e308, 'loose:%s:%s' % (f, side), show)
        return
    if abs(e) > 1.79769e308:
        return
    ctx.expect(abs(M.mpf(v) - e) <= tol, 'loose:%s:%s' % (f, side), show)
