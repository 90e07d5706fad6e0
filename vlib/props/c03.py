"""C03: sharpness of + - * / on proper intervals: no avoidable overestimation."""
import math
from fractions import Fraction as F
from .. import exact as E, gen as G, arith as A
from ..lib import mk, vec, ip, asnum, plain
from ..core import Skip

ID = 'C03'
RULE = ('one generated operation whose every result element was compared with the tightest pair of doubles '
        'around the exact range (distance counted in units in the last place)')
N = {'quick': 26000, 'thorough': 500000}
ULPS = 2


def required(tier):
    return {'elements_judged': 15000, 'exactly_representable': 4000, 'point_operands': 800}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        c = A.gen_case(rng)
        yield c


def check(ctx, c):
    for label, r, lo, hi in A.run(c):
        if isinstance(lo, float) or isinstance(hi, float):
            continue
        if max(abs(lo), abs(hi)) > F(10)**300:
            continue
        a, b = plain(r.a), plain(r.b)
        ctx.event('elements_judged')
        tag = '%s:%s' % (label, c['op'])
        if label in ('dot', 'matv', 'matm', 'rmat', 'pdot', 'prod'):
            # a sum of n products: every partial sum may lose an ulp of the largest magnitude seen
            big = bound(c)
            slack = big * F(64 + 4 * len(c['y']), 2**53) + F(1, 2**1060)
            ctx.expect(F(a) >= lo - slack, 'lower-end-loose:' + tag, lambda: A.show(c, r, lo, hi))
            ctx.expect(F(b) <= hi + slack, 'upper-end-loose:' + tag, lambda: A.show(c, r, lo, hi))
            continue
        for v, e, up in ((a, lo, False), (b, hi, True)):
            t = E.ru(e) if up else E.rd(e)
            if F(t) == e:
                ctx.event('exactly_representable')
            d = (E.order(v) - E.order(t)) * (1 if up else -1)
            lim = ULPS if F(t) != e or c['op'] == 'div' else 0
            ctx.expect(d <= lim, '%s-end-loose:%s' % ('upper' if up else 'lower', tag),
                       lambda: '%d ulps: %s' % (d, A.show(c, r, lo, hi)))
        if lo == hi:
            ctx.event('point_operands')
    ctx.distinct((c['k'], c['op'], c['x'], c['y']))


def bound(c):
    def m(v):
        return max(map(m, v)) if isinstance(v, list) else abs(F(v))
    n = len(c['y']) if c['k'] != 'dot' else len(c['x'])
    return m(c['x']) * m(c['y']) * max(n, 1)
