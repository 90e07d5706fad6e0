"""C02: Kaucher arithmetic: exact values with outward-directed ends, algebraic laws, representation independence."""
import math
from fractions import Fraction as F
from .. import exact as E, gen as G, arith as A
from ..lib import np, mk, vec, ip, plain, asnum, Interval

ID = 'C02'
RULE = ('one generated Kaucher operation (form, operator, ends, internal kind of every operand) whose result elements '
        'were compared with the exact Kaucher result, or one algebraic law evaluated on generated operands')
N = {'quick': 26000, 'thorough': 500000}


def required(tier):
    return {'elements_judged': 15000, 'improper_operand': 5000, 'kaucher_typed_proper': 500, 'laws_judged': 2000, 'zero_divisions_judged': 1000, 'chains_judged': 4000, 'chains_improper': 1500}


def kaucher_typed(p):
    """An interval that went through Kaucher arithmetic: same ends, but of the extended kind even when proper."""
    return Interval(1, 0, sortQ=False) * 0 + mk(p)


def side(rng, regs):
    p = G.pair(rng, regimes=regs)
    return p[::-1] if rng.random() < 0.55 else p


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        if u < 0.2:
            regs = A.regimes(rng)
            yield {'k': 'law', 'x': side(rng, regs), 'y': side(rng, regs), 'd': div_side(rng, regs),
                   'kt': [rng.random() < .3, rng.random() < .3]}
            continue
        if u < 0.23:
            z = G.pair(rng, rng.choice(('straddle', 'straddle', 'zero_lo', 'zero_hi')))
            yield {'k': 'zero', 'f': rng.choice(('II', 'NI', 'VV', 'IV', 'VI', 'NV', 'LV', 'ip')), 'x': side(rng, A.regimes(rng)),
                   'z': z[::-1] if rng.random() < .8 else z, 'nk': rng.choice(A.NUMKINDS),
                   'kt': [rng.random() < .35, rng.random() < .35]}
            continue
        if u < 0.29:
            yield {'k': 'chain', 'how': rng.choice(sorted(HOW)), 'x': small(rng), 'w': small(rng), 'y': small(rng),
                   'd': div_side(rng, ['int', 'dec', 'unit']), 'n': rng.randint(0, 4), 'arr': rng.random() < .3,
                   'kt': [rng.random() < .3, rng.random() < .3]}
            continue
        c = A.gen_case(rng, side)
        if c['op'] == 'div':
            c = dict(c, y=flip(rng, c['y']))
        c['kt'] = rng.random() < 0.35
        yield c


def flip(rng, y):
    if not isinstance(y, list):
        return y
    if not isinstance(y[0], list):
        return y[::-1] if rng.random() < .5 else y
    return [flip(rng, v) if isinstance(v, list) else v for v in y]


def small(rng):
    return side(rng, [rng.choice(('int', 'dec', 'unit'))])


# ways to come by an operand: what is computed with it afterwards depends on its ends only
HOW = {
    'pow': lambda X, W, D, n: X ** n,
    'exp': lambda X, W, D, n: np.exp(X),
    'log': lambda X, W, D, n: np.log(abs(X.pro) + 1 if X.a <= X.b else (abs(X.pro) + 1).dual),
    'sin': lambda X, W, D, n: np.sin(X),
    'cos': lambda X, W, D, n: np.cos(X),
    'add': lambda X, W, D, n: X + W,
    'sub': lambda X, W, D, n: X - W,
    'mul': lambda X, W, D, n: X * W,
    'div': lambda X, W, D, n: X / D,
    'radd': lambda X, W, D, n: n - 1.5 + X,
    'rsub': lambda X, W, D, n: n - X,
    'rmul': lambda X, W, D, n: (n - 2) * X,
    'rdiv': lambda X, W, D, n: (n - 2) / D,
    'opp': lambda X, W, D, n: X.opp,
    'opp2': lambda X, W, D, n: X.opp.opp,
    'inv': lambda X, W, D, n: D.inv,
    'dual': lambda X, W, D, n: X.dual,
    'neg': lambda X, W, D, n: -X,
    'pro': lambda X, W, D, n: X.pro,
    'copy': lambda X, W, D, n: X.copy(),
    'set': lambda X, W, D, n: stored(X, W),
    'matmul': lambda X, W, D, n: ip.asinterval([X, W]) @ ip.asinterval([W, X]),
}


def stored(X, W):
    V = ip.Interval([[1, 2], [3, 4]])
    V[1] = X
    return V[1]


def chain(ctx, c):
    X, W, Y, D = [kaucher_typed(c[k]) if t else mk(c[k]) for k, t in (('x', c['kt'][0]), ('w', c['kt'][1]), ('y', False), ('d', False))]
    f = HOW[c['how']]
    if c['arr'] and c['how'] not in ('set', 'matmul', 'log', 'copy'):
        Z = f(ip.asinterval([W, X]), W, ip.asinterval([D, D]), c['n'])[1]
    else:
        Z = f(X, W, D, c['n'])
    z = (plain(Z.a), plain(Z.b))
    if not all(math.isfinite(v) and abs(v) < 1e120 for v in z):
        return
    z = (F(z[0]), F(z[1]))
    y, d = A.fx(c['y']), A.fx(c['d'])
    ctx.event('chains_judged')
    if z[0] > z[1]:
        ctx.event('chains_improper')
    tag = ':after-' + c['how']
    for nm, v, want in (('opp', Z.opp, (-z[0], -z[1])), ('dual', Z.dual, (z[1], z[0])), ('neg', -Z, (-z[1], -z[0])),
                        ('pro', Z.pro, (min(z), max(z)))):
        ctx.expect(plain(v.a) == want[0] and plain(v.b) == want[1], nm + '-wrong' + tag, lambda: '%s: %r -> %r' % (c, Z, v))
    for nm, v, want in (('add', Z + Y, E.kadd(z, y)), ('radd', Y + Z, E.kadd(z, y)), ('mul', Z * Y, E.kmul(z, y)), ('rmul', Y * Z, E.kmul(y, z)),
                        ('square', Z * Z, E.kmul(z, z)), ('sub', Z - Y, E.kadd(z, (-y[1], -y[0]))), ('rsub', Y - Z, E.kadd(y, (-z[1], -z[0]))),
                        ('div', Z / D, E.OPS['div'](z, d)), ('num', 3 * Z, E.kmul(z, (F(3), F(3))))):
        ctx.expect(encl(v, *want) and close(plain(v.a), want[0]) and close(plain(v.b), want[1]), nm + '-wrong' + tag,
                   lambda: '%s: %r -> [%r, %r], exact [%s, %s]' % (c, Z, plain(v.a), plain(v.b), float(want[0]), float(want[1])))
    p = 0 in Z
    ctx.expect(bool(p) == (z[0] <= 0 <= z[1]), 'contains-wrong' + tag, lambda: '%s: 0 in %r is %r' % (c, Z, p))


def div_side(rng, regs):
    p = A.divisor(rng, regimes=regs)
    return p[::-1] if rng.random() < .55 else p


def check(ctx, c):
    if c['k'] == 'law':
        return law(ctx, c)
    if c['k'] == 'zero':
        return zero(ctx, c)
    if c['k'] == 'chain':
        return chain(ctx, c)
    ops = [c['x'], c['y']]
    if c['k'] in ('AV', 'AI', 'VA', 'IA') and not any(imp(o) for o in ops):
        pass
    for label, r, lo, hi in A.run(c, kaucher_typed if c['kt'] else mk):
        if isinstance(lo, float) or isinstance(hi, float):
            continue
        ctx.event('elements_judged')
        if any(imp(o) for o in ops):
            ctx.event('improper_operand')
        elif c['kt']:
            ctx.event('kaucher_typed_proper')
        a, b = plain(r.a), plain(r.b)
        tag = '%s:%s%s' % (label, c['op'], ':kaucher-typed' if c['kt'] else '')
        ctx.expect(E.le(a, lo), 'lower-end-inward:' + tag, lambda: A.show(c, r, lo, hi))
        ctx.expect(E.le(hi, b), 'upper-end-inward:' + tag, lambda: A.show(c, r, lo, hi))
        if label not in ('dot', 'matv', 'matm', 'rmat', 'pdot', 'prod') and max(abs(lo), abs(hi)) < 1e300:
            ctx.expect(close(a, lo), 'lower-end-far:' + tag, lambda: A.show(c, r, lo, hi))
            ctx.expect(close(b, hi), 'upper-end-far:' + tag, lambda: A.show(c, r, lo, hi))
    ctx.distinct((c['k'], c['op'], c['x'], c['y'], c['kt']))


def zero(ctx, c):
    """An interval whose proper projection contains zero has no inverse."""
    X, Z = [kaucher_typed(c[k]) if t else mk(c[k]) for k, t in (('x', c['kt'][0]), ('z', c['kt'][1]))]
    f = c['f']
    V = ip.asinterval([Interval(1, 2), Z]) if 'V' in f else None
    try:
        if f == 'II':
            r = X / Z
        elif f == 'ip':
            r = X
            r /= Z
        elif f == 'NI':
            r = asnum(3, c['nk']) / Z
        elif f == 'VV':
            r = vec([c['x'], [1, 2]]) / V
        elif f == 'IV':
            r = X / V
        elif f == 'VI':
            r = vec([c['x'], [1, 2]]) / Z
        elif f == 'NV':
            r = asnum(3, c['nk']) / V
        else:
            r = [2.5, 3] / V
    except (ValueError, ZeroDivisionError, FloatingPointError):
        ctx.event('zero_divisions_judged')
        return
    ctx.violation('zero-division-accepted:' + f, '%s -> %r' % (c, r))


def close(v, exact):
    """Within a few units in the last place (division goes through a rounded reciprocal)."""
    return abs(F(v) - exact) <= abs(exact) * F(1, 2**49) + F(1, 2**1060)


def imp(o):
    if not isinstance(o, list):
        return False
    if not isinstance(o[0], list):
        return len(o) == 2 and o[0] > o[1]
    return any(imp(v) for v in o)


def encl(r, lo, hi):
    return E.le(plain(r.a), lo) and E.le(hi, plain(r.b))


def law(ctx, c):
    X, Y, D = [kaucher_typed(c[k]) if t else mk(c[k]) for k, t in (('x', c['kt'][0]), ('y', c['kt'][1]), ('d', False))]
    x, y, d = A.fx(c['x']), A.fx(c['y']), A.fx(c['d'])
    small = max(map(abs, x + y)) < 2**60 and A.int_safe('mul', c['x'], c['y'])
    ctx.event('laws_judged')
    ctx.distinct(('law', c['x'], c['y'], c['d'], c['kt']))
    if small:
        p, q = X * Y, Y * X
        ctx.expect(p.a == q.a and p.b == q.b, 'mul-not-commutative', lambda: '%s: %r vs %r' % (c, p, q))
        p, q = X + Y, Y + X
        ctx.expect(p.a == q.a and p.b == q.b, 'add-not-commutative', lambda: '%s: %r vs %r' % (c, p, q))
    # group properties: opposite and inverse elements, the library's own unary operations against exact ends
    for nm, v, want in (('opp', X.opp, (-x[0], -x[1])), ('dual', X.dual, (x[1], x[0])), ('neg', -X, (-x[1], -x[0])),
                        ('pro', X.pro, (min(x), max(x)))):
        ctx.expect(plain(v.a) == want[0] and plain(v.b) == want[1], nm + '-wrong', lambda: '%s: %r' % (c, v))
    s = X + X.opp
    ctx.expect(plain(s.a) == 0 and plain(s.b) == 0, 'opp-not-opposite', lambda: '%s: %r' % (c, s))
    v = D.inv
    want = (1 / d[0], 1 / d[1])
    ctx.expect(encl(v, *want) and close(plain(v.a), want[0]) and close(plain(v.b), want[1]), 'inv-wrong',
               lambda: '%s: [%r,%r]' % (c, v.a, v.b))
    w = D * v
    ctx.expect(E.le(plain(w.a), 1) and E.le(1, plain(w.b)) and close(plain(w.a), F(1)) and close(plain(w.b), F(1)),
               'inv-not-inverse', lambda: '%s: [%r,%r]' % (c, w.a, w.b))
    # subtraction of the opposite undoes addition on exactly representable sums
    if small:
        s = X + Y
        e = E.kadd(x, y)
        if plain(s.a) == e[0] and plain(s.b) == e[1]:
            t = s + Y.opp
            ctx.event('cancellations_judged')
            ctx.expect(plain(t.a) == x[0] and plain(t.b) == x[1], 'cancellation-lost', lambda: '%s: %r' % (c, t))
