"""C01: containment of + - * / on proper intervals."""
from .. import exact as E, gen as G, arith as A
from ..lib import mk, vec, ip, asnum, plain

ID = 'C01'
RULE = ('one generated operation (form, operator, operand values) whose every result element was compared, '
        'as exact rationals, with the exact range of the operation over the operands')
N = {'quick': 32000, 'thorough': 600000}


def required(tier):
    return {'elements_judged': 20000, 'zero_divisions_judged': 500, 'inexact_ends': 5000}


def probes():
    for x, y in (([2**27 + 1, 2**27 + 3], [2**27 + 5, 2**27 + 7]), ([94906267, 94906269], [94906271, 94906273])):
        yield {'k': 'int53', 'op': 'mul', 'x': x, 'y': y}
    yield {'k': 'II', 'op': 'div', 'x': [1, 2], 'y': [3, 3]}
    for nk in A.NUMKINDS:
        yield {'k': 'IN', 'op': 'div', 'x': [1, 2], 'y': 3, 'nk': nk}
        yield {'k': 'NI', 'op': 'div', 'x': 1, 'y': [3, 7], 'nk': nk}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        if rng.random() < 0.06:
            x = G.pair(rng)
            z = G.pair(rng, rng.choice(('straddle', 'zero_lo', 'zero_hi')))
            k = rng.choice(('II', 'NI', 'VV', 'IN', 'NV'))
            yield {'k': 'zero', 'f': k, 'x': x, 'z': z, 'nk': rng.choice(A.NUMKINDS)}
        else:
            yield A.gen_case(rng)


def check(ctx, c):
    if c['k'] == 'zero':
        return zero(ctx, c)
    for label, r, lo, hi in A.run(dict(c, k='II') if c['k'] == 'int53' else c):
        ctx.event('elements_judged')
        ctx.event('form_' + label)
        a, b = plain(r.a), plain(r.b)
        suffix = ':int53' if c['k'] == 'int53' else ''
        if isinstance(lo, float) or isinstance(hi, float):
            continue
        if a != lo or b != hi:
            ctx.event('inexact_ends')
        ctx.expect(E.le(a, lo), 'lower-end-lost:%s:%s%s' % (label, c['op'], suffix), lambda: A.show(c, r, lo, hi))
        ctx.expect(E.le(hi, b), 'upper-end-lost:%s:%s%s' % (label, c['op'], suffix), lambda: A.show(c, r, lo, hi))
    ctx.distinct((c['k'], c['op'], c['x'], c['y']))


def zero(ctx, c):
    k = c['f']
    X, Z = mk(c['x']), mk(c['z'])
    try:
        if k == 'II':
            r = X / Z
        elif k == 'NI':
            r = asnum(3, c['nk']) / Z
        elif k == 'VV':
            r = vec([c['x'], [1, 2]]) / vec([[1, 2], c['z']])
        elif k == 'NV':
            r = asnum(3, c['nk']) / vec([[1, 2], c['z']])
        else:
            r = X / asnum(0, c['nk'])
    except (ValueError, ZeroDivisionError, FloatingPointError):
        ctx.event('zero_divisions_judged')
        return
    ctx.violation('zero-division-accepted:' + k, '%s -> %r' % (c, r))
