"""Seeded generators of endpoints, intervals and interval systems.  Everything is JSON-able."""
import math
import random

SPECIAL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, 0.1, 1 / 3, 1e-300, 1e300, 5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, math.pi, -math.pi, math.e, 1 + 2**-52, 1 - 2**-53, 2.0**53, 2.0**53 + 2]
MAXF = 1.7976931348623157e308


def num(rng, regime=None):
    r = regime or rng.choice(('int', 'small', 'unit', 'dec', 'log', 'dyad', 'ulp', 'special', 'mid', 'bigint'))
    if r == 'int':
        return rng.randint(-12, 12)
    if r == 'bigint':
        return rng.choice((-1, 1)) * rng.randint(1, 2**rng.randint(4, 53))
    if r == 'small':
        return float(rng.randint(-12, 12))
    if r == 'unit':
        return rng.uniform(-1, 1)
    if r == 'dec':
        return round(rng.uniform(-20, 20), rng.randint(0, 3))
    if r == 'mid':
        return rng.uniform(-1000, 1000)
    if r == 'log':
        return rng.choice((-1, 1)) * rng.uniform(1, 2) * 2.0**rng.randint(-60, 60)
    if r == 'wide':
        return rng.choice((-1, 1)) * math.ldexp(rng.uniform(1, 2), rng.randint(-1074, 1023))
    if r == 'dyad':
        return rng.randint(-64, 64) / 2.0**rng.randint(0, 6)
    if r == 'ulp':
        x = num(rng, rng.choice(('small', 'dec', 'log')))
        for _ in range(rng.randint(0, 3)):
            x = math.nextafter(x, rng.choice((-math.inf, math.inf)))
        return x
    if r == 'special':
        return rng.choice((-1, 1)) * rng.choice(SPECIAL)
    raise ValueError(r)


def pair(rng, sign=None, regimes=None):
    """A proper interval [lo, hi]; sign picks its position relative to zero."""
    s = sign or rng.choice(('any', 'any', 'pos', 'neg', 'straddle', 'zero_lo', 'zero_hi', 'thin', 'near'))
    g = (lambda: num(rng, rng.choice(regimes))) if regimes else (lambda: num(rng))
    if s == 'thin':
        x = g()
        return [x, x]
    if s == 'near':
        x = float(g())
        y = x
        for _ in range(rng.randint(1, 4)):
            y = math.nextafter(y, MAXF)
        return [x, y]
    x, y = g(), g()
    if s == 'pos':
        x, y = abs(x), abs(y)
    elif s == 'neg':
        x, y = -abs(x), -abs(y)
    elif s == 'straddle':
        x, y = -abs(x), abs(y)
    elif s == 'zero_lo':
        x, y = rng.choice((0, 0.0)), abs(y)
    elif s == 'zero_hi':
        x, y = -abs(x), rng.choice((0, 0.0))
    return [x, y] if x <= y else [y, x]


def improper(rng, **kw):
    x, y = pair(rng, **kw)
    return [y, x]


def points(rng, iv, n=3):
    """Endpoints plus interior doubles of a proper interval."""
    a, b = iv
    out = [a, b]
    for _ in range(n):
        t = rng.random()
        p = float(a) * (1 - t) + float(b) * t
        if not (a <= p <= b):
            p = a
        out.append(p)
    return out
