"""Exact oracles: rational interval (Kaucher) arithmetic, directed comparison with doubles, ulp distance."""
import math
from fractions import Fraction as F

INF = math.inf


def isnan(x):
    return isinstance(x, float) and x != x


def fr(x):
    """A finite endpoint as a Fraction; infinities stay floats."""
    if isinstance(x, float) and math.isinf(x):
        return x
    if isinstance(x, (int, float)):
        return F(x)
    return F(float(x))


def _mul(p, q):
    """Product on the extended reals with 0 * inf = 0 (the interval convention)."""
    if p == 0 or q == 0:
        return F(0)
    if isinstance(p, float) or isinstance(q, float):
        s = (1 if p > 0 else -1) * (1 if q > 0 else -1)
        return INF * s
    return p * q


def neg(x):
    return -x


def _pos(x):
    return x if x > 0 else F(0)


def _negp(x):
    return -x if x < 0 else F(0)


def _sub(p, q):
    if isinstance(p, float):
        return p
    if isinstance(q, float):
        return -q
    return p - q


def _add(p, q):
    if isinstance(p, float):
        return p
    if isinstance(q, float):
        return q
    return p + q


def kmul(x, y):
    """Kaucher product (Lakeyev's formula) of pairs of exact endpoints."""
    a, b = x
    c, d = y
    lo = _sub(max(_mul(_pos(a), _pos(c)), _mul(_negp(b), _negp(d))),
              max(_mul(_pos(b), _negp(c)), _mul(_negp(a), _pos(d))))
    hi = _sub(max(_mul(_pos(b), _pos(d)), _mul(_negp(a), _negp(c))),
              max(_mul(_pos(a), _negp(d)), _mul(_negp(b), _pos(c))))
    return lo, hi


def kadd(x, y):
    return _add(x[0], y[0]), _add(x[1], y[1])


def kneg(x):
    return -x[1], -x[0]


def ksub(x, y):
    return kadd(x, kneg(y))


def _inv(v):
    return F(0) if isinstance(v, float) else 1 / v


def krecip(y):
    return _inv(y[1]), _inv(y[0])


def kdiv(x, y):
    return kmul(x, krecip(y))


OPS = {'add': kadd, 'sub': ksub, 'mul': kmul, 'div': kdiv}


def le(p, q):
    """p <= q for doubles / ints / Fractions / infinities, exactly."""
    if isnan(p) or isnan(q):
        return False
    return p <= q      # Python compares int/float/Fraction exactly


MAXD = F(1.7976931348623157e308)
TINY = F(5e-324)


def rd(x):
    """Largest double <= exact x."""
    if isinstance(x, float):
        return x
    if x > MAXD:
        return 1.7976931348623157e308
    if x < -MAXD:
        return -INF
    f = float(x)
    return math.nextafter(f, -INF) if F(f) > x else f


def ru(x):
    if isinstance(x, float):
        return x
    return -rd(-x)


def ulps_below(v, exact):
    """How many doubles v lies below the tightest double lower bound of `exact` (negative: above)."""
    return order(rd(exact)) - order(v)


def ulps_above(v, exact):
    return order(v) - order(ru(exact))


def order(d):
    """Doubles in order as integers."""
    import struct
    d = float(d)
    i = struct.unpack('<q', struct.pack('<d', d))[0]
    return i if i >= 0 else -(i & 0x7fffffffffffffff)
