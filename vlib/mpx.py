"""Exact ranges of elementary functions by high-precision evaluation."""
import math
import mpmath

M = mpmath.MPContext()
M.prec = 1500


def mp(v):
    return M.mpf(v)


def rng_exp(x):
    f = lambda v: M.mpf(0) if v == -math.inf else (M.inf if v == math.inf else M.exp(M.mpf(v)))
    return f(x[0]), f(x[1])


def rng_log(x):
    f = lambda v: -M.inf if v <= 0 else (M.inf if v == math.inf else M.log(M.mpf(v)))
    if x[1] < 0:
        return None
    return f(x[0]), f(x[1])


def rng_sqrt(x):
    if x[1] < 0:
        return None
    return M.sqrt(M.mpf(max(x[0], 0))), M.sqrt(M.mpf(x[1]))


def _trig(x, f, off):
    a, b = M.mpf(x[0]), M.mpf(x[1])
    tp = 2 * M.pi
    mx = M.ceil((a - off) / tp) <= M.floor((b - off) / tp)
    mn = M.ceil((a - off - M.pi) / tp) <= M.floor((b - off - M.pi) / tp)
    va, vb = f(a), f(b)
    return (M.mpf(-1) if mn else min(va, vb)), (M.mpf(1) if mx else max(va, vb))


def rng_sin(x):
    return _trig(x, M.sin, M.pi / 2)


def rng_cos(x):
    return _trig(x, M.cos, M.mpf(0))


RANGE = {'exp': rng_exp, 'log': rng_log, 'sqrt': rng_sqrt, 'sin': rng_sin, 'cos': rng_cos}


def rng_pow(x, p):
    """Range of t**p, t in a proper interval x >= 0, real p != 0."""
    f = lambda v: (M.mpf(0) if p > 0 else M.inf) if v == 0 else M.mpf(v) ** M.mpf(p)
    u, v = f(x[0]), f(x[1])
    return (u, v) if p > 0 else (v, u)
