"""Shared access to the package under test and small helpers for the property modules."""
import math
import numpy as np
import intvalpy as ip
from fractions import Fraction as F

from . import exact as E

Interval = ip.Interval


def mk(p):
    """Scalar interval with the given ends, improper ones kept."""
    return Interval(p[0], p[1], sortQ=False)


def is_array(x):
    return isinstance(x, ip.ArrayInterval)


def ends(x):
    return x.a, x.b


def plain(v):
    """A Python number from whatever numeric scalar an attribute returned."""
    if isinstance(v, (np.generic,)):
        return v.item()
    return v


def arr(lo, hi):
    """Array interval from nested lists of ends (improper kept)."""
    return Interval(np.array(lo), np.array(hi), sortQ=False)


def vec(pairs):
    return Interval(np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs]), sortQ=False)


def mat(rows):
    return Interval(np.array([[p[0] for p in r] for r in rows]), np.array([[p[1] for p in r] for r in rows]), sortQ=False)


def tolist(x):
    """Ends of an interval or array interval as plain nested lists."""
    if is_array(x):
        return [tolist(el) for el in x]
    if isinstance(x, np.ndarray):
        return [tolist(el) for el in x]
    return [plain(x.a), plain(x.b)]


def bits(x):
    """Exact identity of ends (nan-safe, sign of zero ignored)."""
    out = []
    for v in _flat(tolist(x)):
        v = float(v)
        out.append('nan' if v != v else (v + 0.0))
    return out


def _flat(x):
    if isinstance(x, list):
        for y in x:
            yield from _flat(y)
    else:
        yield x


NARROW = {'f4': np.float32, 'f2': np.float16, 'u1': np.uint8, 'i1': np.int8, 'u2': np.uint16, 'i4': np.int32, 'u8': np.uint64,
          'u4': np.uint32}


def fits(k, values):
    """Whether the numpy type k holds all the values exactly."""
    with np.errstate(all='ignore'):
        for v in values:
            if k[0] != 'f':
                i = np.iinfo(NARROW[k])
                if v != int(v) or not int(i.min) <= v <= int(i.max):
                    return False
            elif float(NARROW[k](v)) != v:
                return False
    return True


def asnum(v, kind):
    if kind in NARROW:
        return NARROW[kind](v)
    if kind == 'npf':
        return np.float64(v)
    if kind == 'npi':
        return np.int64(v)
    if kind == 'f':
        return float(v)
    return v
