"""C13: no input crashes the process, touches memory out of bounds, depends on its contents or leaks."""
import copy
import gc
import inspect
import os
import sys
import ctypes
import ctypes.util
import decimal
import fractions
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from .. import actions as AC
from ..lib import ip, mk, vec

ID = 'C13'
RULE = ('one public call with regular arguments, or one method, operator, constructor or function with hostile arguments, made in a plain process and in one with '
        'the extension built under address and undefined-behaviour sanitizers with filled memory; deaths, reports and outcomes compared, reference counts and allocations watched')
N = {'quick': 560, 'thorough': 30000}
WALL = {'quick': 300, 'thorough': 700}
HANG_JUDGED = False
CASE_TIMEOUT = 60
libm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')


def required(tier):
    return {'workers_finished': 8, 'outcomes_compared': 1500, 'hostile_calls': 2500, 'hostile_accepted': 600, 'regular_calls': 2800, 'extreme_calls': 300, 'leak_runs': 150, 'refcounts_compared': 150}


class EvilFloat:
    def __float__(self):
        raise RuntimeError('float')
    __int__ = __index__ = __float__


class StrFloat:
    def __float__(self):
        return 'x'


class EvilCmp:
    def __lt__(self, o):
        raise RuntimeError('cmp')
    __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __lt__
    __hash__ = None


class EvilEnds:
    a = property(lambda s: 1 / 0)
    b = 'x'
    shape = (2,)


class EvilLen:
    def __len__(self):
        return 5

    def __getitem__(self, i):
        if i > 2:
            raise KeyError(i)
        return i


class BigLen(EvilLen):
    def __len__(self):
        return 2 ** 62


class SubFloat(float):
    def __add__(self, o):
        return NotImplemented
    __radd__ = __mul__ = __rmul__ = __add__


def pool():
    K, C = ip.KaucherArithmetic, ip.ClassicalArithmetic
    arr = np.empty((2,), dtype=object)
    arr[:] = [mk([1, 2]), mk([3, 1])]
    rec = []
    rec.append(rec)
    return [None, True, False, 0, 1, -1, 2, 3, 7, 2 ** 31, 2 ** 63, -2 ** 63, 10 ** 40, 10 ** 400, 1.5, -2.5, 1e308, -1e-308, 5e-324, float('nan'), float('inf'), float('-inf'), -0.0, 1 + 2j,
            'x', '1', '', b'1', [], [1], [1, 2], [2, 1], [[1, 2], [3, 4]], [[1, 2], [3]], [[]], [None, None], (), (1, 2), {}, {1: 2}, {1, 2}, object(), rec,
            np.array([]), np.zeros((0, 2)), np.array(1.0), np.array([1, 2]), np.array([[1., 2.], [3., 4.]]), np.array(['a', 'b']), np.array([None, 1], dtype=object), arr,
            np.array([1 + 1j]), np.float32(1.1), np.float16(2), np.longdouble(1) / 3, np.int8(-128), np.uint64(2 ** 64 - 1), np.bool_(True), np.datetime64('2020-01-01'),
            decimal.Decimal('1.1'), fractions.Fraction(1, 3), EvilFloat(), StrFloat(), EvilCmp(), EvilEnds(), EvilLen(), SubFloat(2.), range(3), iter([1, 2]), slice(None), slice(0, 1), Ellipsis,
            mk([1, 2]), mk([2, 1]), mk([-1, 3]), mk([0, 0]), mk([float('-inf'), float('inf')]), ip.Interval(float('nan'), float('nan')), K(1, 2), C(1, 2), K(2.5, 1), vec([[1, 2], [3, 4]]),
            vec([[1, 2], [4, 3], [0, 0]]), ip.Interval([[[1, 2], [3, 4]], [[0, 1], [-1, 1]]]), ip.Interval, K, len, lambda x: x, lambda *a: 1 / 0, type, NotImplemented,
            ip.LinearConstraint(np.array([[1., 1.]]), ub=np.array([1.]))]


NPOOL = len(pool())
SAFE_DEL = {'__class__', '__init_subclass__', '__subclasshook__', '__new__', '__getattribute__', '__getattr__'}
SCALAR = sorted(set(dir(ip.KaucherArithmetic)) - SAFE_DEL)
ARRAY = sorted(set(dir(ip.ArrayInterval)) - SAFE_DEL)
FUNCS = sorted(n for n in dir(ip) if not n.startswith('_') and callable(getattr(ip, n)) and not inspect.ismodule(getattr(ip, n)))
SUBS = sorted('%s.%s' % (m, n) for m in ('linear', 'nonlinear') for n in dir(getattr(ip, m)) if not n.startswith('_') and callable(getattr(getattr(ip, m), n))
              and not inspect.ismodule(getattr(getattr(ip, m), n)) and getattr(getattr(getattr(ip, m), n), '__module__', '').startswith('intvalpy'))
HUGE = {'zeros', 'full', 'eye', 'Neumaier_system', 'Shary_system', 'Toft_system', 'IPlot'}
TARGETS = [['s', n] for n in SCALAR] * 2 + [['t', n] for n in ARRAY] + [['f', n] for n in FUNCS] + [['f', n] for n in SUBS] + [['c', n] for n in ('K', 'C')] * 25


def gen(rng, tier, shard, nshards):
    n = N[tier] * 2
    for i in range(n):
        u = rng.random()
        if u < .45:
            yield {'k': 'hostile', 't': rng.choice(TARGETS), 'o': rng.randrange(5), 'a': [rng.randrange(NPOOL) for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3)))]}
        elif u < .52:
            yield {'k': 'extreme', 'a': AC.gen_action(rng, HEAVY), 'e': [[rng.random(), rng.choice(EXTREME)] for _ in range(rng.choice((1, 1, 2, 4)))]}
        elif u < .95:
            yield {'k': 'call', 'a': AC.gen_action(rng, AC.LIGHT) if rng.random() < .7 else AC.gen_action(rng)}
        else:
            yield {'k': 'leak', 'a': AC.gen_action(rng, AC.LIGHT) if rng.random() < .7 else AC.gen_action(rng)}


HEAVY = ('solver', 'solver', 'solver', 'pss', 'pss', 'fun', 'opt', 'draw', 'fit', 'glob', 'nonlin')
# as text: the cases are kept as JSON
EXTREME = ('inf', '-inf', 'nan', '1e300', '-1e300', '1e308', '-1e308', '1e-300', '-5e-324', '1e150', '1e30', '0', '1e16')


def extreme(a, changes):
    """The action with some of its numbers replaced."""
    spots = []

    def walk(v, top):
        for i, w in (v.items() if isinstance(v, dict) else enumerate(v)):
            if top and i not in ('A', 'b', 'x', 'X', 'y', 'w', 'r', 'box', 'bounds'):
                continue
            if isinstance(w, (list, dict)):
                walk(w, False)
            elif isinstance(w, (int, float)) and not isinstance(w, bool):
                spots.append((v, i))
    a = copy.deepcopy(a)
    walk(a, True)
    for u, value in changes:
        if spots:
            v, i = spots[int(u * len(spots))]
            v[i] = float(value)
    return a


def sane(ctx, c):
    r = mk([1, 2]) * mk([3, 5]) + 1
    ctx.expect(r.a == 4 and r.b == 11, 'damaged-state', lambda: '%s: 1+[1,2]*[3,5] is %s' % (c, r))
    if libm.fegetround() != 0:
        ctx.violation('rounding-mode-left', '%s' % (c,))
        libm.fesetround(0)


def hostile(ctx, c):
    objs = pool()
    kind, name = c['t']
    args = [objs[i] for i in c['a']]
    if kind == 's':
        subject = [mk([1, 2]), ip.KaucherArithmetic(3, 1.5), ip.ClassicalArithmetic(-1, 2), ip.Interval(float('nan'), float('nan')), mk([0, float('inf')])][c['o']]
    elif kind == 't':
        subject = [vec([[1, 2], [3, 4]]), ip.Interval([[[1, 2], [3, 4]], [[0, 1], [-1, 1]]]), vec([[1, 1]]), ip.zeros((2, 3)), vec([[2, 1], [0, 0], [-1, 1]])][c['o']]
    ctx.event('hostile_calls')
    try:
        if kind == 'c':
            r = {'K': ip.KaucherArithmetic, 'C': ip.ClassicalArithmetic}[name](*args)
            r = [r + 1, r * r, r.mid, r.dual, repr(r)]
        elif kind == 'f':
            if name in HUGE:
                args = [q if not isinstance(q, (int, float, np.integer, np.floating)) or isinstance(q, bool) or -50 <= q <= 50 else 3 for q in args if not isinstance(q, (BigLen,))]
            f = ip
            for p in name.split('.'):
                f = getattr(f, p)
            kw = {}
            if name.split('.')[-1] in ('IntLinIncR2', 'IntLinIncR3', 'lineqs', 'lineqs3D'):
                kw['show'] = False
                args = args[:2]
            if name == 'precision':
                return
            r = f(*args, **kw)
        else:
            f = getattr(subject, name)
            r = f(*args) if callable(f) else f
        ctx.event('hostile_accepted')
        # use what came back
        for g in (repr, lambda v: v + v, lambda v: v.a, hash):
            try:
                g(r)
            except Exception:
                pass
        return ['ok']
    except Exception as e:
        return ['raised', type(e).__name__]


def leak(ctx, a):
    ctx.event('leak_runs')
    f, args = AC.prepare(a)
    counts = lambda: [sys.getrefcount(v) for v in args]
    try:
        f(*args)
    except Exception:
        pass
    gc.collect()
    before = counts()
    for _ in range(3):
        try:
            f(*args)
        except Exception:
            pass
    plt.close('all')
    gc.collect()
    after = counts()
    ctx.event('refcounts_compared')
    # things kept once (a cache, say) do not grow with every call
    ctx.expect(all(q - p < 3 for p, q in zip(before, after)), 'argument-kept-by-every-call:' + AC.label(a), lambda: '%s: %s -> %s' % (a, before, after))

    def run(n):
        for _ in range(n):
            f, args = AC.prepare(a)
            try:
                f(*args)
            except Exception:
                pass
        del f, args
        plt.close('all')
        gc.collect()
        return sys.getallocatedblocks()
    if ctx.mode != 'plain':
        return
    n = 40 if a['k'] in AC.LIGHT else 6
    run(n)
    rounds = [run(n) for _ in range(4)]
    grow = [q - p for p, q in zip(rounds, rounds[1:])]
    ctx.event('allocations_compared')
    if min(grow) >= n * .9:
        # caches and free lists fill up slower and slower; a leak goes on at the same pace
        ctx.event('long_leak_runs')
        rounds = [run(n) for _ in range(40)][-9:]
        grow = [q - p for p, q in zip(rounds, rounds[1:])]
        ctx.expect(min(grow) < n * .9, 'memory-grows-with-every-call:' + AC.label(a), lambda: '%s: blocks %s over rounds of %d calls' % (a, rounds, n))


def check(ctx, c):
    if c['k'] == 'hostile':
        r = hostile(ctx, c)
        if libm.fegetround() != 0:
            libm.fesetround(0)          # judged by C08
    elif c['k'] == 'extreme':
        # only that the process survives is judged
        ctx.event('extreme_calls')
        AC.outcome(extreme(c['a'], c['e']))
        if libm.fegetround() != 0:
            libm.fesetround(0)
    elif c['k'] == 'leak':
        leak(ctx, c['a'])
        return
    else:
        ctx.event('regular_calls')
        r = AC.outcome(c['a'])
        ctx.outcomes[ctx.index] = ({'k': 'call', **c}, repr(r))
        ctx.distinct(c['a'])
    if plt.get_fignums():
        plt.close('all')
    sane(ctx, c)
