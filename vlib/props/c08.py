"""C08: calls leave the floating-point environment and the ambient library state as they found them."""
import ctypes
import ctypes.util
import decimal
import gc
import os
import random
import signal
import sys
import threading
import warnings
import mpmath
import numpy as np
import cvxopt.solvers
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from .. import actions as AC
from ..lib import ip

ID = 'C08'
RULE = ('one public call (returning or raising) with the rounding mode, the behaviour of basic arithmetic, numpy error state, mpmath precision, '
        'warning filters, random generators, solver options and figures read before and after, under each ambient rounding mode')
N = {'quick': 700, 'thorough': 25000}
CASE_TIMEOUT = 60
MODES = {'nearest': 0, 'down': 0x400, 'up': 0x800, 'zero': 0xc00}       # x86-64 glibc
libm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')


def required(tier):
    return {'returned': 4000, 'raised': 800, 'mode_nearest': 3000, 'mode_up': 800, 'mode_down': 800, 'mode_zero': 800, 'solver_calls': 200,
            'same_arithmetic_in_mode': 300, 'callback_raised': 20, 'interrupted': 100}


def gen(rng, tier, shard, nshards):
    for i in range(N[tier]):
        if rng.random() < .5:
            a = AC.gen_action(rng)
        else:
            a = AC.gen_action(rng, AC.LIGHT)
        if a['k'] not in AC.LIGHT and rng.random() < .3:
            yield {'k': a['k'], 'a': a, 'modes': ['nearest'], 'interrupt': int(10 ** rng.uniform(0, 3))}
            continue
        yield {'k': a['k'], 'a': a, 'modes': ['nearest'] if a['k'] not in AC.LIGHT + ('fun', 'ralg', 'solver') else ['nearest', rng.choice(('up', 'down', 'zero')), rng.choice(('up', 'down', 'zero'))]}


ONE, TINY, THREE, SUB, MIN = 1.0, 2.0 ** -60, 3.0, 5e-324, 2.2250738585072014e-308
V = np.array([1.0, -1.0])


def behaviour():
    """What basic arithmetic does now: rounding of Python and numpy operations, treatment of subnormals."""
    return (ONE + TINY, ONE - TINY, -ONE - TINY, -ONE + TINY, ONE / THREE, -ONE / THREE, MIN * .5, SUB * 1.5, SUB + SUB,
            tuple(V + TINY), tuple(V / THREE), tuple(V * MIN * .5))


def ambient():
    return {
        'np.geterr': np.geterr(), 'mp': (mpmath.mp.prec, mpmath.mp.dps), 'filters': list(warnings.filters),
        'random': hash(random.getstate()), 'np.random': hash(repr(np.random.get_state()[1][:8].tolist()) + repr(np.random.get_state()[2])),
        'decimal': (decimal.getcontext().prec, decimal.getcontext().rounding), 'recursion': sys.getrecursionlimit(), 'cwd': os.getcwd(),
        'cvxopt': repr(sorted((k, repr(v)) for k, v in cvxopt.solvers.options.items())), 'figures': plt.get_fignums(),
        'backend': matplotlib.rcParams['figure.figsize'], 'switch': sys.getswitchinterval(), 'gc': gc.isenabled(),
        'sigint': signal.getsignal(signal.SIGINT), 'extended': ip.precision.extendedPrecisionQ, 'fptraps': libm.fegetexcept(),
        'threads': threading.active_count(), 'environ': hash(frozenset(os.environ.items())), 'printoptions': repr(np.get_printoptions()),
    }


def expected(mode):
    libm.fesetround(MODES[mode])
    try:
        return libm.fegetround(), behaviour()
    finally:
        libm.fesetround(0)


REF = None
SAFE = ('+', '-', '*', '/')


def setup(ctx):
    global REF
    REF = {m: expected(m) for m in MODES}
    assert len({v for v in REF.values()}) == 4, 'rounding modes are not observable here'


class Interrupted(BaseException):
    pass


def interrupted(ctx, c):
    """The call is cut short by an exception at the n-th line executed inside the package."""
    a = c['a']
    f, args = AC.prepare(a)
    left = [c['interrupt']]

    def line(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise Interrupted()
        return line

    def trace(frame, event, arg):
        if '/intvalpy/' not in frame.f_code.co_filename:
            return None
        return line

    before = ambient()
    cut = False
    try:
        sys.settrace(trace)
        f(*args)
    except Interrupted:
        cut = True
    except Exception:
        pass
    finally:
        sys.settrace(None)
    got = libm.fegetround(), behaviour()
    libm.fesetround(0)
    after = ambient()
    ctx.event('interrupted' if cut else 'finished_before_interrupt')
    name = AC.label(a)
    ctx.expect(got == REF['nearest'], 'rounding-mode:after-interrupt:%s' % name, lambda: '%s: %s' % (c, got))
    diff = [k for k in before if before[k] != after[k]]
    ctx.expect(not diff, 'ambient-state:after-interrupt:%s:%s' % (diff and diff[0], name), lambda: '%s changed %s' % (c, diff))


def check(ctx, c):
    a = c['a']
    if 'interrupt' in c:
        interrupted(ctx, c)
        return
    name = AC.label(a)
    if c['modes'] == ['nearest']:
        ctx.event('solver_calls')
    base = None
    for mode in c['modes']:
        f, args = AC.prepare(a)
        with warnings.catch_warnings():
            warnings.simplefilter('default')
            warnings.filterwarnings('ignore')
            before = ambient()
            libm.fesetround(MODES[mode])
            try:
                try:
                    r, err = f(*args), None
                except Exception as e:
                    r, err = None, e
                got = libm.fegetround(), behaviour()
            finally:
                libm.fesetround(0)
            after = ambient()
        ctx.event('mode_' + mode)
        ctx.event('raised' if err is not None else 'returned')
        if isinstance(err, AC.Boom):
            ctx.event('callback_raised')
        how = 'after-exception' if err is not None else 'after-return'
        ctx.expect(got[0] == REF[mode][0], 'rounding-mode:%s:%s' % (how, name), lambda: '%s under %s: rounding mode %r -> %r (%s)' % (a, mode, REF[mode][0], got[0], err))
        ctx.expect(got[1] == REF[mode][1], 'arithmetic:%s:%s' % (how, name), lambda: '%s under %s: arithmetic %r -> %r (%s)' % (a, mode, REF[mode][1], got[1], err))
        diff = [k for k in before if before[k] != after[k]]
        ctx.expect(not diff, 'ambient-state:%s:%s' % (diff and diff[0], name), lambda: '%s changed %s: %s -> %s' % (a, diff, [before[k] for k in diff], [after[k] for k in diff]))
        if a['k'] in ('bin', 'iop') and a['o'] in SAFE and {a['x']['t'], a['y']['t']} <= {'s', 'a'}:
            res = [AC.canon(r), err and type(err).__name__]
            if base is None:
                base = res
            else:
                # the ends are rounded in directions of their own, so the ambient mode must not matter
                ctx.event('same_arithmetic_in_mode')
                ctx.expect(res == base, 'ambient-mode-changes-arithmetic:%s' % name, lambda: '%s nearest %s, %s %s' % (a, base, mode, res))
    ctx.distinct(a)
