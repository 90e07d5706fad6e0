"""C12: calls leave their arguments alone, results own their storage, and array histories follow the reference model."""
import copy
import itertools
import numpy as np
from .. import actions as AC
from ..lib import ip, mk

ID = 'C12'
RULE = ('one public call whose arguments were compared before and after and with whose result no storage is shared, or one history of '
        'assignments, slices, item assignments, deletions, copies and in-place operations on interval arrays against a reference model')
N = {'quick': 500, 'thorough': 14000}
CASE_TIMEOUT = 60


def required(tier):
    return {'calls': 1500, 'arguments_compared': 3000, 'results_overwritten': 600, 'arguments_overwritten': 600, 'history_steps': 15000,
            'states_compared': 60000, 'item_assignments': 2000, 'deletions': 700, 'inplace': 1000, 'aliases': 500, 'rejected_steps': 200}


def gen(rng, tier, shard, nshards):
    for i in range(N[tier]):
        if rng.random() < .55:
            a = AC.gen_action(rng) if rng.random() < .5 else AC.gen_action(rng, AC.LIGHT)
            yield {'k': 'call', 'a': a}
        else:
            yield {'k': 'hist', 'ops': [op(rng) for _ in range(rng.randint(10, 30))]}


def small(rng):
    p = sorted((rng.choice((0, 1, 2, -1, -3, .5, 2.25, -4.75)), rng.choice((0, 1, 2, 5, -1, 3.5, .25))))
    return p if rng.random() < .85 else p[::-1]


def op(rng):
    o = rng.choice(('new', 'alias', 'copy', 'deepcopy', 'get', 'setitem', 'setitem', 'setitem', 'setarr', 'setnum', 'setlist', 'delitem', 'delitem',
                    'inplace', 'inplace', 'bin', 'neg', 'T', 'reshape', 'bad', 'selfassign', 'elem', 'iterate', 'conv'))
    return {'o': o, 'x': rng.randrange(4), 'y': rng.randrange(4), 'z': rng.randrange(4), 's': rng.choice(([1], [2], [3], [4], [2, 2], [2, 3], [3, 1], [2, 2, 2])),
            'v': [small(rng) for _ in range(8)], 'i': [rng.randint(-5, 4) for _ in range(3)], 'key': rng.choice(('int', 'slice', 'tuple', 'rowslice', 'step', 'list', 'mask', 'ell', 'all')),
            'op': rng.choice(('+', '-', '*'))}


# ---------------------------------------------------------------------- arguments and results

def overwrite(r):
    """Replace every element of a result in place; True when there was something to overwrite."""
    done = False
    if isinstance(r, ip.ArrayInterval):
        if r.data.size:
            r.data[...] = mk([-777., 778.])
            done = True
    elif isinstance(r, np.ndarray):
        if r.size and r.flags.writeable:
            r[...] = mk([-777., 778.]) if r.dtype == object else (True if r.dtype == bool else 99)
            done = True
    elif isinstance(r, (list, tuple)):
        for e in r:
            done |= overwrite(e)
    elif isinstance(r, dict):
        for e in r.values():
            done |= overwrite(e)
    return done


def identity_result(a):
    """Calls that are documented or natural to return their argument, or a view of it."""
    return (a['k'] == 'util' and a['n'] == 'asinterval') or (a['k'] == 'attr' and a['n'] == 'data') or (a['k'] == 'nonlin' and a['it'] == 0) or \
        a['k'] == 'make' or (a['k'] == 'util' and a['x']['t'] in ('n', 'nd'))


def call(ctx, a):
    name = AC.label(a)
    f, args = AC.prepare(a)
    before = AC.canon(args)
    ctx.event('calls')
    try:
        r, err = f(*args), None
    except Exception as e:
        r, err = None, e
    ctx.event('arguments_compared', len(args))
    if not ctx.expect(AC.canon(args) == before, 'argument-changed:%s%s' % (name, ':raised' if err is not None else ''), lambda: '%s: %s -> %s' % (a, before, AC.canon(args))):
        return
    if err is not None or identity_result(a):
        return
    res = AC.canon(r)
    for v in args:
        if overwrite(v):
            ctx.event('arguments_overwritten')
    ctx.expect(AC.canon(r) == res, 'result-follows-argument:%s' % name, lambda: '%s: %s -> %s' % (a, res, AC.canon(r)))
    f, args = AC.prepare(a)
    r = f(*args)
    if overwrite(r):
        ctx.event('results_overwritten')
        ctx.expect(AC.canon(args) == before, 'argument-follows-result:%s' % name, lambda: '%s: %s -> %s' % (a, before, AC.canon(args)))
        # the same call again: nothing inside the package was the overwritten storage
        f, args = AC.prepare(a)
        again = AC.canon(f(*args))
        ctx.expect(again == res, 'result-kept-inside:%s' % name, lambda: '%s: %s then %s' % (a, res, again))


# ---------------------------------------------------------------------- histories

def key(o, shape):
    i, j, k = o['i']
    kd = o['key']
    if kd == 'int':
        return i
    if kd == 'slice':
        return slice(min(i, j), max(i, j) + 1)
    if kd == 'step':
        return slice(None, None, -1 if i < 0 else 2)
    if kd == 'all':
        return slice(None)
    if kd == 'tuple':
        return tuple(o['i'][:len(shape)])
    if kd == 'rowslice':
        return (slice(None),) * (len(shape) - 1) + (i,)
    if kd == 'list':
        return [i, j]
    if kd == 'mask':
        return np.array([(i + q * j) % 2 == 0 for q in range(shape[0])])
    return Ellipsis


def elem(e):
    return AC.canon(e)


class Model:
    """A reference: a mutable cell holding a numpy object array of canonical elements built by scalar operations."""

    def __init__(self, data):
        self.d = data


def scal(o, x, y):
    return x + y if o == '+' else x - y if o == '-' else x * y


def objarr(vals, shape):
    d = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        d[i] = v
    return d.reshape(shape)


def both(o, x, y):
    """Elementwise scalar operation with broadcasting."""
    bx, by = np.broadcast_arrays(x, y)
    return objarr([scal(o, p, q) for p, q in zip(bx.flat, by.flat)], bx.shape)


def build(o):
    n = int(np.prod(o['s']))
    v = [o['v'][q % len(o['v'])] for q in range(n)]
    lo = np.array([p[0] for p in v], dtype=object).reshape(o['s'])
    hi = np.array([p[1] for p in v], dtype=object).reshape(o['s'])
    return ip.Interval(lo, hi, sortQ=False), objarr([mk(p) for p in v], o['s'])


def state(x):
    return [list(x.shape), x.ndim, len(x), [elem(e) for e in x.data.flat], [list(r) for r in x.ranges]]


def modelstate(m):
    return [list(m.d.shape), m.d.ndim, len(m.d), [elem(e) for e in m.d.flat], [list(range(s)) for s in m.d.shape]]


def attempt(f):
    """The natural outcome of a step on the model: a value or a rejection."""
    try:
        return f(), None
    except Exception as e:
        return None, e


def hist(ctx, c):
    real, mod = [], []
    for q in range(4):
        r, m = build(c['ops'][q % len(c['ops'])])
        real.append(r)
        mod.append(Model(m))
    for n, o in enumerate(c['ops']):
        ctx.event('history_steps')
        step(ctx, c, n, o, real, mod)
        for q in range(4):
            ctx.event('states_compared')
            got, want = state(real[q]), modelstate(mod[q])
            if not ctx.expect(got == want, 'history:%s%s' % (o['o'], ':' + o['key'] if o['o'] in ('setitem', 'setarr', 'setnum', 'setlist', 'get', 'delitem') else ''),
                              lambda: 'variable %d after step %d %s of %s: %s, expected %s' % (q, n, o, c['ops'][:n], got, want)):
                return
            a, b = real[q].a, real[q].b
            if not ctx.expect(a.shape == mod[q].d.shape and b.shape == mod[q].d.shape and [AC.canon(v) for v in a.flat] == [AC.canon(np.array([e.a for e in mod[q].d.flat]))[2][w] for w in range(a.size)],
                              'history:ends', lambda: '%s: %s' % (c, real[q])):
                return


def step(ctx, c, n, o, real, mod):
    x, y, z = o['x'], o['y'], o['z']
    X, Y, MX, MY = real[x], real[y], mod[x], mod[y]
    k = o['o']
    if k == 'new':
        real[x], m = build(o)
        mod[x] = Model(m)
    elif k == 'alias':
        ctx.event('aliases')
        real[y], mod[y] = X, MX
    elif k == 'conv':
        # conversion of an interval is the same object, a list of its elements is a new array
        if o['i'][0] < 0:
            ctx.event('aliases')
            real[y], mod[y] = ip.asinterval(X), MX
        elif X.ndim == 1:
            real[y], mod[y] = ip.asinterval([e for e in X]), Model(MX.d.copy())
    elif k == 'copy':
        real[y], mod[y] = X.copy(), Model(MX.d.copy())
    elif k == 'deepcopy':
        real[y], mod[y] = copy.deepcopy(X), Model(MX.d.copy())
    elif k == 'neg':
        real[y], mod[y] = -X, Model(objarr([-e for e in MX.d.flat], MX.d.shape))
    elif k == 'T':
        real[y], mod[y] = X.T, Model(MX.d.T.copy())
    elif k == 'reshape':
        real[y], mod[y] = X.reshape((-1, 1)), Model(MX.d.reshape((-1, 1)).copy())
    elif k == 'bin':
        d, e = attempt(lambda: both(o['op'], MX.d, MY.d))
        if e is None:
            real[z], mod[z] = scal(o['op'], X, Y), Model(d)
    elif k == 'inplace':
        s = mk(o['v'][0]) if o['i'][0] < 0 else o['v'][0][0] if o['i'][0] < 2 else None
        yd = np.array(s, dtype=object) if s is not None else MY.d
        d, e = attempt(lambda: both(o['op'], MX.d, yd))
        if e is not None or d.shape != MX.d.shape:
            return
        ctx.event('inplace')
        other = s if s is not None else Y
        if o['op'] == '+':
            X += other
        elif o['op'] == '-':
            X -= other
        else:
            X *= other
        real[x] = X
        # references to the array see the new value, as in numpy
        MX.d = d
    elif k == 'elem':
        kk = tuple(i % s for i, s in zip(o['i'] + [0, 0], MX.d.shape))
        e = X[kk]
        ctx.expect(elem(e) == elem(MX.d[kk]), 'history:element', lambda: '%s: %s' % (o, e))
    elif k == 'iterate':
        got = [AC.canon(e) for e in X]
        if MX.d.ndim == 1:
            ctx.expect(got == [elem(e) for e in MX.d], 'history:iteration', lambda: '%s: %s' % (o, got))
        else:
            ctx.expect(len(got) == len(MX.d), 'history:iteration', lambda: '%s: %s' % (o, got))
    elif k == 'get':
        kk = key(o, MX.d.shape)
        d, e = attempt(lambda: MX.d[kk])
        g, ge = attempt(lambda: X[kk])
        if e is not None:
            ctx.event('rejected_steps')
            ctx.expect(ge is not None, 'history:get-accepted:' + o['key'], lambda: '%s of shape %s -> %s' % (kk, MX.d.shape, g))
            return
        if ge is not None:
            raise ge
        if isinstance(d, np.ndarray):
            if d.ndim and d.size:
                real[y], mod[y] = g, Model(d.copy())
        else:
            ctx.expect(elem(g) == elem(d), 'history:get', lambda: '%s: %s' % (o, g))
    elif k in ('setitem', 'setarr', 'setnum', 'setlist', 'selfassign'):
        ctx.event('item_assignments')
        kk = key(o, MX.d.shape)
        if k == 'setitem':
            v = mk(o['v'][0])
            mv = v
        elif k == 'setnum':
            v = o['v'][0][0]
            mv = mk([v, v])
        elif k == 'setarr':
            v, mv = Y, MY.d
        elif k == 'selfassign':
            v, mv = X, MX.d.copy()
        else:
            tgt, e = attempt(lambda: MX.d[kk])
            if e is not None or not isinstance(tgt, np.ndarray) or not tgt.size:
                return
            v = np.array([o['v'][q % 8][0] for q in range(tgt.size)], dtype=float).reshape(tgt.shape)
            if o['i'][0] < 0:
                v = v.tolist()
            mv = objarr([mk([w, w]) for w in np.array(v).flat], tgt.shape)
        d = MX.d.copy()

        if k in ('setarr', 'selfassign'):
            t, e = attempt(lambda: d[kk])
            if e is None and not isinstance(t, np.ndarray):
                return                       # an array assigned to one element: not claimed
        _, e = attempt(lambda: d.__setitem__(kk, mv))
        _, ge = attempt(lambda: X.__setitem__(kk, v))
        if e is not None:
            ctx.event('rejected_steps')
            ctx.expect(ge is not None, 'history:set-accepted:%s:%s' % (k, o['key']), lambda: '%s of shape %s' % (kk, MX.d.shape))
            return
        if ge is not None:
            raise ge
        MX.d = d
    elif k == 'delitem':
        i = o['i'][0]
        if len(MX.d) == 1 and MX.d.ndim == 1:
            return
        ctx.event('deletions')
        kk, axis = i, 0
        if MX.d.ndim > 1 and o['i'][1] < 0:
            kk, axis = (slice(None),) * (MX.d.ndim - 1) + (i,), MX.d.ndim - 1
        if MX.d.shape[axis] == 1:
            return
        d, e = attempt(lambda: np.delete(MX.d, i, axis=axis))
        _, ge = attempt(lambda: X.__delitem__(kk))
        if e is not None:
            ctx.event('rejected_steps')
            ctx.expect(ge is not None, 'history:delete-accepted', lambda: '%s of shape %s' % (kk, MX.d.shape))
            return
        if ge is not None:
            raise ge
        MX.d = d
    elif k == 'bad':
        _, ge = attempt(lambda: X.__setitem__(99, mk([0, 1])))
        _, g2 = attempt(lambda: X.__delitem__('a'))
        ctx.event('rejected_steps')
        ctx.expect(ge is not None and g2 is not None, 'history:bad-accepted', lambda: '%s: %s %s' % (o, ge, g2))


def check(ctx, c):
    if c['k'] == 'call':
        call(ctx, c['a'])
        ctx.distinct(c['a'])
    else:
        hist(ctx, c)
        ctx.distinct(c['ops'])
