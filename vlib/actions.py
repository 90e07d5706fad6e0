"""Deterministic public-API actions shared by the state, purity, thread, history and sanitizer monitors.

gen_action(rng)  -> JSON-able description of one call (many lead to documented or natural rejections)
prepare(action)  -> (function, list of freshly built argument objects)
canon(result)    -> an exact, comparable description of a result (types, shapes, bits of every end)
outcome(action)  -> canon of the result or the type of the exception
"""
import math
import numpy as np
from . import gen as G, systems as S
from .lib import ip, mk, mat, vec

FUNCS = ('sqrt', 'exp', 'log', 'sin', 'cos', 'sign')
ATTRS = ('a', 'b', 'inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig', 'dual', 'opp', 'pro', 'inv', 'khi', 'T', 'shape', 'ndim', 'vertex', 'data')
UTILS = ('inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'khi', 'isnan', 'asinterval', 'diag', 'compmat')
BIN = ('+', '-', '*', '/', '@', '<', '<=', '>', '>=', '==', '!=', 'in', '**')
REL = ('subset', 'superset', 'proper_subset', 'proper_superset', 'contain', 'supercontain', 'intersection', 'dist')


def _val(rng):
    return G.num(rng, rng.choice(('int', 'small', 'dec', 'unit', 'dyad', 'log', 'special')))


def _pair(rng):
    p = [_val(rng), _val(rng)]
    if rng.random() < .8:
        p.sort()
    return p


def operand(rng, shape=None):
    u = rng.random()
    if shape is None and u < .4:
        return {'t': 's', 'v': _pair(rng)}
    if u < .55:
        return {'t': 'n', 'v': _val(rng), 'np': rng.random() < .3}
    sh = shape or rng.choice(([1], [2], [3], [2, 2], [2, 3], [3, 2], [1, 1]))
    n = 1
    for s in sh:
        n *= s
    if u < .7:
        return {'t': 'nd', 's': sh, 'v': [rng.choice((0., 1., -2., .5, 3.25, rng.uniform(-5, 5))) for _ in range(n)]}
    return {'t': 'a', 's': sh, 'v': [_pair(rng) for _ in range(n)]}


def build(o):
    if o['t'] == 's':
        return mk(o['v'])
    if o['t'] == 'n':
        v = o['v']
        if o.get('np'):
            return np.int64(v) if isinstance(v, int) and abs(v) < 2**62 else np.float64(v)
        return v
    if o['t'] == 'nd':
        return np.array(o['v']).reshape(o['s'])
    if o['t'] == 'a':
        lo = np.array([p[0] for p in o['v']], dtype=object).reshape(o['s'])
        hi = np.array([p[1] for p in o['v']], dtype=object).reshape(o['s'])
        return ip.Interval(lo, hi, sortQ=False)
    raise KeyError(o['t'])


KINDS = ('attr', 'func', 'bin', 'bin', 'bin', 'iop', 'util', 'rel', 'make', 'item', 'solver', 'solver', 'pss', 'fun', 'opt', 'draw', 'nonlin', 'glob', 'fit', 'new', 'ralg')
LIGHT = ('attr', 'func', 'bin', 'bin', 'bin', 'iop', 'util', 'rel', 'make', 'item', 'new')


def gen_action(rng, kinds=KINDS, k=None):
    k = k or rng.choice(kinds)
    a = {'k': k}
    if k == 'attr':
        a.update(n=rng.choice(ATTRS), x=operand(rng))
        if a['x']['t'] in ('n', 'nd'):
            a['x'] = {'t': 's', 'v': _pair(rng)}
    elif k == 'func':
        a.update(n=rng.choice(FUNCS), x=operand(rng), via=rng.choice(('ip', 'np')))
    elif k in ('bin', 'iop'):
        o = rng.choice(('+', '-', '*', '/')) if k == 'iop' else rng.choice(BIN)
        x = operand(rng)
        y = operand(rng, x.get('s') if rng.random() < .7 and x['t'] in ('a', 'nd') else None)
        if x['t'] in ('n', 'nd') and y['t'] in ('n', 'nd'):
            x = {'t': 's', 'v': _pair(rng)}
        if o == '**':
            y = {'t': 'n', 'v': rng.choice((0, 1, 2, 3, 5, 8, -1, 2.5))}
            if x['t'] == 'n':
                x = {'t': 's', 'v': _pair(rng)}
        elif rng.random() < .04 and x['t'] in ('s', 'a') and o in ('+', '-', '*', '/'):
            y = {'t': 'n', 'v': rng.choice((10 ** 400, -10 ** 309))}     # beyond the doubles: the call fails halfway
            if k == 'bin' and rng.random() < .5:
                x, y = y, x
        a.update(o=o, x=x, y=y)
    elif k == 'util':
        a.update(n=rng.choice(UTILS), x=operand(rng))
    elif k == 'rel':
        x = operand(rng)
        a.update(n=rng.choice(REL), x=x, y=operand(rng, x.get('s')), order=rng.choice((None, 1, 2, 3)))
    elif k == 'make':
        a.update(v=[_pair(rng) for _ in range(rng.choice((1, 2, 3)))], sort=rng.random() < .5, mr=rng.random() < .2,
                 form=rng.choice(('ab', 'nest', 's', 'one', 'bad')))
    elif k == 'item':
        a.update(x={'t': 'a', 's': [3], 'v': [_pair(rng) for _ in range(3)]}, o=rng.choice(('get', 'slice', 'set', 'setnum', 'setslice', 'del', 'copy', 'reshape', 'iter', 'oob')),
                 i=rng.randint(-3, 2), v=_pair(rng))
    elif k == 'solver':
        n = rng.choice(('Gauss', 'Gauss_Seidel', 'HBR', 'Rohn', 'Rohn_tol', 'PPS', 'Neumaier', 'Subdiff'))
        _, A, b = S.square(rng, rng.choice((1, 2, 2, 3)), rng.choice(('dd', 'dd', 'int', 'any', 'point', 'wide')))
        a.update(n=n, A=A, b=b, x=[rng.uniform(-1, 1) for _ in b], it=rng.choice((0, 1, 5, 50)))
    elif k == 'pss':
        _, A, b = S.square(rng, 2, rng.choice(('dd', 'int', 'perm')))
        a.update(A=A, b=b, it=rng.choice((0, 1, 5, 30)), x0=rng.random() < .3)
    elif k in ('fun', 'opt'):
        A, b = S.rect(rng, rng.randint(1, 4), rng.randint(1, 3))
        a.update(n=rng.choice(('Tol', 'Uni', 'Uss', 'ChebNorm')), A=A, b=b, x=[rng.uniform(-3, 3) for _ in A[0]],
                 w=rng.choice((None, [rng.choice((1., .5, 2.)) for _ in b])), m=rng.choice(('value', 'constituent')),
                 it=rng.choice((0, 3, 40)), cons=rng.random() < .5)
    elif k == 'draw':
        m = rng.choice((2, 2, 3))
        f = rng.choice(('lineqs', 'IntLin', 'IntLin', 'IntLin_tol'))
        if f == 'lineqs':
            n = rng.randint(1, 6)
            a.update(A=[[rng.randint(-3, 3) for _ in range(m)] for _ in range(n)], b=[rng.randint(-4, 3) for _ in range(n)])
        else:
            kind, A, b = S.square(rng, m, rng.choice(('dd', 'int', 'wide', 'any')))
            a.update(A=A, b=b)
        a.update(f=f, m=m, bounds=rng.choice((None, None, [[-5.] * m, [6.] * m])))
    elif k == 'nonlin':
        a.update(n=rng.choice(('Krawczyk', 'HansenSengupta')), e=rng.choice((0., .1, .01)), m=rng.choice((1, 2)), it=rng.choice((0, 1, 5, 50)),
                 box=rng.choice(([.5, 1.], [.55, .9], [2., 3.])))
    elif k == 'glob':
        a.update(r=[rng.uniform(-1, 1) for _ in range(rng.choice((1, 2)))], it=rng.choice((0, 1, 10, 40)), tol=rng.choice((1e-1, 1e-3)))
    elif k == 'fit':
        n, m = rng.randint(2, 5), rng.randint(1, 2)
        a.update(n=rng.choice(('WILS', 'ISPAE')), obj=rng.choice(('Tol', 'Uni', 'Uss', 'Oops')), norm=rng.choice(('inf', 'l1')),
                 X=[[sorted((rng.uniform(-3, 3), rng.uniform(-3, 3))) for _ in range(m)] for _ in range(n)],
                 y=[sorted((rng.uniform(-3, 3), rng.uniform(-3, 3))) for _ in range(n)], it=rng.choice((0, 5, 30)),
                 al=rng.choice((0, .3)), w=rng.choice((None, [rng.choice((1., 2.)) for _ in range(n)])), df=rng.random() < .5, order=rng.choice((1, 2)),
                 basis=rng.choice(('monom', 'chebyshev', 'hermite', 'laguerre', 'legendre')), col=rng.random() < .3, deg=rng.choice((None, [0, 2], [1, 3])))
    elif k == 'new':
        a.update(n=rng.choice(('zeros', 'full', 'eye', 'Shary', 'Neumaier', 'Toft', 'bad')), d=rng.randint(1, 4))
    elif k == 'ralg':
        a.update(c=[rng.uniform(-3, 3) for _ in range(rng.choice((1, 2, 3)))], it=rng.choice((0, 3, 50)), boom=rng.choice((None, None, 2)))
    return a


class Boom(Exception):
    pass


def _binary(o):
    def f(x, y):
        if o == '+':
            return x + y
        if o == '-':
            return x - y
        if o == '*':
            return x * y
        if o == '/':
            return x / y
        if o == '@':
            return x @ y
        if o == '<':
            return x < y
        if o == '<=':
            return x <= y
        if o == '>':
            return x > y
        if o == '>=':
            return x >= y
        if o == '==':
            return x == y
        if o == '!=':
            return x != y
        if o == 'in':
            return x in y
        if o == '**':
            return x ** y
    return f


def _inplace(o):
    def f(x, y):
        x = x.copy() if hasattr(x, 'copy') else x
        if o == '+':
            x += y
        elif o == '-':
            x -= y
        elif o == '*':
            x *= y
        else:
            x /= y
        return x
    return f


def _item(a):
    def f(x):
        o, i = a['o'], a['i']
        y = x.copy()
        if o == 'get':
            return y[i]
        if o == 'slice':
            return y[i:]
        if o == 'set':
            y[i] = mk(a['v'])
        elif o == 'setnum':
            y[i] = a['v'][0]
        elif o == 'setslice':
            y[1:] = vec([a['v'], a['v']])
        elif o == 'del':
            del y[i]
        elif o == 'reshape':
            return y.reshape((3, 1))
        elif o == 'iter':
            return [e for e in y]
        elif o == 'oob':
            return y[7]
        return y
    return f


def prepare(a):
    k = a['k']
    if k == 'attr':
        return (lambda x: getattr(x, a['n'])), [build(a['x'])]
    if k == 'func':
        if a['via'] == 'np' and a['n'] != 'sign' and a['x']['t'] in ('s', 'a'):
            return getattr(np, a['n']), [build(a['x'])]
        return getattr(ip, a['n']), [build(a['x'])]
    if k == 'bin':
        return _binary(a['o']), [build(a['x']), build(a['y'])]
    if k == 'iop':
        return _inplace(a['o']), [build(a['x']), build(a['y'])]
    if k == 'util':
        return getattr(ip, a['n']), [build(a['x'])]
    if k == 'rel':
        f = getattr(ip, a['n'])
        if a['n'] == 'dist' and a['order']:
            return (lambda x, y: f(x, y, order=a['order'])), [build(a['x']), build(a['y'])]
        return f, [build(a['x']), build(a['y'])]
    if k == 'make':
        kw = dict(sortQ=a['sort'], midRadQ=a['mr'])
        p = a['v']
        if a['form'] == 'ab':
            args = [np.array([q[0] for q in p]), np.array([q[1] for q in p])]
        elif a['form'] == 'nest':
            args = [[list(q) for q in p]]
        elif a['form'] == 's':
            args = [p[0][0], p[0][1]]
        elif a['form'] == 'one':
            args = [list(p[0])]
        else:
            args = ['abc', 'd']
        return (lambda *v: ip.Interval(*v, **kw)), args
    if k == 'item':
        return _item(a), [build(a['x'])]
    if k == 'solver':
        n = a['n']
        A, b = mat(a['A']), vec(a['b'])
        if n == 'Rohn_tol':
            return (lambda A, b: ip.linear.Rohn(A, b, consistency='tol')), [A, b]
        if n == 'Neumaier':
            return ip.linear.Neumaier, [A, b, np.array(a['x'])]
        if n == 'PPS':
            return (lambda A, b: ip.linear.PPS(A, b, maxiter=a['it'])), [A, b]
        if n == 'Gauss_Seidel':
            return (lambda A, b, x0: ip.linear.Gauss_Seidel(A, b, x0=x0)), [A, b, ip.full(len(a['b']), -100, 100)]
        return getattr(ip.linear, n), [A, b]
    if k == 'pss':
        args = [mat(a['A']), vec(a['b'])]
        if a['x0']:
            args.append(ip.full(2, -50, 50))
            return (lambda A, b, x0: ip.linear.PSS(A, b, x0=x0, maxiter=a['it'])), args
        return (lambda A, b: ip.linear.PSS(A, b, maxiter=a['it'])), args
    if k == 'fun':
        w = None if a['w'] is None else np.array(a['w'])
        return (lambda A, b, x, w: getattr(getattr(ip.linear, a['n']), a['m'])(A, b, x, weight=w)), [mat(a['A']), vec(a['b']), np.array(a['x']), w]
    if k == 'opt':
        w = None if a['w'] is None else np.array(a['w'])
        cls = getattr(ip.linear, a['n'])
        f = cls.minimize if a['n'] == 'ChebNorm' else cls.maximize
        m = len(a['x'])
        lc = ip.LinearConstraint(np.ones((1, m)), lb=np.array([-1.]), ub=np.array([1.])) if a['cons'] else None
        return (lambda A, b, x, w, lc: f(A, b, x0=x, weight=w, linear_constraint=lc, maxiter=a['it'])), [mat(a['A']), vec(a['b']), np.array(a['x']), w, lc]
    if k == 'draw':
        kw = dict(show=False, bounds=a['bounds'])
        if a['f'] == 'lineqs':
            return (lambda A, b: (ip.lineqs if a['m'] == 2 else ip.lineqs3D)(A, b, **kw)), [np.array(a['A'], float), np.array(a['b'], float)]
        if a['f'] == 'IntLin_tol':
            kw['consistency'] = 'tol'
        return (lambda A, b: (ip.IntLinIncR2 if a['m'] == 2 else ip.IntLinIncR3)(A, b, **kw)), [mat(a['A']), vec(a['b'])]
    if k == 'nonlin':
        e = a['e']
        lo, hi = a['box']
        s = getattr(ip.nonlinear, a['n'])
        if a['m'] == 1:
            f = lambda x: x ** 2 - ip.Interval(.5 - e, .5 + e)
            J = lambda x: 2 * x
            x0 = ip.Interval(lo, hi)
        else:
            f = lambda x: ip.asinterval([x[0] ** 2 + x[1] ** 2 - 1 - ip.Interval(-e, e), x[0] - x[1] ** 2])
            J = lambda x: ip.asinterval([[2 * x[0], 2 * x[1]], [1, -2 * x[1]]])
            x0 = ip.Interval([lo, lo], [hi, hi])
        return (lambda x0: s(f, J, x0, maxiter=a['it'])), [x0]
    if k == 'glob':
        r = a['r']
        f = lambda x: sum([(x[i] - r[i]) ** 2 + (x[i] - r[i]) ** 4 for i in range(len(r))])
        return (lambda x0: ip.nonlinear.globopt(f, x0, tol=a['tol'], maxiter=a['it'])), [ip.Interval([-2.] * len(r), [2.5] * len(r))]
    if k == 'fit':
        return _fit(a)
    if k == 'new':
        n, d = a['n'], a['d']
        f = {'zeros': lambda: ip.zeros((d, 2)), 'full': lambda: ip.full(d, -1, 2), 'eye': lambda: ip.eye(d), 'Shary': lambda: ip.Shary_system(d + 1),
             'Neumaier': lambda: ip.Neumaier_system(d + 1, 3.5), 'Toft': lambda: ip.Toft_system(d + 1, r=.1, R=.2),
             'bad': lambda: ip.Shary_system(3, N=1)}[n]
        return f, []
    if k == 'ralg':
        c = np.array(a['c'])
        calls = [0]

        def fg(x):
            calls[0] += 1
            if a['boom'] and calls[0] > a['boom']:
                raise Boom()
            return float(np.sum(np.abs(x - c))), np.sign(x - c)
        return (lambda x0: ip.ralgb5(fg, x0, maxiter=a['it'])), [np.zeros(len(c))]
    raise KeyError(k)


def _fit(a):
    import pandas as pd
    X = mat(a['X'])
    y = vec(a['y'])
    w = None if a['w'] is None else np.array(a['w'])
    if a['n'] == 'WILS':
        def f(X, y, w):
            m = ip.WILS(alpha=a['al'])
            m.fit(X, y, weight=w, objective=a['obj'], norm=a['norm'], maxiter=a['it'])
            return m.estimator, m.predict(X)
        return f, [X, y, w]
    if a['col']:
        def f(X, y, w):
            return ip.ISPAE(basis=a['basis']).value_of_one_col([1.5, -.5], y, deg=a['deg'])
        return f, [X, y, w]
    X = pd.DataFrame({'c%d' % j: [mk(r[j]) for r in a['X']] for j in range(len(a['X'][0]))})

    def f(X, y, w):
        m = ip.ISPAE(alpha=a['al'], basis=a['basis'])
        m.fit(X, y, weight=w, objective=a['obj'], norm=a['norm'], order=a['order'], maxiter=a['it'])
        return m.estimator, m.predict(X)
    return f, [X, y, w]


def _num(v):
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    v = float(v)
    return 'nan' if v != v else (v + 0.0).hex()      # the sign of zero is not judged


def canon(r):
    if r is None or isinstance(r, (str, bool)):
        return r
    if isinstance(r, ip.ARITHMETICS):
        return ['I', type(r).__name__, _num(r.a), _num(r.b)]
    if isinstance(r, ip.ArrayInterval):
        return ['AI', list(r.shape), [canon(e) for e in r.data.flat]]
    if isinstance(r, np.ndarray):
        return ['nd', list(r.shape), [canon(e) for e in r.flat]]
    if isinstance(r, (int, float, np.generic)):
        return _num(r)
    if isinstance(r, (list, tuple)):
        return [type(r).__name__] + [canon(e) for e in r]
    if isinstance(r, dict):
        return ['dict'] + [[k, canon(v)] for k, v in sorted(r.items())]
    if isinstance(r, ip.LinearConstraint):
        return ['LC', canon(np.asarray(r.C)), canon(np.asarray(r.b)), canon(r.mu)]
    if hasattr(r, 'columns') and hasattr(r, 'values'):
        return ['DF', [str(c) for c in r.columns], canon(r.values), [str(i) for i in r.index]]
    if hasattr(r, 'values'):
        return ['SE', canon(np.asarray(r.values))]
    return ['?', type(r).__name__, repr(r)[:200]]


def outcome(a, keep=None):
    f, args = prepare(a)
    try:
        return ['ok', canon(f(*args))]
    except Exception as e:
        return ['raised', type(e).__name__]


def label(a):
    return '%s:%s' % (a['k'], a.get('n') or a.get('o') or a.get('f') or a.get('form') or '')
