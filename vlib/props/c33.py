"""C33: systems whose dimensions do not fit are refused by every solver, functional, model and drawing; those that fit are not."""
from ..lib import ip, np, mk, vec, mat, is_array

ID = 'C33'
RULE = ('one public call with argument dimensions drawn at random, fitting or not; a call that does not fit must raise, one that fits must return')
N = {'quick': 600, 'thorough': 8000}
CASE_TIMEOUT = 60
SQUARE = ('Gauss', 'Gauss_Seidel', 'HBR', 'PPS', 'Subdiff')
TALL = ('Rohn', 'Rohn-tol', 'PSS')
FUNS = ('Tol', 'Uni', 'Uss')
MODELS = ('WILS', 'ISPAE', 'ive', 'ChebNorm')
PICS = ('lineqs', 'IntLinIncR2', 'lineqs3D', 'IntLinIncR3')
ARRAYS = ('+', '-', '*', '/', '@', '==', 'intersection', 'make')
OPTS = ('x', 'x0', 'weight', 'constraint', 'bounds-length', 'start-box', 'order', 'neumaier-b', 'neumaier-y', 'neumaier-w', 'ispae-x0', 'predict', 'model-weight')


def required(tier):
    return dict({'refused': 1800, 'accepted': 900}, **{'refused_' + k: 6 for k in SQUARE + TALL + FUNS + MODELS + PICS + ARRAYS + OPTS if k != '=='})


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        k = rng.choice(rng.choice((SQUARE, TALL, FUNS, MODELS, PICS, ARRAYS, OPTS)))
        n = rng.randint(1, 5)
        m = n if rng.random() < .4 else rng.randint(1, 5)
        if k in SQUARE and rng.random() < .5:
            m = n
        elif k in TALL + MODELS:
            n, m = max(n, m), min(n, m)
        elif k in PICS and rng.random() < .8:
            m = 3 if '3' in k else 2
            n = max(n, m)
        c = {'k': k, 'n': n, 'm': m, 'len': n if rng.random() < .3 else rng.choice((1, 1, n - 1, n + 1, m, rng.randint(1, 6))) or 2,
             'seed': rng.randrange(2 ** 30), 'f': rng.choice(FUNS), 'call': rng.choice(('value', 'constituent', 'maximize')), 'opt': rng.choice((False, True))}
        if k in ARRAYS:
            c['sa'], c['sb'] = ([rng.randint(1, 4) for _ in range(rng.randint(1, 2))] for _ in range(2))
            if rng.random() < .4:
                c['sb'] = list(c['sa'])
            c['plain'] = rng.randrange(3)
        if k in OPTS:
            c['n'], c['m'] = max(n, m), min(n, m)
            if k in ('start-box', 'weight', 'model-weight'):        # numpy broadcasts the only row of a system over several weights
                c['n'] = max(n, m, 2)
            if k == 'start-box':
                c['m'] = c['n']
            right = {'x': c['m'], 'x0': c['m'], 'weight': c['n'], 'constraint': c['m'], 'bounds-length': c['n'], 'start-box': c['m'], 'order': c['m'], 'neumaier-b': c['n'], 'neumaier-y': c['m'],
                     'neumaier-w': c['m'], 'ispae-x0': 2 * c['m'] + 1, 'predict': c['m'], 'model-weight': c['n']}[k]
            c['len'] = right if rng.random() < .3 else rng.choice((right + 1, right - 1, rng.randint(1, 7))) or right + 1
            c['right'] = right
        yield c


def system(c, n=None, m=None, k=None):
    n, m, k = n or c['n'], m or c['m'], k or c['len']
    r = np.random.RandomState(c['seed'])
    A = r.uniform(-1, 1, (n, m)) + 12 * np.eye(n, m)
    b = r.uniform(-1, 1, k)
    return (ip.Interval(A - .1, A + .1), ip.Interval(b - 30, b + 30))


def frame(A):
    import pandas as pd
    return pd.DataFrame({'c%d' % j: [A[i, j] for i in range(A.shape[0])] for j in range(A.shape[1])})


def predicted(A, b, ln, poly):
    r = ip.ISPAE() if poly else ip.WILS()
    T = ip.Interval(-np.ones((2, ln)), np.ones((2, ln)))
    if poly:
        r.fit(frame(A), b, order=1, maxiter=20)
        T = frame(T)
        if ln > A.shape[1]:             # additional columns are no dimension error in a table, missing ones are
            T = T[T.columns[:A.shape[1] - 1]]
    else:
        r.fit(A, b, maxiter=20)
    return r.predict(T)


def ok_result(r):
    return r is not None


def check(ctx, c):
    k, n, m, ln = c['k'], c['n'], c['m'], c['len']
    fits = ln == n
    if k in ARRAYS:
        r = np.random.RandomState(c['seed'])
        a, b = r.uniform(1, 2, c['sa']), r.uniform(1, 2, c['sb'])
        A, B = (a if c['plain'] == 1 else ip.Interval(a, a + 1)), (b if c['plain'] == 2 else ip.Interval(b, b + 1))
        if k == '==':
            A, B = ip.Interval(a, a + 1), ip.Interval(b, b + 1)
        try:
            if k == '@':
                np.zeros(c['sa']) @ np.zeros(c['sb'])
            elif k in ('intersection', 'make'):
                if c['sa'] != c['sb']:
                    raise ValueError
            else:
                np.broadcast_shapes(tuple(c['sa']), tuple(c['sb']))
            fits = True
        except ValueError:
            fits = False
        if k == 'make':
            run = lambda: ip.Interval(a, b + 1)
        elif k == 'intersection':
            run = lambda: ip.intersection(ip.Interval(a, a + 1), ip.Interval(b, b + 1))
        else:
            run = {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '/': lambda: A / B, '@': lambda: A @ B, '==': lambda: A == B}[k]
    elif k in OPTS:
        fits = ln == c['right']
        A, b = system(c, k=n)
        f = getattr(ip, c['f'])
        w = np.linspace(1, 2, ln)
        if k == 'x':
            run = lambda: getattr(f, 'value' if c['call'] != 'constituent' else 'constituent')(A, b, w)
        elif k == 'x0':
            run = lambda: f.maximize(A, b, x0=w) if c['opt'] else (ip.WILS().fit(A, b, x0=w) or 1)
        elif k == 'weight':
            fits = fits or ln == 1          # one number for all rows
            run = lambda: (f.maximize(A, b, weight=w) if c['call'] == 'maximize' else f.value(A, b, np.ones(m), weight=w) if c['call'] == 'value'
                           else (ip.WILS().fit(A, b, weight=w) or 1))
        elif k == 'constraint':
            run = lambda: f.maximize(A, b, linear_constraint=ip.LinearConstraint(np.ones((2, ln)), ub=[50., 60.]))
        elif k == 'bounds-length':
            C = np.ones((n, m))
            run = lambda: ip.LinearConstraint(C, **{'lb' if c['opt'] else 'ub': w})
        elif k == 'start-box':
            x0 = ip.Interval(-50 * w, 50 * w)
            run = lambda: ip.Gauss_Seidel(A, b, x0=x0) if c['opt'] else ip.PSS(A, b, x0=x0)
        elif k == 'order':
            run = lambda: (ip.ISPAE().fit(frame(A), b, order=[1] * ln) or 1)
        elif k == 'neumaier-b':
            run = lambda: ip.linear.Neumaier(A, ip.Interval(-50 * w, 50 * w), np.zeros(m))
        elif k == 'neumaier-y':
            run = lambda: ip.linear.Neumaier(A, b, np.zeros(ln))
        elif k == 'neumaier-w':
            run = lambda: ip.linear.Neumaier(A, b, np.zeros(m), w)
        elif k == 'ispae-x0':
            run = lambda: (ip.ISPAE().fit(frame(A), b, order=2, x0=np.zeros(ln), maxiter=20) or 1)
        elif k == 'model-weight':
            fits = fits or ln == 1
            run = lambda: (ip.ISPAE().fit(frame(A), b, order=1, weight=w, maxiter=20) or 1) if c['opt'] else ip.ChebNorm.minimize(A, b, weight=w)
        else:
            run = lambda: predicted(A, b, ln, c['opt'])
    else:
        A, b = system(c)
        if k in SQUARE:
            fits = fits and n == m
            run = lambda: getattr(ip, k)(A, b)
        elif k in TALL:
            run = (lambda: ip.PSS(A, b)) if k == 'PSS' else (lambda: ip.Rohn(A, b, consistency='tol') if k == 'Rohn-tol' else ip.Rohn(A, b))
        elif k in FUNS:
            f = getattr(ip, k)
            run = lambda: f.maximize(A, b) if c['call'] == 'maximize' else getattr(f, c['call'])(A, b, np.ones(m))
        elif k == 'WILS':
            run = lambda: (ip.WILS().fit(A, b) or 1)
        elif k == 'ISPAE':
            run = lambda: (ip.ISPAE().fit(frame(A), b, order=1) or 1)
        elif k == 'ive':
            run = lambda: ip.ive(A, b, N=3)
        elif k == 'ChebNorm':
            run = lambda: ip.ChebNorm.minimize(A, b)
        else:
            want = 3 if '3' in k else 2
            # one-column two-dimensional systems are not claimed either way
            if m < want:
                if want == 2:
                    return ctx.event('not_claimed')
            fits = fits and m == want
            if fits and n < m:
                return ctx.event('not_claimed')
            args = (A, b) if k.startswith('Int') else (A.a, b.a - 40)
            run = lambda: getattr(ip, k)(*args, show=False, **({'bounds': [[-60] * want, [60] * want]} if k.startswith('line') or c['opt'] else {}))
    try:
        r = run()
    except Exception as e:
        if fits:
            ctx.violation('fitting-refused:' + k, '%s raised %s: %s' % (c, type(e).__name__, e))
        else:
            ctx.event('refused')
            ctx.event('refused_' + k)
        return
    finally:
        if k in PICS:
            import matplotlib.pyplot as plt
            plt.close('all')
    if not fits:
        ctx.violation('accepted:' + k, lambda: '%s -> %s' % (c, str(r)[:300]))
        return
    ctx.event('accepted')
    ctx.distinct((k, n, m, ln, c['seed']))
