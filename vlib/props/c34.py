"""C34: what has been found empty stays empty: nan intervals never turn into numbers, and isnan finds exactly them."""
import math
from ..lib import ip, np, mk, is_array, tolist
from .. import gen as G

ID = 'C34'
RULE = ('one operation, function, relation, characteristic or solver applied to intervals or arrays some of which are empty (obtained from disjoint intersections); '
        'every element depending on an empty one must be empty (or the call raise), every other one be as without them')
N = {'quick': 4000, 'thorough': 60000}
CASE_TIMEOUT = 60
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
FUNS = ('exp', 'log', 'sqrt', 'sin', 'cos', 'sign')
RELS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}
SETS = ('subset', 'superset', 'proper_subset', 'proper_superset', 'contain', 'supercontain')
PARTS = ('a', 'b', 'inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'mig', 'khi')
SHAPED = ('dual', 'opp', 'pro', 'inv', 'neg', 'abs', 'pow')
SOLVERS = ('Gauss', 'Gauss_Seidel', 'HBR', 'Rohn', 'PPS', 'Subdiff', 'Rohn_tol', 'Neumaier')
CALLS = {'Rohn_tol': lambda A, b: ip.Rohn(A, b, consistency='tol'),
         'Neumaier': lambda A, b: ip.linear.Neumaier(A, b, [.25] * len(b))}
KINDS = ('op', 'op', 'op', 'fun', 'fun', 'rel', 'set', 'part', 'shaped', 'matmul', 'inter', 'solver', 'functional', 'member', 'optimize')


def required(tier):
    return dict({'empty_results': 6000, 'kept_elements': 3000, 'isnan': 5000, 'allowed_errors': 50}, **{'k_' + k: 200 for k in set(KINDS)})


def gen(rng, tier, shard, nshards):
    num = lambda: rng.choice((rng.randint(-3, 3), rng.uniform(-4, 4), 0, G.num(rng, 'mid')))

    def value(shape, p, improper=True):
        if not shape:
            if rng.random() < p:
                return None
            x = sorted((num(), num()))
            return x[::-1] if improper and rng.random() < .25 else x
        return [value(shape[1:], p, improper) for _ in range(shape[0])]
    for _ in range(N[tier]):
        k = rng.choice(KINDS)
        sh = rng.choice(((), (), (rng.randint(1, 4),), (rng.randint(1, 3), rng.randint(1, 3))))
        c = {'k': k, 'sh': list(sh), 'how': rng.randrange(4), 'op': None}
        p = 1 if not sh and rng.random() < .6 else .35
        if k == 'op':
            c['op'] = rng.choice(sorted(OPS))
            c['x'] = value(sh, p)
            c['other'] = rng.choice(('interval', 'interval', 'number', 'ndarray', 'inplace'))
            c['y'] = value(() if c['other'] == 'number' or rng.random() < .3 else sh, .2)
            c['swap'] = rng.random() < .5
        elif k in ('rel', 'set', 'inter'):
            c['op'] = rng.choice(sorted(RELS) if k == 'rel' else SETS)
            c['x'], c['y'] = value(sh, p, False), value(sh, .2, False)
            c['swap'] = rng.random() < .5
        elif k == 'fun':
            c['op'], c['x'] = rng.choice(FUNS), value(sh, p)
            if c['op'] == 'sign':
                c['x'] = value(sh, p, False)
            c['np'] = rng.random() < .5 and c['op'] != 'sign'
        elif k in ('part', 'shaped'):
            c['op'], c['x'], c['n'] = rng.choice(PARTS if k == 'part' else SHAPED), value(sh, p, k == 'shaped'), rng.choice((1, 2, 3, 5))
            c['fn'] = rng.random() < .5
        elif k == 'member':
            c['x'], c['y'] = value(sh, p, False), value(sh, .4, False)
            c['t'] = num()
        elif k == 'matmul':
            n, m, l = (rng.randint(1, 3) for _ in range(3))
            c['x'], c['y'] = value((n, m), .15), value((m,) if rng.random() < .5 else (m, l), .1)
        else:
            n = rng.choice((2, 2, 3))
            c['A'] = [[[v - .125, v + .125] for v in [(rng.choice((-1, 1)) * (6 if i == j else rng.uniform(.3, 1))) for j in range(n)]] for i in range(n)]
            c['b'] = [[v - .25, v + .25] for v in [rng.uniform(-3, 3) for _ in range(n)]]
            at = rng.randrange(n)
            if rng.random() < .5:
                c['A'][at][rng.randrange(n)] = None
            else:
                c['b'][at] = None
            c['op'] = rng.choice(SOLVERS if k == 'solver' else ('Tol', 'Uni', 'Uss'))
            c['norm'], c['own'] = rng.choice(('inf', 'l1')), rng.random() < .3
            c['point'] = [rng.choice((-1, 1)) * rng.uniform(.3, 2) for _ in range(n)]
        yield c


def empty(how):
    if how == 0:
        return ip.intersection(mk([1, 2]), mk([3, 4]))
    if how == 1:
        return ip.intersection(mk([-1., 2.5]), 7)
    if how == 2:
        return ip.intersection(ip.Interval([[0, 1], [2, 3]]), ip.Interval([[4, 5], [2, 3]]))[0]
    return ip.log(mk([-3., -2.]))


def build(v, how):
    if not isinstance(v, list) or v and not isinstance(v[0], list) and v[0] is not None:
        return empty(how) if v is None else mk(v)
    sh = np.shape(fill(v))[:-1]
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        w = v
        for q in i:
            w = w[q]
        out[i] = empty(how) if w is None else mk(w)
    return ip.ArrayInterval(out)


def fill(v):
    return [0, 0] if v is None else [fill(w) for w in v] if isinstance(v, list) and v and (v[0] is None or isinstance(v[0], list)) else v


def elements(v, sh):
    """Leaves of v broadcast to the shape sh."""
    if v is None or v and not isinstance(v[0], list) and v[0] is not None:
        return {i: v for i in np.ndindex(*sh)}
    out = {}
    for i in np.ndindex(*sh):
        w = v
        for q in i:
            w = w[q]
        out[i] = w
    return out


def isempty(x):
    return math.isnan(float(x.a)) and math.isnan(float(x.b))


def item(r, i):
    return r if i == () and not isinstance(r, np.ndarray) and not is_array(r) else (r.data if is_array(r) else r)[i]


def same(x, y):
    f = lambda u, v: u == v or u != u and v != v
    return f(float(x.a), float(y.a)) and f(float(x.b), float(y.b))


def check(ctx, c):
    k = c['k']
    ctx.event('k_' + k)
    ctx.distinct(sorted(c.items(), key=str))
    if k == 'optimize':
        # whatever point is reported, the value reported with it is no number
        A, b = build(c['A'], c['how']), build(c['b'], c['how'])
        try:
            x0 = None if c['own'] else np.array(c['point'])
            if c['norm'] == 'inf' and c['how'] % 2:
                v = getattr(ip, c['op']).maximize(A, b, x0=x0, maxiter=20)[1]
            else:
                m = ip.WILS()
                m.fit(A, b, x0=x0, objective=c['op'], norm=c['norm'], maxiter=20)
                v = m.estimator['fr']
        except Exception:
            return ctx.event('allowed_errors')
        ctx.event('empty_results')
        ctx.expect(v != v, 'number:optimum:' + c['op'], lambda: '%s -> %s' % (c, v))
        return
    if k in ('solver', 'functional'):
        A, b = build(c['A'], c['how']), build(c['b'], c['how'])
        try:
            if k == 'solver':
                r = (CALLS.get(c['op']) or getattr(ip, c['op']))(A, b)
                vals = [v for p in tolist(r) for v in p]
            else:
                vals = [float(getattr(ip, c['op']).value(A, b, np.array(c['point'])))]
        except Exception:
            ctx.event('allowed_errors')
            return
        ctx.event('empty_results', len(vals))
        ctx.expect(all(v != v for v in vals), 'number:' + c['op'], lambda: '%s -> %s' % (c, vals))
        return
    x = build(c['x'], c['how'])
    sh = tuple(np.shape(fill(c['x']))[:-1])
    # isnan finds exactly the empty ones, not those at infinity
    for p in ([-math.inf, -math.inf], [math.inf, math.inf], [-math.inf, math.inf], [1, math.inf]):
        ctx.expect(not ip.isnan(mk(p)), 'isnan-infinite', lambda: '%s' % p)
    found = ip.isnan(x)
    for i, v in elements(c['x'], sh).items():
        ctx.event('isnan')
        ctx.expect(bool(np.asarray(found)[i]) == (v is None), 'isnan', lambda: '%s: %s' % (c['x'], found))
    if k == 'member':
        # nothing belongs to an empty interval, and it belongs to no interval; distances from it are nan
        y = build(c['y'], c['how'])
        X, Y = elements(c['x'], sh), elements(c['y'], sh)
        ctx.event('empty_results')
        want = any(u is not None and u[0] <= c['t'] <= u[1] for u in X.values())
        ctx.expect((c['t'] in x) == want, 'membership:number', lambda: '%s -> %s' % (c, c['t'] in x))
        want = any(X[i] is not None and Y[i] is not None and X[i][0] <= Y[i][0] and Y[i][1] <= X[i][1] for i in X)
        ctx.expect((y in x) == want, 'membership:interval', lambda: '%s -> %s' % (c, y in x))
        bad = any(u is None for u in list(X.values()) + list(Y.values()))
        for o in (1, 2, None):
            d = ip.dist(x, y, o) if o else ip.dist(x, y)
            ctx.expect((d != d) == bad, 'distance', lambda: '%s: %s -> %s' % (c, o, d))
        return
    if k == 'matmul':
        y = build(c['y'], c['how'])
        r = x @ y
        full = build(fill2(c['x']), 0) @ build(fill2(c['y']), 0)
        ysh = tuple(np.shape(fill(c['y']))[:-1])
        for i in np.ndindex(*((sh[0],) + ysh[1:])):
            bad = any(c['x'][i[0]][j] is None or (c['y'][j] if len(i) == 1 else c['y'][j][i[1]]) is None for j in range(sh[1]))
            judge(ctx, c, item(r, i), item(full, i), bad)
        return
    if k in ('part', 'shaped'):
        f = {'neg': lambda v: -v, 'abs': abs, 'pow': lambda v: v ** c['n']}.get(c['op']) or (lambda v: getattr(v, c['op']))
        if k == 'part' and c['fn'] and hasattr(ip, c['op']):
            f = getattr(ip, c['op'])
        run, refs = (lambda: f(x)), lambda u, v: f(u)
        leaves = [(i, v, None, False) for i, v in elements(c['x'], sh).items()]
    elif k == 'fun':
        f = getattr(np if c['np'] else ip, c['op'])
        run, refs = (lambda: f(x)), lambda u, v: f(u)
        leaves = [(i, v, None, False) for i, v in elements(c['x'], sh).items()]
    else:
        ysh = tuple(np.shape(fill(c['y']))[:-1])
        if k == 'op':
            f, z = OPS[c['op']], None
            if c['other'] in ('number', 'ndarray'):
                pick = np.array(fill(c['y']), dtype=float)[..., 0]
                z = float(pick) if pick.ndim == 0 else pick
                c = dict(c, y=(np.stack([pick, pick], -1)).tolist())
            y = build(c['y'], c['how']) if z is None else z
        else:
            f = RELS[c['op']] if k == 'rel' else getattr(ip, c['op']) if k == 'set' else ip.intersection
            y = build(c['y'], c['how'])
        if k == 'op' and c['other'] == 'inplace' and (is_array(x) or not is_array(y)):
            c = dict(c, swap=False)
            w = x.copy() if is_array(x) else x
            import operator
            g = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}[c['op']]
            run = lambda: g(w, y)
        else:
            run = lambda: f(y, x) if c['swap'] else f(x, y)
        refs = lambda u, v: f(v, u) if c['swap'] else f(u, v)
        X, Y = elements(c['x'], sh), elements(c['y'], sh)
        leaves = [(i, X[i], Y[i], True) for i in X]
    try:
        r = run()
    except (ValueError, ZeroDivisionError) as e:
        # only where an operand that is not empty, or a power, asks for it
        ok = c['op'] in ('/', 'inv', 'pow', 'khi')
        ctx.event('allowed_errors')
        ctx.expect(ok, 'raised:%s' % c['op'], lambda: '%s: %r' % (c, e))
        return
    except NotImplementedError:
        return ctx.event('not_claimed')
    if k == 'set' and np.ndim(r) == 0:          # one value for the whole array
        if any(u is None or v is None for _, u, v, _ in leaves):
            ctx.event('empty_results')
            ctx.expect(not bool(r), 'relation-holds:' + c['op'], lambda: '%s -> %s' % (c, r))
        return
    for i, u, v, two in leaves:
        bad = u is None or two and v is None
        got = item(r, i)
        if k in ('rel', 'set'):
            if bad:
                ctx.event('empty_results')
                ctx.expect(not np.asarray(got).any(), 'relation-holds:' + c['op'], lambda: '%s -> %s' % (c, r))
        elif k == 'part':
            ctx.event('empty_results' if bad else 'kept_elements')
            ctx.expect((float(got) != float(got)) == bad, 'characteristic:' + c['op'], lambda: '%s -> %s' % (c, r))
        else:
            full = None if bad else refs(mk(u), mk(v) if two else None)
            judge(ctx, c, got, full, bad)


def fill2(v):
    return [1, 1] if v is None else [fill2(w) for w in v] if isinstance(v, list) and v and (v[0] is None or isinstance(v[0], list)) else v


def judge(ctx, c, got, full, bad):
    if bad:
        ctx.event('empty_results')
        ctx.expect(isempty(got), 'number:%s:%s' % (c['k'], c['op']), lambda: '%s -> %s' % (c, got))
    else:
        ctx.event('kept_elements')
        close = lambda u, v: u == v or u != u and v != v or abs(u - v) <= 1e-12 * (abs(u) + abs(v)) + 1e-300
        ctx.expect(close(float(got.a), float(full.a)) and close(float(got.b), float(full.b)), 'element-changed:%s:%s' % (c['k'], c['op']),
                   lambda: '%s -> %s, alone %s' % (c, got, full))
