"""C09: array operations are the elementwise scalar operations (broadcasting, reflected, in-place, ufuncs, indexing)."""
import copy
import itertools
import math
import operator
import numpy as np
from fractions import Fraction as F
from .. import exact as E, gen as G, arith as A
from ..lib import ip, mk, arr, plain, is_array, asnum, Interval

ID = 'C09'
RULE = ('one array operation whose result shape was compared with numpy broadcasting/indexing and whose every element '
        'was compared with the same scalar operation on the corresponding elements')
N = {'quick': 12500, 'thorough': 225000}
UNARY = ('neg', 'abs', 'dual', 'pro', 'opp', 'inv', 'exp', 'log', 'sqrt', 'sin', 'cos', 'sign')
ACC = ('a', 'b', 'inf', 'sup', 'rad', 'mid', 'wid', 'mig', 'mag', 'khi')
PY, IPY = A.PY, A.IPY


def required(tier):
    return {'elements_compared': 30000, 'broadcasts': 1500, 'k_bin': 3000, 'k_un': 1000, 'k_acc': 1000, 'k_idx': 1000, 'k_pow': 500,
            'k_mm': 800, 'rejected_shapes': 100, 'k_cmp': 500, 'k_iter': 300, 'numpy_functions': 100, 'aliased': 100}


def ends(rng, imp=.3, sign=None, regs=None):
    p = G.pair(rng, sign, regimes=regs or [rng.choice(('int', 'dec', 'unit', 'dyad', 'small', 'mid'))])
    return p[::-1] if rng.random() < imp else p


def block(rng, shape, **kw):
    n = int(np.prod(shape)) if shape else 1
    return {'s': list(shape), 'p': [ends(rng, **kw) for _ in range(n)], 'v': rng.choice('CCCTSR')}


def rshape(rng, maxd=3):
    d = rng.choice((1, 1, 2, 2, 3)[:maxd + 2])
    return [rng.randint(1, 4) for _ in range(d)]


def bshapes(rng):
    """Two shapes, usually broadcastable."""
    s = rshape(rng)
    u = rng.random()
    if u < .4:
        return s, list(s)
    t = [v if rng.random() < .6 else 1 for v in s]
    if rng.random() < .5:
        t = t[rng.randint(0, len(t) - 1):]
    if u > .93:
        t = rshape(rng)
    return (s, t) if rng.random() < .5 else (t, s)


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        k = rng.choice(('bin', 'bin', 'bin', 'bin', 'un', 'acc', 'idx', 'idx', 'pow', 'mm', 'cmp', 'iter', 'set'))
        if k == 'bin':
            op = rng.choice(('add', 'sub', 'mul', 'div'))
            kinds = rng.choice(('VV', 'VV', 'VV', 'VI', 'IV', 'VN', 'NV', 'VA', 'AV', 'AI', 'IA', 'ip', 'ipI', 'ipN', 'ipA', 'VL', 'LV'))
            s, t = bshapes(rng)
            sg = {'sign': rng.choice(('pos', 'neg', 'thin', 'near')), 'regs': None} if op == 'div' else {}
            yield {'k': k, 'op': op, 'f': kinds, 'x': block(rng, s), 'y': nz(block(rng, t, **sg)) if op == 'div' else block(rng, t),
                   'nk': rng.choice(A.NUMKINDS), 'np': not kinds.startswith('ip') and rng.random() < .12,
                   'alias': rng.choice(('self', 'rev', 'rev', 'view')) if kinds == 'ip' and op != 'div' and s and rng.random() < .3 else None}
        elif k == 'un':
            f = rng.choice(UNARY)
            b = block(rng, rshape(rng), imp=.3 if f not in ('abs', 'sign') else 0, sign='pos' if f in ('log', 'sqrt', 'inv') else None)
            if f in ('inv', 'log', 'sqrt'):
                b = nz(b)
            yield {'k': k, 'f': f, 'x': b, 'via': rng.choice(('np', 'ip'))}
        elif k == 'acc':
            yield {'k': k, 'f': rng.choice(ACC), 'x': nz(block(rng, rshape(rng))), 'via': rng.choice(('attr', 'fun'))}
        elif k in ('idx', 'set'):
            s = rshape(rng)
            yield {'k': k, 'x': block(rng, s), 'key': key(rng, s), 'y': ends(rng), 'vk': rng.choice(('I', 'N', 'A', 'F'))}
        elif k == 'pow':
            yield {'k': k, 'x': block(rng, rshape(rng)), 'n': rng.choice((0, 1, 2, 3, 4, 5)), 'each': rng.random() < .3}
        elif k == 'mm':
            n, m, q = (rng.randint(1, 4) for _ in range(3))
            f = rng.choice(('MM', 'MV', 'VM', 'VV', 'AM', 'MA', 'AV', 'VA', 'Av', 'MAv'))
            L = {'MM': ([n, m], [m, q]), 'AM': ([n, m], [m, q]), 'MA': ([n, m], [m, q]), 'MV': ([n, m], [m]), 'AV': ([n, m], [m]),
                 'VM': ([m], [m, q]), 'VV': ([m], [m]), 'VA': ([m], [m, q]), 'Av': ([m], [m]), 'MAv': ([n, m], [m])}[f]
            if rng.random() < .06:
                L = (L[0], [L[1][0] + 1] + L[1][1:])
            yield {'k': k, 'f': f, 'x': block(rng, L[0]), 'y': block(rng, L[1]), 'np': rng.random() < .12}
        elif k == 'cmp':
            s = rshape(rng)
            b = block(rng, s)
            y = block(rng, s)
            for i in range(len(y['p'])):
                if rng.random() < .5:
                    y['p'][i] = list(b['p'][i])
            yield {'k': k, 'op': rng.choice(('lt', 'le', 'gt', 'ge', 'eq', 'ne')), 'x': b, 'y': y, 'f': rng.choice(('VV', 'VN'))}
        else:
            yield {'k': k, 'x': block(rng, rshape(rng)), 'i': rng.randint(0, 10)}


def nz(b):
    b['p'] = [p if A.safe_div(p) else [1.5, 2.5] for p in b['p']]
    return b


def key(rng, s):
    u = rng.random()
    if u < .3:
        return ['i'] + [rng.randint(-v, v - 1) for v in s[:rng.randint(1, len(s))]]
    if u < .6:
        out = []
        for v in s[:rng.randint(1, len(s))]:
            out.append([rng.choice((None, rng.randint(-v, v))), rng.choice((None, rng.randint(-v, v))), rng.choice((None, 1, 2, -1))])
        return ['s'] + out
    if u < .75:
        return ['m'] + [rng.random() < .5 for _ in range(int(np.prod(s)))]
    if u < .9:
        return ['f'] + [rng.randint(-s[0], s[0] - 1) for _ in range(rng.randint(1, 4))]
    if len(s) == 1:
        return ['s', [None, None, -1]]
    return ['x', rng.randint(-s[-1], s[-1] - 1)]


def mkkey(k, s):
    if k[0] == 'i':
        return tuple(k[1:]) if len(k) > 2 else k[1]
    if k[0] == 's':
        t = tuple(slice(*v) for v in k[1:])
        return t if len(t) > 1 else t[0]
    if k[0] == 'm':
        return np.array(k[1:]).reshape(s)
    if k[0] == 'f':
        return list(k[1:])
    return (Ellipsis, k[1])


def ai(b):
    lo = np.array([p[0] for p in b['p']], dtype=object)
    hi = np.array([p[1] for p in b['p']], dtype=object)
    cls = ip.ArrayInterval
    d = np.empty(len(b['p']), dtype=object)
    for i, p in enumerate(b['p']):
        d[i] = mk(p)
    d = d.reshape(b['s'])
    v = d
    # how the elements lie in memory: in row order, in column order, with gaps, backwards
    if b.get('v') == 'T':
        v = d.T.copy().T
    elif b.get('v') == 'S' and d.ndim:
        v = np.repeat(d, 2, axis=-1)[..., ::2]
    elif b.get('v') == 'R' and d.ndim:
        v = d[::-1].copy()[::-1]
    return cls(v), d


def nums(b):
    return np.array([float(p[0]) for p in b['p']]).reshape(b['s'])


def close(u, v):
    u, v = float(plain(u)), float(plain(v))
    if u != u or v != v:
        return u != u and v != v
    return u == v or abs(E.order(u) - E.order(v)) <= 4


def same(ctx, c, got, want, tag):
    """got: array interval / element; want: object ndarray of scalar results (or a scalar result)."""
    if isinstance(want, np.ndarray) and want.shape != ():
        if not ctx.expect(is_array(got), 'not-an-array:' + tag, lambda: '%s -> %r' % (c, type(got))):
            return
        ok = tuple(got.shape) == want.shape and len(got) == want.shape[0] and got.ndim == want.ndim and np.shape(got.data) == want.shape
        if not ctx.expect(ok, 'shape:' + tag, lambda: '%s -> %s, expected %s' % (c, got.shape, want.shape)):
            return
        pairs = [(got[i], want[i]) for i in itertools.product(*map(range, want.shape))]
    else:
        w = want.item() if isinstance(want, np.ndarray) else want
        if not ctx.expect(not is_array(got) and hasattr(got, 'a'), 'not-a-scalar:' + tag, lambda: '%s -> %r' % (c, got)):
            return
        pairs = [(got, w)]
    for g, w in pairs:
        ctx.event('elements_compared')
        if not ctx.expect(close(g.a, w.a) and close(g.b, w.b), 'element-differs:' + tag,
                          lambda: '%s -> [%r,%r], scalar operation gives [%r,%r]' % (c, g.a, g.b, w.a, w.b)):
            return


def bcast(f, x, y):
    """Elementwise f over broadcast object arrays."""
    B = np.broadcast(x, y)
    out = np.empty(B.shape, dtype=object)
    bx, by = np.broadcast_to(x, B.shape), np.broadcast_to(y, B.shape)
    for i in itertools.product(*map(range, B.shape)):
        out[i] = f(bx[i], by[i])
    return out


def obj0(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def check(ctx, c):
    ctx.event('k_' + c['k'])
    globals()['do_' + c['k']](ctx, c)
    ctx.distinct(c)


def do_bin(ctx, c):
    f, op = c['f'], c['op']
    tag = '%s:%s' % (f, op)
    X, dx = ai(c['x'])
    Y, dy = ai(c['y'])
    nx, ny = nums(c['x']), nums(c['y'])
    sy, sx = c['y']['p'][0], c['x']['p'][0]
    inplace = f.startswith('ip')
    use = IPY if inplace else A.NPF if c.get('np') else PY
    if f in ('VV', 'ip'):
        L, R, wl, wr = X, Y, dx, dy
    elif f in ('VI', 'ipI'):
        L, R, wl, wr = X, mk(sy), dx, obj0(mk(sy))
    elif f == 'IV':
        L, R, wl, wr = mk(sx), Y, obj0(mk(sx)), dy
    elif f in ('VN', 'ipN'):
        v = asnum(int(sy[0]) or 3, c['nk'])
        L, R, wl, wr = X, v, dx, obj0(v)
    elif f == 'NV':
        v = asnum(int(sx[0]), c['nk'])
        L, R, wl, wr = v, Y, obj0(v), dy
    elif f in ('VA', 'ipA'):
        L, R, wl, wr = X, ny, dx, ny
    elif f == 'AV':
        L, R, wl, wr = nx, Y, nx, dy
    elif f == 'AI':
        L, R, wl, wr = nx, mk(sy), nx, obj0(mk(sy))
    elif f == 'IA':
        L, R, wl, wr = mk(sx), ny, obj0(mk(sx)), ny
    elif f == 'VL':
        L, R, wl, wr = X, ny.tolist(), dx, ny
        if op == 'div':
            return                      # dividing by a plain list is not an offered form
    else:
        L, R, wl, wr = nx.tolist(), Y, nx, dy
        if op == 'div':
            return
    if f == 'ip' and c.get('alias'):
        # the right operand shares its numbers with the left one
        R = X if c['alias'] == 'self' else X[::-1] if c['alias'] == 'rev' else X[:]
        wr = np.array(dx[::-1] if c['alias'] == 'rev' else dx, copy=True)
        dy = wr
        ctx.event('aliased')
    if f == 'ip' and not ok_inplace(dx.shape, dy.shape) or f == 'ipA' and not ok_inplace(dx.shape, ny.shape):
        return
    try:
        want = bcast(PY[op], wl, wr)
    except ValueError:
        try:
            r = use[op](L, R)
        except Exception:
            ctx.event('rejected_shapes')
            return
        ctx.violation('bad-shapes-accepted:' + tag, '%s -> %r' % (c, r))
        return
    if want.shape != np.shape(wl) or want.shape != np.shape(wr):
        ctx.event('broadcasts')
    got = use[op](L, R)
    if c.get('np'):
        ctx.event('numpy_functions')
    if c.get('np') and f in ('VV', 'AV') and op != 'div':
        outer(ctx, c, A.NPF[op], PY[op], L, R, wl, wr)
    if inplace:
        ctx.expect(got is X, 'in-place-not-the-object:' + tag, lambda: str(c))
    if f in ('AI', 'IA') and isinstance(got, np.ndarray):
        got = ip.asinterval(got)         # the library returns an object ndarray for scalar interval (op) ndarray
    same(ctx, c, got, want, tag)


def outer(ctx, c, f, g, L, R, wl, wr):
    """Other methods of the numpy functions either fail or do what numpy documents."""
    try:
        got = f.outer(L, R)
    except Exception:
        ctx.event('methods_rejected')
        return
    want = bcast(g, wl.reshape(wl.shape + (1,) * wr.ndim), wr)
    same(ctx, c, ip.asinterval(got), want, 'outer')


def ok_inplace(s, t):
    try:
        return np.broadcast_shapes(s, t) == tuple(s)
    except ValueError:
        return True


def do_un(ctx, c):
    X, d = ai(c['x'])
    f = c['f']
    scal = {'neg': operator.neg, 'abs': abs}.get(f)
    if scal is None:
        if f in ('dual', 'pro', 'opp', 'inv'):
            scal = lambda v: getattr(v, f)
        else:
            scal = getattr(ip, f) if f == 'sign' or c['via'] == 'ip' else getattr(np, f)
    want = np.empty(d.shape, dtype=object)
    for i in itertools.product(*map(range, d.shape)):
        want[i] = scal(d[i])
    same(ctx, c, scal(X), want, 'unary:' + f)


def do_acc(ctx, c):
    X, d = ai(c['x'])
    f = c['f']
    if c['via'] == 'fun' and f in ('inf', 'sup', 'rad', 'mid', 'wid', 'mag', 'khi'):
        got = getattr(ip, f)(X)
    else:
        got = getattr(X, f)
    want = np.array([float(getattr(v, f)) for v in d.flat]).reshape(d.shape)
    if ctx.expect(np.shape(got) == d.shape, 'accessor-shape:' + f, lambda: '%s -> %r' % (c, got)):
        ctx.event('elements_compared', want.size)
        ctx.expect(np.array_equal(np.asarray(got, dtype=float), want), 'accessor-differs:' + f,
                   lambda: '%s -> %r, scalars give %r' % (c, got, want))


def do_idx(ctx, c):
    X, d = ai(c['x'])
    k = mkkey(c['key'], c['x']['s'])
    want = d[k]
    if isinstance(want, np.ndarray) and want.size == 0:
        return
    same(ctx, c, X[k], want, 'index:' + c['key'][0])
    same(ctx, c, X.T, d.T, 'transpose')
    same(ctx, c, X.reshape((d.size,)), d.reshape((d.size,)), 'reshape')
    if d.ndim == 2:
        off = c['x']['s'][0] - 2
        w = np.diag(d, k=off) if abs(off) < min(d.shape) else np.diag(d)
        if w.size:
            same(ctx, c, ip.diag(X, k=off if abs(off) < min(d.shape) else 0), w, 'diag')


def do_set(ctx, c):
    X, d = ai(c['x'])
    k = mkkey(c['key'], c['x']['s'])
    cur = d[k]
    vk = c['vk']
    isarr = isinstance(cur, np.ndarray)
    d = d.copy()
    if vk == 'N':
        v = float(c['y'][0])
        X[k] = v
        d[k] = mk([v, v])
    elif vk == 'A' and isarr and cur.size:
        new = np.empty(cur.shape, dtype=object)
        for j, i in enumerate(itertools.product(*map(range, cur.shape))):
            new[i] = mk([c['y'][0] + j, c['y'][1] + j])
        X[k] = ip.ArrayInterval(new)
        d[k] = new
    elif vk == 'F' and isarr and cur.size:
        new = np.arange(cur.size, dtype=float).reshape(cur.shape)
        X[k] = new
        o = np.empty(cur.shape, dtype=object)
        for i in itertools.product(*map(range, cur.shape)):
            o[i] = mk([new[i], new[i]])
        d[k] = o
    else:
        X[k] = mk(c['y'])
        d[k] = mk(c['y'])
    same(ctx, c, X, d, 'setitem:%s:%s' % (c['key'][0], vk))


def do_pow(ctx, c):
    X, d = ai(c['x'])
    n = c['n']
    want = np.empty(d.shape, dtype=object)
    N_ = (np.arange(d.size) % 4).reshape(d.shape) if c['each'] else None
    for i in itertools.product(*map(range, d.shape)):
        want[i] = d[i] ** (int(N_[i]) if c['each'] else n)
    same(ctx, c, X ** (N_ if c['each'] else n), want, 'pow')


def do_mm(ctx, c):
    f = c['f']
    X, dx = ai(c['x'])
    Y, dy = ai(c['y'])
    nx, ny = nums(c['x']), nums(c['y'])
    L, wl = (nx, nx) if f in ('AM', 'AV', 'Av') else (X, dx)
    R, wr = (ny, ny) if f in ('MA', 'VA', 'MAv') else (Y, dy)
    try:
        got = np.matmul(L, R) if c.get('np') else L @ R
    except ValueError:
        ctx.expect(wl.shape[-1] != wr.shape[0], 'matmul-rejected', lambda: str(c))
        ctx.event('rejected_shapes')
        return
    if not ctx.expect(wl.shape[-1] == wr.shape[0], 'bad-shapes-accepted:matmul', lambda: '%s -> %r' % (c, got)):
        return
    rows = wl if wl.ndim == 2 else wl[None, :]
    cols = wr.T if wr.ndim == 2 else wr[None, :]
    want = np.empty((len(rows), len(cols)), dtype=object)
    big = F(1)
    for i, r in enumerate(rows):
        for j, q in enumerate(cols):
            acc = None
            for u, v in zip(r, q):
                t = u * v
                big = max(big, abs(F(plain(t.a))), abs(F(plain(t.b))))
                acc = t if acc is None else acc + t
            want[i, j] = acc
    shape = (() if wl.ndim == 1 else (wl.shape[0],)) + (() if wr.ndim == 1 else (wr.shape[1],))
    got_shape = tuple(got.shape) if is_array(got) else ()
    if not ctx.expect(got_shape == shape, 'shape:matmul:' + f, lambda: '%s -> %s, expected %s' % (c, got_shape, shape)):
        return
    gl = list(got.data.flat) if is_array(got) else [got]
    tol = big * F(wl.shape[-1] * 8, 2**52)
    for g, w in zip(gl, want.flat):
        ctx.event('elements_compared')
        ok = abs(F(plain(g.a)) - F(plain(w.a))) <= tol and abs(F(plain(g.b)) - F(plain(w.b))) <= tol
        if not ctx.expect(ok, 'element-differs:matmul:' + f, lambda: '%s -> %r, expected %r' % (c, g, w)):
            return


def do_cmp(ctx, c):
    X, dx = ai(c['x'])
    Y, dy = ai(c['y'])
    o = getattr(operator, c['op'])
    if c['f'] == 'VV':
        got, want = o(X, Y), bcast(o, dx, dy)
    else:
        v = float(c['y']['p'][0][0])
        got, want = o(X, v), bcast(o, dx, obj0(v))
    ctx.event('elements_compared', want.size)
    ctx.expect(np.shape(got) == want.shape and np.array_equal(np.asarray(got, bool), want.astype(bool)),
               'comparison-differs:%s:%s' % (c['f'], c['op']), lambda: '%s -> %r, expected %r' % (c, got, want))


def do_iter(ctx, c):
    X, d = ai(c['x'])
    got = list(X)
    ctx.expect(len(got) == len(d) == len(X), 'iteration-length', lambda: str(c))
    for g, w in zip(got, d):
        if isinstance(w, np.ndarray):
            same(ctx, c, ip.ArrayInterval(g), w, 'iteration')
        else:
            same(ctx, c, g, w, 'iteration')
    back = list(reversed(X))
    ctx.expect(len(back) == len(d), 'reversed-length', lambda: str(c))
    for g, w in zip(back, d[::-1]):
        same(ctx, c, ip.ArrayInterval(g) if isinstance(w, np.ndarray) else g, w, 'reversed')
    same(ctx, c, X.copy(), d, 'copy')
    Y = copy.deepcopy(X)
    same(ctx, c, Y, d, 'deepcopy')
    Y[(0,) * d.ndim] = 7
    same(ctx, c, X, d, 'written-through-copy')
    o = np.array(X)
    ctx.expect(o.dtype == object and o.shape == d.shape, 'numpy-array', lambda: str(c))
    same(ctx, c, ip.ArrayInterval(o), d, 'numpy-array')
    p = c['x']['p'][c['i'] % len(c['x']['p'])]
    ctx.expect(mk(p) in X or p[0] > p[1], 'element-not-in-array', lambda: str(c))
