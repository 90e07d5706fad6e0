"""C10: construction and endpoint accessors."""
import itertools
import math
import numpy as np
from fractions import Fraction as F
from .. import exact as E, gen as G, arith as A
from ..lib import ip, mk, vec, plain, is_array, Interval, NARROW

ID = 'C10'
RULE = ('one construction (form, nesting, flags, number kinds) whose every element end and every derived characteristic '
        'was compared with the exact value')
N = {'quick': 9000, 'thorough': 180000}
KINDS = ('py', 'f', 'npf', 'npi', 'np32')


def required(tier):
    return {'elements_judged': 20000, 'improper_kept': 1000, 'sorted': 1000, 'midrad': 1500, 'narrow_ends': 1500, 'mixed_int_float': 1500, 'rejections': 400,
            'conversions': 1500, 'constructors': 500, 'vertices': 400, 'accessor_calls': 1500, 'accessor_mixed': 400}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        if u < .6:
            form = rng.choice(('s2', 's1', 'np1', 'ab', 'ab', 'abnp', 'nest', 'nest', 'nestnp'))
            sh = () if form in ('s2', 's1', 'np1') else tuple(rng.randint(1, 3) for _ in range(rng.choice((1, 1, 2, 3))))
            n = int(np.prod(sh)) if sh else 1
            mr = rng.random() < .25
            nw = rng.choice(list(NARROW)) if rng.random() < .2 and form in ('s2', 'np1', 'abnp', 'nestnp') else None
            pick = (lambda: A.narrow(rng, nw)) if nw else (lambda: val(rng))
            ps = []
            for _ in range(n):
                x, y = pick(), pick()
                if mr and nw == 'u8':      # sums of Python integers are claimed up to 2**53
                    x, y = x >> 2, y >> 2
                if mr:
                    y = abs(y)
                    if nw and y > NMAX[nw]:
                        y = NMAX[nw]
                    if max(abs(x), y) > 1e300:
                        x, y = 1.5, 0.25
                elif rng.random() < .2:
                    y = x
                ps.append([x, y])
            yield {'k': 'make', 'form': form, 's': sh, 'p': ps, 'sort': rng.random() < .5, 'mr': mr,
                   'kind': nw or (rng.choice(KINDS[:4] if mr else KINDS) if form == 's2' else 'py')}
        elif u < .78:
            yield {'k': 'conv', 'form': rng.choice(('num', 'list', 'nd', 'nested', 'interval', 'arr', 'objs', 'tuple')),
                   'v': [val(rng) for _ in range(4)], 'kind': rng.choice(KINDS)}
        elif u < .86:
            yield {'k': 'new', 'f': rng.choice(('zeros', 'full', 'eye', 'copy', 'diag')), 's': [rng.randint(1, 4) for _ in range(rng.randint(1, 3))],
                   'v': [val(rng), val(rng)], 'off': rng.randint(-2, 2), 'int': rng.random() < .3}
        elif u < .90:
            n = rng.randint(1, 5)
            items = [rng.choice(([sorted((val(rng), val(rng)))] * 3) + [[val(rng), val(rng)]] + [val(rng)] * 2) for _ in range(n)]
            yield {'k': 'acc', 'f': rng.choice(ACC), 'items': items, 'form': rng.choice(('alone', 'list', 'list', 'tuple', 'nd', 'nested', 'array', 'numbers')), 'kind': rng.choice(KINDS[:4])}
        elif u < .95:
            p = [sorted((val(rng), val(rng))) for _ in range(4)]
            if rng.random() < .4:
                i = rng.randint(0, 1)      # all ends of one side integers, the others fractions
                p = [[t, t + .5] if i == 0 else [t - .5, t] for t in (rng.randint(-40, 40) for _ in range(4))]
            if rng.random() < .3:      # improper elements
                p = [q[::rng.choice((1, -1))] for q in p]
            yield {'k': 'vertex', 'p': p, 's': rng.choice(([1], [2], [3], [4], [2, 2], [1, 3], [3, 1]))}
        else:
            yield {'k': 'rej', 'f': rng.choice(('three', 'str', 'str2', 'radius', 'arr_str', 'ragged', 'asstr', 'none', 'radius_arr')),
                   'v': [val(rng), val(rng)]}


def val(rng):
    return G.num(rng, rng.choice(('int', 'int', 'small', 'dec', 'unit', 'dyad', 'ulp', 'log', 'mid', 'special', 'bigint')))


NMAX = {k: int(np.iinfo(t).max) if k[0] != 'f' else float(np.finfo(t).max) for k, t in NARROW.items()}


def conv(v, kind):
    if kind in NARROW:
        return NARROW[kind](v)
    if kind == 'f':
        return float(v)
    if kind == 'npf':
        return np.float64(v)
    if kind == 'npi' and isinstance(v, int):
        return np.int64(v)
    if kind == 'np32' and isinstance(v, int) and abs(v) < 2**20:
        return np.float32(v)
    return v


def nest(ps, sh):
    if not sh:
        return ps[0]
    n = len(ps) // sh[0]
    return [nest(ps[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]


def build(c):
    kw = {'sortQ': c['sort'], 'midRadQ': c['mr']}
    ps, sh, f = c['p'], c['s'], c['form']
    if f == 's2':
        return Interval(conv(ps[0][0], c['kind']), conv(ps[0][1], c['kind']), **kw)
    if f == 's1':
        return Interval(list(ps[0]), **kw)
    if f == 'np1':
        return Interval(np.array(ps[0], dtype=NARROW.get(c['kind'])), **kw)
    if f in ('ab', 'abnp'):
        a, b = nest([p[0] for p in ps], sh), nest([p[1] for p in ps], sh)
        if f == 'abnp':
            a, b = np.array(a, dtype=NARROW.get(c['kind'])), np.array(b, dtype=NARROW.get(c['kind']))
        return Interval(a, b, **kw)
    v = nest(ps, sh)
    return Interval(np.array(v, dtype=NARROW.get(c['kind'])) if f == 'nestnp' else v, **kw)


def check(ctx, c):
    globals()['do_' + c['k']](ctx, c)
    ctx.distinct(c)


def do_make(ctx, c):
    X = build(c)
    if not ctx.expect(is_array(X) == bool(c['s']), 'kind-of-result:' + c['form'], lambda: '%s -> %r' % (c, type(X))):
        return
    if c['s']:
        if not ctx.expect(tuple(X.shape) == tuple(c['s']) and X.ndim == len(c['s']) and len(X) == c['s'][0]
                          and [list(r) for r in X.ranges] == [list(range(v)) for v in c['s']],
                          'shape:' + c['form'], lambda: '%s -> %s' % (c, X.shape)):
            return
        els = list(X.data.flat)
        allints = [isinstance(v, int) for p in c['p'] for v in p]
        if any(allints) and not all(allints):
            ctx.event('mixed_int_float')
    else:
        els = [X]
    for p, e in zip(c['p'], els):
        x, y = F(p[0]), F(p[1])
        ctx.event('elements_judged')
        a, b = F(plain(e.a)), F(plain(e.b))
        show = lambda: '%s: element %s -> [%r,%r]' % (c, p, e.a, e.b)
        if c['kind'] in NARROW:
            ctx.event('narrow_ends')
        if c['mr']:
            ctx.event('midrad')
            lo, hi = x - y, x + y
            ok = abs(a - lo) <= ulp(lo) and abs(b - hi) <= ulp(hi)
            if not ctx.expect(ok, 'midrad-ends:' + c['form'], show):
                return
        else:
            if c['sort']:
                if x > y:
                    ctx.event('sorted')
                x, y = min(x, y), max(x, y)
            elif x > y:
                ctx.event('improper_kept')
            if not ctx.expect(a == x and b == y, 'ends:' + c['form'], show):
                return
        ctx.expect((type(e).__name__ == 'ClassicalArithmetic') == (a <= b), 'arithmetic-kind:' + c['form'], show)
        chars(ctx, c, e, a, b)
    # array-level accessors against the elements
    if c['s']:
        sh = tuple(c['s'])
        for f, vals in (('a', [plain(e.a) for e in els]), ('b', [plain(e.b) for e in els])):
            for acc in (getattr(X, f), getattr(X, {'a': 'inf', 'b': 'sup'}[f]), getattr(ip, {'a': 'inf', 'b': 'sup'}[f])(X)):
                ctx.expect(np.shape(acc) == sh and [float(v) for v in np.asarray(acc).flat] == [float(v) for v in vals],
                           'array-accessor:' + f, lambda: '%s -> %r' % (c, acc))


def ulp(v):
    return abs(v) * F(1, 2**52) + F(1, 2**1074)


def chars(ctx, c, e, a, b):
    """Derived characteristics of one interval with exact ends a, b."""
    if max(abs(a), abs(b)) > F(10)**300:
        return
    num = lambda v: F(plain(v))
    show = lambda nm, v: (lambda: '[%s,%s].%s = %r' % (e.a, e.b, nm, v))

    def near(nm, want):
        v = getattr(e, nm)
        ctx.expect(abs(num(v) - want) <= ulp(want), 'value:' + nm, show(nm, v))
        if hasattr(ip, nm):
            w = getattr(ip, nm)(e)
            ctx.expect(num(w) == num(v), 'function-differs:' + nm, show(nm, w))

    def exact(nm, want):
        v = getattr(e, nm)
        ctx.expect(num(v) == want, 'value:' + nm, show(nm, v))
    near('wid', b - a)
    near('rad', (b - a) / 2)
    near('mid', (a + b) / 2)
    m = num(e.mid)
    ctx.expect(min(a, b) <= m <= max(a, b), 'mid-outside', show('mid', m))
    exact('mag', max(abs(a), abs(b)))
    if a <= b:
        exact('mig', F(0) if a <= 0 <= b else min(abs(a), abs(b)))
    for nm, w in (('dual', (b, a)), ('opp', (-a, -b)), ('pro', (min(a, b), max(a, b)))):
        v = getattr(e, nm)
        ctx.expect(num(v.a) == w[0] and num(v.b) == w[1], 'value:' + nm, show(nm, v))
        ctx.expect((type(v).__name__ == 'ClassicalArithmetic') == (w[0] <= w[1]) or (w[0] == w[1]), 'kind:' + nm, show(nm, type(v)))
    n = -e
    ctx.expect(num(n.a) == -b and num(n.b) == -a, 'value:neg', show('neg', n))
    q = e.copy()
    ctx.expect(num(q.a) == a and num(q.b) == b, 'value:copy', show('copy', q))
    if a != 0 and b != 0 and min(abs(a), abs(b)) > F(1, 10**290):
        v = e.inv
        ctx.expect(num(v.a) <= 1 / a and num(v.b) >= 1 / b and abs(num(v.a) - 1 / a) <= 2 * ulp(1 / a)
                   and abs(num(v.b) - 1 / b) <= 2 * ulp(1 / b), 'value:inv', show('inv', v))
    if max(abs(a), abs(b)) > F(1, 10**290):
        w = a / b if abs(a) <= abs(b) else b / a
        v = e.khi
        ctx.expect(abs(num(v) - w) <= ulp(w), 'value:khi', show('khi', v))


ACC = ('inf', 'sup', 'mid', 'rad', 'wid', 'mag', 'khi')


def do_acc(ctx, c):
    """The package functions on numbers, intervals, arrays and sequences that mix them: a number is the interval of itself."""
    f, items = c['f'], c['items']
    if c['form'] == 'array':
        items = [v if isinstance(v, list) else [v, v] for v in items]
    elif c['form'] == 'numbers':
        items = [v[0] if isinstance(v, list) else v for v in items]
    if f == 'khi' and any(not any(v if isinstance(v, list) else [1]) for v in items):
        return
    want = [float(getattr(mk(v), f)) if isinstance(v, list) else {'inf': float(v), 'sup': float(v), 'mid': float(v), 'rad': 0., 'wid': 0., 'mag': abs(float(v)), 'khi': 1.}[f] for v in items]
    objs = [mk(v) if isinstance(v, list) else conv(v, c['kind']) if c['form'] != 'alone' or abs(v) < 2**53 else float(v) for v in items]
    g = getattr(ip, f)
    if c['form'] == 'alone':
        objs, want = objs[:1], want[:1]
        r = [g(objs[0])]
    elif c['form'] == 'array':
        r = g(vec(items))
    elif c['form'] == 'nd' or c['form'] == 'numbers' and c['kind'] != 'py':
        o = np.empty(len(objs), dtype=object)
        o[:] = objs
        r = g(np.array(objs) if c['form'] == 'numbers' else o)
    elif c['form'] == 'nested':
        r = g([objs, objs])
        ctx.expect(np.shape(r) == (2, len(objs)), 'accessor-shape:' + f, lambda: '%s -> %r' % (c, r))
        r = np.asarray(r)[1]
    else:
        r = g(tuple(objs) if c['form'] == 'tuple' else objs)
    ctx.event('accessor_calls')
    ctx.event('accessor_mixed', len({isinstance(v, list) for v in items}) == 2 and c['form'] != 'alone')
    ctx.expect(np.shape(r) == (len(objs),) and all(float(p) == q for p, q in zip(np.asarray(r).flat, want)), 'accessor-function:%s:%s' % (f, c['form']),
               lambda: '%s of %s -> %r, wanted %s' % (f, objs, r, want))


def do_conv(ctx, c):
    f, v = c['form'], c['v']
    ctx.event('conversions')
    if f == 'num':
        x = conv(v[0], c['kind'])
        for r in (ip.asinterval(x), Interval(x)):
            ctx.expect(not is_array(r) and F(plain(r.a)) == F(v[0]) == F(plain(r.b)), 'degenerate:number', lambda: '%s -> %r' % (c, r))
        return
    if f == 'interval':
        x = mk(v[:2])
        for r in (ip.asinterval(x), Interval(x)):
            ctx.expect(r is x or (r.a == x.a and r.b == x.b), 'conversion-changes-interval', lambda: '%s -> %r' % (c, r))
        return
    if f == 'arr':
        x = Interval([v[:2], v[2:]], sortQ=False)
        for r in (ip.asinterval(x), Interval(x)):
            ctx.expect(is_array(r) and bool(np.all(r == x)), 'conversion-changes-array', lambda: '%s -> %r' % (c, r))
        return
    if f == 'objs':
        src = [mk(v[:2]), v[2], mk([v[3], v[0]])]
        want = [v[:2], [v[2], v[2]], [v[3], v[0]]]
        sh = (3,)
    elif f == 'nested':
        src, want, sh = [v[:2], v[2:]], [[t, t] for t in v], (2, 2)
    else:
        src, want, sh = {'list': list(v), 'tuple': tuple(v), 'nd': np.array(v)}[f], [[t, t] for t in v], (4,)
    r = ip.asinterval(src)
    ok = is_array(r) and tuple(r.shape) == sh
    if ctx.expect(ok, 'conversion-shape:' + f, lambda: '%s -> %r' % (c, r)):
        for e, w in zip(r.data.flat, want):
            ctx.event('elements_judged')
            ctx.expect(F(plain(e.a)) == F(w[0]) and F(plain(e.b)) == F(w[1]), 'conversion-ends:' + f, lambda: '%s -> %r' % (c, r))


def do_new(ctx, c):
    f, s, v = c['f'], tuple(c['s']), c['v']
    ctx.event('constructors')
    arg = s[0] if c['int'] else s
    if f == 'copy':
        x = ip.full(s, v[0], v[1])
        y = x.copy()
        ctx.expect(tuple(y.shape) == s and bool(np.all(x == y)), 'copy', lambda: '%s -> %r' % (c, y))
        return
    if f == 'diag':
        n = s[0]
        base = Interval([[i + v[0], i + v[1]] for i in range(n + 1)], sortQ=False)
        m = ip.diag(base, k=c['off'])
        d = np.diag(np.arange(1, n + 2), k=c['off'])
        if ctx.expect(tuple(m.shape) == d.shape, 'diag-shape', lambda: '%s -> %s' % (c, m.shape)):
            for i, j in itertools.product(*map(range, d.shape)):
                e = m[i, j]
                w = (F(plain(base[int(d[i, j]) - 1].a)), F(plain(base[int(d[i, j]) - 1].b))) if d[i, j] else (F(0), F(0))
                ctx.expect(F(plain(e.a)) == w[0] and F(plain(e.b)) == w[1], 'diag', lambda: '%s -> %r' % (c, m))
        return
    if f == 'zeros':
        x, w = ip.zeros(arg), np.zeros(arg)
        W = (w, w)
    elif f == 'full':
        x = ip.full(arg, v[0], v[1])
        W = (np.full(arg, float(v[0])), np.full(arg, float(v[1])))
    else:
        n, m = s[0], (s[1] if len(s) > 1 else None)
        x = ip.eye(n, m, c['off'])
        w = np.eye(n, m, c['off'])
        W = (w, w)
    ok = tuple(x.shape) == W[0].shape and np.array_equal(np.asarray(x.a, float), W[0]) and np.array_equal(np.asarray(x.b, float), W[1])
    ctx.expect(ok, 'constructor:' + f, lambda: '%s -> %r' % (c, x))


def do_vertex(ctx, c):
    n = int(np.prod(c['s']))
    ps = (c['p'] * 2)[:n]
    if c['p'][0][0] == c['p'][0][1] or sum(isinstance(v, int) for v in c['p'][0]) == 1:
        # elements that keep the number kinds they were given
        X = ip.asinterval(nest([mk(p) for p in ps], c['s']))
    else:
        X = Interval(nest(ps, c['s']) if len(c['s']) > 1 or n != 2 else np.array(ps), sortQ=False)
    V = np.asarray(X.vertex, float)
    want = {tuple(float(v) for v in t) for t in itertools.product(*ps)}
    got = {tuple(v) for v in V.reshape(len(V), -1)}
    ctx.event('vertices')
    ctx.expect(got == want and V.shape == (2**n,) + tuple(c['s']), 'vertices', lambda: '%s -> %s' % (c, V.tolist()))


def do_rej(ctx, c):
    f, v = c['f'], c['v']
    try:
        if f == 'three':
            r = Interval(v[0], v[1], v[0])
        elif f == 'str':
            r = Interval(1, 'a')
        elif f == 'str2':
            r = Interval('1', '2')
        elif f == 'radius':
            r = Interval(v[0], -abs(v[1]) - 1, midRadQ=True)
        elif f == 'radius_arr':
            r = Interval([v[0], v[0]], [1, -abs(v[1]) - 1], midRadQ=True)
        elif f == 'arr_str':
            r = Interval(['a', 'b'], ['c', 'd'])
        elif f == 'ragged':
            r = Interval([1, 2, 3], [1, 2])
        elif f == 'asstr':
            r = ip.asinterval('abc')
        else:
            r = Interval(None, 2)
    except Exception:
        ctx.event('rejections')
        return
    ctx.violation('accepted:' + f, '%s -> %r' % (c, r))
