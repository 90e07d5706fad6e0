"""C07: natural interval extension of random programs: point containment and inclusion monotonicity."""
import math
import random
from fractions import Fraction as F
from .. import exact as E, gen as G
from ..lib import ip, np, mk, vec, plain, is_array, asnum
from ..core import Skip
from ..mpx import M

ID = 'C07'
RULE = ('one random expression program evaluated over a box (scalars or vectors of intervals), over a nested sub-box and '
        'at points of the sub-box; counted when at least one containment was compared')
N = {'quick': 7200, 'thorough': 144000}


def required(tier):
    return {'point_containments': 6000, 'nestings_judged': 2500, 'elementary_programs': 800, 'vector_programs': 800, 'steps': 30000, 'reevaluations': 3000}


BIN = ('+', '-', '*', '/')


def program(rng, nv, elementary):
    """A list of instructions over a growing stack of values 0..nv-1, nv, ..."""
    prog = []
    size = nv
    for _ in range(rng.randint(2, 9)):
        u = rng.random()
        i, j = rng.randrange(size), rng.randrange(size)
        if rng.random() < .5:
            i = size - 1
        if u < .55:
            prog.append([rng.choice(BIN), i, j])
        elif u < .75:
            c = rng.choice((2, 3, -1, 0.5, 0.1, -2.5, 7, 1 / 3, rng.uniform(-5, 5)))
            prog.append([rng.choice(BIN) + rng.choice(('c', 'C')), i, c, rng.choice(('py', 'npf'))])
        elif u < .85:
            prog.append(['pow', i, rng.choice((2, 2, 3, 4, 5))])
        elif u < .9:
            prog.append(['neg', i])
        elif elementary:
            prog.append([rng.choice(('exp', 'log', 'sin', 'cos', 'sqrt')), i])
        else:
            prog.append(['abs', i])
        size += 1
    return prog


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        if rng.random() < .08:       # the same array evaluated again after it was changed in place
            n = rng.randint(1, 4)
            el = lambda: G.pair(rng, 'pos', regimes=['small', 'dec', 'unit'])
            yield {'k': 'again', 'x': [el() for _ in range(n)], 'y': [el() for _ in range(n)], 'how': rng.choice(('item', 'all', 'mask', 'iadd', 'imul', 'isub', 'del')),
                   'i': rng.randrange(n), 'f': rng.sample(sorted(EVAL), 4), 'via': rng.choice(('np', 'ip'))}
            continue
        nv = rng.randint(1, 3)
        el = rng.random() < .5
        dim = rng.choice((0, 0, 1, 2, 3))
        regs = rng.choice((['int'], ['dec'], ['unit'], ['dyad'], ['small', 'dec'], ['ulp']))
        scale = rng.choice((None, 'pos', 'any', 'straddle', None))

        def var():
            p = G.pair(rng, scale, regimes=regs)
            if rng.random() < .4:
                p = narrow(rng, p)
            return p
        box = [[var() for _ in range(dim or 1)] for _ in range(nv)]
        sub = [[narrow(rng, p) for p in v] for v in box]
        pts = [[[rng.choice(G.points(rng, p, 2)) for p in v] for v in sub] for _ in range(3)]
        if rng.random() < .25:      # a sub-box that nearly fills the box
            sub = [[near(rng, p) for p in v] for v in box]
            pts = [[[rng.choice(G.points(rng, p, 1)) for p in v] for v in sub] for _ in range(3)]
        bpts = [[[rng.choice(p) for p in v] for v in box] for _ in range(2)]
        yield {'k': 'prog', 'dim': dim, 'box': box, 'sub': sub, 'pts': pts, 'bpts': bpts, 'prog': program(rng, nv, el),
               'via': rng.choice(('np', 'ip')), 'first': rng.choice(('box', 'sub'))}


def narrow(rng, p):
    a, b = p
    if a == b or rng.random() < .1:
        return list(p)
    u, v = sorted((rng.random(), rng.random()))
    l, h = a + (b - a) * u, a + (b - a) * v
    l, h = min(max(l, a), b), min(max(h, a), b)
    if rng.random() < .25:
        l = a
    if rng.random() < .25:
        h = b
    return [l, max(h, l)]


def near(rng, p):
    a, b = p
    d = (b - a) * 10.0 ** -rng.randint(5, 9)
    return sorted((min(max(a + d, a), b), max(min(b - d, b), a)))


def run_lib(prog, vals, ctx, via='np'):
    vals = list(vals)
    for ins in prog:
        o = ins[0]
        x = vals[ins[1]]
        ctx.event('steps')
        try:
            if o in BIN:
                r = op(o, x, vals[ins[2]])
            elif o[0] in BIN:
                c = asnum(ins[2], ins[3])
                r = op(o[0], x, c) if o[1] == 'c' else op(o[0], c, x)
            elif o == 'pow':
                r = x ** ins[2]
            elif o == 'neg':
                r = -x
            elif o == 'abs':
                r = abs(x)
            else:
                r = getattr(np if via == 'np' else ip, o)(x)
        except ValueError:           # division by an interval containing zero: the program has no value from here on
            r = None
        if r is None:
            break
        vals.append(r)
    return vals


def op(o, x, y):
    return x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x / y


def run_pt(prog, vals):
    """Exact rational value, or high precision once an elementary function was met; None where undefined."""
    vals = list(vals)
    for ins in prog:
        o = ins[0]
        x = vals[ins[1]]
        r = None
        try:
            if x is None:
                r = None
            elif o in BIN:
                y = vals[ins[2]]
                r = None if y is None else pt(o, x, y)
            elif o[0] in BIN:
                c = F(ins[2])
                r = pt(o[0], x, c) if o[1] == 'c' else pt(o[0], c, x)
            elif o == 'pow':
                r = x ** ins[2]
            elif o == 'neg':
                r = -x
            elif o == 'abs':
                r = abs(x)
            else:
                v = tomp(x)
                if o == 'log' and v <= 0 or o == 'sqrt' and v < 0:
                    r = None
                elif o == 'exp' and abs(v) > 5000 or o in ('sin', 'cos') and abs(v) > 1e15:
                    r = None
                else:
                    r = getattr(M, o)(v)
        except ZeroDivisionError:
            r = None
        if isinstance(r, F) and (abs(r.numerator).bit_length() + r.denominator.bit_length() > 6000):
            r = None
        vals.append(r)
    return vals


def tomp(v):
    return M.mpf(v.numerator) / M.mpf(v.denominator) if isinstance(v, F) else v


def pt(o, x, y):
    if not isinstance(x, F) or not isinstance(y, F):
        x, y = tomp(x), tomp(y)
    return op(o, x, y)


EVAL = {'exp': None, 'log': None, 'sqrt': None, 'sin': None, 'cos': None, 'square': lambda X: X ** 2, 'half': lambda X: X ** .5, 'neg': lambda X: -X,
        'abs': abs, 'double': lambda X: X + X, 'product': lambda X: X * X, 'quotient': lambda X: 1 / X, 'scalar product': lambda X: X @ X, 'power': lambda X: X ** 3,
        'numbers': lambda X: 3 * X - 1, 'inverse': lambda X: X.inv, 'dual': lambda X: X.dual, 'transposed': lambda X: X.T, 'copy': lambda X: X.copy()}


def again(ctx, c):
    """Values belong to the present contents of an array, not to what it held before."""
    fs = [(n, EVAL[n] or getattr(np if c['via'] == 'np' else ip, n)) for n in c['f']]
    X = vec(c['x'])
    def value(f, X):
        try:
            r = f(X)
        except (ValueError, ArithmeticError) as e:
            return type(e).__name__
        return [(plain(e.a), plain(e.b)) for e in (r.data.flat if is_array(r) else [r])]
    for _, f in fs:
        value(f, X)
    want, how, i = list(c['x']), c['how'], c['i']
    if how == 'item':
        X[i] = mk(c['y'][i])
        want[i] = c['y'][i]
    elif how == 'all':
        X[:] = vec(c['y'])
        want = c['y']
    elif how == 'mask':
        m = np.arange(len(want)) % 2 == i % 2
        X[m] = mk(c['y'][i])
        want = [c['y'][i] if q else p for p, q in zip(want, m)]
    elif how == 'del':
        if len(want) == 1:
            return
        del X[i]
        del want[i]
    else:
        Y = vec(c['y'])
        R = vec(c['x']) + Y if how == 'iadd' else vec(c['x']) * Y if how == 'imul' else vec(c['x']) - -Y
        if how == 'iadd':
            X += Y
        elif how == 'imul':
            X *= Y
        else:
            X -= -Y
        want = [[plain(e.a), plain(e.b)] for e in R.data.flat]
    for n, f in fs:
        got, ref = value(f, X), value(f, vec(want))
        ctx.event('reevaluations')
        ctx.expect(repr(got) == repr(ref), 'stale-value:' + n, lambda: '%s: %s after the change, %s for a new array' % (c, got, ref))
    ctx.distinct((c['how'], c['x'], c['y']))


def check(ctx, c):
    if c['k'] == 'again':
        return again(ctx, c)
    dim = c['dim']
    lift = (lambda b: [vec(v) for v in b]) if dim else (lambda b: [mk(v[0]) for v in b])
    via = c.get('via', 'np')
    if c.get('first') == 'sub':
        small = run_lib(c['prog'], lift(c['sub']), ctx, via)
    big = run_lib(c['prog'], lift(c['box']), ctx, via)
    if c.get('first') != 'sub':
        small = run_lib(c['prog'], lift(c['sub']), ctx, via)
    nv = len(c['box'])
    el = any(i[0] in ('exp', 'log', 'sin', 'cos', 'sqrt') for i in c['prog'])
    if el:
        ctx.event('elementary_programs')
    if dim:
        ctx.event('vector_programs')
    pts = [[run_pt(c['prog'], [F(v[d]) for v in p]) for d in range(dim or 1)] for p in c['pts']]
    bpts = [[run_pt(c['prog'], [F(v[d]) for v in p]) for d in range(dim or 1)] for p in c.get('bpts', [])]
    judged = False
    for s in range(nv, len(big)):
        ins = c['prog'][s - nv]
        # containments of earlier steps already failed or became undefined: stop at the first culprit
        for d in range(dim or 1):
            B = big[s][d] if dim else big[s]
            S = (small[s][d] if dim else small[s]) if s < len(small) else None
            a, b = plain(B.a), plain(B.b)
            if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
                return
            tag = ins[0]
            if S is None:
                ctx.violation('undefined-on-subbox:' + tag, lambda: '%s step %d' % (c, s))
                return
            sa, sb = plain(S.a), plain(S.b)
            for lo, hi, who, ps in ((a, b, 'box', pts + bpts), (sa, sb, 'sub-box', pts)):
                for p in ps:
                    v = p[d][s]
                    if v is None:
                        continue
                    ctx.event('point_containments')
                    judged = True
                    ok = (F(lo) <= v <= F(hi)) if isinstance(v, F) else (M.mpf(lo) - eps(v) <= v <= M.mpf(hi) + eps(v))
                    if not ctx.expect(ok, 'point-outside-%s:%s' % (who, tag),
                                      lambda: '%s step %d comp %d: value %s not in [%r,%r]' % (c, s, d, float(v), lo, hi)):
                        return
            if sa != sa or sb != sb:
                return
            ctx.event('nestings_judged')
            judged = True
            if el:
                t = 1e-12 * max(abs(a), abs(b)) + 1e-300
                ok = a - t <= sa and sb <= b + t
            else:
                ok = a <= sa and sb <= b
            if not ctx.expect(ok, 'not-inclusion-monotone:' + tag,
                              lambda: '%s step %d comp %d: [%r,%r] not in [%r,%r]' % (c, s, d, sa, sb, a, b)):
                return
    if judged:
        ctx.distinct((c['prog'], c['box'], c['sub']))


def eps(v):
    return abs(v) * M.mpf(2) ** -1000
