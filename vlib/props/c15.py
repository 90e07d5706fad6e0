"""C15: enclosing solvers (Gauss, Gauss-Seidel, Hansen-Bliek-Rohn, Rohn) contain the united solution set."""
import random
from fractions import Fraction as F
from .. import linsys as L, polys as P, systems as S
from ..lib import ip, np, mat, vec, mk, plain, is_array

ID = 'C15'
RULE = ('one system solved by every enclosing solver; every returned box is compared with the exact hull of the united solution '
        'set (vertex matrices or orthant polyhedra in rationals) or with exact solutions of point systems drawn from it')
N = {'quick': 420, 'thorough': 8000}
CASE_TIMEOUT = 60
SOLVERS = ('Gauss', 'Gauss_Seidel', 'HBR', 'Rohn')


def required(tier):
    return {'hulls_judged': 1500, 'witnesses_judged': 3000, 'point_systems': 60, 'dominant_systems': 150, 'rectangular': 60,
            'hbr_exact_hulls': 30, 'restricted_boxes': 100, 'empty_boxes': 10}


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        if u < .7:
            n = rng.choice((1, 2, 2, 2, 3, 3, 3, 4 if rng.random() < .3 else 2))
            kind, A, b = S.square(rng, n)
            A, b = S.scaled(rng, A, b)
            yield {'k': 'sq', 'kind': kind, 'A': A, 'b': b}
        elif u < .78:
            kind, A, b = S.square(rng, rng.randint(4, 9), rng.choice(('dd', 'perm', 'midI', 'any', 'point')))
            yield {'k': 'big', 'kind': kind, 'A': A, 'b': b, 'seed': rng.randrange(10**6)}
        elif u < .9:
            m = rng.choice((1, 2, 2, 3))
            A, b = S.rect(rng, m + rng.randint(1, 3 if m < 3 else 2), m, rng.choice((0, .02, .1, .3)))
            A, b = S.scaled(rng, A, b)
            yield {'k': 'rect', 'A': A, 'b': b}
        else:
            n = rng.choice((1, 2, 2, 3))
            kind, A, b = S.square(rng, n, rng.choice(('dd', 'dd', 'int', 'midI')))
            w = L.solve(*L.point_system(rng, A, b)) or [F(0)] * n
            far = rng.random() < .25
            x0 = []
            for v in w:
                r = rng.choice((rng.uniform(0, .2), rng.uniform(0, 3)))
                x0.append(S.interval(rng, float(v) + rng.uniform(-1, 1) * r * (1 if not far else 4), r))
            yield {'k': 'gs', 'A': A, 'b': b, 'x0': x0, 'seed': rng.randrange(10**6), 'C': rng.choice((None, None, 'eye', 'diag'))}


def run(ctx, name, A, b, **kw):
    """The solver's box, or None when it declares that it cannot enclose."""
    f = getattr(ip.linear, name)
    try:
        x = f(mat(A), vec(b), **kw)
    except (ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError) as e:
        ctx.event('rejected_' + name)
        return None
    except Exception as e:
        if type(e) is Exception:
            ctx.event('rejected_' + name)
            return None
        raise
    if not (is_array(x) and x.shape == (len(A[0]),)):
        ctx.violation('result-shape:' + name, lambda: repr(x))
        return None
    return [(plain(v.a), plain(v.b)) for v in x]


SLACK = {'Gauss': 0., 'Gauss_Seidel': 0., 'HBR': 1e-9, 'Rohn': 1e-9}


def inside(name, box, pt):
    """Whether the box contains the rational point; index of the first offending component otherwise."""
    size = 1 + max(abs(v) for v in pt)
    for k, ((lo, hi), v) in enumerate(zip(box, pt)):
        if lo != lo or hi != hi:
            return k
        t = F(SLACK[name]) * size
        if not (F_(lo) <= v + t and v - t <= F_(hi)):
            return k
    return None


def F_(v):
    return F(v) if abs(v) != float('inf') else F(10)**400 * (1 if v > 0 else -1)


def show(A, b, name, box, k, v):
    return '%s(%s, %s) -> %s loses component %d = %r' % (name, A, b, box, k, float(v))


def check(ctx, c):
    globals()['do_' + c['k']](ctx, c)
    ctx.distinct((c['A'], c['b']))


def do_sq(ctx, c):
    A, b = c['A'], c['b']
    h = L.hull(A, b)
    dom = S.dominant(A)
    if dom:
        ctx.event('dominant_systems')
    pt = all(p[0] == p[1] for r in A for p in r) and all(p[0] == p[1] for p in b)
    ident = all((F(p[0]) + F(p[1])) == 2 * int(i == j) for i, r in enumerate(A) for j, p in enumerate(r))
    big = max([1e9] + [4 * abs(float(v)) for q in h or [] for v in q])
    boxes = {}
    for s in SOLVERS:
        kw = {'x0': ip.full(len(b), -big, big)} if s == 'Gauss_Seidel' else {}
        x = run(ctx, s, A, b, **kw)
        if x is None:
            if h is not None:
                # pivoting by size in columns can fail on rows of quite different sizes
                even = s != 'Gauss' or max(abs(r[i][0]) for i, r in enumerate(A)) <= 16 * min(abs(r[i][0]) for i, r in enumerate(A))
                ctx.expect(not (dom and even), 'dominant-system-rejected:' + s, lambda: '%s(%s, %s)' % (s, A, b))
            continue
        boxes[s] = x
        if h is None:
            # a singular interval matrix: solutions of its point systems are still solutions
            r = random.Random(repr(A))
            for _ in range(12):
                w = L.solve(*L.point_system(r, A, b))
                if w is not None and (s != 'Gauss_Seidel' or all(abs(v) <= 10**9 for v in w)):
                    ctx.event('witnesses_judged')
                    k = inside(s, x, w)
                    ctx.expect(k is None, 'solution-lost:singular:' + s, lambda: show(A, b, s, x, k, w[k]))
            continue
        ctx.event('hulls_judged')
        for end in (0, 1):
            v = [q[end] for q in h]
            k = inside(s, x, v)
            ctx.expect(k is None, 'solution-lost:' + s, lambda: show(A, b, s, x, k, v[k]))
        scale = [1 + abs(float(q[0])) + abs(float(q[1])) for q in h]
        exact = pt and np.linalg.cond(np.array([[p[0] for p in r] for r in A])) < 1e4
        if s == 'HBR' and ident and dom:
            ctx.event('hbr_exact_hulls')
            exact = True
        if exact:
            if pt:
                ctx.event('point_systems')
            for k, (q, (lo, hi)) in enumerate(zip(h, x)):
                t = 1e-6 * max(scale)
                ctx.expect(lo >= q[0] - F(t) and hi <= q[1] + F(t), 'not-tight:%s:%s' % ('point' if pt else 'hull', s),
                           lambda: '%s(%s, %s) -> %s, hull %s' % (s, A, b, x, [(float(u), float(v)) for u, v in h]))


def do_big(ctx, c):
    A, b = c['A'], c['b']
    r = random.Random(c['seed'])
    ws = [w for w in (L.solve(*L.point_system(r, A, b)) for _ in range(8)) if w is not None]
    for s in SOLVERS:
        kw = {'x0': ip.full(len(b), -1e9, 1e9)} if s == 'Gauss_Seidel' else {}
        x = run(ctx, s, A, b, **kw)
        if x is None:
            ctx.expect(not S.dominant(A), 'dominant-system-rejected:' + s, lambda: '%s(%s, %s)' % (s, A, b))
            continue
        for w in ws:
            if s == 'Gauss_Seidel' and any(abs(v) > 10**9 for v in w):
                continue
            ctx.event('witnesses_judged')
            k = inside(s, x, w)
            ctx.expect(k is None, 'solution-lost:' + s, lambda: show(A, b, s, x, k, w[k]))


def do_rect(ctx, c):
    A, b = c['A'], c['b']
    x = run(ctx, 'Rohn', A, b)
    if x is None:
        return
    h, vs = P.hull(A, b, 'uni', clip=10**15)
    if h is None:
        ctx.event('rectangular_empty')
        return
    ctx.event('rectangular')
    for v in vs:
        k = inside('Rohn', x, v)
        if not ctx.expect(k is None, 'solution-lost:rectangular:Rohn', lambda: show(A, b, 'Rohn', x, k, v[k])):
            return


def do_gs(ctx, c):
    A, b, x0 = c['A'], c['b'], c['x0']
    n = len(b)
    kw = {'x0': vec(x0)}
    if c['C'] == 'eye':
        kw['C'] = np.eye(n)
    elif c['C'] == 'diag':
        kw['C'] = np.diag([2. ** (i - 1) for i in range(n)])
    ws = []
    if n <= 3:
        for s in P.orthants(n):
            ws += P.vertices(P.united(A, b, s) + [g for j in range(n) for g in bounds(j, n, x0[j])], n)
    before = [tuple(p) for p in x0]
    try:
        R = ip.linear.Gauss_Seidel(mat(A), vec(b), **kw)
    except AssertionError:
        ctx.event('rejected_Gauss_Seidel')
        return
    except ValueError:
        ctx.event('rejected_Gauss_Seidel')
        return
    except Exception as e:
        if type(e) is not Exception:
            raise
        ctx.event('empty_boxes')
        ctx.expect(not ws, 'declared-empty:Gauss_Seidel', lambda: '%s has solutions %s' % (c, [[float(v) for v in w] for w in ws[:2]]))
        return
    ctx.event('restricted_boxes')
    x = [(plain(v.a), plain(v.b)) for v in R]
    for (lo, hi), p in zip(x, x0):
        ctx.expect(p[0] - 1e-12 <= lo and hi <= p[1] + 1e-12, 'leaves-initial-box:Gauss_Seidel', lambda: '%s -> %s' % (c, x))
    for w in ws:
        k = inside('Gauss_Seidel', x, w)
        ctx.expect(k is None, 'solution-lost:restricted:Gauss_Seidel', lambda: show(A, b, 'Gauss_Seidel x0=%s' % x0, x, k, w[k]))


def bounds(j, n, p):
    e = [F(int(i == j)) for i in range(n)]
    return [(e, F(p[0])), (P.neg(e), -F(p[1]))]
