"""C30: pictures show the data and exactly the sets that are returned, on the axes that were asked for."""
import os
import tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from .. import systems as S
from ..lib import ip, np, mat, vec

ID = 'C30'
RULE = ('one drawing call (IPlot scatter, lineqs or IntLinIncR2 on a grid of axes; lineqs, lineqs3D, IntLinIncR2, IntLinIncR3 with show): '
        'the polygons, points, titles and limits found on every open figure against the data and the returned vertices')
N = {'quick': 100, 'thorough': 2500}
CASE_TIMEOUT = 120


def required(tier):
    return {'boxes': 250, 'segments': 60, 'points': 60, 'polygons_2d': 250, 'polygons_3d': 150, 'other_axes_clean': 60, 'saved': 10, 'not_shown': 60, 'figures': 250,
            'reused_axes': 20}


def gen(rng, tier, shard, nshards):
    for i in range(N[tier]):
        k = rng.choice(('scatter', 'scatter', 'iplot', 'iplot', 'lineqs', 'lineqs', 'r2', 'r2', 'lineqs3d', 'r3'))
        c = {'k': k, 'grid': rng.choice(((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (None, None))), 'at': [rng.randrange(6), rng.randrange(6)], 'save': rng.random() < .3,
             'default': rng.random() < .2, 'title': 'T%d' % rng.randrange(100)}
        if k == 'scatter':
            n = rng.randint(1, 8)
            for q in 'xy':
                c[q] = [(lambda a, w: [a, a + w])(rng.choice((rng.uniform(-5, 5), rng.randint(-5, 5))), rng.choice((0, rng.uniform(.01, 3), 1))) for _ in range(n)]
        elif k in ('lineqs', 'lineqs3d'):
            m = 2 if k == 'lineqs' else 3
            A, b = [], []
            x0 = [rng.uniform(-2, 2) for _ in range(m)]
            for _ in range(rng.randint(1, 4)):
                r = [rng.uniform(-3, 3) for _ in range(m)]
                A.append(r)
                b.append(sum(p * q for p, q in zip(r, x0)) - rng.uniform(0, 4))
            if rng.random() < .7:
                for j in range(m):
                    for s in (1, -1):
                        A.append([float(s * (i == j)) for i in range(m)])
                        b.append(-rng.uniform(3, 8))
            c.update(A=A, b=b, bounds=rng.choice((None, [[-5.] * m, [6.] * m])))
        else:
            m = 3 if k == 'r3' else 2
            kind, A, b = S.square(rng, m, rng.choice(('dd', 'int')))
            if rng.random() < .2 and m == 2:
                A, b = S.rect(rng, rng.randint(1, 3), m, ints=True)
            c.update(A=A, b=b, cons=rng.choice(('uni', 'tol')), bounds=rng.choice((None, None, [[-5.] * m, [6.] * m])))
            if k == 'r3' and rng.random() < .3:
                c['point'] = True
        yield c


def cyc(p):
    """A polygon as a cyclic sequence without repeated neighbours."""
    out = []
    for v in p:
        v = tuple(float(t) for t in v)
        if not out or max(abs(a - b) for a, b in zip(v, out[-1])) > 1e-7 * (1 + max(map(abs, v))):
            out.append(v)
    while len(out) > 1 and max(abs(a - b) for a, b in zip(out[0], out[-1])) <= 1e-7 * (1 + max(map(abs, out[0]))):
        out.pop()
    return out


def same(p, q):
    p, q = cyc(p), cyc(q)
    if len(p) != len(q):
        return False
    if not p:
        return True
    close = lambda u, v: all(abs(a - b) <= 1e-6 * (1 + abs(a)) for a, b in zip(u, v))
    for d in (1, -1):
        r = q[::d]
        for s in range(len(r)):
            if all(close(p[i], r[(i + s) % len(r)]) for i in range(len(p))):
                return True
    return False


def match(ctx, what, drawn, wanted, show):
    """Every wanted polygon is drawn once and nothing else is."""
    left = list(wanted)
    ok = True
    for d in drawn:
        for i, w in enumerate(left):
            if same(d, w):
                del left[i]
                break
        else:
            ok = ctx.expect(False, 'foreign-shape:' + what, lambda: '%s draws %s, expected %s' % (show(), d, wanted)) and ok
    ctx.expect(not left, 'shape-missing:' + what, lambda: '%s does not draw %s' % (show(), left))


def polygons(ax):
    return [p.get_xy().tolist() for p in ax.patches if isinstance(p, matplotlib.patches.Polygon)]


def dots(ax):
    return [[float(t) for t in v] for q in ax.collections if isinstance(q, matplotlib.collections.PathCollection) for v in np.ma.getdata(q.get_offsets())]


def polys3(ax):
    out = []
    for q in ax.collections:
        if isinstance(q, Poly3DCollection):
            # where matplotlib keeps the corners differs between its releases
            out += [np.ma.getdata(f).tolist() for f in q._faces] if hasattr(q, '_faces') else [np.array(q._vec)[:3].T.tolist()]
    return out


def axes_of(ax):
    return list(np.array(ax).flat) if isinstance(ax, np.ndarray) else [ax]


def check(ctx, c):
    plt.close('all')
    k = c['k']
    if k in ('scatter', 'iplot'):
        plotter(ctx, c)
    else:
        direct(ctx, c)
    plt.close('all')
    ctx.distinct((k, c.get('A'), c.get('x'), c['at']))


def plotter(ctx, c):
    p = ip.IPlot(figsize=(3, 3))
    r, q = c['grid']
    fig, ax = p.subplots(nrows=r, ncols=q)
    r, q = r or 1, q or 1
    allax = axes_of(ax)
    i, j = c['at'][0] % r, c['at'][1] % q
    if c['default'] or (r, q) == (1, 1):
        index, target = None, allax[0]
    else:
        index = (i, j) if r > 1 and q > 1 else max(i, j)
        target = ax[index]
    show = lambda: '%s' % (c,)
    ctx.expect(len(allax) == r * q and list(fig.get_size_inches()) == [3, 3], 'grid', show)
    ctx.event('figures')
    pre = c['title'][-1] in '0123'
    if pre:        # something was drawn on the axes before
        ctx.event('reused_axes')
        p.scatter(vec([[50, 51]]), vec([[50, 51]]), axindex=index)
    want, pts = ([[(50, 50), (50, 51), (51, 51), (51, 50)]] if pre else []), []
    if c['k'] == 'scatter':
        x, y = vec(c['x']), vec(c['y'])
        p.scatter(x, y, axindex=index)
        for (a, b), (d, e) in zip(c['x'], c['y']):
            if a == b and d == e:
                ctx.event('points')
                pts.append((a, d))
            else:
                ctx.event('boxes' if a != b and d != e else 'segments')
                want.append([(a, d), (a, e), (b, e), (b, d)])
        what = 'scatter'
    else:
        V = ip.IntLinIncR2(mat(c['A']), vec(c['b']), show=False, consistency=c['cons'], bounds=c['bounds'] or [[-5., -5.], [6., 6.]])
        p.IntLinIncR2(V, axindex=index)
        for v in V:
            if len(v):
                want.append(v.tolist())
                pts += v.tolist()
        what = 'IPlot.IntLinIncR2'
    ctx.event('polygons_2d', len(want))
    match(ctx, what, polygons(target), want, show)
    match(ctx, what + ':points', [[v] for v in dots(target)], [[v] for v in pts], show)
    for a in allax:
        if a is not target:
            ctx.event('other_axes_clean')
            ctx.expect(not polygons(a) and not dots(a), 'wrong-axes', show)


def direct(ctx, c):
    k = c['k']
    show = lambda: '%s' % (c,)
    kw = {'bounds': c['bounds']}
    if k in ('lineqs', 'lineqs3d'):
        f, A, b = (ip.lineqs if k == 'lineqs' else ip.lineqs3D), np.array(c['A']), np.array(c['b'])
    else:
        f, A, b = (ip.IntLinIncR2 if k == 'r2' else ip.IntLinIncR3), mat(c['A']), vec(c['b'])
        if c.get('point'):
            # a system of inequalities is accepted as well
            A, b = np.array([[1., 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1., 1, 1]]), np.array([-1., -2, -1, -1, -1, -3, -2])
        else:
            kw['consistency'] = c['cons']
    V0 = f(A, b, show=False, **kw)
    ctx.event('not_shown')
    ctx.expect(not plt.get_fignums(), 'figure-without-show', show)
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            if k in ('lineqs', 'r2'):
                kw['title'] = c['title']
                kw['save'] = c['save']
            V = f(A, b, size=(4, 3), **kw)
            files = os.listdir(d)
        finally:
            os.chdir(here)
    flat = lambda W: [[[float(t) for t in p] for p in fc] for fc in (W if k in ('r2', 'lineqs3d') or c.get('point') else [W] if k == 'lineqs' else [fc for o in W for fc in o]) if len(fc)]
    faces = flat(V)
    ctx.expect(flat(V0) == faces, 'drawing-changes-result', show)
    if not faces:
        return
    n = plt.get_fignums()
    if not ctx.expect(len(n) == 1, 'one-figure', lambda: '%s: %d figures' % (show(), len(n))):
        return
    ctx.event('figures')
    fig = plt.figure(n[0])
    ax = fig.axes[0]
    ctx.expect(list(fig.get_size_inches()) == [4, 3], 'size', show)
    if k in ('lineqs', 'r2'):
        ctx.expect(ax.get_title() == c['title'], 'title', show)
        ctx.expect(files == ([c['title'] + '.png'] if c['save'] else []), 'saved-files', lambda: '%s: %s' % (show(), files))
        if c['save']:
            ctx.event('saved')
        ctx.event('polygons_2d', len(faces))
        match(ctx, k, polygons(ax), faces, show)
        ctx.expect(all(any(max(abs(a - t) for a, t in zip(p, v)) <= 1e-6 * (1 + max(map(abs, v))) for p in dots(ax)) for fc in faces for v in fc), 'vertex-without-mark:' + k, show)
        return
    ctx.expect(not files, 'saved-files', lambda: '%s: %s' % (show(), files))
    drawn = polys3(ax)
    ctx.event('polygons_3d', len(drawn))
    if k == 'lineqs3d' or c.get('point'):
        match(ctx, k, drawn, faces, show)
    else:
        # faces in the coordinate planes may be left out
        for p in drawn:
            ctx.expect(any(same(p, fc) for fc in faces), 'foreign-shape:' + k, lambda: '%s draws %s' % (show(), p))
        for fc in faces:
            if all(min(abs(v[j]) for v in fc) > 1e-6 for j in range(3)):
                ctx.expect(any(same(p, fc) for p in drawn), 'shape-missing:' + k, lambda: '%s does not draw %s' % (show(), fc))
    if c['bounds'] is not None:
        lim = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
        ctx.expect(all(abs(l[0] - c['bounds'][0][j]) < 1e-9 and abs(l[1] - c['bounds'][1][j]) < 1e-9 for j, l in enumerate(lim)), 'limits', show)
