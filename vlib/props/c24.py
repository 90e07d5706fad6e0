"""C24: what a call returns depends on its arguments only, not on what was called before it."""
import copy
import os
import pickle
import random
import struct
import sys
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from .. import actions as AC
from ..lib import ip, mat, vec, mk

ID = 'C24'
RULE = ('one group of public calls made in a fresh process (forked before anything was called) and again in a process with a long history of other calls: near variants '
        'of them, failures, hostile arguments, abandoned callbacks, drawn figures; one model object fitted again and again against fresh model objects')
N = {'quick': 130, 'thorough': 6000}
HANG_JUDGED = False
CASE_TIMEOUT = 120


def required(tier):
    return {'fresh_processes': 700, 'outcomes_compared': 5000, 'variants': 7000, 'history_calls': 10000, 'failed_in_history': 1500, 'raised': 400, 'refits': 500, 'models': 120, 'solver_targets': 500}


def leaves(o, path=()):
    if isinstance(o, dict):
        for k in o:
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    elif isinstance(o, (int, float)) and not isinstance(o, bool):
        yield path, o


def variant(rng, a):
    """The same call with one number, or the options, changed a little: what a wrong cache would take for the same."""
    b = copy.deepcopy(a)
    u = rng.random()
    if u < .25:
        c = AC.gen_action(rng, k=a['k'])
        for k in c:
            if k in b and not isinstance(c[k], (list, dict)) and k not in ('k', 'm', 'f') and rng.random() < .5 and type(c[k]) is type(b[k]):
                b[k] = c[k]
        return b
    pl = [(p, v) for p, v in leaves(b) if p[-1] not in ('k', 'n', 'm', 'np') and 's' not in p]
    if not pl:
        return b
    for p, v in rng.sample(pl, min(len(pl), rng.choice((1, 1, 2)))):
        o = b
        for q in p[:-1]:
            o = o[q]
        if isinstance(v, int) and abs(v) > 2 ** 53:
            o[p[-1]] = rng.choice((v + 1, -v))
        elif isinstance(v, int):
            o[p[-1]] = rng.choice((v + 1, -v, float(v), v + .5)) if p[-1] not in ('it', 'd', 'order', 'i', 'boom') else max(0, min(v + 1, 5))
        else:
            o[p[-1]] = rng.choice((-v, v * (1 + 2e-16), v + 1e-9, v * 1.25, v + 1))
    return b


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        if rng.random() < .2:
            m = rng.randint(1, 2)
            fits = []
            for _ in range(rng.randint(2, 5)):
                if fits and rng.random() < .4:
                    # nearly the fit before
                    f = copy.deepcopy(fits[-1])
                    for _ in range(rng.randint(1, 2)):
                        o = rng.choice(('y', 'w', 'obj', 'norm', 'order', 'it', 'bias'))
                        if o == 'y':
                            f['y'][0] = sorted((rng.uniform(-9, 9), rng.uniform(-9, 9)))
                        elif o == 'w':
                            f['w'] = None if f['w'] else [rng.choice((1., 2.)) for _ in f['y']]
                        elif o == 'obj':
                            f['obj'] = rng.choice(('Tol', 'Uni', 'Uss'))
                        elif o == 'norm':
                            f['norm'] = rng.choice(('inf', 'l1'))
                        elif o == 'order':
                            f['order'] = 3 - f['order']
                        elif o == 'it':
                            f['it'] = rng.choice((0, 5, 30))
                        else:
                            f['bias'] = not f.get('bias', True)
                else:
                    f = AC.gen_action(rng, k='fit')
                    if rng.random() < .3:
                        # midpoints of deficient rank
                        f['X'] = [[r[0]] + [[2 * v for v in r[0]] for _ in r[1:]] for r in f['X']] if rng.random() < .6 or len(f['X'][0]) == 1 else [[[0., 0.]] + r[1:] for r in f['X']]
                        if len(f['X'][0]) == 1:
                            f['X'] = [[[-abs(r[0][1]), abs(r[0][1])]] for r in f['X']]
                fits.append(f)
                fits[-1]['n'] = 'ISPAE'
            yield {'k': 'refit', 'model': rng.choice(('WILS', 'ISPAE')), 'basis': rng.choice(('monom', 'chebyshev', 'legendre', 'hermite', 'laguerre')), 'al': rng.choice((0, .3)), 'fits': fits}
            continue
        acts = [AC.gen_action(rng) for _ in range(rng.randint(2, 6))] + [AC.gen_action(rng, AC.LIGHT) for _ in range(rng.randint(2, 8))]
        h = []
        for a in acts:
            h += [variant(rng, a) for _ in range(rng.choice((0, 1, 2, 3)))]
        nv = len(h)
        h += [AC.gen_action(rng) for _ in range(rng.randint(2, 6))] + [AC.gen_action(rng, AC.LIGHT) for _ in range(rng.randint(2, 12))]
        rng.shuffle(h)
        yield {'k': 'calls', 'acts': acts, 'history': h, 'variants': nv, 'twice': rng.random() < .3, 'reversed': rng.random() < .5, 'show': rng.random() < .2}


def setup(ctx):
    """A process forked before the first call; it forks once more for every group of calls it is asked to make."""
    import pandas  # noqa: F401 so that both sides have the same modules
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            i, o = os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb')
            while True:
                head = i.read(4)
                if len(head) < 4:
                    os._exit(0)
                data = i.read(struct.unpack('I', head)[0])
                o.flush()
                child = os.fork()
                if child == 0:
                    try:
                        out = pickle.dumps(fresh(pickle.loads(data)))
                    except BaseException as e:
                        out = pickle.dumps({'error': repr(e)})
                    o.write(struct.pack('I', len(out)) + out)
                    o.flush()
                    os._exit(0)
                st = os.waitpid(child, 0)[1]
                if st:
                    out = pickle.dumps({'error': 'status %d' % st})
                    o.write(struct.pack('I', len(out)) + out)
                    o.flush()
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    ctx.pipe = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')


def ask(ctx, c):
    w, r = ctx.pipe
    data = pickle.dumps(c)
    w.write(struct.pack('I', len(data)) + data)
    w.flush()
    res = pickle.loads(r.read(struct.unpack('I', r.read(4))[0]))
    ctx.event('fresh_processes')
    if isinstance(res, dict):
        raise RuntimeError('fresh process: ' + res['error'])
    return res


def fresh(c):
    if c['k'] == 'refit':
        return fitted(c, True)
    return [AC.outcome(a) for a in c['acts']]


def fitted(c, new):
    import pandas as pd
    make = lambda: ip.WILS(alpha=c['al']) if c['model'] == 'WILS' else ip.ISPAE(alpha=c['al'], basis=c['basis'])
    m, res = make(), []
    for a in c['fits']:
        if new:
            m = make()
        w = None if a['w'] is None else np.array(a['w'])
        X = mat(a['X']) if c['model'] == 'WILS' else pd.DataFrame({'c%d' % j: [mk(r[j]) for r in a['X']] for j in range(len(a['X'][0]))})
        kw = {} if c['model'] == 'WILS' else {'order': a['order'], 'bias': a.get('bias', True)}
        try:
            m.fit(X, vec(a['y']), weight=w, objective=a['obj'], norm=a['norm'], maxiter=a['it'], **kw)
            res.append(AC.canon([m.estimator, m.predict(X)]))
        except Exception as e:
            res.append(type(e).__name__)
    return res


def check(ctx, c):
    want = ask(ctx, c)
    if c['k'] == 'refit':
        got = fitted(c, False)
        ctx.event('models')
        ctx.distinct((c['model'], c['basis'], repr(want)))
        for i, (p, q) in enumerate(zip(want, got)):
            ctx.event('refits')
            ctx.expect(p == q, 'model-remembers:%s' % c['model'], lambda: 'fit %d of %d: fresh model %s, reused model %s' % (i, len(got), str(p)[:500], str(q)[:500]))
        return
    for a in c['history']:
        r = AC.outcome(a)
        ctx.event('history_calls')
        ctx.event('failed_in_history', r[0] == 'raised')
    if c['show']:
        for a in c['history']:
            if a['k'] == 'draw' and a['m'] == 2 and a['f'] == 'lineqs':
                try:
                    ip.lineqs(np.array(a['A'], float), np.array(a['b'], float), bounds=a['bounds'])
                    ctx.event('shown')
                except Exception:
                    pass
        plt.close('all')
    ctx.event('variants', c['variants'])
    order = list(range(len(c['acts'])))
    if c['reversed']:
        order.reverse()
    if c['twice']:
        order += order
    for i in order:
        a = c['acts'][i]
        r = AC.outcome(a)
        ctx.event('outcomes_compared')
        ctx.event('solver_targets', a['k'] not in AC.LIGHT)
        ctx.event('raised', r[0] == 'raised')
        ctx.expect(r == want[i], 'depends-on-history:' + AC.label(a), lambda: '%s: fresh %s, after other calls %s' % (a, str(want[i])[:600], str(r)[:600]))
    ctx.distinct(c['acts'])
