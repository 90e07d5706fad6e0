"""C14: calls made in several threads at once give the results the same calls give one after another."""
import random
import sys
import threading
import time
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from .. import actions as AC
from ..lib import ip

ID = 'C14'
RULE = ('two to six threads making public calls at the same time (the same or different kinds, on own or on shared arguments) with thread switches forced at random '
        'lines of the library; every outcome against the outcome of the same call made alone, arguments against their state before')
N = {'quick': 30, 'thorough': 2500}
CASE_TIMEOUT = 300
HANG_JUDGED = False


def required(tier):
    return {'groups': 150, 'outcomes_compared': 3500, 'forced_switches': 20000, 'thread_changes': 1500, 'shared_arguments': 50, 'same_kind_groups': 50, 'raised': 80, 'light_groups': 25}


HEAVY = ('solver', 'pss', 'fun', 'opt', 'draw', 'draw', 'nonlin', 'glob', 'fit', 'ralg')


def gen(rng, tier, shard, nshards):
    for _ in range(N[tier]):
        u = rng.random()
        n = rng.randint(2, 6)
        if u < .25:
            kinds = AC.LIGHT
            acts = [AC.gen_action(rng, kinds) for _ in range(4 * n)]
        elif u < .65:
            k = rng.choice(HEAVY)
            acts = [AC.gen_action(rng, k=k) for _ in range(n)]
            same = acts[0].get('n') or acts[0].get('f')
            for i in range(n):           # mostly the very same function on different data
                for _ in range(12):
                    if (acts[i].get('n') or acts[i].get('f')) == same:
                        break
                    acts[i] = AC.gen_action(rng, k=k)
        else:
            acts = [AC.gen_action(rng, HEAVY) for _ in range(n)]
            acts += [AC.gen_action(rng, AC.LIGHT) for _ in range(n)]
        yield {'k': 'light' if u < .25 else 'same' if u < .65 else 'mixed', 'acts': acts, 'threads': rng.choice((2, 3, 4, 4, 6)), 'shared': rng.random() < .5,
               'p': rng.choice((0, .005, .02, .1)), 'seed': rng.randrange(2 ** 32), 'rounds': rng.choice((1, 2))}


def call(f, args):
    try:
        return ['ok', AC.canon(f(*args))]
    except Exception as e:
        return ['raised', type(e).__name__]


def check(ctx, c):
    acts = c['acts']
    alone = [AC.outcome(a) for a in acts]
    again = [AC.outcome(a) for a in acts]
    for a, p, q in zip(acts, alone, again):
        ctx.event('raised', p[0] == 'raised')
        ctx.expect(p == q, 'call-not-reproducible:' + AC.label(a), lambda: '%s: %s then %s' % (a, str(p)[:400], str(q)[:400]))
    shared = None
    if c['shared']:
        shared = [AC.prepare(a)[1] for a in acts]
        before = [[AC.canon(v) for v in s] for s in shared]
        ctx.event('shared_arguments')
    got = []
    trace, start = [], threading.Barrier(c['threads'])

    def run(t):
        rng = random.Random(c['seed'] * 7 + t)
        left = [400]

        def line(frame, event, arg):
            if len(trace) > 60000:
                sys.settrace(None)
                return None
            trace.append(t)
            if left[0] and rng.random() < c['p']:
                left[0] -= 1
                trace.append(None)
                time.sleep(0)
            return line

        def tracer(frame, event, arg):
            return line if len(trace) < 60000 and 'intvalpy' in frame.f_code.co_filename else None
        order = [i for i in range(len(acts)) for _ in range(c['rounds'])]
        rng.shuffle(order)
        start.wait()
        if c['p']:
            sys.settrace(tracer)
        try:
            for i in order:
                f, args = AC.prepare(acts[i])
                got.append((t, i, call(f, shared[i] if shared else args)))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=run, args=(t,), daemon=True) for t in range(c['threads'])]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.event('groups')
    ctx.event(c['k'] + ('_kind' if c['k'] == 'same' else '') + '_groups')
    changes = [q for p, q in zip(trace, trace[1:]) if p is not None and q is not None and p != q]
    ctx.event('forced_switches', sum(1 for t in trace if t is None))
    ctx.event('thread_changes', len(changes))
    if c['p']:
        ctx.distinct(tuple(t for t in trace if t is not None)[:20000])
    ctx.expect(len(got) == c['threads'] * c['rounds'] * len(acts), 'thread-died', lambda: '%d outcomes' % len(got))
    for t, i, r in got:
        ctx.event('outcomes_compared')
        ctx.expect(r == alone[i], 'differs-when-concurrent:' + AC.label(acts[i]), lambda: '%s: alone %s, concurrently %s (with %s)' % (
            acts[i], str(alone[i])[:500], str(r)[:500], sorted({AC.label(a) for a in acts})))
    if shared:
        ctx.expect([[AC.canon(v) for v in s] for s in shared] == before, 'shared-arguments-changed', lambda: '%s' % sorted({AC.label(a) for a in acts}))
    for a, p in zip(acts, alone):
        ctx.expect(AC.outcome(a) == p, 'differs-after-threads:' + AC.label(a), lambda: str(a))
    if plt.get_fignums():
        plt.close('all')
