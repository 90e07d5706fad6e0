"""Runner: shards a property's workload over worker processes, merges what the monitors observed, judges.

A property module defines
    ID, LEVEL_RULE (text for evidence), required(tier) -> {event: minimum},
    gen(rng, tier, shard, nshards) -> iterable of JSON-able cases,
    check(ctx, case)               -> observes the real code, calls ctx.expect / ctx.event / ctx.distinct,
    optional: probes() -> cases that are always run in shard 0 (regressions and known findings).
Verdict: exit 1 + VIOLATION line for an unlisted violation; exit 0 when held on everything observed;
exit 3 when the deciding monitor observed too little (inconclusive).
"""
import collections
from concurrent import futures
from concurrent.futures.process import BrokenProcessPool
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 20


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's domain (counted, never judged)."""


def _alarm(sig, frm):
    raise CaseTimeout()


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.events = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.case = None
        self.evaluations = 0
        self.stop = False
        self.longest = 0.
        self.black_box = None       # files in which a hanging or dying worker leaves its last case and its stacks

    def event(self, name, n=1):
        self.events[name] += n

    def distinct(self, key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violation(self, mech, detail):
        """mech names the mechanism (operation and failure shape), never concrete values."""
        self.nviol += 1
        detail = detail() if callable(detail) else detail
        if sum(1 for v in self.violations if v['mech'] == mech) < 3 and len(self.violations) < 60:
            self.violations.append({'mech': mech, 'detail': detail, 'case': self.case})

    def expect(self, cond, mech, detail=''):
        if not cond:
            self.violation(mech, detail)
        return cond


def run_one(ctx, mod, case, timeout):
    ctx.case = case
    ctx.evaluations += 1
    t = time.monotonic()
    if ctx.black_box:
        now, stacks = ctx.black_box
        os.pwrite(now, json.dumps(case, default=str).encode().ljust(256) + b'\n', 0)
        # native code that never returns to the interpreter sees no signal handler: end the process from a thread
        faulthandler.dump_traceback_later(2 * timeout + 30, exit=True, file=stacks)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 5)     # repeated: code under test may swallow one
    try:
        mod.check(ctx, case)
    except Skip as e:
        ctx.event('skipped')
        ctx.event('skipped: ' + str(e))
    except CaseTimeout:
        ctx.event('case_timeouts')
        if getattr(mod, 'HANG_JUDGED', True):
            ctx.violation('no-end:%s' % (case.get('k', '?') if isinstance(case, dict) else '?'), 'still running after %d s' % timeout)
            ctx.stop = True
    except Exception as e:
        # a harness may declare which exceptions are outcomes; an undeclared one is judged a violation,
        # because the properties' domains exclude inputs the library rejects
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/repo/' in f.filename or f.filename.endswith('.pyx')]
        # raised while the monitor interpreted a result: the result is not of the promised form (nan, None, wrong type)
        mech = 'unexpected-exception' if where else 'uninterpretable-result'
        ctx.violation('%s:%s:%s' % (mech, case.get('k', '?') if isinstance(case, dict) else '?', type(e).__name__),
                      traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if ctx.black_box:
            faulthandler.cancel_dump_traceback_later()
        ctx.longest = max(ctx.longest, time.monotonic() - t)


def _shard(args):
    modname, shard, nshards, seed, tier, so = args
    try:
        boot.load(so)
        mod = importlib.import_module(modname)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        ctx = Ctx(tier, seed)
        ctx.black_box = [os.open(os.path.join(boot.scratch(), 'now%d' % shard), os.O_RDWR | os.O_CREAT),
                         os.open(os.path.join(boot.scratch(), 'stacks%d' % shard), os.O_RDWR | os.O_CREAT)]
        timeout = getattr(mod, 'CASE_TIMEOUT', 60)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        if hasattr(mod, 'probes'):
            for i, case in enumerate(mod.probes()):
                if i % nshards == shard:
                    run_one(ctx, mod, case, timeout)
        rng = random.Random('%s/%d/%d/%s' % (mod.ID, seed, shard, tier))
        t0 = time.monotonic()
        wall = mod.WALL[tier] if hasattr(mod, 'WALL') else (400 if tier == 'quick' else 780)
        for case in mod.gen(rng, tier, shard, nshards):
            run_one(ctx, mod, case, timeout)
            if ctx.evaluations % 512 == 1 and ctx.samples == []:
                ctx.sample(case)
            if ctx.nviol > 2000 or ctx.stop:
                break
            if time.monotonic() - t0 > wall:          # watchdog: stop generating, judge what was seen
                ctx.event('stopped_by_wall_watchdog')
                break
        if not ctx.samples and ctx.case is not None:
            ctx.sample(ctx.case)
        return dict(events=dict(ctx.events), keys=ctx.keys, samples=ctx.samples, violations=ctx.violations,
                    nviol=ctx.nviol, evaluations=ctx.evaluations, error=None, longest=ctx.longest)
    except BaseException:
        return dict(error=traceback.format_exc())


def died(mod, shard):
    """The outcome of a worker that never finished: killed by its watchdog inside native code, or by a crash."""
    case, stacks = None, ''
    try:
        with open(os.path.join(boot.scratch(), 'now%d' % shard), 'rb') as f:
            case = json.loads(f.readline())
        with open(os.path.join(boot.scratch(), 'stacks%d' % shard)) as f:
            stacks = f.read()
    except (OSError, ValueError):
        pass
    r = dict(events={}, keys=set(), samples=[], violations=[], nviol=0, evaluations=0, error=None)
    k = case.get('k', '?') if isinstance(case, dict) else '?'
    if 'Timeout' not in stacks:
        mech, what = 'process-died:%s' % k, 'a worker process died while the package was being called'
    elif getattr(mod, 'HANG_JUDGED', True):
        mech, what = 'no-end:%s' % k, 'still inside native code after the time limit\n' + stacks[:3000]
    else:
        r['events'] = {'case_timeouts': 1}
        return r
    r.update(nviol=1, violations=[{'mech': mech, 'detail': what, 'case': case}])
    return r


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv):
    modname = 'vlib.props.' + argv[0].lower()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(argv):
        if a == '--tier':
            tier = argv[i + 1]
        if a == '--seed':
            seed = int(argv[i + 1])
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    t0 = time.monotonic()
    pid = argv[0].upper()
    boot.scratch()
    try:
        so = boot.prepare()
    except boot.BuildFailed as e:
        print('%s: extension does not build: %s' % (pid, e))
        return 3
    if '--replay' in argv:
        return replay(modname, argv[argv.index('--replay') + 1], so, tier, seed)
    n = int(os.environ.get('VERIF_JOBS', '8'))
    if pid == 'C13':
        from . import memory
        return memory.main(pid, modname, tier, seed, so, n, t0)
    pools = [futures.ProcessPoolExecutor(1, mp_context=mp.get_context('spawn')) for _ in range(n)]
    tasks = [q.submit(_shard, (modname, i, n, seed, tier, so)) for i, q in enumerate(pools)]
    res = []
    for i, task in enumerate(tasks):
        try:
            res.append(task.result())
        except BrokenProcessPool:
            res.append(died(importlib.import_module(modname), i))
    for q in pools:
        q.shutdown()
    if os.environ.get('VERIF_LONGEST'):
        print('longest case: %.1f s' % max(r.get('longest', 0) for r in res))
    errs = [r['error'] for r in res if r['error']]
    if errs:
        print('%s: error of the check:\n%s' % (pid, errs[0]))
        return 3
    events = collections.Counter()
    keys, samples, violations, nviol, evals = set(), [], [], 0, 0
    for r in res:
        events.update(r['events'])
        keys |= r['keys']
        samples += r['samples']
        violations += r['violations']
        nviol += r['nviol']
        evals += r['evaluations']
    return judge(pid, modname, tier, seed, events, keys, samples, violations, nviol, evals, t0)


def judge(pid, modname, tier, seed, events, keys, samples, violations, nviol, evals, t0):
    mod = importlib.import_module(modname)
    known = {f['mechanism']: f for f in known_findings() if f['property'] == pid}
    hit = collections.OrderedDict()
    new = []
    for v in violations:
        if v['mech'] in known:
            hit.setdefault(v['mech'], v)
        else:
            new.append(v)
    req = mod.required(tier) if hasattr(mod, 'required') else {}
    low = {k: (events.get(k, 0), m) for k, m in req.items() if events.get(k, 0) < m}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
            'samples': samples[:6], 'events': dict(sorted(events.items())),
            'known_findings_observed': [m for m in hit],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for m, v in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, known[m]['what']))
    print('%s %s seed=%d: %d evaluations, %d distinct, events %s' %
          (pid, tier, seed, evals, len(keys), json.dumps(dict(sorted(events.items())))))
    if new:
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault(v['mech'], v)
        for i, (m, v) in enumerate(list(seen.items())[:MAX_REPORT]):
            p = os.path.join(d, '%s-%d.json' % (pid, i))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'mech': m, 'seed': seed, 'tier': tier,
                           'case': v['case'], 'detail': v['detail']}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s: %s' % (m, str(v['detail'])[:600]))
        return 1
    if low:
        print('%s: inconclusive, the monitors observed too little: %s' % (pid, low))
        return 3
    print('%s: held on everything observed (%.1f s)' % (pid, time.monotonic() - t0))
    return 0


def replay(modname, path, so, tier, seed):
    boot.load(so)
    mod = importlib.import_module(modname)
    with open(path) as f:
        case = json.load(f)['case']
    ctx = Ctx(tier, seed)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    run_one(ctx, mod, case, 600)
    for v in ctx.violations:
        print(v['mech'], ':', v['detail'])
    print('events', dict(ctx.events))
    return 1 if ctx.violations else 0
