"""Driver of C13: the same workload in plain and in sanitized worker processes whose deaths and reports are judged."""
import collections
import json
import os
import pickle
import random
import subprocess
import sys
import time

from . import boot, core


def asan_env(so, log):
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib + ' ' + ub, PYTHONMALLOC='malloc', VERIF_EXT_SO=so)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:log_path=' + log
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=1:exitcode=67:log_path=' + log
    return env


def main(pid, modname, tier, seed, so, n, t0):
    scratch = boot.scratch()
    try:
        asan = boot.prepare('asan')
    except boot.BuildFailed as e:
        print('%s: the sanitized extension does not build: %s' % (pid, e))
        return 3
    jobs = []
    half = max(1, n // 2)
    for mode, lib in (('plain', so), ('asan', asan)):
        for i in range(half):
            log = os.path.join(scratch, '%s-%d.log' % (mode, i))
            env = asan_env(lib, log) if mode == 'asan' else dict(os.environ, VERIF_EXT_SO=lib)
            out = os.path.join(scratch, '%s-%d.pickle' % (mode, i))
            err = open(os.path.join(scratch, '%s-%d.err' % (mode, i)), 'w')
            pr = subprocess.Popen([sys.executable, '-m', 'vlib.memory', modname, str(i), str(half), str(seed), tier, lib, mode, out],
                                  env=env, stdout=err, stderr=err, cwd=core.VERIF)
            jobs.append((mode, i, pr, out, log, err))
    events, keys, samples, violations, evals, nviol = collections.Counter(), set(), [], [], 0, 0
    outcomes = {}
    for mode, i, pr, out, log, err in jobs:
        rc = pr.wait()
        err.close()
        case = None
        if os.path.exists(out + '.case'):
            with open(out + '.case') as f:
                case = json.loads(f.read() or 'null')
        if os.path.exists(out):
            with open(out, 'rb') as f:
                r = pickle.load(f)
            if r['error']:
                print('%s: error of the check:\n%s' % (pid, r['error']))
                return 3
            events.update(r['events'])
            keys |= r['keys']
            samples += r['samples']
            violations += r['violations']
            nviol += r['nviol']
            evals += r['evaluations']
            outcomes[mode, i] = r['outcomes']
            events['workers_finished'] += 1
            continue
        rep = ''
        d = os.path.dirname(log)
        for q in sorted(os.listdir(d)):
            if q.startswith(os.path.basename(log) + '.'):
                with open(os.path.join(d, q), errors='replace') as f:
                    rep += f.read()
        with open(err.name, errors='replace') as f:
            rep += f.read()[-1500:]
        kind = 'died with status %d' % rc
        for line in rep.splitlines():
            if 'SUMMARY:' in line or 'runtime error:' in line:
                kind = ' '.join(line.split('SUMMARY:')[-1].split()[:2]) if 'SUMMARY:' in line else 'undefined behaviour: ' + line.split('runtime error:')[1][:80]
                break
        violations.append({'mech': 'process-died:%s:%s' % (mode, kind), 'detail': rep[:3000] or 'no report', 'case': case})
        nviol += 1
    # the same actions have the same outcomes whatever the build, the allocator and the contents of fresh memory
    for i in range(half):
        p, a = outcomes.get(('plain', i)), outcomes.get(('asan', i))
        if p is None or a is None:
            continue
        for j in sorted(set(p) & set(a)):
            events['outcomes_compared'] += 1
            if p[j][1] != a[j][1]:
                violations.append({'mech': 'outcome-depends-on-memory:' + p[j][0]['k'], 'case': p[j][0], 'detail': 'plain build %s, sanitized build %s' % (p[j][1][:600], a[j][1][:600])})
                nviol += 1
    return core.judge(pid, modname, tier, seed, events, keys, samples, violations, nviol, evals, t0)


def worker(modname, shard, nshards, seed, tier, so, mode, out):
    import importlib
    import traceback
    try:
        boot.load(so)
        mod = importlib.import_module(modname)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        ctx = core.Ctx(tier, seed)
        ctx.mode, ctx.outcomes = mode, {}
        rng = random.Random('%s/%d/%d/%s' % (mod.ID, seed, shard, tier))
        t = time.monotonic()
        with open(out + '.case', 'w') as f:
            for j, case in enumerate(mod.gen(rng, tier, shard, nshards)):
                f.seek(0)
                f.write(json.dumps(case))
                f.truncate()
                f.flush()
                ctx.index = j
                core.run_one(ctx, mod, case, mod.CASE_TIMEOUT)
                if time.monotonic() - t > mod.WALL[tier]:
                    ctx.event('stopped_by_wall_watchdog')
                    break
        ctx.sample(case)
        r = dict(events=dict(ctx.events), keys=ctx.keys, samples=ctx.samples, violations=ctx.violations, nviol=ctx.nviol,
                 evaluations=ctx.evaluations, error=None, outcomes=ctx.outcomes)
    except Exception:
        r = dict(error=traceback.format_exc())
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    a = sys.argv[1:]
    worker(a[0], int(a[1]), int(a[2]), int(a[3]), a[4], a[5], a[6], a[7])
