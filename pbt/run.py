"""Runs the sub-checks of one property, in parallel, and writes the evidence file."""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
t_start = time.time()

from pbt import core  # noqa: E402

FINDINGS = os.path.join(core.VERIF, 'known_findings.json')


def load_findings(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


def worker(s, out, tier, seed, scale, shard):
    os.setpgid(0, 0)
    res = core.run_sub(s, seed, tier, scale, shard)
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, out)
    sys.stdout.flush()
    os._exit(0)         # threads that the code under test left running are not waited for


def end(p):
    """ends a worker and the processes that the code under test left running in it"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.join()


def merge(shards):
    """one result from those of the shards of a sub-check"""
    res = dict(sub=shards[0]['sub'], evaluations=sum(r['evaluations'] for r in shards), nontrivial=len(set(k for r in shards for k in r['distinct_keys'])),
               samples=[c for r in shards for c in r['samples']][:4], labels={}, violation=None, harness_error=None, wall_s=round(sum(r['wall_s'] for r in shards), 2))
    for r in shards:
        for l, n in r['labels'].items():
            res['labels'][l] = res['labels'].get(l, 0) + n
        res['harness_error'] = res['harness_error'] or r['harness_error']
        v = r['violation']
        if v is not None and (res['violation'] is None or len(json.dumps(v['case'])) < len(json.dumps(res['violation']['case']))):
            res['violation'] = v
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--scale', type=float, help='multiplies the number of cases')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        import hyperion  # noqa: F401
        print('python %s numpy %s hypothesis %s' % (sys.version.split()[0], core.np.__version__, core.hypothesis.__version__))
        return 0
    prop = a.prop
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    importlib.import_module('pbt.checks.' + prop.lower())
    subs = core.REG[prop]
    if a.list:
        for s in subs:
            print(s.name, s.quick, s.thorough)
        return 0
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        s = [x for x in subs if x.name == d['sub']][0]
        try:
            core.run_case(s, d['case'], core.SCRATCH)
        except (Exception, core.Hang) as e:
            if isinstance(e, Exception) and core.classify_exc(e) == 'harness':
                raise
            if a.v:
                import traceback
                traceback.print_exc()
            print('%s/%s: %s' % (prop, s.name, core.describe_exc(e)))
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay: no violation')
        return 0

    full = not a.sub
    if a.sub:
        subs = [s for s in subs if s.name in a.sub]
    tier = core.TIER
    outdir = os.path.join(core.SCRATCH, 'results')
    os.makedirs(outdir, exist_ok=True)
    ctx = multiprocessing.get_context('fork')
    # every sub-check is split in shards, so that all the cores are used
    ncpu = min(8, os.cpu_count() or 8)
    mod = importlib.import_module('pbt.checks.' + prop.lower())
    scale = a.scale if a.scale is not None else getattr(mod, 'QSCALE', 4.)
    K = 1 if a.sub and len(a.sub) == 1 and a.scale is not None else max(2, ncpu // len(subs))
    pending = [(s, k) for k in range(K) for s in subs]
    running = []
    shards = {s.name: [] for s in subs}
    while pending or running:
        while pending and len(running) < ncpu:
            s, k = pending.pop(0)
            out = os.path.join(outdir, '%s-%d.json' % (s.name, k))
            p = ctx.Process(target=worker, args=(s, out, tier, core.SEED, scale / K, k))
            p.start()
            running.append((p, s, out))
        time.sleep(0.02)
        for r in list(running):
            p, s, out = r
            if not p.is_alive():
                end(p)
                running.remove(r)
                if os.path.exists(out):
                    with open(out) as f:
                        res = json.load(f)
                else:
                    res = dict(sub=s.name, evaluations=0, nontrivial=0, samples=[], labels={}, violation=None, distinct_keys=[],
                               harness_error='worker died with exit code %s' % p.exitcode, wall_s=0)
                shards[s.name].append(res)
                if res['violation'] is not None:
                    if os.environ.get('PBT_FAST'):
                        for q in running:
                            end(q[0])
                        print('FAST %s %s' % (s.name, res['violation']['message']))
                        return 1
                    pending = [x for x in pending if x[0] is not s]
    results = {n: merge(v) for n, v in shards.items()}

    # known findings: the listed input must still fail in the listed way
    status = 0
    known_lines = []
    for k in load_findings(prop):
        if k['status'] != 'known' or not full:
            continue
        s = [x for x in core.REG[prop + ':known'] if x.name == k['sub']][0]
        try:
            core.run_case(s, k['case'], core.SCRATCH)
        except (Exception, core.Hang):
            line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
            known_lines.append(line)
            print(line)

    violations = []
    herrors = []
    rdir = os.path.join(core.VERIF, 'evidence', 'replay')
    for s in subs:
        r = results[s.name]
        if a.v or not full:
            print('%-40s %6d cases %6d nontrivial %7.1fs %s' % (s.name, r['evaluations'], r['nontrivial'], r['wall_s'], r['labels']))
        if r['violation'] is not None:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s.json' % (prop, s.name))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, sub=s.name, case=r['violation']['case'], message=r['violation']['message'],
                               seed=core.SEED, tier=tier), f, indent=1)
            rel = os.path.relpath(path, core.VERIF)
            violations.append(dict(sub=s.name, message=r['violation']['message'], replay=rel))
            print('%s/%s: %s' % (prop, s.name, r['violation']['message']))
            print('  case: %s' % json.dumps(r['violation']['case'])[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rel))
        elif r['harness_error'] is not None:
            herrors.append(s.name)
            print('HARNESS ERROR in %s/%s:\n%s' % (prop, s.name, r['harness_error']))
    if violations:
        status = 1
    elif herrors:
        status = 2
    if full:
        samples = []
        for s in subs:
            for c in results[s.name]['samples'][:2]:
                if len(json.dumps(c)) < 3000:
                    samples.append(dict(sub=s.name, case=c))
        ev = dict(
            property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=core.SEED, level='exploration',
            coverage=dict(
                evaluations=sum(r['evaluations'] for r in results.values()),
                distinct_nontrivial=sum(r['nontrivial'] for r in results.values()),
                rule='Cases are drawn by Hypothesis from each sub-check\'s strategy (listed below with its own counts); a case counts '
                     'as distinct by the hash of its JSON form and as non-trivial by the sub-check\'s stated predicate '
                     '(' + importlib.import_module('pbt.checks.' + prop.lower()).RULE + ')',
                samples=samples[:24],
                per_sub={s.name: dict(evaluations=results[s.name]['evaluations'], distinct_nontrivial=results[s.name]['nontrivial'],
                                      wall_s=results[s.name]['wall_s'], classes=results[s.name]['labels'],
                                      checks=(s.fn.__doc__ or '').strip()) for s in subs},
                known_findings=known_lines),
            wall_s=round(time.time() - t_start, 2), violations=len(violations), assumptions=[
                'floating-point comparisons use the tolerances written in the check', 'search, not proof: absence of failures is over the generated cases only'])
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %d sub-checks, %d violations, %d harness errors, %.1f s' % (
        prop, tier, sum(r['evaluations'] for r in results.values()), sum(r['nontrivial'] for r in results.values()), len(subs),
        len(violations), len(herrors), time.time() - t_start))
    return status


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
