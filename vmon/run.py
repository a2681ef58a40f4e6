"""Run the check of one property: ``python -m vmon.run C03 [--tier thorough]``.

Exit 0: held on everything explored. Exit 1: VIOLATION lines. Exit 2: error of
the check or inconclusive (a monitor that should have seen something did not).
"""

import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = float(os.environ.get('VMON_CASE_LIMIT', 120))

_check = None
_args = None


def load(prop):
    return importlib.import_module('vmon.checks.%s' % prop.lower()).check


def _prepare(serial=True):
    """Import elphmod quietly (in each worker) as a serial program would."""
    import warnings
    warnings.simplefilter('ignore')
    if serial:
        sys.modules['mpi4py'] = None # as without MPI: mock communicator
    from vmon import coverage
    from vmon.core import PKG
    coverage.start()
    import numpy as np
    np.seterr(all='ignore')
    from vmon import poison
    poison.install()
    import elphmod
    import elphmod.models.chain
    import elphmod.models.graphene
    import elphmod.models.tas2
    assert os.path.abspath(elphmod.__file__).startswith(PKG), elphmod.__file__
    elphmod.misc.verbosity = 0

    shared_array = elphmod.MPI.shared_array

    def poisoned(*args, **kwargs):
        out = shared_array(*args, **kwargs)
        if serial and isinstance(out[-1], np.ndarray):
            poison.fill(out[-1])
        return out

    elphmod.MPI.shared_array = poisoned


def _init(prop, seed, tier):
    global _check, _args
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('VMON_DEBUG'):
        os.dup2(null, 2)
    _prepare()
    _check = load(prop)
    _args = seed, tier
    if _check.watch is not None:
        _check.watch.install()


class Timeout(BaseException):
    pass


def _alarm(*ignore):
    raise Timeout()


def _job(job):
    from vmon import coverage
    from vmon.core import run_case, Violation
    name, index = job
    family = _check.get(name)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(CASE_LIMIT))
    t0 = time.time()
    try:
        report = run_case(_check, family, index, *_args)
    except Timeout:
        report = dict(family=name, index=index, status='violation',
            oracle='termination', key='%s/termination' % name,
            detail='no result after %g s' % CASE_LIMIT,
            counts={}, params={}, worst={}, sigs=[])
    finally:
        signal.alarm(0)
    if report['status'] == 'violation' and report['key'].endswith(
            'exception:Timeout'):
        report.update(oracle='termination', key='%s/termination' % name)
    report['time'] = time.time() - t0
    report['functions'] = sorted(coverage.functions)
    coverage.functions.clear()
    report['lines'] = sorted(coverage.lines)
    coverage.lines.clear()
    return report


def known_findings(prop):
    keys = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as lines:
            for line in lines:
                if line.startswith('KNOWN-FINDING:'):
                    head, _, what = line[len('KNOWN-FINDING:'):].partition(
                        ' -- ')
                    fields = dict(x.split('=', 1) for x in head.split())
                    if fields['property'] == prop:
                        keys[fields['key']] = what.strip()
    return keys


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--jobs', type=int,
        default=int(os.environ.get('VMON_JOBS', '8')))
    parser.add_argument('--family')
    parser.add_argument('--index', type=int)
    parser.add_argument('--budget', type=float, default=None)
    parser.add_argument('--verbose', action='store_true')
    args = parser.parse_args()
    prop, tier, seed = args.property, args.tier, args.seed

    t0 = time.time()
    budget = args.budget or (600 if tier == 'quick' else 5400)

    check = load(prop)
    jobs = []
    for family in check.families:
        if args.family and family.name != args.family:
            continue
        n = family.quick if tier == 'quick' else family.thorough
        indices = range(n) if args.index is None else [args.index]
        jobs.extend((index / max(n, 1), family.name, index)
            for index in indices)
    jobs = [job[1:] for job in sorted(jobs)] # interleave families

    reports = []
    dropped = 0
    crashed = None
    if hasattr(check, 'prologue') and not args.family:
        reports.extend(check.prologue(seed, tier))

    if hasattr(check, 'parallel'):
        from vmon import mpi
        reports.extend(mpi.run_all(check, jobs, seed, tier, budget))
        dropped = sum(bool(r.get('dropped')) for r in reports)
        jobs = []

    if jobs:
        from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, \
            wait
        mp = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(min(args.jobs, len(jobs)), mp_context=mp,
                initializer=_init, initargs=(prop, seed, tier)) as pool:
            queue = iter(jobs)
            pending = {}
            over = False
            while True:
                while len(pending) < 2 * args.jobs and not over:
                    job = next(queue, None)
                    if job is None:
                        over = True
                    elif time.time() - t0 > budget:
                        dropped += 1 + sum(1 for _ in queue)
                        over = True
                    else:
                        pending[pool.submit(_job, job)] = job
                if not pending:
                    break
                done, _ = wait(pending, return_when=FIRST_COMPLETED)
                for future in done:
                    job = pending.pop(future)
                    try:
                        reports.append(future.result())
                    except Exception as e:
                        crashed = '%s %s: %r' % (*job, e)
                        over = True
    elapsed = time.time() - t0
    sys.exit(finish(check, prop, tier, seed, reports, dropped, crashed, elapsed,
        args))


def finish(check, prop, tier, seed, reports, dropped, crashed, elapsed, args):
    families = {}
    functions, lines, sigs = set(), set(), set()
    violations, errors = {}, []
    counts = {}
    for r in reports:
        f = families.setdefault(r['family'], dict(cases=0, skipped=0,
            observations=0, seconds=0.0))
        f['cases'] += 1
        f['seconds'] += r.get('time', 0.0)
        if r['status'] == 'skip':
            f['skipped'] += 1
        else:
            sigs.update(r['sigs'])
        for k, v in r['counts'].items():
            f['observations'] += v
            counts['%s/%s' % (r['family'], k)] = counts.get(
                '%s/%s' % (r['family'], k), 0) + v
        functions.update(r.get('functions', ()))
        lines.update(map(tuple, r.get('lines', ())))
        if r['status'] == 'violation':
            violations.setdefault(r['key'], []).append(r)
        elif r['status'] == 'error':
            errors.append(r)

    known = known_findings(prop)
    fresh = {k: v for k, v in violations.items() if k not in known}

    code = 0
    outdir = os.path.join(ROOT, 'evidence', 'replay')
    for key in sorted(violations):
        if key in known:
            print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key,
                known[key]))
    for key in sorted(fresh):
        r = min(fresh[key], key=lambda r: r['index'])
        os.makedirs(outdir, exist_ok=True)
        name = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in key)
        path = os.path.join(outdir, '%s-%s.json' % (prop, name[:80]))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, family=r['family'], index=r['index'],
                seed=seed, tier=tier, oracle=r['oracle'], detail=r['detail'],
                params=r['params'], occurrences=len(fresh[key]),
                replay='bash check.sh %s --tier %s --seed %d --family %s '
                    '--index %d' % (prop, tier, seed, r['family'],
                    r['index'])), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s [case %d]: %s: %s' % (r['family'], r['index'], r['oracle'],
            r['detail'][:1500]))
        code = 1

    if not code and (errors or crashed):
        for r in errors[:5]:
            print('ERROR in %s [case %d]:\n%s' % (r['family'], r['index'],
                r['detail']))
        if crashed:
            print('ERROR: worker crashed: %s' % crashed)
        code = 2

    if not code and args.family is None:
        for family in check.families:
            f = families.get(family.name)
            if not f or not f['observations']:
                print('INCONCLUSIVE: nothing observed in family %s'
                    % family.name)
                code = 2

    if args.family is None:
        samples = []
        seen = set()
        for r in reports:
            if r['family'] not in seen and r['status'] == 'ok' and len(
                    samples) < 12:
                seen.add(r['family'])
                samples.append(dict(family=r['family'], index=r['index'],
                    params=r['params'], observations=r['counts']))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        evidence = dict(property=prop, tier=tier, seed=seed,
            level='exploration',
            coverage=dict(
                evaluations=len(reports),
                distinct_nontrivial=len(sigs),
                rule=check.rule,
                samples=samples,
                oracle_observations=sum(counts.values()),
                observations_per_oracle=dict(sorted(counts.items())),
                families=families,
                cases_not_run_for_lack_of_time=dropped,
                elphmod_functions_executed=sorted(functions),
                elphmod_lines_executed=len(lines),
                closest_call_in_units_of_tolerance=worst(reports)),
            wall_s=round(elapsed, 2), violations=len(fresh))
        path = os.path.join(ROOT, 'evidence', '%s.json' % prop)
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(path + '.tmp', path)
        dump = os.environ.get('VMON_LINES')
        if dump:
            with open(dump, 'a') as f:
                for file, line in sorted(lines):
                    f.write('%s:%d\n' % (file, line))

    if args.verbose:
        for r in sorted(reports, key=lambda r: -r.get('time', 0))[:6]:
            print('slow: %s %d %.2f s %s' % (r['family'], r['index'],
                r.get('time', 0), str(r['params'])[:200]))
        for name, f in families.items():
            print('%-36s %5d cases %4d skipped %8d obs %8.1f s' % (name,
                f['cases'], f['skipped'], f['observations'], f['seconds']))
        for k, v in sorted(worst(reports).items()):
            print('   %-56s %.2g' % (k, v))
    print('%s %s seed %d: %d cases, %d observations, %d distinct, %.1f s: %s'
        % (prop, tier, seed, len(reports), sum(counts.values()), len(sigs),
        elapsed, {0: 'held', 1: 'VIOLATED', 2: 'no verdict'}[code]))
    return code


def worst(reports):
    w = {}
    for r in reports:
        for k, v in r.get('worst', {}).items():
            k = '%s/%s' % (r['family'], k)
            w[k] = max(w.get(k, 0.0), v)
    return {k: round(v, 6) for k, v in w.items() if v > 1e-3}


if __name__ == '__main__':
    main()
