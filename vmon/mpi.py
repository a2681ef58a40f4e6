"""Programs run by several MPI processes and compared with the serial run.

Each case is one program run with a drawn number of processes, a drawn layout of
nodes (``Split_type`` pretends that only some of the processes share memory), a
drawn pattern of delays before and after all collective operations, and poisoned
allocations. The monitors see the results on every process, as soon as the call
returns, and the sequence of collective operations of every communicator.
"""

import itertools
import os
import pickle
import signal
import subprocess
import sys
import threading
import time
import traceback
import zlib

import numpy as np

RANKS = 8 # processes at the same time
STALL = 60.0 # seconds without progress before a program is rerun alone
LIMIT = 150.0 # seconds without progress of a program run alone
SIZES = (2, 3, 4, 5, 6, 7, 8)


# ---------------------------------------------------------------- programs


class Root:
    """Result promised to first process only."""

    def __init__(self, value):
        self.value = value


def config(seed, family, index):
    rng = np.random.default_rng([seed, 7, zlib.crc32(family.encode()), index])
    n = int(rng.choice(SIZES, p=[.2, .2, .2, .15, .1, .1, .05]))
    layout = [n, n, 1, 2, 3, int(rng.integers(1, n + 1))][rng.integers(6)]
    delay = ['none', 'first', 'last', 'one', 'others', 'random',
        'random'][rng.integers(7)]
    return dict(n=n, per_node=min(n, layout), delay=delay,
        slow=int(rng.integers(n)), seed=int(rng.integers(2 ** 31)))


def copied(x):
    """Freeze what a process can see right now."""
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, (list, tuple)):
        return type(x)([copied(y) for y in x]) if type(x) in (list, tuple) \
            else list(map(copied, x))
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if hasattr(x, 'toarray'):
        return x.toarray()
    return x


class Recorder:
    """What programs do with their results (mixed into contexts)."""

    def start(self, conf=None):
        self.conf = conf
        self.results = []

    @property
    def comm(self):
        import elphmod
        return elphmod.MPI.comm

    def variant(self, *options):
        """Choose option that must not matter (first one in serial run)."""
        if not hasattr(self, '_choice'):
            self._choice = np.random.default_rng([0 if self.conf is None
                else self.conf['seed'], 11])
        n = int(self._choice.integers(len(options)))
        return options[0 if self.conf is None else n]

    def variants(self, *options):
        """All combinations of options that must not matter, in any order."""
        combinations = list(itertools.product(*options))
        if self.conf is None: # (serial run, always the same options)
            return [combinations[0]] * len(combinations)
        self.variant(True)
        return [combinations[x] for x in self._choice.permutation(len(
            combinations))]

    def result(self, key, value, root=False):
        if root and self.comm.rank:
            value = None
        self.results.append((key, bool(root), copied(value)))

    def once(self, function, *args, **kwargs):
        """Prepare something on first process while the others wait."""
        if self.comm.rank == 0:
            function(*args, **kwargs)
        self.comm.Barrier()


def compare(key, got, ref, rtol=1e-9):
    """Deviation of nested results, None if there is none."""
    if isinstance(ref, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(ref):
            return 'got %r, expected %r' % (got, ref)
        for g, r in zip(got, ref):
            bad = compare(key, g, r, rtol)
            if bad:
                return bad
        return None
    if isinstance(ref, dict):
        if not isinstance(got, dict) or set(got) != set(ref):
            return 'got %r, expected %r' % (got, ref)
        for k in ref:
            bad = compare(key, got[k], ref[k], rtol)
            if bad:
                return '%r: %s' % (k, bad)
        return None
    if isinstance(ref, np.ndarray) or isinstance(ref, (float, complex,
            np.generic)):
        if got is None:
            return 'no result'
        g, r = np.asarray(got), np.asarray(ref)
        if g.shape != r.shape:
            return 'shape %s instead of %s' % (g.shape, r.shape)
        if r.dtype.kind not in 'fc' or g.dtype.kind not in 'fc':
            if g.dtype.kind != r.dtype.kind and not (g.dtype.kind in 'iufc'
                    and r.dtype.kind in 'iufc'):
                return 'type %s instead of %s' % (g.dtype, r.dtype)
            if not np.all(g == r):
                return 'got %s, expected %s' % (short(g), short(r))
            return None
        bad = np.isnan(g) != np.isnan(r)
        if np.any(bad):
            return 'unfilled values: got %s, expected %s' % (short(g),
                short(r))
        if not g.size:
            return None
        fine = np.isfinite(r)
        if np.any(g[~fine & ~np.isnan(r)] != r[~fine & ~np.isnan(r)]):
            return 'got %s, expected %s' % (short(g), short(r))
        scale = abs(r[fine]).max() if fine.any() else 0.0
        diff = abs(g[fine] - r[fine]).max() if fine.any() else 0.0
        if not diff <= rtol * scale + 1e-14:
            return 'deviation %.3g of %.3g: got %s, expected %s' % (diff,
                scale, short(g), short(r))
        return None
    return None if got == ref else 'got %s, expected %s' % (short(got),
        short(ref))


def short(x):
    s = ' '.join(repr(x).split())
    return s if len(s) < 200 else s[:200] + '...'


def spmd(MPI, world):
    """Let programs written for one process run in parallel.

    Files prepared by the program itself (not by elphmod) are written by the first
    process while the others wait. Results are broadcast.
    """
    import builtins
    plain = MPI.Intracomm.Barrier

    class Write:
        def __init__(self, name, *args, **kwargs):
            self.file = builtins.open(os.devnull if world.rank else name,
                *args, **kwargs)

        def __enter__(self):
            return self.file

        def __exit__(self, *ignore):
            self.file.close()
            plain(world)

    def opened(name, mode='r', *args, **kwargs):
        if mode.startswith('r'):
            plain(world)
            return builtins.open(name, mode, *args, **kwargs)
        return Write(name, mode, *args, **kwargs)

    return opened


def broadcasting(MPI, world):
    """Adjust calls of elphmod made by programs (not by elphmod itself).

    Results are always broadcast. Functions that write files on every process
    that calls them are called by one process only. Nobody reads a file before
    it has been written.
    """
    import elphmod
    plain = MPI.Intracomm.Barrier

    def replayed():
        name = sys._getframe(2).f_globals['__name__']
        return name.startswith('vmon.checks.c') and name[-2:] not in ('01',
            '02')

    def share(module, name, key):
        function = getattr(module, name)

        def wrapper(*args, **kwargs):
            if replayed() and (key in kwargs or key == 'share'):
                kwargs[key] = True
            return function(*args, **kwargs)
        setattr(module, name, wrapper)

    for name in 'dispersion', 'dispersion_full', 'dispersion_full_nosym':
        share(elphmod.dispersion, name, 'broadcast')
    for name in 'plot', 'double_plot', 'toBZ':
        share(elphmod.plot, name, 'broadcast')
    for name in 'sample', 'transform':
        share(elphmod.elph, name, 'broadcast')
    share(elphmod.elel, 'orbital2band', 'share')
    share(elphmod.elel, 'read_band_Coulomb_interaction', 'share')

    def write(module, name, once=False):
        function = getattr(module, name)

        def wrapper(*args, **kwargs):
            if not replayed():
                return function(*args, **kwargs)
            plain(world) # everyone is done with previous version
            result = None
            if not once or world.rank == 0:
                result = function(*args, **kwargs)
            plain(world)
            return result
        setattr(module, name, wrapper)

    write(elphmod.el, 'write_hrdat', once=True)
    write(elphmod.el, 'write_bands')
    write(elphmod.elph, 'write_data', once=True)
    write(elphmod.elph, 'write_xml_files')
    write(elphmod.elph.Model, 'to_epmatwp')
    write(elphmod.el.Model, 'to_hrdat')
    write(elphmod.elel.Model, 'to_Wmat')
    write(elphmod.elel, 'write_band_Coulomb_interaction')
    write(elphmod.ph.Model, 'to_flfrc')
    write(elphmod.ph.Model, 'to_pwi')
    write(elphmod.ph, 'write_flfrc', once=True)
    write(elphmod.ph, 'write_quadrupole_fmt', once=True)
    write(elphmod.ph, 'write_q', once=True)
    write(elphmod.ph, 'fildyn_freq')
    write(elphmod.md.Driver, 'to_xyz')
    write(elphmod.md.Driver, 'to_pwi')
    write(elphmod.md.Driver, 'hessian')
    write(elphmod.misc, 'write_xsf')
    for name in 'pwi', 'win', 'ph', 'q2r', 'matdyn', 'epw':
        write(elphmod.bravais, 'write_' + name)


# ------------------------------------------------------------- one process


class Monitor:
    """State of instrumented communicators of this process."""

    def __init__(self, rank):
        self.rank = rank
        self.reset(dict(delay='none', slow=0, seed=0, per_node=10 ** 6))

    def reset(self, conf):
        self.conf = conf
        self.trace = []
        self.budget = 0.4
        self.delays = 0
        self.rng = np.random.default_rng([conf['seed'], self.rank])
        mode = conf['delay']
        me = self.rank
        self.slow = {'none': False, 'first': me == 0, 'one': me ==
            conf['slow'], 'last': me == conf.get('n', 1) - 1, 'others': me
            != conf['slow'], 'random': True}[mode]

    def pause(self):
        if not self.slow or self.budget <= 0:
            return
        if self.conf['delay'] == 'random' and self.rng.integers(3):
            return
        t = min(self.rng.exponential(0.004), 0.03)
        self.budget -= t
        self.delays += 1
        time.sleep(t)


def instrument():
    """Replace world communicator before elphmod sees it."""
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    monitor = Monitor(world.rank)

    class Comm(MPI.Intracomm):
        label = 'world'
        children = 0

        def _wrap(self, comm, kind, color):
            new = Comm(comm)
            new.label = '%s/%d' % (self.label, self.children)
            self.children += 1
            return new

        def _enter(self, op, detail=''):
            monitor.trace.append((self.label, op, time.monotonic()))
            monitor.pause()

        def Split(self, color=0, key=0):
            self._enter('Split')
            new = self._wrap(MPI.Intracomm.Split(self, color, key), 'Split',
                color)
            monitor.pause()
            return new

        def Split_type(self, split_type, key=0, info=MPI.INFO_NULL):
            self._enter('Split_type')
            color = self.rank // monitor.conf['per_node']
            new = self._wrap(MPI.Intracomm.Split(self, color, key), 'node',
                color)
            monitor.pause()
            return new

    def collective(name):
        plain = getattr(MPI.Intracomm, name)

        def wrapper(self, *args, **kwargs):
            self._enter(name)
            out = plain(self, *args, **kwargs)
            monitor.pause()
            return out
        wrapper.__name__ = name
        return wrapper

    for name in ('Barrier', 'barrier', 'Bcast', 'bcast', 'Gather', 'gather',
            'Gatherv', 'Allgather', 'allgather', 'Allgatherv', 'Scatter',
            'scatter', 'Scatterv', 'Reduce', 'reduce', 'Allreduce',
            'allreduce', 'Alltoall', 'Alltoallv', 'Scan', 'Exscan',
            'Reduce_scatter'):
        setattr(Comm, name, collective(name))

    MPI.COMM_WORLD = Comm(world)
    MPI.COMM_WORLD.children = 0
    return MPI, world, monitor


def process(path):
    """Main function of each process."""
    import faulthandler
    with open(path, 'rb') as f:
        spec = pickle.load(f)
    from vmon import poison, run
    MPI, world, monitor = instrument()
    rank = world.rank
    if not os.environ.get('VMON_DEBUG'):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
    err = open('%s.err%d' % (spec['out'], rank), 'w')
    out = open('%s.%d' % (spec['out'], rank), 'wb')

    def put(*record):
        pickle.dump(record, out)
        out.flush()

    run._prepare(serial=False)
    import elphmod
    shared = elphmod.MPI.shared_array

    def poisoned(*args, **kwargs):
        result = shared(*args, **kwargs)
        node, array = result[0], result[-1]
        if isinstance(array, np.ndarray):
            plain = MPI.Intracomm.Barrier
            mine = node.size == 1 or kwargs.get('single_memory') \
                or array.base is None
            if mine or node.rank == 0:
                poison.fill(array)
            if not mine:
                plain(node)
        return result

    # (elphmod functions look it up when called)
    elphmod.MPI.shared_array = poisoned

    check = run.load(spec['prop'])
    opened = spmd(MPI, world)
    broadcasting(MPI, world)
    for name, module in list(sys.modules.items()):
        if name.startswith('vmon.checks.c') and not name.endswith('c01') \
                and not name.endswith('c02'):
            module.open = opened
    from vmon.core import Ctx, Skip, Violation, blame, _jsonable
    for name, index, tmp, conf in spec['jobs']:
        family = check.get(name)
        ctx = type('Process', (Recorder, Ctx), {})(spec['prop'], name, index,
            spec['seed'], spec['tier'])
        ctx._tmp = tmp
        ctx.start(conf)
        np.random.seed(conf['seed'] % 1000 + rank)
        put('start', name, index)
        monitor.reset(dict(delay='none', slow=0, seed=0,
            per_node=conf['per_node']))
        MPI.Intracomm.Barrier(MPI.COMM_WORLD)
        monitor.reset(conf)
        faulthandler.dump_traceback_later(spec['limit'], exit=True, file=err)
        try:
            family.func(ctx, index)
            status, detail = 'ok', None
        except Skip:
            status, detail = 'skip', None
        except Violation as e:
            status, detail = 'violation', (e.oracle, e.detail)
        except SystemExit as e:
            status, detail = 'exit', ('no exception', ''.join(
                traceback.format_exception(e)[-4:]))
        except BaseException as e:
            status = 'violation' if blame(e) or isinstance(e, (TypeError,
                ValueError, LookupError, AttributeError, ArithmeticError,
                AssertionError)) else 'error'
            detail = 'no exception', '%s: %s\n%s' % (type(e).__name__, e,
                ''.join(traceback.format_exception(e)[-4:]))
        put('end', name, index, status, detail, ctx.results, monitor.trace,
            monitor.delays, ctx.counts, {k: _jsonable(v) for k, v in
            ctx.params.items()} if rank == 0 else {})
        if status not in ('ok', 'skip'):
            err.flush()
            time.sleep(0.3)
            world.Abort(3)
        # everyone is done with shared files and memory:
        monitor.reset(dict(delay='none', slow=0, seed=0, per_node=1))
        MPI.Intracomm.Barrier(MPI.COMM_WORLD)
        faulthandler.cancel_dump_traceback_later()
        MPI.COMM_WORLD.children = 0
    put('done', sorted(__import__('vmon.coverage').coverage.functions),
        sorted(__import__('vmon.coverage').coverage.lines))
    out.close()
    os._exit(0) if spec.get('hard') else None


# ------------------------------------------------------------------ parent


def records(path):
    out = []
    try:
        with open(path, 'rb') as f:
            while True:
                out.append(pickle.load(f))
    except (EOFError, FileNotFoundError, pickle.UnpicklingError):
        pass
    return out


class Launcher:
    def __init__(self, check, seed, tier, deadline):
        self.check, self.seed, self.tier = check, seed, tier
        self.deadline = deadline
        self.tmp = os.environ.get('TMPDIR', '/tmp')
        self.count = 0
        self.lock = threading.Lock()
        self.done = {} # (family, index) -> list of end records per rank
        self.failed = {} # (family, index) -> (oracle, detail)
        self.functions, self.lines = set(), set()
        self.launches = 0
        self.confirmed = False # any deadlock confirmed

    def launch(self, jobs, n, limit):
        """Run programs; return those that have not been run."""
        with self.lock:
            self.count += 1
            name = os.path.join(self.tmp, 'batch%d' % self.count)
            self.launches += 1
        spec = dict(prop=self.check.prop, seed=self.seed, tier=self.tier,
            out=name, limit=limit, jobs=[])
        for family, index in jobs:
            tmp = '%s-%s-%d' % (name, family, index)
            os.mkdir(tmp)
            spec['jobs'].append((family, index, tmp, config(self.seed, family,
                index)))
        with open(name + '.spec', 'wb') as f:
            pickle.dump(spec, f)
        log = open(name + '.log', 'w')
        p = subprocess.Popen(['mpirun', '-n', str(n), sys.executable, '-W',
            'ignore', '-m', 'vmon.mpi', name + '.spec'],
            stdin=subprocess.DEVNULL, stdout=log, stderr=log,
            start_new_session=True)
        last, since = None, time.time()
        stalled = False
        while p.poll() is None:
            time.sleep(0.05)
            sizes = [os.path.getsize('%s.%d' % (name, r))
                if os.path.exists('%s.%d' % (name, r)) else 0
                for r in range(n)]
            if sizes != last:
                last, since = sizes, time.time()
            elif time.time() - since > limit + 5:
                stalled = True
                break
        if p.poll() is None or stalled:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        log.close()
        ranks = [records('%s.%d' % (name, r)) for r in range(n)]
        open_job, bad = None, None
        rest = list(jobs)
        for job in jobs:
            ends = [[x for x in rec if x[0] == 'end' and x[1:3] == job]
                for rec in ranks]
            starts = [[x for x in rec if x[0] == 'start' and x[1:3] == job]
                for rec in ranks]
            faults = [e[0] for e in ends if e and e[0][3] not in ('ok',
                'skip')]
            if faults:
                status, detail = faults[0][3:5]
                rest.remove(job)
                with self.lock:
                    self.failed[job] = (status, *detail)
                break
            if all(ends):
                rest.remove(job)
                with self.lock:
                    self.done[job] = [e[0] for e in ends]
            elif any(starts):
                open_job = job
                break
            else:
                break
        for rec in ranks:
            for x in rec:
                if x[0] == 'done':
                    with self.lock:
                        self.functions.update(x[1])
                        self.lines.update(map(tuple, x[2]))
        where = ''
        for r in range(n):
            try:
                with open('%s.err%d' % (name, r)) as f:
                    text = f.read()
                lines = [l for l in text.split('\n') if 'File' in l][:6]
                if lines:
                    where += 'rank %d:\n%s\n' % (r, '\n'.join(lines))
            except FileNotFoundError:
                pass
        with open(name + '.log') as f:
            where = where or f.read()[-800:]
        return rest, open_job, where

    def batch(self, jobs, n):
        jobs = list(jobs)
        limit = STALL
        alone = 0
        while jobs and time.time() < self.deadline:
            before = len(jobs)
            jobs, stuck, where = self.launch(jobs, n, limit)
            if stuck is not None and stuck in jobs:
                # rerun suspicious program alone and with more patience
                jobs.remove(stuck)
                if self.confirmed: # (one is enough)
                    continue
                rest, again, where = self.launch([stuck], n, LIMIT)
                if rest:
                    with self.lock:
                        self.failed[stuck] = ('violation', 'termination',
                            'processes do not return:\n' + where)
                        self.confirmed = True
                        self.deadline = min(self.deadline, time.time() + 45)
            elif len(jobs) == before:
                alone += 1
                if alone > 2: # nothing could be started at all
                    with self.lock:
                        for job in jobs:
                            self.failed[job] = ('error', 'launch', where)
                    return

    def run(self, jobs):
        groups = {}
        for job in jobs:
            groups.setdefault(config(self.seed, *job)['n'], []).append(job)
        batches = []
        for n, some in groups.items():
            chunk = 1 + max(8, len(some) // 3)
            for i in range(0, len(some), chunk):
                batches.append((n, some[i:i + chunk]))
        batches.sort(key=lambda b: -b[0] * len(b[1]))
        free = [RANKS]
        cond = threading.Condition()
        threads = []

        def work(n, some):
            try:
                self.batch(some, n)
            finally:
                with cond:
                    free[0] += n
                    cond.notify_all()

        queue = list(batches)
        while queue:
            with cond:
                pick = next((b for b in queue if b[0] <= free[0]), None)
                if pick is None:
                    cond.wait()
                    continue
                free[0] -= pick[0]
            queue.remove(pick)
            t = threading.Thread(target=work, args=pick)
            t.start()
            threads.append(t)
        for t in threads:
            t.join()


def reference(prop, seed, tier, name, index):
    """Serial run (in worker with mock communicator)."""
    from vmon import run
    from vmon.core import Ctx, Skip, Violation, blame
    family = run._check.get(name)
    ctx = type('Serial', (Recorder, Ctx), {})(prop, name, index, seed, tier)
    ctx.start()
    np.random.seed(config(seed, name, index)['seed'] % 1000)
    try:
        family.func(ctx, index)
        return 'ok', ctx.results, None, ctx.params, ctx.counts
    except Skip:
        return 'skip', [], None, ctx.params, ctx.counts
    except Violation as e:
        return 'violation', [], (e.oracle, e.detail), ctx.params, ctx.counts
    except BaseException as e:
        bad = blame(e) or isinstance(e, (TypeError, ValueError, LookupError,
            AttributeError, ArithmeticError, AssertionError))
        detail = ''.join(traceback.format_exception(e)[-4:])
        return ('violation' if bad else 'error', [], ('serial run', detail)
            if bad else detail, ctx.params, ctx.counts)
    finally:
        ctx.cleanup()


def _reference(job):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    return reference(*job)


def orders(traces):
    """In which orders have processes arrived at world collectives?"""
    seen = set()
    lists = [[t for label, op, t in trace if label == 'world']
        for trace in traces]
    for times in zip(*lists):
        seen.add(tuple(np.argsort(times).tolist()))
    return seen


def matching(traces):
    """Do all processes call the same collectives in the same order?"""
    lists = [[op for label, op, t in trace if label == 'world']
        for trace in traces]
    for rank, ops in enumerate(lists):
        if ops != lists[0]:
            for i, (x, y) in enumerate(zip(ops + [None], lists[0] + [None])):
                if x != y:
                    return ('collective operation %d is %s on rank 0 but %s '
                        'on rank %d' % (i, y, x, rank))
    return None


def run_all(check, jobs, seed, tier, budget):
    """Reports of all cases (parallel and serial)."""
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing
    from vmon import run
    t0 = time.time()
    launcher = Launcher(check, seed, tier, t0 + budget)
    mp = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(4, mp_context=mp, initializer=run._init,
            initargs=(check.prop, seed, tier)) as pool:
        own = [job for job in jobs if not hasattr(check.get(job[0]), 'module')]
        refs = dict(zip(own, pool.map(_reference, [(check.prop, seed, tier,
            *job) for job in own], chunksize=4)))
    launcher.run(jobs)
    reports = []
    interleavings = set()
    for job in jobs:
        name, index = job
        replay = job not in refs
        if replay:
            status, ref, detail, params, counts = 'ok', [], None, {}, {}
            if job in launcher.done:
                end = launcher.done[job][0]
                status, params, counts = end[3], end[9], end[8]
        else:
            status, ref, detail, params, counts = refs[job]
        conf = config(seed, name, index)
        from vmon.core import _jsonable, fingerprint
        report = dict(family=name, index=index, status='ok', counts={},
            worst={}, sigs=[fingerprint((name, index, sorted(conf.items())))],
            params={**{k: _jsonable(v) for k, v in params.items()}, **conf},
            time=0.0)
        reports.append(report)
        report['counts'].update(counts)
        counts = report['counts']

        def violate(oracle, text):
            report.update(status='violation', oracle=oracle, detail=text,
                key='%s/%s' % (name, oracle))

        if status == 'violation':
            violate(*detail)
            continue
        if status == 'error':
            report.update(status='error', detail=detail)
            continue
        if job in launcher.failed:
            kind, oracle, text = launcher.failed[job]
            if kind == 'error':
                report.update(status='error', detail=text)
            else:
                violate(oracle, text)
            continue
        if job not in launcher.done:
            report['status'] = 'skip'
            report['dropped'] = True
            continue
        ends = launcher.done[job]
        if status == 'skip':
            report['status'] = 'skip'
            continue
        traces = [e[6] for e in ends]
        counts['collectives'] = sum(map(len, traces))
        counts['delays'] = sum(e[7] for e in ends)
        for o in orders(traces):
            interleavings.add((conf['n'], o))
        counts['collective sequences'] = 1
        bad = matching(traces)
        if bad:
            violate('matching collectives', bad)
            continue
        for rank, e in enumerate(ends):
            got = e[5]
            if [x[0] for x in got] != [x[0] for x in ref]:
                violate('same results', 'rank %d returns %s, serial run %s'
                    % (rank, [x[0] for x in got], [x[0] for x in ref]))
                break
            for (key, root, value), (_, _, want) in zip(got, ref):
                if root and rank:
                    continue
                counts[key] = counts.get(key, 0) + 1
                bad = compare(key, value, want)
                if bad:
                    violate(key, 'rank %d of %d (%d per node): %s' % (rank,
                        conf['n'], conf['per_node'], bad))
                    break
            if report['status'] != 'ok':
                break
    if reports:
        reports[0]['functions'] = sorted(launcher.functions)
        reports[0]['lines'] = sorted(launcher.lines)
        reports[0]['counts']['distinct arrival orders'] = len(interleavings)
    return reports


if __name__ == '__main__':
    # (make sure that classes are those of the imported module)
    from vmon import mpi
    mpi.process(sys.argv[1])
