"""Monitor of side effects: every call of a public function or method made by a
program (not by elphmod itself) is observed.

- Arguments (including ``self``) must be the same before and after the call
  unless the call is documented to work in place.
- Everything returned by earlier calls and everything passed to them must still
  be the same after a call that does not work on it.
- State of the package itself (module attributes) must not change.
- A second call with the same arguments, made at the end of the case with
  everything that has happened in between, must give the same result.
"""

import copy
import functools
import sys
import types

import numpy as np

from vmon.core import Violation, _feed, fingerprint
from vmon.mpi import compare

# arguments documented to be changed or evidently meant to be:
IN_PLACE = {
    'el.Model.__init__': {'self'},
    'el.Model.standardize': {'self'},
    'el.Model.symmetrize': {'self'},
    'el.Model.order_orbitals': {'self'},
    'el.Model.shift_orbitals': {'self'},
    'el.Model.clear': {'self'},
    'el.k2r': {'el'},
    'elel.Model.__init__': {'self'},
    'elel.Model.standardize': {'self'},
    'elel.q2r': {'elel'},
    'ph.Model.__init__': {'self'},
    'ph.Model.standardize': {'self'},
    'ph.Model.symmetrize': {'self'},
    'ph.Model.order_atoms': {'self'},
    'ph.Model.shift_atoms': {'self'},
    'ph.Model.clear': {'self'},
    'ph.Model.prepare_long_range': {'self'},
    'ph.Model.update_short_range': {'self'},
    'ph.Model.sample_orig': {'self'},
    'elph.Model.sample_orig': {'self'},
    'ph.q2r': {'ph'},
    'ph.asr': {'phid'},
    'ph.zasr': {'Z'},
    'ph.divide_by_mass': {'dyn'},
    'ph.sum_rule_correction': {'ph'},
    'elph.Model.__init__': {'self'},
    'elph.Model.standardize': {'self'},
    'elph.Model.symmetrize': {'self'},
    'elph.Model.asr': {'self'},
    'elph.Model.clear': {'self'},
    'elph.Model.divide_degeneracy': {'g'},
    'elph.Model.update_short_range': {'self'},
    'elph.q2r': {'elph'},
    'bravais.complete': {'data'},
    'bravais.write_entry': {'data'},
    'diagrams.renormalize_coupling_band': set(),
    'plot.colorbar': {'image'},
    'misc.StatusBar.__init__': {'self'},
    'misc.StatusBar.update': {'self'},
}

CACHE = {'elphmod.elph.Model': {'q', 'gq'}}

# in-place operations that are meant to affect constituents too:
DEEP = {'elph.Model.clear', 'elph.Model.sample_orig',
    'elph.Model.update_short_range'}

# state that belongs to a distribution whose parameters are set by the user:
STATE = {'elphmod.occupations.two_fermi_dirac.d'}

# elements of the data of a model are views like those of any array:
VIEWS = {'el.Model.t', 'ph.Model.C', 'elph.Model.gR', 'elel.Model.WR'}

INPUT = {'bravais.kpoints'} # reads from standard input

RANDOM = {'md.Driver.random_displacements'}
WINDOWS = {'md.Driver.plot', 'md.Driver.update_plot'}

LIMIT = 3 * 10 ** 6 # bytes of data to copy or hash for a single call


class Skipped(Exception):
    pass


def figure(x):
    """Part of a drawing?"""
    return type(x).__module__.startswith(('matplotlib', 'mpl_toolkits'))


def size(x, depth=0):
    """Rough amount of data."""
    if isinstance(x, np.ndarray):
        return x.nbytes
    if isinstance(x, (list, tuple, set)):
        return 50 * len(x) + sum(size(y, depth + 1) for y in list(x)[:1000]) \
            if depth < 6 else 0
    if isinstance(x, dict):
        return sum(size(y, depth + 1) for y in x.values()) if depth < 6 else 0
    if isinstance(x, types.MethodType):
        return size(x.__self__, depth + 1)
    if hasattr(x, 'nnz'):
        return 16 * x.nnz
    if figure(x): # cannot be copied
        return LIMIT + 1
    if hasattr(x, '__dict__') and not isinstance(x, (type,
            types.ModuleType, types.FunctionType)) and depth < 6:
        return sum(size(y, depth + 1) for y in vars(x).values())
    return 0


def plain(x, depth=0):
    """Convert objects into containers that can be compared."""
    if depth > 8:
        return None
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [plain(y, depth + 1) for y in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [plain(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return {k: plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, types.MethodType):
        return plain(x.__self__, depth + 1)
    if hasattr(x, 'toarray'):
        return x.toarray()
    if figure(x):
        return 'figure'
    if callable(x) and not type(x).__module__.startswith('elphmod'):
        return 'callable'
    if hasattr(x, '__dict__') and not isinstance(x, np.ndarray):
        skip = {'node', 'images', 'comm', 'pickled', *CACHE.get('%s.%s' % (
            type(x).__module__, type(x).__name__), ())}
        return {k: plain(v, depth + 1) for k, v in vars(x).items()
            if k not in skip}
    return x


def mark(x):
    """Fingerprint without caches."""
    return fingerprint(plain(x))


def reachable(x, out, depth=0):
    """Identities of all objects that make up an object."""
    if depth > 8 or x is None or isinstance(x, (bool, int, float, complex,
            str, bytes, np.generic)):
        return
    if id(x) in out:
        return
    out.add(id(x))
    if isinstance(x, np.ndarray):
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            reachable(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            reachable(y, out, depth + 1)
    elif isinstance(x, types.MethodType):
        reachable(x.__self__, out, depth + 1)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('elphmod'):
        for y in vars(x).values():
            reachable(y, out, depth + 1)


class Monitor:
    def __init__(self):
        self.depth = 0
        self.ctx = None
        self.rng = np.random.default_rng(0)

    def begin(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.count = {}
        self.kept = []
        self.calls = []
        self.rng = np.random.default_rng([ctx.seed, ctx.index, 77])
        self.globals = package_state()
        self.problem = None
        self.off = False
        self.limit = 24

    def report(self, oracle, detail):
        if self.problem is None:
            self.problem = Violation(oracle, detail)

    def end(self):
        """Repeat recorded calls; return problem if there is any."""
        ctx = self.ctx
        if self.problem is None:
            self.off = True
            for name in self.rng.permutation(len(self.calls)):
                self.repeat(*self.calls[name])
                if self.problem is not None:
                    break
        state = package_state()
        for key in sorted((set(state) | set(self.globals)) - STATE):
            ctx.seen('state of package')
            if state.get(key) != self.globals.get(key):
                self.report('state of package', '%s is %s instead of %s'
                    % (key, state.get(key), self.globals.get(key)))
        self.ctx = None
        self.kept = []
        self.calls = []
        return self.problem

    def repeat(self, name, function, args, kwargs, before, result, state):
        """Call once more with same arguments."""
        ctx = self.ctx
        ctx.seen('repeated calls')
        args, kwargs = copy.deepcopy((args, kwargs))
        np.random.set_state(state)
        self.depth += 1
        try:
            again = function(*args, **kwargs)
        except FileNotFoundError:
            return
        except (Exception, SystemExit) as e:
            self.report('repeatable', '%s raises %s: %s when called again'
                % (name, type(e).__name__, e))
            return
        finally:
            self.depth -= 1
        if name.endswith('__init__'):
            again = args[0]
        bad = compare(name, plain(again), result, rtol=1e-9)
        if bad:
            self.report('repeatable', '%s gives another result when called '
                'again: %s' % (name, bad))

    def call(self, name, function, names, args, kwargs):
        ctx = self.ctx
        n = self.count[name] = self.count.get(name, 0) + 1
        inplace = IN_PLACE.get(name, set())
        if name.startswith('md.Driver.'):
            inplace = {'self'} # (carries state of the simulation)
        heavy = n > 3 and not (inplace and n < 12) and self.rng.random() \
            > 0.03 / (1 + n / 300)
        if heavy or name in WINDOWS:
            self.depth += 1
            try:
                return function(*args, **kwargs)
            finally:
                self.depth -= 1
        bound = dict(zip(names, args))
        bound.update({'*%d' % i: x for i, x in enumerate(args[len(names):])})
        bound.update(kwargs)
        init = name.endswith('__init__')
        if init:
            bound.pop('self', None)
        if sum(map(size, bound.values())) > LIMIT:
            ctx.seen('calls with much data')
            self.depth += 1
            try:
                return function(*args, **kwargs)
            finally:
                self.depth -= 1
        # what may change:
        roots = [args[0] if key == 'self' else bound[key] for key in inplace
            if (args if key == 'self' else key in bound)]
        target = set()
        for root in roots:
            if name in DEEP:
                reachable(root, target)
            else:
                target.add(id(root))
                if hasattr(root, '__dict__'):
                    target.update(id(x) for x in vars(root).values()
                        if not type(x).__module__.startswith('elphmod'))

        def excused(x):
            if id(x) in target:
                return True
            ids = set()
            reachable(x, ids)
            return any(id(root) in ids for root in roots)

        old = {k: mark(x) for k, x in bound.items()}
        kept = [(x, mark(x), what) for x, what in self.kept]
        state = np.random.get_state()
        record = None
        if len(self.calls) < 30 and not (inplace - {'self'} and init):
            try:
                record = copy.deepcopy((args, kwargs))
            except Exception:
                record = None
        self.depth += 1
        try:
            result = function(*args, **kwargs)
        finally:
            self.depth -= 1
        ctx.seen('observed calls')
        ctx.seen('calls of ' + name)
        for k, x in bound.items():
            if k in inplace:
                continue
            if excused(x):
                continue
            ctx.seen('arguments unchanged')
            if mark(x) != old[k]:
                self.report('arguments unchanged', '%s changes its argument '
                    '%r: %s' % (name, k, difference(record, names, k, x)))
        for x, before, what in kept:
            if excused(x):
                continue
            ctx.seen('earlier results unchanged')
            if mark(x) != before:
                self.report('earlier results unchanged', '%s (call %d) '
                    'changes %s' % (name, n, what))
        value = args[0] if init else result
        if len(self.kept) > self.limit:
            del self.kept[int(self.rng.integers(len(self.kept)))]
        if size(value) < LIMIT / 10 and has_arrays(value) \
                and name not in VIEWS:
            self.kept.append((value, 'result of ' + name))
        if inplace and 'self' in inplace and not init and args and not any(
                x is args[0] for x, what in self.kept):
            self.kept.append((args[0], 'object of ' + name))
        if record is not None and name not in RANDOM | INPUT:
            if init:
                value = copy.deepcopy(value)
            entry = (name, function, *record, old, copy.deepcopy(plain(value)),
                state)
            if reads(name) or writes(name):
                if reads(name) and self.problem is None:
                    self.repeat(*entry)
            else:
                self.calls.append(entry)
        if self.problem is not None:
            raise self.problem
        return result


def shares(x, array):
    """Is memory of array part of result (not of model)?"""
    if isinstance(x, np.ndarray):
        return x.dtype != object and np.shares_memory(x, array)
    if isinstance(x, (list, tuple)):
        return any(shares(y, array) for y in x)
    if isinstance(x, dict):
        return any(shares(y, array) for y in x.values())
    return False


def has_arrays(x, depth=0):
    if isinstance(x, np.ndarray):
        return x.size > 0
    if isinstance(x, (list, tuple)):
        return len(x) > 0
    if isinstance(x, dict):
        return len(x) > 0
    return hasattr(x, '__dict__') and type(x).__module__.startswith('elphmod')


def reads(name):
    last = name.split('.')[-1]
    return last.startswith('read') or last in ('__init__', 'load', 'from_xyz',
        'hartree_energy', 'coupling', 'decayH', 'update_short_range', 'create')


def writes(name):
    last = name.split('.')[-1]
    return last.startswith(('write', 'to_', 'save')) or last in (
        'fildyn_freq',)


def difference(record, names, key, now):
    if record is None:
        return ''
    args, kwargs = record
    was = kwargs[key] if key in kwargs else dict(zip(names, args)).get(key)
    return compare(key, plain(now), plain(was), 0.0) or 'type or order'


def package_state():
    """Public state of all modules."""
    out = {}
    for module, m in list(sys.modules.items()):
        if module != 'elphmod' and not module.startswith('elphmod.'):
            continue
        for key, x in list(vars(m).items()):
            if key.startswith('__') or isinstance(x, (types.ModuleType, type)):
                continue
            if isinstance(x, types.FunctionType):
                for k, v in vars(x).items():
                    if not callable(v) and not k.startswith('__'):
                        out['%s.%s.%s' % (module, key, k)] = fingerprint(v)
                d = x.__defaults__ or ()
                if any(isinstance(y, (list, dict, set, np.ndarray))
                        for y in d):
                    out['%s.%s defaults' % (module, key)] = fingerprint(d)
            elif isinstance(x, (bool, int, float, str, list, tuple, dict, set,
                    np.ndarray)):
                out['%s.%s' % (module, key)] = fingerprint(x)
    return out


monitor = Monitor()


def wrap(name, function):
    names = function.__code__.co_varnames[:function.__code__.co_argcount]

    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        if monitor.depth or monitor.ctx is None or monitor.off:
            return function(*args, **kwargs)
        return monitor.call(name, function, names, args, kwargs)

    return wrapper


def install():
    """Wrap public functions and methods of all modules."""
    import elphmod
    for module, m in list(sys.modules.items()):
        if not module.startswith('elphmod.'):
            continue
        short = module[len('elphmod.'):]
        if short in ('MPI',):
            continue
        for key, x in list(vars(m).items()):
            if key.startswith('_'):
                continue
            if isinstance(x, types.FunctionType) and x.__module__ == module:
                if short == 'occupations' and (vars(x) or '_' in key and
                        key.split('_')[-1] in ('delta', 'prime', 'entropy')):
                    continue
                if short == 'misc' and key in ('get_sparse_array',):
                    continue
                setattr(m, key, wrap('%s.%s' % (short, key), x))
            elif isinstance(x, type) and x.__module__ == module \
                    and short in ('el', 'ph', 'elph', 'elel', 'md'):
                for k, f in list(vars(x).items()):
                    if isinstance(f, types.FunctionType) and (
                            not k.startswith('_') or k in ('__init__',
                            '__call__')):
                        setattr(x, k, wrap('%s.%s.%s' % (short, x.__name__,
                            k), f))
                    elif isinstance(f, staticmethod):
                        setattr(x, k, staticmethod(wrap('%s.%s.%s' % (short,
                            x.__name__, k), f.__func__)))
