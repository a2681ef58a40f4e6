"""Cases, oracles (verdicts) and monitor counters.

A *family* is a function ``f(ctx, i)`` that runs real elphmod code on a workload
drawn from ``ctx.rng`` and passes what it observed to the oracles of ``ctx``.
Oracles raise :class:`Violation`. Everything a monitor saw is counted.
"""

import hashlib
import os
import shutil
import tempfile
import traceback
import zlib

import numpy as np

REPO = os.environ.get('VMON_REPO', '/repo')
PKG = os.path.join(REPO, 'elphmod') + os.sep


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, oracle, detail='', key=None):
        self.oracle = oracle
        self.detail = detail
        self.key = key
        super().__init__('%s: %s' % (oracle, detail))


class Skip(Exception):
    """The drawn case is outside the quantifier (counted separately)."""


class Family:
    def __init__(self, func, quick, thorough, rule=''):
        self.func = func
        self.name = func.__name__
        self.quick = quick
        self.thorough = thorough
        self.rule = rule or (func.__doc__ or '').strip().split('\n')[0]


class Check:
    """Collects the families of one property."""

    def __init__(self, prop, rule, boost=1):
        self.boost = boost
        self.watch = None # module with further monitor
        self.prop = prop
        self.rule = rule
        self.families = []

    def family(self, quick=20, thorough=None, rule=''):
        if thorough is None:
            thorough = 12 * quick
        quick *= self.boost
        thorough *= self.boost

        def decorate(func):
            self.families.append(Family(func, quick, thorough, rule))
            return func

        return decorate

    def include(self, other, *names, share=1.0):
        """Let families of another check also decide this property."""
        for name in names:
            f = other.get(name)
            self.families.append(Family(f.func, max(1, int(f.quick * share)),
                max(1, int(f.thorough * share)), f.rule))

    def replay(self, other, quick, *skip, **counts):
        """Let families of another check run in a different environment."""
        for f in other.families:
            if f.name in skip:
                continue
            n = counts.get(f.name, quick)
            g = Family(f.func, n, 12 * n, f.rule)
            g.name = '%s.%s' % (other.prop, f.name)
            g.module = f.func.__module__
            self.families.append(g)

    def get(self, name):
        for family in self.families:
            if family.name == name:
                return family
        raise KeyError(name)


def _short(x, n=160):
    s = np.array2string(np.asarray(x), threshold=8, precision=6) \
        if not isinstance(x, str) else x
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def fingerprint(x, depth=0):
    """Hash of value and structure of an object (arrays, containers, models)."""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, x, 0, set())
    return h.hexdigest()


def _feed(h, x, depth, seen):
    if depth > 12:
        h.update(b'deep')
        return
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        h.update(repr((type(x).__name__, x)).encode())
    elif isinstance(x, np.generic):
        h.update(repr((x.dtype.str, x.item())).encode())
    elif isinstance(x, np.ndarray):
        h.update(repr((x.dtype.str, x.shape)).encode())
        if x.dtype == object:
            for y in x.ravel():
                _feed(h, y, depth + 1, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b'{')
        for k in x:
            _feed(h, k, depth + 1, seen)
            _feed(h, x[k], depth + 1, seen)
        h.update(b'}')
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + b'[')
        for y in x:
            _feed(h, y, depth + 1, seen)
        h.update(b']')
    elif isinstance(x, (set, frozenset)):
        h.update(repr(sorted(map(repr, x))).encode())
    elif hasattr(x, 'toarray') and hasattr(x, 'nnz'):
        a = x.toarray()
        _feed(h, a, depth + 1, seen)
    elif callable(x) and not hasattr(x, '__dict__'):
        h.update(b'callable')
    elif type(x).__module__.startswith(('matplotlib', 'mpl_toolkits')):
        h.update(type(x).__name__.encode()) # state of figures is not compared
    elif hasattr(x, '__dict__'):
        if id(x) in seen:
            h.update(b'cycle')
            return
        seen = seen | {id(x)}
        if callable(x) and not type(x).__module__.startswith('elphmod'):
            h.update(b'callable')
            return
        h.update(type(x).__name__.encode())
        for k in sorted(vars(x)):
            if k in ('node', 'images', 'comm', 'pickled'):
                continue
            h.update(k.encode())
            _feed(h, vars(x)[k], depth + 1, seen)
    else:
        h.update(type(x).__name__.encode())


class Ctx:
    """Everything a case may use; records what was observed."""

    def __init__(self, prop, family, index, seed, tier):
        self.prop = prop
        self.family = family
        self.index = index
        self.seed = seed
        self.tier = tier
        self.rng = np.random.default_rng([seed, zlib.crc32(
            ('%s/%s' % (prop, family)).encode()), index])
        self.counts = {}
        self.sigs = set()
        self.params = {}
        self.worst = {}
        self._tmp = None

    # -- workload ---------------------------------------------------------

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vmon-')
        return self._tmp

    def file(self, name):
        return os.path.join(self.tmp, name)

    def cleanup(self):
        if self._tmp is not None and os.path.basename(
                self._tmp).startswith('vmon-'):
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def note(self, **params):
        """Record the drawn parameters (part of the case's signature)."""
        self.params.update(params)

    # -- observations ------------------------------------------------------

    def seen(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def sig(self, *x):
        self.sigs.add(fingerprint((self.family, x)))

    # -- oracles -----------------------------------------------------------

    def fail(self, oracle, detail='', key=None):
        raise Violation(oracle, detail, key)

    def true(self, oracle, cond, detail='', key=None):
        self.seen(oracle)
        if not cond:
            raise Violation(oracle, detail() if callable(detail)
                else str(detail), key)

    def equal(self, oracle, got, ref, key=None):
        self.seen(oracle)
        if isinstance(got, np.ndarray) or isinstance(ref, np.ndarray):
            ok = np.shape(got) == np.shape(ref) and np.all(
                np.asarray(got) == np.asarray(ref))
        else:
            ok = got == ref
        if not ok:
            raise Violation(oracle, 'got %s, expected %s'
                % (_short(repr(got)), _short(repr(ref))), key)

    def close(self, oracle, got, ref, rtol=1e-9, atol=0.0, scale=None,
            key=None, shape=True):
        """Largest deviation in units of the largest reference magnitude."""
        self.seen(oracle)
        got = np.asarray(got)
        ref = np.asarray(ref)
        if shape and got.shape != ref.shape:
            raise Violation(oracle, 'shape %s instead of %s'
                % (got.shape, ref.shape), key)
        if got.dtype == object or ref.dtype == object:
            raise Violation(oracle, 'object array', key)
        if not got.size and not ref.size:
            return 0.0
        if not np.all(np.isfinite(ref)):
            raise RuntimeError('reference of oracle %r is not finite' % oracle)
        if not np.all(np.isfinite(got)):
            raise Violation(oracle, 'result is not finite: %s' % _short(got),
                key)
        if scale is None:
            scale = abs(ref).max() if ref.size else 0.0
        diff = np.max(abs(got - ref))
        limit = rtol * scale + atol
        if limit > 0:
            self.worst[oracle] = max(self.worst.get(oracle, 0.0),
                float(diff / limit))
        if not diff <= limit:
            raise Violation(oracle,
                'deviation %.3g exceeds %.3g: got %s, expected %s'
                % (diff, limit, _short(got), _short(ref)), key)
        return diff

    def finite(self, oracle, x, key=None):
        self.seen(oracle)
        if not np.all(np.isfinite(np.asarray(x))):
            raise Violation(oracle, 'not finite: %s' % _short(x), key)

    def raises_nothing(self):
        pass


class Quiet(Ctx):
    """Context in which only another monitor decides."""

    def fail(self, oracle, detail='', key=None):
        pass

    def true(self, oracle, cond, detail='', key=None):
        pass

    def equal(self, oracle, got, ref, key=None):
        pass

    def close(self, oracle, got, ref, rtol=1e-9, atol=0.0, scale=None,
            key=None, shape=True):
        return 0.0

    def finite(self, oracle, x, key=None):
        pass


def blame(exc):
    """Was the exception raised inside the code under test?"""
    tb = exc.__traceback__
    inside = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            inside = True
        tb = tb.tb_next
    return inside


def last_frames(exc, n=4):
    return ''.join(traceback.format_exception(type(exc), exc,
        exc.__traceback__)[-n:])


def run_case(check, family, index, seed, tier):
    """Run one case and return a picklable report."""
    watch = check.watch
    replayed = watch is not None and hasattr(family, 'module')
    ctx = (Quiet if replayed else Ctx)(check.prop, family.name, index, seed,
        tier)
    report = dict(family=family.name, index=index, status='ok')
    try:
        if watch is None:
            family.func(ctx, index)
        else:
            watch.monitor.begin(ctx)
            try:
                family.func(ctx, index)
            except Violation:
                raise
            except (Exception, SystemExit):
                if not replayed: # (judged by the other check)
                    raise
            finally:
                problem = watch.monitor.end()
            if problem is not None:
                raise problem
    except Skip as e:
        report['status'] = 'skip'
        report['detail'] = str(e)
    except Violation as e:
        report.update(status='violation', oracle=e.oracle, detail=e.detail,
            key=e.key or '%s/%s' % (family.name, e.oracle))
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:
        if blame(e):
            report.update(status='violation', oracle='no exception',
                detail='%s: %s\n%s' % (type(e).__name__, e, last_frames(e)),
                key='%s/exception:%s' % (family.name, type(e).__name__))
        elif isinstance(e, (TypeError, ValueError, LookupError,
                AttributeError, ArithmeticError, AssertionError)):
            # the oracle could not digest what the real code returned
            report.update(status='violation', oracle='form of result',
                detail='%s: %s\n%s' % (type(e).__name__, e,
                last_frames(e, 6)),
                key='%s/form:%s' % (family.name, type(e).__name__))
        else:
            report.update(status='error', detail=last_frames(e, 6))
    finally:
        ctx.cleanup()
    report['counts'] = ctx.counts
    report['params'] = {k: _jsonable(v) for k, v in ctx.params.items()}
    report['worst'] = ctx.worst
    if not ctx.sigs:
        ctx.sigs.add(fingerprint((family.name,
            sorted(report['params'].items(), key=str) or index)))
    report['sigs'] = sorted(ctx.sigs)
    return report


def _jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 24 and x.dtype != complex else _short(x)
    if isinstance(x, np.generic):
        return x.item() if not isinstance(x, np.complexfloating) else str(x)
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [_jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    return str(x)
