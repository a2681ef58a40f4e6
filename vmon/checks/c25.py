"""C25: reference models and numeric helpers agree with their closed forms."""

import io
import contextlib
import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint

check = Check('C25', 'A case is one model (created or reloaded, with random '
    'units) evaluated at random wave vectors, or one set of random arguments '
    'of a helper; distinct by these; non-trivial for wave vectors different '
    'from zero.', boost=40)

deg = np.pi / 180
Ry = 13.605693122994
a0 = 0.529177210903
u = 1.66053906660e-27 / (2 * 9.1093837015e-31) # atomic mass in Rydberg units
Npm = (1e-10 * a0) ** 2 / (1.602176634e-19 * Ry) # N/m in Rydberg units
cells = [np.array(R) for R in itertools.product(range(-3, 4), range(-3, 4))]


class Reference:
    """Model rebuilt from geometry and parameters."""

    def __init__(self, a, r, mass):
        self.a = np.asarray(a)
        self.r = np.asarray(r)
        self.mass = np.repeat(mass, 3)

    def pairs(self, centers=None):
        """Displacements between atoms (i in home cell, j in cell R)."""
        r = self.r if centers is None else centers
        for i in range(len(r)):
            for j in range(len(r)):
                for R in cells:
                    yield i, j, R, r[j] + R.dot(self.a[:2]) - r[i]

    def H(self, *k):
        return sum_pairs(self.hoppings(), self.norb, k)

    def C(self, *q):
        """Force constants in reciprocal space with acoustic sum rule."""
        n = len(self.r)
        C = np.zeros((3 * n, 3 * n), dtype=complex)
        for i, j, R, K in self.springs():
            s, t = slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3)
            C[s, s] += K
            C[s, t] -= K * np.exp(1j * R.dot(q[:2]))
        return C

    def g(self, q, k, divide=True):
        """Coupling from derivative of hopping integrals."""
        g = np.zeros((3 * len(self.r), self.norb, self.norb), dtype=complex)
        for (i, j, R, m, n, t), dt in zip(self.hoppings(), self.slopes()):
            p = np.exp(1j * R.dot(k[:2]))
            g[3 * j:3 * j + 3, m, n] += dt * p * np.exp(1j * R.dot(q[:2]))
            g[3 * i:3 * i + 3, m, n] -= dt * p
        if divide:
            g /= np.sqrt(self.mass)[:, None, None]
        return g


def sum_pairs(terms, n, k):
    H = np.zeros((n, n), dtype=complex)
    for i, j, R, m, l, t in terms:
        H[m, l] += t * np.exp(1j * R.dot(k[:2]))
    return H


def rotation(phi):
    c, s = np.cos(phi), np.sin(phi)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def rotated(K, phi):
    return rotation(phi).dot(K).dot(rotation(phi).T)


class Chain(Reference):
    norb = 1

    def __init__(self):
        Reference.__init__(self, np.diag([1, 20, 20]) / a0, np.zeros((1, 3)),
            [u])

    def hoppings(self):
        for R in np.array([1, 0]), np.array([-1, 0]):
            yield 0, 0, R, 0, 0, -0.5 / Ry

    def C(self, *q):
        return np.eye(3) * (0.05 / Ry) ** 2 * (1 - np.cos(q[0])) * u

    def g(self, q, k, divide=True):
        g = np.zeros((3, 1, 1), dtype=complex)
        g[0] = 1j * 0.02 / Ry ** 1.5 * (np.sin(k[0] + q[0]) - np.sin(k[0]))
        return g * (1 if divide else np.sqrt(u))


class Graphene(Reference):
    norb = 2

    def __init__(self):
        a = np.array([[2.46, 0, 0], [-1.23, 1.23 * np.sqrt(3), 0],
            [0, 0, 15]]) / a0
        Reference.__init__(self, a, np.array([[2, 1, 0], [1, 2, 0]]).dot(a) / 3,
            [12.011 * u] * 2)
        self.tau = 2.46 / np.sqrt(3) / a0

    def shell(self, factor):
        for i, j, R, d in self.pairs():
            if abs(np.linalg.norm(d) - factor * self.tau) < 1e-6:
                yield i, j, R, d

    def hoppings(self):
        for i, j, R, d in self.shell(1):
            yield i, j, R, i, j, -2.6 / Ry

    def slopes(self):
        for i, j, R, d in self.shell(1):
            yield -2.0 * -2.6 / Ry * d / self.tau ** 2

    def springs(self):
        for i, j, R, d in self.shell(1):
            yield i, j, R, rotated(np.diag([365, 245, 98.2]) * Npm,
                np.arctan2(d[1], d[0]))
        for i, j, R, d in self.shell(np.sqrt(3)):
            yield i, j, R, rotated(np.diag([0, 245, 98.2]) * -Npm / 6,
                np.arctan2(d[1], d[0]))

    def U(self, *q):
        U = np.zeros((2, 2), dtype=complex)
        for f, x in (0, 9.3), (1, 5.5), (np.sqrt(3), 4.1), (2, 3.6):
            for i, j, R, d in self.shell(f):
                U[i, j] += x * np.exp(1j * R.dot(q[:2]))
        return U


class TaS2(Reference):
    norb = 3

    def __init__(self):
        a = np.array([[3.34, 0, 0], [-1.67, 1.67 * np.sqrt(3), 0],
            [0, 0, 15]]) / a0
        r = np.array([[1, 2, 0], [2, 1, 0], [2, 1, 0]]).dot(a) / 3
        r[1:, 2] = np.array([0.1, -0.1]) * 15 / a0
        Reference.__init__(self, a, r, [180.95 * u, 32.06 * u, 32.06 * u])
        self.length = 3.34 / a0

    def hop(self, d):
        """Hopping integrals between metal atoms as function of distance."""
        phi = np.arctan2(d[1], d[0])
        t = np.array([[-0.14, 0.48, -0.38], [0.48, -0.26, 0.31],
            [0.38, -0.31, 0.32]]) / Ry
        if int(round(phi / (60 * deg))) % 2:
            t = t.T
        c, s = np.cos(2 * phi), np.sin(2 * phi)
        rot = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
        return rot.dot(t).dot(rot.T) * np.exp(-5.0 * (np.hypot(*d[:2])
            / self.length - 1))

    def near(self):
        for R in cells:
            d = R.dot(self.a[:2])
            if abs(np.linalg.norm(d) - self.length) < 1e-6:
                yield R, d

    def hoppings(self):
        for n, e in enumerate([1.85, 2.3, 2.3]):
            yield 0, 0, np.zeros(2, dtype=int), n, n, e / Ry
        for R, d in self.near():
            t = self.hop(d)
            for m, n in itertools.product(range(3), repeat=2):
                yield 0, 0, R, m, n, t[m, n]

    def slopes(self):
        for n in range(3):
            yield np.zeros(3)
        h = 1e-5
        for R, d in self.near():
            dt = np.zeros((3, 3, 3))
            for x in range(2):
                e = np.zeros(3)
                e[x] = h
                dt[x] = (8 * (self.hop(d + e) - self.hop(d - e))
                    - self.hop(d + 2 * e) + self.hop(d - 2 * e)) / (12 * h)
            for m, n in itertools.product(range(3), repeat=2):
                yield dt[:, m, n]

    def springs(self):
        A = np.array([[43.8, 0, 51.7], [0, 9.0, 0], [39.2, 0, 57.3]])
        B = np.diag([3.4, 3.4, 38.1])
        C = np.diag([-5.4, -4.6, -19.0])
        D = np.array([[14.3, 0, 0], [0, -1.7, 2.4], [0, 2.4, -4.8]])
        E = np.diag([8.0, 8.0, 1.8])
        F = np.array([[2.0, 0, 0], [0, -5.6, 3.0], [0, -3.0, 2.1]])
        zflip = np.diag([1, 1, -1])

        def bond(K, phi):
            """Angles modulo 120 degrees or mirror images of them."""
            n = int(round(phi / (60 * deg)))
            if n % 2:
                x = np.diag([-1, 1, 1])
                return x.dot(bond(K, np.pi - phi)).dot(x)
            return rotated(K, phi)

        for i, j, R, d in self.pairs():
            L, phi = np.hypot(*d[:2]) / self.length, np.arctan2(d[1], d[0])
            flip = zflip if 2 in (i, j) and 0 in (i, j) or i == j == 2 \
                else np.eye(3)
            K = None
            if i == 0 and j or j == 0 and i:
                if i: # bond from metal to chalcogen atom
                    phi += np.pi
                if abs(L - 1 / np.sqrt(3)) < 1e-6:
                    K = rotated(A, phi)
                elif abs(L - 2 / np.sqrt(3)) < 1e-6:
                    K = rotated(E, phi)
                if K is not None and i:
                    K = K.T
            elif i == j and abs(L - 1) < 1e-6:
                K = bond(D if i else C, phi)
            elif i != j:
                if L < 1e-6:
                    K = B
                elif abs(L - 1) < 1e-6: # bond from lower to upper atom
                    K = bond(F, phi + np.pi * (i == 1))
                    if i == 1:
                        K = K.T
            if K is not None:
                yield i, j, R, flip.dot(K).dot(flip) * Npm


NAMES = {'chain': Chain, 'graphene': Graphene, 'tas2': TaS2}


def create(ctx, name, **kw):
    import importlib
    module = importlib.import_module('elphmod.models.%s' % name)
    return module, module.create(**kw)


@check.family(8, 80)
def reference_models(ctx, i):
    import elphmod
    rng = ctx.rng
    name = sorted(NAMES)[i % 3]
    ref = NAMES[name]()
    kw = {}
    if rng.integers(2):
        kw['rydberg'] = bool(rng.integers(3))
    if rng.integers(2):
        kw['divide_mass'] = bool(rng.integers(2))
    rydberg = kw.get('rydberg', False)
    divide = kw.get('divide_mass', True)
    files = bool(rng.integers(2))
    prefix = ctx.file(name) if files else None
    ctx.note(model=name, reload=files, **kw)
    module, parts = create(ctx, name, prefix=prefix, **kw)
    ctx.equal('number-of-models', len(parts), 4 if name == 'graphene' else 3)
    stages = [('created', parts, 1e-9)]

    if files:
        el = elphmod.el.Model(prefix, rydberg=rydberg)
        ph = elphmod.ph.Model(prefix + '.ifc', divide_mass=divide)
        elph = elphmod.elph.Model(prefix + '.epmatwp', prefix + '.wigner', el,
            ph, divide_mass=divide)
        new = [el, ph, elph]
        if len(parts) > 3:
            new.append(elphmod.elel.Model(Wmat=prefix + '.Wmat'))
        stages.append(('reloaded', new, 1e-9))

    for stage, models, tol in stages:
        el, ph, elph = models[:3]
        ctx.equal(stage + '-sizes', (el.size, ph.size, ph.nat), (ref.norb,
            3 * len(ref.r), len(ref.r)))
        ctx.close(stage + '-cell', ph.a, ref.a, 1e-7)
        ctx.close(stage + '-atoms', ph.r, ref.r, 1e-7, scale=10.0)
        ctx.close(stage + '-masses', np.repeat(ph.M, 3), ref.mass, 1e-8)
        ctx.equal(stage + '-units', (el.rydberg, ph.divide_mass,
            elph.divide_mass), (rydberg, divide, divide))
        for _ in range(3):
            k = rng.uniform(-7, 7, 3)
            q = rng.uniform(-7, 7, 3)
            if rng.integers(4) == 0:
                q = np.round(q / np.pi) * np.pi
            H = ref.H(*k) * (1 if rydberg else Ry)
            # (hopping integrals are stored with six decimals)
            ctx.close(stage + '-electrons', el.H(*k), H,
                1e-9 if stage == 'created' else 2e-5, scale=abs(H).max()
                if stage == 'created' else 1.0 / (Ry if rydberg else 1))
            C = ref.C(*q)
            if divide:
                C = C / np.sqrt(np.outer(ref.mass, ref.mass))
            ctx.close(stage + '-phonons', ph.D(*q), C, 1e-8,
                scale=max(abs(ref.C(np.pi, np.pi / 3)).max() / (ref.mass.min()
                if divide else 1), 1e-12))
            g = ref.g(q, k, divide)
            ctx.close(stage + '-coupling', elph.g(*q, *k), g, 1e-7,
                scale=abs(ref.g((2.1, 1.3), (0.3, 0.9), divide)).max())
            if len(models) > 3:
                ctx.close(stage + '-interaction', models[3].W(*q), ref.U(*q),
                    1e-9 if stage == 'created' else 1e-5, scale=10.0)

    if stages[-1][0] == 'reloaded':
        ctx.seen('reloaded', True)


@check.family(8, 80)
def defining_functions(ctx, i):
    """The functions the models are made from."""
    import importlib
    rng = ctx.rng
    name = sorted(NAMES)[i % 3]
    ref = NAMES[name]()
    module = importlib.import_module('elphmod.models.%s' % name)
    k, q = rng.uniform(-7, 7, (2, 3))
    ctx.note(model=name, k=k.tolist(), q=q.tolist())
    ctx.close('cell', module.at, ref.a, 1e-9)
    ctx.close('hamiltonian', module.hamiltonian(*k), ref.H(*k), 1e-10,
        scale=0.1)
    D = ref.C(*q) / np.sqrt(np.outer(ref.mass, ref.mass))
    ctx.close('dynamical-matrix', module.dynamical_matrix(*q), D, 1e-8,
        scale=abs(ref.C(np.pi, np.pi / 3)).max() / ref.mass.min())
    ctx.close('coupling', module.coupling(*q, *k), ref.g(q, k), 1e-8,
        scale=abs(ref.g((2.1, 1.3), (0.3, 0.9))).max())
    if name == 'graphene':
        ctx.close('interaction', module.coulomb_interaction(*q) * Ry,
            ref.U(*q), 1e-10, scale=10.0)
    # acoustic sum rules:
    gamma = module.dynamical_matrix(0, 0, 0)
    root = np.sqrt(ref.mass)
    for x in range(3):
        mode = np.zeros(len(root))
        mode[x::3] = root[x::3]
        ctx.close('acoustic', gamma.dot(mode), np.zeros(len(root)), 1e-9,
            scale=abs(D).max() * root.max() + 1e-12)
        total = (module.coupling(0, 0, 0, *k) * root[:, None, None])[x::3].sum(
            axis=0)
        ctx.close('acoustic-coupling', total, np.zeros(total.shape), 1e-9,
            scale=abs(ref.g((2.1, 1.3), (0.3, 0.9), False)).max())


@check.family(40, 400)
def groups_of_points(ctx, i):
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    n = int(rng.integers(1, 9))
    eps = float(10 ** rng.uniform(-8, -2))
    if rng.integers(3) == 0:
        eps, kw = 1e-7, {}
    else:
        kw = dict(eps=eps)
    centers = rng.choice(200, n, replace=False)[:, None] * eps * 40 \
        * rng.choice([-1, 1], (n, dim))
    label = np.arange(n)
    label = rng.permutation(np.concatenate([label,
        rng.integers(n, size=int(rng.integers(0, 12)))]))
    points = centers[label] + rng.uniform(-0.4, 0.4, (len(label), dim)) * eps
    # chains of neighbors end up in one group:
    chain = bool(rng.integers(2))
    if chain:
        m = int(rng.integers(2, 7))
        line = np.arange(m)[:, None] * 0.8 * eps * np.ones(dim) - 100 * eps \
            * np.array([1] + [0] * (dim - 1)) - eps * 20000
        points = np.concatenate([points, line])
        label = np.concatenate([label, np.full(m, n)])
        order = rng.permutation(len(points))
        points, label = points[order], label[order]
    # distances of maximum norm
    if dim == 1 and rng.integers(2):
        points = points[:, 0]
    ctx.note(n=n, dim=dim, eps=eps, chain=chain)
    ctx.sig(points)
    before = points.copy()
    got = elphmod.misc.group(points, **kw)
    ctx.equal('unchanged', points, before)
    ctx.equal('partition', sorted(int(x) for g in got for x in g),
        list(range(len(points))))
    ref = {frozenset(map(int, np.flatnonzero(label == x))) for x in label}
    ctx.true('groups', {frozenset(map(int, g)) for g in got} == ref,
        'got %s' % [list(map(int, g)) for g in got])


@check.family(40, 400)
def helpers(ctx, i):
    import elphmod
    rng = ctx.rng
    # vector lookup:
    n = int(rng.integers(1, 20))
    dim = int(rng.integers(1, 4))
    v = rng.integers(-2, 3, (n, dim))
    if rng.integers(2):
        v = v * 0.5
    w = v[rng.integers(n)] if rng.integers(2) else rng.integers(-2, 3, dim)
    where = [j for j in range(n) if tuple(v[j]) == tuple(w)]
    got = elphmod.misc.vector_index(v, tuple(w) if rng.integers(2) else w)
    ctx.true('vector-index', got is None if not where else got == where[0],
        'got %r, expected %r' % (got, where[:1]))

    # extremum of parabola:
    x = rng.uniform(-3, 3, 3) * 10 ** rng.uniform(-1, 1)
    while min(abs(x - np.roll(x, 1))) < 0.05 * np.ptp(x):
        x = rng.uniform(-3, 3, 3)
    c, x0, y0 = rng.normal() + 2 * rng.choice([-1, 1]), rng.normal(), \
        rng.normal()
    y = (c * (x - x0) ** 2 + y0) * 10 ** rng.uniform(-12, 12)
    ctx.sig(x, y, v)
    with contextlib.redirect_stdout(io.StringIO()):
        got = elphmod.misc.minimum(*x, *y)
    ctx.close('extremum', got, x0, 1e-7, scale=1 + np.ptp(x)
        + abs(x0 - x).max() ** 2 / np.ptp(x))
    with contextlib.redirect_stdout(io.StringIO()):
        got = elphmod.misc.minimum(0.0, 1.0, 2.0, *[float(rng.integers(9))] * 3)
    ctx.true('no-extremum', got is None, 'got %r' % got)

    # integration weights:
    x = rng.normal(size=int(rng.integers(2, 20))) if rng.integers(2) else \
        np.sort(rng.normal(size=int(rng.integers(2, 20))))
    y = rng.normal(size=len(x))
    before = x.copy()
    dx = elphmod.misc.differential(x)
    ctx.equal('unchanged', x, before)
    ctx.close('trapezoidal', dx.dot(y), np.sum((y[1:] + y[:-1])
        * np.diff(x)) / 2, 1e-12, scale=10.0)

    # real-space grid:
    shape = tuple(map(int, rng.integers(1, 6, 3)))
    r0, a = rng.normal(size=3), rng.normal(size=(3, 3))
    kw = dict(shared_memory=bool(rng.integers(2))) if rng.integers(2) else {}
    r = elphmod.misc.real_space_grid(shape, r0, a, **kw)
    ctx.equal('grid-shape', r.shape, (*shape, 3))
    # (spanning vectors include both ends, as in XCrySDen format)
    for ijk in itertools.product(*map(range, shape)):
        f = [j / max(m - 1, 1) for j, m in zip(ijk, shape)]
        ctx.close('grid', r[ijk], r0 + np.dot(f, a), 1e-12, scale=10.0)

    # mass division:
    nat = int(rng.integers(1, 4))
    M = rng.uniform(1, 100, nat)
    extra = tuple(map(int, rng.integers(1, 4, int(rng.integers(0, 3)))))
    D = rng.normal(size=(*extra, 3 * nat, 3 * nat))
    E = D.copy()
    elphmod.ph.divide_by_mass(E, M)
    m3 = np.repeat(M, 3)
    ctx.close('mass-division', E * np.sqrt(np.outer(m3, m3)), D, 1e-13,
        scale=10.0)

    # signed square roots:
    w2 = rng.normal(size=tuple(map(int, rng.integers(1, 5,
        int(rng.integers(0, 4)))))) * 10 ** rng.uniform(-8, 4)
    s = elphmod.ph.sgnsqrt(w2)
    ctx.close('signed-root', s * abs(s), w2, 1e-13, scale=abs(w2).max())
    ctx.true('sign', np.all(np.sign(s) == np.sign(w2)), 'wrong sign')
    ctx.equal('root-of-zero', float(elphmod.ph.sgnsqrt(0.0)), 0.0)

    # indices of all atoms in same group:
    # sum rule of Born charges and simple sum rule of force constants:
    Z = rng.normal(size=(nat, 3, 3))
    Z0 = Z.copy()
    elphmod.ph.zasr(Z)
    ctx.close('charge-neutrality', Z.sum(axis=0), np.zeros((3, 3)), 1e-12,
        scale=1.0)
    ctx.close('charge-difference', Z - Z[:1], Z0 - Z0[:1], 1e-12, scale=1.0)
    nr = tuple(map(int, rng.integers(1, 4, 3)))
    phid = rng.normal(size=(nat, nat, *nr, 3, 3)) if False else \
        rng.normal(size=(3, 3, nat, nat, *nr))
    # (index order of force constants: atoms, cells, directions)
    phid = np.ascontiguousarray(np.moveaxis(phid, (0, 1), (-2, -1)))
    old = phid.copy()
    elphmod.ph.asr(phid)
    scale = float(np.prod(nr)) * nat
    ctx.close('simple-sum-rule', phid.sum(axis=(1, 2, 3, 4)),
        np.zeros((nat, 3, 3)), 1e-11, scale=scale)
    for n in range(nat):
        old[n, n, 0, 0, 0] = phid[n, n, 0, 0, 0]
    ctx.equal('only-onsite', phid, old)


@check.family(10, 100)
def progress_bar(ctx, i):
    import elphmod
    rng = ctx.rng
    StatusBar = elphmod.misc.StatusBar
    count = int(rng.integers(0, 200))
    width = int(rng.integers(10, 90))
    inner = int(rng.integers(0, 4))
    verbosity = int(rng.integers(4))
    kw = {} if rng.integers(2) else dict(width=width)
    width = kw.get('width', 60)
    ctx.note(count=count, width=width, inner=inner, verbosity=verbosity)
    ctx.true('idle', not getattr(StatusBar, 'in_progress', False), 'output of first bar is lost')
    old = elphmod.misc.verbosity
    out = io.StringIO()
    try:
        elphmod.misc.verbosity = verbosity
        with contextlib.redirect_stdout(out):
            bar = StatusBar(count, title='outer', **kw)
            for _ in range(count):
                other = StatusBar(inner, title='inner')
                for _ in range(inner):
                    other.update()
                bar.update()
    finally:
        elphmod.misc.verbosity = old
        stuck = getattr(StatusBar, 'in_progress', False)
        StatusBar.in_progress = False
    ctx.true('finished', stuck is False, 'bar still in progress')
    text = out.getvalue()
    if verbosity < 3 or not count:
        ctx.equal('silent', text, '')
        return
    lines = text.split('\n')
    ctx.equal('lines', len(lines), 3)
    ctx.equal('title', lines[0].strip('_'), ' outer ')
    ctx.equal('title-width', len(lines[0]), width)
    ctx.equal('bar', lines[1], '=' * width)


@check.family(1, 1)
def constants(ctx, i):
    import elphmod
    m = elphmod.misc
    if i:
        raise Skip
    ref = dict(Ry=Ry, Ha=2 * Ry, a0=a0, cSI=299792458.0, uRy=u,
        cmm1=1.239841984332e-4, kB=8.617333262145e-5, hbarSI=1.054571817646e-34,
        eVSI=1.602176634e-19, hSI=6.62607015e-34, kBSI=1.380649e-23,
        meSI=9.1093837015e-31, eps0=8.8541878128e-12)
    for name, value in ref.items():
        ctx.close(name, getattr(m, name), value, 1e-9)
    # Rydberg atomic units: hbar = 2 me = e^2 / 2 = 1
    hbar, e = m.hbarSI, m.eVSI
    ctx.close('Bohr radius', m.a0 * 1e-10, 4 * np.pi * m.eps0 * hbar ** 2
        / (m.meSI * e ** 2), 1e-8)
    ctx.close('Rydberg energy', m.Ry * e, m.meSI * e ** 4 / (8 * m.eps0 ** 2
        * m.hSI ** 2), 1e-8)
    ctx.equal('unknown element', m.colors['Xx'], (250, 22, 145))
