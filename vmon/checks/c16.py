"""C16: diagrams."""

import itertools

import numpy as np

from vmon.core import Check, fingerprint
from vmon import models as m
from vmon.checks import c03

check = Check('C16', 'A case is one set of random energies on a mesh with q '
    'points and couplings (bands, degeneracies, distance to Fermi level, '
    'smearing, and temperature vary); distinct by these; non-trivial if there '
    'is more than one state.', boost=24)

SCHEMES = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton',
    'lorentz']
ALIAS = dict(fermi_dirac=['fd', 'fermi-dirac', 'FD'], gauss=['gauss',
    'gaussian'], marzari_vanderbilt=['mv', 'cold'], methfessel_paxton=['mp',
    'm-p'], lorentz=['lorentz'])


class World:
    """Energies on a mesh with reference formulas of the occupations."""

    def __init__(self, rng, limit=16, nbnd=None, schemes=SCHEMES, ndim=None):
        import elphmod
        ndim = int(rng.integers(1, 4)) if ndim is None else ndim
        while True:
            self.nk = tuple(map(int, rng.integers(1, 6, ndim)))
            if np.prod(self.nk) <= limit:
                break
        self.ndim = ndim
        self.nbnd = int(rng.integers(1, 4)) if nbnd is None else nbnd
        self.N = int(np.prod(self.nk))
        kind = int(rng.integers(5))
        e = rng.normal(size=(*self.nk, self.nbnd))
        if kind == 0: # many exact degeneracies
            e = np.round(e * 2) / 2
        elif kind == 1: # degenerate bands throughout
            e = np.round(e, 1)
            e[..., :] = e[..., :1]
        elif kind == 2: # states far from Fermi level
            e *= 10 ** rng.uniform(0, 2, e.shape)
        else:
            e = np.round(e, 2)
        self.e = np.round(e, 6)
        self.kT = float(10 ** rng.uniform(-2, 0))
        self.name = schemes[rng.integers(len(schemes))]
        self.occupations = getattr(elphmod.occupations, self.name) \
            if rng.integers(2) else str(rng.choice(ALIAS[self.name]))
        x = self.e / self.kT
        f, d, p, s = c03.reference(self.name, x, order=1)
        self.f, self.d, self.p = f, d / self.kT, p / self.kT ** 2

    def note(self, ctx, **kwargs):
        ctx.note(e=self.e, kT=self.kT, occupations=self.name, **kwargs)

    def points(self, rng, n):
        """q points (crystal coordinates) and their mesh indices."""
        Q = [tuple(int(rng.integers(x)) for x in self.nk) for _ in range(n)]
        if rng.integers(3) == 0:
            Q = [tuple(0 for _ in self.nk)] * n
        elif rng.integers(3) == 0:
            Q[0] = tuple(0 for _ in self.nk)
        # sometimes outside of the conventional range:
        shift = rng.integers(-2, 3, (n, len(self.nk))) * (rng.integers(3) == 0)
        return [tuple(m.rounded(rng, 2 * np.pi * (np.array(x) / self.nk + y)))
            for x, y in zip(Q, shift)], Q

    def add(self, k, q):
        return tuple((a + b) % c for a, b, c in zip(k, q, self.nk))

    def mesh(self):
        return np.ndindex(self.nk)

    def divided(self, k, n, l, b):
        """Difference quotient of occupations of two states."""
        de = self.e[(*k, n)] - self.e[(*l, b)]
        if abs(de) < 1e-8:
            return -self.d[(*k, n)]
        return (self.f[(*k, n)] - self.f[(*l, b)]) / de

    def divided3(self, *states):
        """Second divided difference of occupations."""
        s = sorted((self.e[x], x) for x in states)
        (ea, a), (eb, b), (ec, c) = s
        if ec - ea < 1e-8:
            return -0.5 * self.p[a]

        def first(x, y):
            return self.divided(x[:-1], x[-1], y[:-1], y[-1])

        return (first(c, b) - first(b, a)) / (ec - ea)

    def coupling(self, rng, *lead, real=False):
        shape = (*lead, *self.nk, self.nbnd, self.nbnd)
        g = rng.normal(size=shape)
        return g if real else g + 1j * rng.normal(size=shape)

    def bound(self):
        """Largest magnitude of difference quotients (error estimate)."""
        return 2 / self.kT


def bubbles(w, q):
    """Difference quotients at all k for pairs of bands [k, m(k+q), n(k)]."""
    X = np.empty((*w.nk, w.nbnd, w.nbnd))
    for k in w.mesh():
        for a in range(w.nbnd):
            for b in range(w.nbnd):
                X[(*k, a, b)] = w.divided(k, b, w.add(k, q), a)
    return X


@check.family(40)
def self_energy(ctx, i):
    """Static phonon self-energy is the defining sum."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng)
    nq, nmodes = map(int, rng.integers(1, 4, 2))
    q, Q = w.points(rng, nq)
    real = bool(rng.integers(2))
    g = w.coupling(rng, nq, nmodes, real=real)
    G = w.coupling(rng, nq, nmodes, real=real)
    g2 = rng.uniform(0, 1, g.shape)
    w.note(ctx, q=Q, nmodes=nmodes)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    if rng.integers(2):
        kwargs['eps'] = 1e-9
    given = fingerprint([w.e, g2, g, G])
    X = [bubbles(w, x) for x in Q]
    axes = tuple(range(-w.ndim - 2, 0))
    total = 2 / w.N * np.array([[np.sum(g2[x, y] * X[x]) for y in
        range(nmodes)] for x in range(nq)])
    scale = w.bound() * w.nbnd ** 2 * 4
    got, got_k = diagrams.phonon_self_energy(q, w.e, g2, fluctuations=True,
        **kwargs)
    ctx.close('vector self-energy', got, total, 1e-8, scale=scale)
    ctx.close('integrand', got_k, np.array([[2 * g2[x, y] * X[x] for y in
        range(nmodes)] for x in range(nq)]), 1e-8, scale=scale)
    ctx.close('average of integrand', got_k.sum(axis=axes) / w.N, got, 1e-10,
        scale=scale)
    ctx.close('without integrand', diagrams.phonon_self_energy(q, w.e, g2,
        **kwargs), got, 1e-12, scale=scale)
    one = diagrams.phonon_self_energy(q, w.e, **kwargs)
    ctx.close('without coupling', one, np.array([[2 / w.N * x.sum()]
        for x in X]), 1e-8, scale=scale)

    def sums(g, G):
        return 2 / w.N * np.array([[[np.sum(g[x, u].conj() * G[x, v] * X[x])
            for v in range(nmodes)] for u in range(nmodes)]
            for x in range(nq)])

    P, P_k = diagrams.phonon_self_energy(q, w.e, g=g, fluctuations=True,
        **kwargs)
    ctx.close('matrix self-energy', P, sums(g, g), 1e-8, scale=4 * scale)
    ctx.close('Hermitian', P, P.conj().swapaxes(1, 2), 1e-9,
        scale=4 * scale)
    ctx.close('average of matrix integrand', P_k.sum(axis=axes) / w.N, P,
        1e-10, scale=4 * scale)
    ctx.close('diagonal is squared coupling', np.einsum('quu->qu', P),
        diagrams.phonon_self_energy(q, w.e, abs(g) ** 2, **kwargs), 1e-9,
        scale=4 * scale)
    D = diagrams.phonon_self_energy(q, w.e, g=g, diagonal=True, **kwargs)
    ctx.close('diagonal only', D, P * np.eye(nmodes), 1e-9, scale=4 * scale)
    two = diagrams.phonon_self_energy(q, w.e, g=g, G=G, symmetrize=False,
        **kwargs)
    ctx.close('two couplings', two, sums(g, G), 1e-8, scale=4 * scale)
    sym = diagrams.phonon_self_energy(q, w.e, g=g, G=G, **kwargs)
    ctx.close('symmetrized couplings', sym, (sums(g, G) + sums(G, g)) / 2,
        1e-8, scale=4 * scale)
    ctx.close('exchange of vertices', diagrams.phonon_self_energy(q, w.e, g=G,
        G=g, **kwargs), sym, 1e-9, scale=4 * scale)
    ctx.equal('arguments unchanged', fingerprint([w.e, g2, g, G]), given)
    # joint translations of mesh and relabelling of bands
    e, h = w.e, g2
    for axis in range(w.ndim):
        s = int(rng.integers(w.nk[axis]))
        e = np.roll(e, s, axis=axis)
        h = np.roll(h, s, axis=2 + axis)
    order = rng.permutation(w.nbnd)
    ctx.close('translated mesh', diagrams.phonon_self_energy(q, e, h,
        **kwargs), got, 1e-9, scale=scale)
    ctx.close('relabelled bands', diagrams.phonon_self_energy(q,
        e[..., order], h[..., order, :][..., order], **kwargs), got, 1e-9,
        scale=scale)
    ctx.close('one q point at a time', [diagrams.phonon_self_energy(q[x:x
        + 1], w.e, g2[x:x + 1], **kwargs)[0] for x in range(nq)], got, 1e-12,
        scale=scale)
    # contact interaction between bands
    if w.nbnd < 3 or i % 2:
        U = rng.normal(size=(w.nbnd, w.nbnd)) if rng.integers(2) else float(
            rng.normal() if rng.integers(4) else rng.choice([-1, 0, 1, 2]))
        chi = [2 / w.N * x.sum(axis=tuple(range(w.ndim))) for x in X]
        worst = min(abs(1 - c * U).min() for c in chi)
        if worst > 1e-2:
            ref = sums(g, g).astype(complex)
            mag = 0
            for x in range(nq):
                W = U / (1 - chi[x] * U)
                L = 2 / w.N * np.array([(g[x, u].conj() * X[x]).sum(
                    axis=tuple(range(w.ndim))) for u in range(nmodes)])
                R = 2 / w.N * np.array([(g[x, u] * X[x]).sum(
                    axis=tuple(range(w.ndim))) for u in range(nmodes)])
                add = np.einsum('umn,mn,vmn->uv', L, W * np.ones((w.nbnd,
                    w.nbnd)), R)
                ref[x] += add
                mag = max(mag, abs(add).max())
            ctx.close('contact interaction', diagrams.phonon_self_energy(q,
                w.e, g=g, U=U, **kwargs), ref, 1e-7, scale=4 * scale
                + mag / worst)
        ctx.close('contact interaction without coupling', diagrams
            .phonon_self_energy(q, w.e, g2, U=U, **kwargs), got, 1e-12,
            scale=scale)


@check.family(30)
def dynamic(ctx, i):
    """Dynamic phonon self-energy."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng, limit=12)
    nq, nmodes = map(int, rng.integers(1, 3, 2))
    q, Q = w.points(rng, nq)
    g = w.coupling(rng, nq, nmodes)
    g2 = abs(g) ** 2
    shape = [(), (1,), (4,), (2, 3)][rng.integers(4)]
    eta = 10 ** rng.uniform(-2, 0)
    omega = rng.normal(size=shape) + 1j * eta
    w.note(ctx, q=Q, nmodes=nmodes, omega=omega)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    X = np.empty((nq, *shape, *w.nk, w.nbnd, w.nbnd), dtype=complex)
    for x in range(nq):
        for o in np.ndindex(shape):
            for k in w.mesh():
                l = w.add(k, Q[x])
                for a in range(w.nbnd):
                    for b in range(w.nbnd):
                        X[(x, *o, *k, a, b)] = (w.f[(*k, b)] - w.f[(*l, a)]) \
                            / (w.e[(*k, b)] - w.e[(*l, a)] + omega[o])
    scale = 4 / eta * w.nbnd ** 2
    axes = tuple(range(-w.ndim - 2, 0))
    lead = (slice(None),) * 2 + (np.newaxis,) * len(shape)
    ref = 2 * g2[lead] * X[:, np.newaxis]
    got, got_k = diagrams.phonon_self_energy(q, w.e, g2, omega=omega,
        fluctuations=True, **kwargs)
    ctx.close('integrand', got_k, ref, 1e-9, scale=scale)
    ctx.close('vector self-energy', got, ref.sum(axis=axes) / w.N, 1e-9,
        scale=scale)
    lead = (slice(None),) * 3 + (np.newaxis,) * len(shape)
    gG = g.conj()[:, :, np.newaxis] * g[:, np.newaxis]
    ref = 2 * gG[lead] * X[:, np.newaxis, np.newaxis]
    P = diagrams.phonon_self_energy(q, w.e, g=g, omega=omega, **kwargs)
    ctx.close('matrix self-energy', P, ref.sum(axis=axes) / w.N, 1e-9,
        scale=scale)
    conj = diagrams.phonon_self_energy(q, w.e, g=g, omega=omega.conj(),
        **kwargs)
    ctx.close('conjugate frequency', conj, P.conj().swapaxes(1, 2), 1e-9,
        scale=scale)
    U = float(rng.normal())
    chi = 2 / w.N * X.sum(axis=tuple(range(-w.ndim - 2, -2)))
    if abs(1 - U * chi).min() > 1e-2:
        W = U / (1 - U * chi)
        inner = tuple(range(-w.ndim - 2, -2))
        L = 2 / w.N * (g.conj()[(slice(None),) * 2 + (np.newaxis,)
            * len(shape)] * X[:, np.newaxis]).sum(axis=inner)
        R = 2 / w.N * (g[(slice(None),) * 2 + (np.newaxis,)
            * len(shape)] * X[:, np.newaxis]).sum(axis=inner)
        ref = ref.sum(axis=axes) / w.N + np.einsum('qu...mn,q...mn,qv...mn->'
            'quv...', L, W, R)
        ctx.close('contact interaction', diagrams.phonon_self_energy(q, w.e,
            g=g, omega=omega, U=U, **kwargs), ref, 1e-8, scale=scale
            + abs(ref).max() * 100)
    # static limit for small (real) frequencies, no degenerate states
    diff = [abs(w.e[(*k, b)] - w.e[(*w.add(k, Q[x]), a)]) for x in range(nq)
        for k in w.mesh() for a in range(w.nbnd) for b in range(w.nbnd)]
    if min(diff) > 1e-3:
        ctx.close('static limit', diagrams.phonon_self_energy(q, w.e, g2,
            omega=1e-9j, **kwargs).real, diagrams.phonon_self_energy(q, w.e,
            g2, **kwargs), 1e-5, scale=scale)
    # lists of frequencies including zero
    omega = np.append(np.ravel(omega)[:2], np.zeros(int(rng.integers(1, 3))))
    omega = rng.permutation(omega) if rng.integers(3) else np.zeros(int(
        rng.integers(1, 3)))
    order = {} if rng.integers(2) else dict(Delta=0.1)
    for name, x in [('vector', dict(g2=g2)), ('matrix', dict(g=g))]:
        got = diagrams.phonon_self_energy(q, w.e, omega=omega, **x, **order,
            **kwargs)
        for o in range(len(omega)):
            ctx.close(name + ' self-energy for one of several frequencies',
                got[..., o], diagrams.phonon_self_energy(q, w.e,
                omega=omega[o] if omega[o] else 0.0, **x, **order, **kwargs),
                1e-11, scale=scale + 4 / w.kT * w.nbnd ** 2)


@check.family(30)
def window(ctx, i):
    """Excluded energy window around Fermi level."""
    from elphmod import diagrams, occupations
    rng = ctx.rng
    w = World(rng, limit=9)
    nq, nmodes = map(int, rng.integers(1, 3, 2))
    q, Q = w.points(rng, nq)
    g2 = rng.uniform(0, 1, (nq, nmodes, *w.nk, w.nbnd, w.nbnd))
    Delta, kT = rng.uniform(0, 1), rng.uniform(0.02, 0.5)
    name = SCHEMES[rng.integers(2)]
    w.note(ctx, q=Q, Delta=Delta, Delta_kT=kT, Delta_occupations=name)
    kwargs = dict(kT=w.kT, occupations=w.occupations, Delta_kT=kT,
        Delta_occupations=getattr(occupations, name))

    def envelope(Delta):
        # one minus smooth box function
        return 1 - (c03.reference(name, (w.e - Delta) / kT, order=1)[0]
            - c03.reference(name, (w.e + Delta) / kT, order=1)[0])

    def product(T, S, x):
        P = np.empty((*w.nk, w.nbnd, w.nbnd))
        for k in w.mesh():
            P[k] = np.outer(T[w.add(k, Q[x])], S[k])
        return P

    T = envelope(Delta)
    h = 1e-4
    dT = (8 * envelope(Delta + h) - 8 * envelope(Delta - h)
        - envelope(Delta + 2 * h) + envelope(Delta - 2 * h)) / (12 * h)
    ref, der = [], []
    for x in range(nq):
        X = bubbles(w, Q[x])
        for y in range(nmodes):
            ref.append(2 / w.N * np.sum(g2[x, y] * X * product(T, T, x)))
            der.append(2 / w.N * np.sum(g2[x, y] * X * (product(dT, T, x)
                + product(T, dT, x))))
    scale = w.bound() * w.nbnd ** 2
    got = diagrams.phonon_self_energy(q, w.e, g2, Delta=Delta, **kwargs)
    ctx.close('self-energy', got, np.reshape(ref, (nq, nmodes)), 1e-8,
        scale=scale)
    got = diagrams.phonon_self_energy(q, w.e, g2, Delta=Delta,
        Delta_diff=True, **kwargs)
    ctx.close('derivative with respect to window', got, np.reshape(der, (nq,
        nmodes)), 1e-6, scale=scale / kT)


@check.family(40)
def thermodynamics(ctx, i):
    """Derivatives of the grand potential and of the free energy."""
    import elphmod
    from elphmod import diagrams
    rng = ctx.rng
    schemes = [x for x in SCHEMES if x != 'lorentz']
    w = World(rng, limit=8, schemes=schemes)
    w.kT = float(10 ** rng.uniform(-0.7, 0.3))
    n = w.nbnd
    H = np.zeros((*w.nk, n, n), dtype=complex)
    V = w.coupling(rng, 2)
    V = V + V.conj().swapaxes(-1, -2)
    if i % 2: # arbitrary basis
        H = w.coupling(rng)
        H = H + H.conj().swapaxes(-1, -2)
        e, U = np.linalg.eigh(H)
    else: # exactly diagonal with degeneracies
        e = np.clip(w.e, -20, 20)
        for b in range(n):
            H[..., b, b] = e[..., b]
        U = np.zeros_like(H) + np.eye(n)
    ctx.note(e=e, kT=w.kT, occupations=w.name)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    g = np.einsum('...am,x...ab,...bn->x...mn', U.conj(), V, U)

    def omega(e):
        x = e / w.kT
        f, d, p, s = c03.reference(w.name, x, order=1)
        return 2 * w.kT / w.N * np.sum(f * x - s)

    ctx.close('grand potential', diagrams.grand_potential(e, **kwargs),
        omega(e), 1e-9, scale=abs(e).sum() + w.kT)

    def at(*c):
        return omega(np.linalg.eigvalsh(H + np.einsum('x,x...->...', c, V)))

    big = max(1.0, abs(V).max() * n)
    h = 2e-3 * w.kT / big
    F1 = [big * (8 * (at(*h * y) - at(*-h * y)) - at(*2 * h * y)
        + at(*-2 * h * y)) / (12 * h) / big for y in np.eye(2)]
    first = diagrams.first_order(e, g, **kwargs)
    ctx.close('first order is derivative', first, F1, 1e-5, scale=big * n)
    ctx.close('first order in orbital basis', diagrams.first_order(e, V, U=U,
        **kwargs), first, 1e-9, scale=big * n)
    P = diagrams.phonon_self_energy([(0.0,) * w.ndim], e, g=g[np.newaxis],
        **kwargs)[0]

    def grad(*c):
        E, S = np.linalg.eigh(H + np.einsum('x,x...->...', c, V))
        f = c03.reference(w.name, E / w.kT, order=1)[0]
        rho = np.einsum('...am,...m,...bm->...ab', S, f, S.conj())
        return 2 / w.N * np.array([np.sum(rho * v.swapaxes(-1, -2)).real
            for v in V])

    h = 0.01 * w.kT / big
    scale = big ** 2 * n / w.kT
    for x, y in enumerate(np.eye(2)):
        F2 = (8 * (grad(*h * y) - grad(*-h * y)) - grad(*2 * h * y)
            + grad(*-2 * h * y)) / (12 * h)
        ctx.close('self-energy is second derivative', P[x].real, F2, 1e-5,
            scale=scale)
    # third order
    T = diagrams.triangle((0.0,) * w.ndim, (0.0,) * w.ndim, e, g[0], g[0],
        g[1], **kwargs)

    def hess(*c):
        E, S = np.linalg.eigh(H + np.einsum('x,x...->...', c, V))
        v = np.einsum('...am,...ab,...bn->...mn', S.conj(), V[0], S)
        return 2 / w.N * np.sum(abs(v) ** 2 * quotient(w, E))

    y = np.array([0, 1])
    F3 = (8 * (hess(*h * y) - hess(*-h * y)) - hess(*2 * h * y)
        + hess(*-2 * h * y)) / (12 * h)
    ctx.close('triangle is third derivative', T.real, F3, 1e-4,
        scale=big ** 3 * n / w.kT ** 2)
    # change of chemical potential: free energy at fixed particle number
    f, d, _, _ = c03.reference(w.name, e / w.kT, order=1)
    d = d / w.kT
    shift = diagrams.phonon_self_energy_fermi_shift(e, g, **kwargs)
    vn = np.array([np.sum(np.einsum('...nn->...n', v).real * d) for v in g])
    dos = d.sum()
    if abs(dos) > 1e-10:
        ctx.close('shift of chemical potential', shift, 2 / w.N
            * np.outer(vn, vn) / dos, 1e-9, scale=scale + abs(vn).max() ** 2
            / abs(dos))
    else:
        ctx.finite('shift of chemical potential', shift)
    # states far away from the Fermi level
    far = e + rng.choice([-1e3, 1e3]) * max(w.kT, 1)
    far[..., 0] *= rng.choice([-1, 1])
    ctx.close('grand potential of far states', diagrams.grand_potential(far,
        **kwargs), 2 * np.minimum(far, 0).sum() / w.N, 1e-9,
        scale=abs(far).sum())
    shift = diagrams.phonon_self_energy_fermi_shift(far, g, **kwargs)
    ctx.close('no shift without states at the Fermi level', shift,
        np.zeros_like(shift), atol=1e-9 * scale)
    P = diagrams.phonon_self_energy([(0.0,) * w.ndim], far, g=g[np.newaxis],
        **kwargs)
    ctx.finite('self-energy of far states', P)
    ctx.finite('triangle of far states', diagrams.triangle((0.0,) * w.ndim,
        (0.0,) * w.ndim, far, g[0], g[0], g[1], **kwargs))


def quotient(w, E):
    """Difference quotients for energies in last axis."""
    f, d, _, _ = c03.reference(w.name, E / w.kT, order=1)
    de = E[..., :, None] - E[..., None, :]
    near = abs(de) < 1e-5 * w.kT
    mean = (E[..., :, None] + E[..., None, :]) / 2
    slope = -c03.reference(w.name, mean / w.kT, order=1)[1] / w.kT
    return np.where(near, slope, (f[..., :, None] - f[..., None, :])
        / np.where(near, 1, de))


@check.family(30)
def superlattice(ctx, i):
    """Self-energy at finite q is second derivative for modulated potential."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng, limit=8, schemes=SCHEMES)
    w.kT = float(10 ** rng.uniform(-0.7, 0.3))
    q, Q = w.points(rng, 1)
    q, Q = q[0], Q[0]
    n, N = w.nbnd, w.N
    e = np.clip(w.e, -20, 20)
    g = w.coupling(rng)
    ctx.note(e=e, kT=w.kT, occupations=w.name, Q=Q)
    mesh = list(w.mesh())
    index = {k: x for x, k in enumerate(mesh)}
    H = np.diag(e.reshape(-1)).astype(complex)
    V = np.zeros_like(H)
    for k in mesh:
        l = index[w.add(k, Q)] * n
        V[l:l + n, index[k] * n:index[k] * n + n] += g[k]
    # d/dz* dz of grand potential for z V + (z V)^dagger
    def grad(z):
        E, S = np.linalg.eigh(H + z * V + (z * V).conj().T)
        f = c03.reference(w.name, E / w.kT, order=1)[0]
        return 2 / N * np.einsum('am,m,bm,ba', S, f, S.conj(), V)

    big = max(1.0, abs(g).max() * n)
    h = 0.01 * w.kT / big

    def diff(z):
        return (8 * (grad(h * z) - grad(-h * z)) - grad(2 * h * z)
            + grad(-2 * h * z)) / (12 * h)

    # dOmega/dz = tr f V; Wirtinger derivative by z*
    ref = (diff(1) + 1j * diff(1j)) / 2
    P = diagrams.phonon_self_energy([q], e, g=g[np.newaxis, np.newaxis],
        kT=w.kT, occupations=w.occupations)[0, 0, 0]
    ctx.close('self-energy is second derivative', P, ref, 1e-5,
        scale=big ** 2 * n / w.kT)
    P2 = diagrams.phonon_self_energy([q], e, abs(g)[np.newaxis, np.newaxis]
        ** 2, kT=w.kT, occupations=w.occupations)[0, 0]
    ctx.close('from squared coupling', P2, ref.real, 1e-5, scale=big ** 2 * n
        / w.kT)


@check.family(30)
def triangles(ctx, i):
    """Third-order diagram is the defining sum."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng, limit=12, nbnd=int(rng.integers(1, 3)))
    (q, p), (Q, P) = w.points(rng, 2)
    if rng.integers(3) == 0:
        p, P = q, Q
    gq, gQ, gqQ = w.coupling(rng, 3)
    w.note(ctx, q=Q, Q=P)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    ref = np.empty((*w.nk, w.nbnd, w.nbnd, w.nbnd), dtype=complex)
    for k in w.mesh():
        kq, kQ = w.add(k, Q), w.add(k, P)
        for a, b, c in np.ndindex(ref.shape[-3:]):
            ref[(*k, a, b, c)] = 4 * w.divided3((*k, a), (*kq, b),
                (*kQ, c)) * gq[(*k, b, a)].conj() * gQ[(*k, c, a)] \
                * gqQ[(*kQ, b, c)]
    dmin = min([1.0] + [x for k in w.mesh() for x in abs(np.subtract.outer(
        w.e[w.add(k, Q)], w.e[k])).ravel() if x > 1e-8])
    tol = 1e-12 * max(1e3, 1e2 / (w.kT * dmin))
    scale = 100 / w.kT ** 2
    before = fingerprint([w.e, gq, gQ, gqQ])
    chi, chi_k = diagrams.triangle(q, p, w.e, gq, gQ, gqQ, fluctuations=True,
        **kwargs)
    ctx.close('integrand', chi_k, ref, max(tol, 1e-7), scale=scale)
    ctx.close('triangle', chi, ref.sum() / w.N, max(tol, 1e-7),
        scale=scale * w.nbnd ** 3)
    ctx.close('average of integrand', chi_k.sum() / w.N, chi, 1e-10,
        scale=scale * w.nbnd ** 3)
    ctx.close('without integrand', diagrams.triangle(q, p, w.e, gq, gQ, gqQ,
        **kwargs), chi, 1e-12, scale=scale)
    ctx.equal('arguments unchanged', fingerprint([w.e, gq, gQ, gqQ]), before)
    e, A = w.e, [gq, gQ, gqQ]
    for axis in range(w.ndim):
        s = int(rng.integers(w.nk[axis]))
        e = np.roll(e, s, axis=axis)
        A = [np.roll(g, s, axis=axis) for g in A]
    o = rng.permutation(w.nbnd)
    A = [g[..., o, :][..., o] for g in A]
    ctx.close('translated mesh and relabelled bands', diagrams.triangle(q, p,
        e[..., o], *A, **kwargs), chi, max(tol, 1e-7), scale=scale)


@check.family(30)
def response(ctx, i):
    """Susceptibility and polarization."""
    from elphmod import diagrams
    rng = ctx.rng
    # single band in two dimensions
    n = int(rng.integers(1, 7))
    w = World(rng, nbnd=1)
    while w.ndim != 2 or w.nk[0] != w.nk[1]:
        w = World(rng, nbnd=1, limit=36)
    n, e = w.nk[0], w.e[..., 0]
    w.note(ctx)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    eta = float(rng.choice([1e-10, 1e-3, 0.2]))
    chi = diagrams.susceptibility(e, eta=eta, **kwargs)
    bare = diagrams.susceptibility(e, **kwargs)
    for Q in [(0, 0)] + [tuple(map(int, rng.integers(n, size=2)))
            for _ in range(3)]:
        q = list(m.rounded(rng, 2 * np.pi * np.array(Q) / n))
        if any(Q):
            ref = 0
            for k in w.mesh():
                l = w.add(k, Q)
                de = e[l] - e[k]
                if de:
                    ref += ((w.f[(*l, 0)] - w.f[(*k, 0)]) / (de + 1j
                        * eta)).real
        else:
            ref = -w.d.sum()
        ctx.close('susceptibility', chi(*q), 2 / w.N * ref, 1e-8,
            scale=w.bound())
        ctx.close('inversion', chi(*[-x for x in q]), chi(*q), 1e-9,
            scale=w.bound())
        ctx.close('periodic', chi(*[x + 2 * np.pi for x in q]), chi(*q),
            1e-12, scale=w.bound())
        shift = [int(x) for x in rng.integers(n, size=2)]
        moved = diagrams.susceptibility(np.roll(e, shift, axis=(0, 1)),
            eta=eta, **kwargs)
        ctx.close('translated mesh', moved(*q), chi(*q), 1e-9,
            scale=w.bound())
    # polarization
    w = World(rng, limit=12)
    norb = w.nbnd + int(rng.integers(0, 2))
    U = rng.normal(size=(*w.nk, norb, norb)) + 1j * rng.normal(size=(*w.nk,
        norb, norb))
    U = np.linalg.qr(U)[0][..., :w.nbnd]
    sub = rng.integers(2, size=w.e.shape).astype(bool)
    if rng.integers(2):
        sub[...] = rng.integers(2, size=w.nbnd).astype(bool)
    w.note(ctx, norb=norb, subspace=sub)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    before = fingerprint([w.e, U, sub])
    full = diagrams.polarization(w.e, U, **kwargs)
    part = diagrams.polarization(w.e, U, subspace=sub, **kwargs)
    empty = diagrams.polarization(w.e, U, subspace=np.zeros_like(sub),
        **kwargs)
    all_ = diagrams.polarization(w.e, U, subspace=np.ones_like(sub), **kwargs)
    scale = w.bound() * w.nbnd
    first = None
    for q, Q in zip(*w.points(rng, 3)):
        ref, red = np.zeros((2, norb, norb), dtype=complex)
        X = bubbles(w, Q)
        for k in w.mesh():
            l = w.add(k, Q)
            for a in range(w.nbnd):
                for b in range(w.nbnd):
                    u = U[l][:, a] * U[k][:, b].conj()
                    P = 2 / w.N * X[(*k, a, b)] * np.outer(u, u.conj())
                    ref += P
                    if not (sub[(*l, a)] and sub[(*k, b)]):
                        red += P
        got = full(*q)
        ctx.close('polarization', got, ref, 1e-8, scale=scale)
        ctx.close('Hermitian', got, got.conj().T, 1e-9, scale=scale)
        cut = part(*q)
        ctx.close('constrained polarization', cut, red, 1e-8, scale=scale)
        ctx.close('empty subspace', empty(*q), got, 1e-12, scale=scale)
        ctx.close('complete subspace', all_(*q), 0 * got, atol=1e-12)
        ctx.close('closures independent', full(*q), got, 0, atol=1e-14
            * scale)
        if first is None:
            first = (q, got.copy(), got)
        for b in range(w.nbnd):
            if b == 0 and np.all(sub == sub[(0,) * w.ndim]):
                s = sub[(0,) * w.ndim]
                only = diagrams.polarization(w.e[..., s], U[..., s],
                    **kwargs)(*q) if s.any() else 0 * got
                ctx.close('additive over excluded subspace', cut + only, got,
                    1e-9, scale=scale)
    ctx.equal('earlier result kept', first[1], first[2])
    ctx.equal('arguments unchanged', fingerprint([w.e, U, sub]), before)


@check.family(16)
def matsubara(ctx, i):
    """Frequency sums converge to the occupations."""
    from elphmod import diagrams
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    e = rng.normal(size=(n, n)) * 0.3
    if rng.integers(2):
        e = np.round(e, 1)
    kT = float(rng.uniform(0.1, 0.4))
    nmats = int(rng.integers(100, 200))
    ctx.note(e=e, kT=kT, nmats=nmats)
    f = 1 / (np.exp(e / kT) + 1)
    # remainder of the sum over frequencies
    tail = 4 / (np.pi * (2 * np.pi * kT * nmats) ** 3 / 2) * 3 \
        * abs(e).max() ** 2 * kT * 4
    chi = diagrams.susceptibility2(e, kT=kT, nmats=nmats)
    q = []
    g2 = rng.uniform(0, 1, (4, 2, n, n))
    ref2 = np.zeros((4, 2))
    for x in range(4):
        Q = rng.integers(n, size=2) * (x > 0)
        q.append(m.rounded(rng, 2 * np.pi * Q / n))
        E = np.roll(e, -Q, axis=(0, 1))
        F = np.roll(f, -Q, axis=(0, 1))
        near = abs(E - e) < 1e-8
        X = np.where(near, -f * (1 - f) / kT, (F - f) / np.where(near, 1,
            E - e))
        ctx.close('susceptibility', chi(*q[-1]).real, 2 / n ** 2 * X.sum(),
            atol=tail + 1e-9)
        ref2[x] = 2 / n ** 2 * (g2[x] * X).sum(axis=(1, 2))
    Pi = diagrams.phonon_self_energy2(np.array(q), e, g2, kT=kT, nmats=nmats)
    ctx.close('phonon self-energy', Pi, ref2, atol=tail + 1e-9)
    # hybridization
    V, D = rng.uniform(0.1, 1, 2)
    nu = (2 * np.arange(nmats) + 1) * np.pi * kT
    S = -2j * V * np.arctan(2 * D / nu)
    rest = 4 * kT * np.sum(1 / nu ** 2) - 1 / (2 * kT)
    for x in range(4):
        Q = np.round(q[x] * n / (2 * np.pi)).astype(int)
        E = np.roll(e, -Q, axis=(0, 1))
        A = 4 * kT * np.sum((1 / (1j * nu[:, None, None] - e - S[:, None,
            None]) / (1j * nu[:, None, None] - E - S[:, None, None])).real,
            axis=0)
        ctx.close('hybridization', diagrams.susceptibility2(e, kT=kT,
            nmats=nmats, hyb_width=D, hyb_height=V)(*q[x]).real,
            A.sum() / n ** 2 + rest, 1e-9, scale=1 / kT)
        ref2[x] = (g2[x] * (A + rest)).sum(axis=(1, 2)) / n ** 2
    ctx.close('self-energy with hybridization', diagrams.phonon_self_energy2(
        np.array(q), e, g2, kT=kT, nmats=nmats, hyb_width=D, hyb_height=V),
        ref2, 1e-9, scale=1 / kT)


@check.family(30)
def screening(ctx, i):
    """Coupling renormalized by Coulomb interaction."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng, limit=9, nbnd=int(rng.integers(1, 3)))
    nq, nmodes = map(int, rng.integers(1, 3, 2))
    norb = w.nbnd + int(rng.integers(0, 2))
    q, Q = w.points(rng, nq)
    U = rng.normal(size=(*w.nk, norb, norb)) + 1j * rng.normal(size=(*w.nk,
        norb, norb))
    U = np.linalg.qr(U)[0][..., :w.nbnd]
    go = rng.normal(size=(nq, nmodes, *w.nk, norb, norb)) + 1j * rng.normal(
        size=(nq, nmodes, *w.nk, norb, norb))
    dd = bool(rng.integers(2))
    shape = (nq,) + (norb,) * (2 if dd else 4)
    W = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    sub = int(rng.integers(1, w.nbnd + 1))
    w.note(ctx, q=Q, norb=norb, dd=dd, nmodes=nmodes, nbnd_sub=sub)
    kwargs = dict(kT=w.kT, occupations=w.occupations, status=False)
    gb = np.empty((nq, nmodes, *w.nk, w.nbnd, w.nbnd), dtype=complex)
    for x in range(nq):
        for k in w.mesh():
            gb[(x, slice(None), *k)] = np.einsum('am,uab,bn->umn',
                U[w.add(k, Q[x])].conj(), go[(x, slice(None), *k)], U[k])
    Wf = W
    if dd: # density-density: W_abcd = W_ac for a = b, c = d
        Wf = np.zeros((nq,) + (norb,) * 4, dtype=complex)
        for a in range(norb):
            for c in range(norb):
                Wf[:, a, a, c, c] = W[:, a, c]
    before = fingerprint([w.e, U, go, gb, W])

    def pig(x, sub):
        P = np.zeros((nmodes, norb, norb), dtype=complex)
        X = bubbles(w, Q[x])
        for k in w.mesh():
            l = w.add(k, Q[x])
            for a in range(sub):
                for b in range(sub):
                    P += 2 / w.N * X[(*k, a, b)] * np.einsum('c,d,u->ucd',
                        U[l][:, a], U[k][:, b].conj(), gb[(x, slice(None),
                        *k, a, b)])
        return P

    scale = w.bound() * 40 * w.nbnd ** 2 * norb ** 2
    P = np.array([pig(x, w.nbnd) for x in range(nq)])
    got = diagrams.Pi_g(q, w.e, go, U, dd=dd, **kwargs)
    ctx.close('bubble with coupling', got, np.einsum('qucc->quc', P) if dd
        else P, 1e-9, scale=scale)
    dg = np.einsum('qabcd,qucd->quab', Wf, P)
    lead = (slice(None),) * 2 + (np.newaxis,) * w.ndim
    ref = go + dg[lead]
    orbital = diagrams.renormalize_coupling_orbital(q, w.e, go, W, U,
        **kwargs)
    ctx.close('orbital basis', orbital, ref, 1e-9, scale=scale)
    band = diagrams.renormalize_coupling_band(q, w.e, gb, W, U, **kwargs)
    for x in range(nq):
        for k in w.mesh():
            ctx.close('band basis is rotated orbital basis', band[(x, slice(
                None), *k)], np.einsum('am,uab,bn->umn', U[w.add(k, Q[x])]
                .conj(), ref[(x, slice(None), *k)], U[k]), 1e-9, scale=scale)
    P = np.array([pig(x, sub) for x in range(nq)])
    dg = np.einsum('qabcd,qucd->quab', Wf, P)
    band = diagrams.renormalize_coupling_band(q, w.e, gb, W, U, nbnd_sub=sub,
        **kwargs)
    for x in range(nq):
        for k in w.mesh():
            ctx.close('screening by some bands', band[(x, slice(None), *k)],
                gb[(x, slice(None), *k)] + np.einsum('am,uab,bn->umn',
                U[w.add(k, Q[x])].conj(), dg[x], U[k]), 1e-9, scale=scale)
    ctx.equal('arguments unchanged', fingerprint([w.e, U, go, gb, W]), before)
    # polarization is the same bubble for unit couplings
    if dd:
        a = int(rng.integers(norb))
        unit = np.zeros((nq, 1, *w.nk, norb, norb))
        unit[..., a, a] = 1
        col = diagrams.Pi_g(q, w.e, unit, U, dd=True, **kwargs)
        pol = diagrams.polarization(w.e, U, kT=w.kT,
            occupations=w.occupations)
        for x in range(nq):
            ctx.close('consistent with polarization', col[x, 0],
                pol(*q[x])[:, a], 1e-9, scale=scale)


@check.family(30)
def averages(ctx, i):
    """Double Fermi-surface averages."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng)
    nq, nmodes = map(int, rng.integers(1, 4, 2))
    q, Q = w.points(rng, nq)
    g2 = rng.uniform(0, 1, (nq, nmodes, *w.nk, w.nbnd, w.nbnd))
    if rng.integers(3) == 0:
        g2 = g2 + 1j * rng.normal(size=g2.shape)
    w.note(ctx, q=Q, nmodes=nmodes)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    before = fingerprint([w.e, g2])
    A = np.zeros((nq, nmodes), dtype=complex)
    B = np.zeros(nq)
    for x in range(nq):
        for k in w.mesh():
            D = np.outer(w.d[w.add(k, Q[x])], w.d[k])
            A[x] += (g2[(x, slice(None), *k)] * D).sum(axis=(1, 2))
            B[x] += D.sum()
    scale = w.N * w.nbnd ** 2 / w.kT ** 2
    a, b = diagrams.double_fermi_surface_average(q, w.e, g2, **kwargs)
    ctx.close('enumerator', a, A, 1e-11, scale=scale)
    ctx.close('denominator', b, B, 1e-11, scale=scale)
    a, b = diagrams.double_fermi_surface_average(q, w.e, **kwargs)
    ctx.close('without coupling', a, B[:, None], 1e-11, scale=scale)
    ctx.equal('arguments unchanged', fingerprint([w.e, g2]), before)
    e, h = w.e, g2
    for axis in range(w.ndim):
        s = int(rng.integers(w.nk[axis]))
        e = np.roll(e, s, axis=axis)
        h = np.roll(h, s, axis=2 + axis)
    o = rng.permutation(w.nbnd)
    a, b = diagrams.double_fermi_surface_average(q, e[..., o],
        h[..., o, :][..., o], **kwargs)
    ctx.close('translated mesh and relabelled bands', a, A, 1e-11,
        scale=scale)


@check.family(20)
def electrons(ctx, i):
    """Electron self-energy and conductivity."""
    from elphmod import diagrams
    rng = ctx.rng
    w = World(rng, limit=12, nbnd=int(rng.integers(1, 3)))
    nK, nmodes = map(int, rng.integers(1, 3, 2))
    K, X = w.points(rng, nK)
    ph = rng.uniform(0.01, 0.3, (*w.nk, nmodes))
    g2 = rng.uniform(0, 1, (*w.nk, nmodes, nK, w.nbnd, w.nbnd))
    eta = 10 ** rng.uniform(-2, 0)
    omega = rng.normal(size=int(rng.integers(1, 5))) + 1j * eta
    w.note(ctx, k=X, omega=omega)
    kwargs = dict(kT=w.kT, occupations=w.occupations)
    before = fingerprint([w.e, ph, g2, omega])
    ref = np.zeros((nK, w.nbnd, len(omega)), dtype=complex)
    B = 1 / np.expm1(ph / w.kT)
    for x in range(nK):
        for q in w.mesh():
            l = w.add(q, X[x])
            for a, b, nu in np.ndindex(w.nbnd, w.nbnd, nmodes):
                e, f = w.e[(*l, a)], w.f[(*l, a)]
                ref[x, b] += g2[(*q, nu, x, a, b)] / w.N * (
                    (f + B[(*q, nu)]) / (omega - e + ph[(*q, nu)])
                    + (1 - f + B[(*q, nu)]) / (omega - e - ph[(*q, nu)]))
    scale = nmodes * w.nbnd * (B.max() + 1) / eta
    S = diagrams.fan_migdal_self_energy(K, w.e, ph, g2, omega, **kwargs)
    ctx.close('Fan-Migdal self-energy', S, ref, 1e-10, scale=scale)
    if w.name in ('fermi_dirac', 'gauss', 'lorentz'):
        ctx.true('causal', np.all(S.imag <= 1e-10 * scale))
    ctx.close('conjugate frequency', diagrams.fan_migdal_self_energy(K, w.e,
        ph, g2, omega.conj(), **kwargs), S.conj(), 1e-11, scale=scale)
    ctx.equal('arguments unchanged', fingerprint([w.e, ph, g2, omega]),
        before)
    # conductivity
    n = int(rng.integers(1, 5))
    domega = rng.uniform(0.01, 0.3)
    lo, hi = map(int, rng.integers(1, 8, 2))
    omega = domega * np.arange(-lo, hi + 1)
    A = rng.uniform(0, 1, (*w.nk, w.nbnd, len(omega)))
    v = rng.normal(size=(*w.nk, w.nbnd, w.ndim))
    f, d, _, _ = c03.reference(w.name, omega / w.kT, order=1)
    d = d / w.kT
    before = fingerprint([A, v, omega])
    sigma = diagrams.green_kubo_conductivity(v, A, omega, **kwargs)
    ref = np.zeros((len(omega), w.ndim, w.ndim))
    for x in range(len(omega)):
        s = x - lo
        for y in range(len(omega)):
            if not 0 <= y + s < len(omega):
                continue
            t = d[y] if s == 0 else (f[y] - f[y + s]) / omega[x]
            for k in w.mesh():
                for b in range(w.nbnd):
                    ref[x] += t * A[(*k, b, y)] * A[(*k, b, y + s)] \
                        * np.outer(v[(*k, b)], v[(*k, b)])
    ref *= 4 * np.pi / w.N * domega
    scale = abs(ref).max() + 1e-300
    ctx.close('conductivity', sigma, ref, 1e-10, scale=scale)
    ctx.close('symmetric tensor', sigma, sigma.swapaxes(1, 2), 1e-12,
        scale=scale)
    dc = diagrams.green_kubo_conductivity(v, A, omega, dc_only=True, **kwargs)
    trap = np.full(len(omega), domega)
    trap[[0, -1]] /= 2
    ref = sum(trap[y] * d[y] * A[(*k, b, y)] ** 2 * np.outer(v[(*k, b)],
        v[(*k, b)]) for y in range(len(omega)) for k in w.mesh()
        for b in range(w.nbnd)) * 4 * np.pi / w.N
    ctx.close('static conductivity', dc, ref, 1e-10, scale=abs(ref).max()
        + 1e-300)
    grid = np.sort(rng.normal(size=len(omega)))
    ctx.finite('uneven frequencies', diagrams.green_kubo_conductivity(v, A,
        grid, dc_only=True, **kwargs))
    ctx.equal('arguments unchanged', fingerprint([A, v, omega]), before)
