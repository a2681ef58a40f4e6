"""C17: molecular dynamics."""

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks import c03

check = Check('C17', 'A case is one random electron-phonon model with mesh or '
    'supercell, smearing, temperature, filling, and displacement; distinct by '
    'these; non-trivial if the displacement is nonzero.', boost=12)

SCHEMES = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton']


def draw(rng, real=False, asr=False, nat=None, gap=0.0, dim=None):
    dim = int(rng.integers(1, 3)) if dim is None else dim
    el = m.electrons(rng, size=int(rng.integers(1, 4)) if not gap else 2
        * int(rng.integers(1, 3)), dim=dim, rmax=1, n=2, real=real)
    el.rydberg = True
    if gap:
        home = int(np.flatnonzero(~el.R.any(axis=1))[0])
        el.data[home] += np.diag(gap * (1 - 2 * (np.arange(el.size) % 2)))
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)) if nat is None else nat,
        dim=dim, rmax=1, n=2, asr=asr, divide_mass=False,
        stable=bool(rng.integers(2)) and not asr)
    elph = m.coupling(rng, el=el, ph=ph, n=3, dim=dim, divide_mass=False,
        real=real, asr=asr)
    elph.data *= 0.1
    return dim, elph


def smear(rng, el):
    import elphmod
    name = SCHEMES[rng.integers(2 if rng.integers(2) else 4)]
    f = getattr(elphmod.occupations, name)
    kT = float(rng.uniform(0.1, 0.6))
    n = float(rng.uniform(0.3, 2 * el.size - 0.3))
    return name, f, kT, n


def centered(rng, size, scale):
    u = rng.normal(size=size) * scale
    return u - np.tile(u.reshape((-1, 3)).mean(axis=0), size // 3)


class Reference:
    """Plain sums over the mesh for given displacements."""

    def __init__(self, elph, nk, name, kT):
        self.nk = nk
        self.name, self.kT = name, kT
        self.k = [2 * np.pi * np.array(x) / nk for x in np.ndindex(*nk)]
        self.N = len(self.k)
        self.H = [m.fourier(elph.el.R, elph.el.data, k) for k in self.k]
        self.g = {}
        self.elph = elph

    def coupling(self, Q):
        """Coupling for mesh point Q at all k."""
        if Q not in self.g:
            q = 2 * np.pi * np.array(Q) / self.nk
            self.g[Q] = [m.coupling_sum(self.elph, q, k) for k in self.k]
        return self.g[Q]

    def states(self, u, mu):
        g = self.coupling((0, 0, 0))
        E, U = [], []
        for k in range(self.N):
            e, v = np.linalg.eigh(self.H[k] + np.einsum('x,xab', u, g[k]))
            E.append(e - mu)
            U.append(v)
        return np.array(E), np.array(U)

    def occupations(self, E):
        f, d, _, s = c03.reference(self.name, E / self.kT, order=1)
        return f, d / self.kT, s

    def energy(self, u, mu, n):
        E, U = self.states(u, mu)
        f, d, s = self.occupations(E)
        return 2 / self.N * np.sum(f * E - self.kT * s) + mu * n

    def force(self, u, mu):
        """First derivative of electronic energy."""
        E, U = self.states(u, mu)
        f = self.occupations(E)[0]
        g = self.coupling((0, 0, 0))
        return 2 / self.N * sum(np.einsum('am,m,bm,xba->x', U[k], f[k],
            U[k].conj(), g[k]) for k in range(self.N)).real

    def add(self, x, Q):
        k = np.array(np.unravel_index(x, self.nk)) + Q
        return int(np.ravel_multi_index(k % self.nk, self.nk))

    def bands(self, u, mu, Q):
        E, U = self.states(u, mu)
        g = self.coupling(Q)
        return E, [np.einsum('am,xab,bn->xmn', U[self.add(k, Q)].conj(), g[k],
            U[k]) for k in range(self.N)]

    def screening(self, u, mu, Q, shift=True):
        """Second derivative of electronic energy."""
        E, g = self.bands(u, mu, Q)
        f, d, _ = self.occupations(E)
        P = 0
        for k in range(self.N):
            l = self.add(k, Q)
            de = E[k][None, :] - E[l][:, None]
            near = abs(de) < 1e-7
            X = np.where(near, -d[k][None, :], (f[k][None, :]
                - f[l][:, None]) / np.where(near, 1, de))
            P = P + 2 / self.N * np.einsum('xmn,ymn,mn->xy', g[k].conj(),
                g[k], X)
        if shift and not any(Q):
            v = 2 / self.N * sum(np.einsum('xnn,n->x', g[k], d[k])
                for k in range(self.N)).real
            P = P + np.outer(v, v) / (2 / self.N * d.sum())
        return P

    def average(self, u, mu, Qs, kT):
        """Double Fermi-surface averages of products of couplings."""
        enum, deno = [], 0
        for Q in Qs:
            E, g = self.bands(u, mu, Q)
            d = c03.reference(self.name, E / kT, order=1)[1] / kT
            S = 0
            for k in range(self.N):
                w = np.outer(d[self.add(k, Q)], d[k])
                S = S + np.einsum('xmn,ymn,mn->xy', g[k].conj(), g[k], w)
                deno += w.sum()
            enum.append(S)
        return np.array(enum) / deno, d.sum() / self.N


def setup(ctx, rng, **kwargs):
    import elphmod
    import elphmod.md
    if 'dim' not in kwargs and rng.integers(4) == 0:
        kwargs['dim'] = 3
    dim, elph = draw(rng, **kwargs)
    name, f, kT, n = smear(rng, elph.el)
    nq = tuple(int(x) for x in rng.integers(1, 4 if dim == 1 else 3, dim))
    if dim == 3:
        nq = tuple(map(int, rng.permutation([1, *rng.integers(1, 3, 2)])))
    nk = tuple(x * int(rng.integers(1, 3)) for x in nq)
    unscreen = bool(rng.integers(3))
    ctx.note(size=elph.el.size, nat=elph.ph.nat, R=elph.Rg, f=name, kT=kT,
        n=n, nk=nk, nq=nq, unscreen=unscreen)
    driver = elphmod.md.Driver(elph, kT, f, n, nk=nk, nq=nq,
        unscreen=unscreen, shared_memory=bool(rng.integers(2)))
    full = [x + (1,) * (3 - len(x)) for x in (nk, nq)]
    ref = Reference(elph, full[0], name, kT)
    Qs = [tuple(a * b // c for a, b, c in zip(x, full[0], full[1]))
        for x in np.ndindex(full[1])]
    return elph, driver, ref, Qs, n, kT, unscreen


@check.family(30)
def derivatives(ctx, i):
    """Energy, forces, and Hessian against plain sums and each other."""
    rng = ctx.rng
    elph, driver, ref, Qs, n, kT, unscreen = setup(ctx, rng)
    size = elph.ph.size
    q = [2 * np.pi * np.array(Q) / ref.nk for Q in Qs]
    D = np.array([m.fourier(elph.ph.R, elph.ph.data, -x) for x in q])
    D = np.array([elph.ph.D(*x) for x in q])
    u0 = np.zeros(size)
    scale = abs(D).max() + size * elph.el.size * abs(np.array(ref.coupling((
        0, 0, 0)))).max() ** 2 / kT
    tol = 1e-4 # particle number is only accurate to 1e-5
    driver.u[:] = 0
    driver.diagonalize()
    mu0 = driver.mu
    ctx.close('number of electrons', driver.density().sum(), n, atol=2e-5)
    C0 = D.copy()
    if unscreen:
        C0 = np.array([D[x] - ref.screening(u0, mu0, Qs[x])
            for x in range(len(Qs))])
        ctx.close('original Hessian for undisplaced atoms', driver.hessian(
            gamma_only=False), D, tol, scale=scale)
    ctx.close('unscreened force constants', driver.C0, C0, tol, scale=scale)
    ctx.close('equilibrium', driver.jacobian(show=False), u0, atol=1e-4
        * scale)
    F0 = -ref.force(u0, mu0)
    C = driver.C0[0].real
    # displaced atoms
    u = centered(rng, size, 0.3)
    given = u.copy()
    E = driver.free_energy(u, show=False)
    mu = driver.mu
    ctx.equal('displacements unchanged', u, given)
    sc = 1 + abs(ref.energy(u, mu, n)) + scale
    ctx.close('free energy', E, ref.energy(u, mu, n) + 0.5 * u.dot(C).dot(u)
        + F0.dot(u), 1e-5, scale=sc)
    J = driver.jacobian(show=False)
    ctx.close('forces', J, ref.force(u, mu) + C.dot(u) + F0, 1e-5, scale=sc)
    H = driver.hessian(gamma_only=False)
    for x, Q in enumerate(Qs):
        ctx.close('Hessian', H[x], driver.C0[x] + ref.screening(u, mu, Q),
            1e-6, scale=scale)
        ctx.close('Hermitian', H[x], H[x].conj().T, 1e-9, scale=scale)
    H0 = driver.hessian()
    ctx.close('Hessian for zero wave vector', H0, H[0].real, 1e-9,
        scale=scale)
    ctx.close('density adds up', driver.density().sum(), n, atol=2e-5)
    simple = driver.hessian(apply_asr_simple=True)
    ctx.close('simple sum rule', simple.reshape((size, elph.ph.nat,
        3)).sum(axis=1), np.zeros((size, 3)), atol=1e-10 * scale)
    S = H0.reshape((size, elph.ph.nat, 3)).sum(axis=1)
    for a in range(elph.ph.nat):
        for b in range(elph.ph.nat):
            block = H0[3 * a:3 * a + 3, 3 * b:3 * b + 3]
            ctx.close('only self force constants change', simple[3 * a:3 * a
                + 3, 3 * b:3 * b + 3], block - (S[3 * a:3 * a + 3]
                if a == b else 0), 1e-10, scale=scale)
    # Eq. 81 of Gonze and Lee, Phys. Rev. B 55, 10355 (1997):
    simple = driver.hessian(gamma_only=False, apply_asr_simple=True)
    S = H[0].reshape((size, elph.ph.nat, 3)).sum(axis=1)
    for x in range(len(Qs)):
        for a in range(elph.ph.nat):
            H[x, 3 * a:3 * a + 3, 3 * a:3 * a + 3] -= S[3 * a:3 * a + 3]
        ctx.close('simple sum rule for all wave vectors', simple[x], H[x],
            1e-9, scale=scale)
    ctx.close('Hessian repeatable', driver.hessian(), H0, 1e-12, scale=scale)
    T = np.tile(rng.normal(size=3), elph.ph.nat)
    ctx.close('translation costs no energy', driver.free_energy(u + T,
        show=False), E, 1e-6, scale=sc)
    # numerical derivatives in direction without net translation
    v = centered(rng, size, 1.0)
    if elph.ph.nat == 1:
        return
    v /= np.linalg.norm(v)
    e, j = {}, {}
    for h in 0.05, 0.02, 0.01: # truncation error versus error of mu
        Es, Js = [], []
        for x in -2, -1, 1, 2:
            Es.append(driver.free_energy(u + x * h * v, show=False))
            Js.append(driver.jacobian(show=False))
        num = (Es[0] - 8 * Es[1] + 8 * Es[2] - Es[3]) / (12 * h)
        e[abs(J.dot(v) - num)] = num
        num = (Js[0] - 8 * Js[1] + 8 * Js[2] - Js[3]) / (12 * h)
        j[abs(H0.dot(v) - num).max()] = num
    ctx.close('forces are derivative of energy', J.dot(v), e[min(e)], 1e-4,
        scale=sc)
    ctx.close('Hessian is derivative of forces', H0.dot(v), j[min(j)], 1e-3,
        scale=sc)


@check.family(24)
def translations(ctx, i):
    """No net force if the acoustic sum rules are fulfilled."""
    rng = ctx.rng
    elph, driver, ref, Qs, n, kT, unscreen = setup(ctx, rng, asr=True, nat=2)
    size = elph.ph.size
    scale = 1 + abs(elph.ph.data).max()
    u = centered(rng, size, 0.3)
    E = driver.free_energy(u, show=False)
    J = driver.jacobian(show=False)
    ctx.close('no net force', J.reshape((-1, 3)).sum(axis=0), np.zeros(3),
        atol=1e-10 * scale)
    H = driver.hessian()
    ctx.close('Hessian without net force', H.reshape((size, -1, 3)).sum(
        axis=1), np.zeros((size, 3)), atol=1e-9 * scale / kT)
    best = {}
    for h in 0.05, 0.01:
        num = np.empty(size)
        for x in range(size):
            v = h * np.eye(size)[x]
            num[x] = (driver.free_energy(u - 2 * v, show=False)
                - 8 * driver.free_energy(u - v, show=False)
                + 8 * driver.free_energy(u + v, show=False)
                - driver.free_energy(u + 2 * v, show=False)) / (12 * h)
        best[abs(J - num).max()] = num
    ctx.close('forces are gradient of energy', J, best[min(best)], 2e-4,
        scale=scale + abs(E))
    # displacing all atoms of the interface
    r = driver.elph.ph.r + rng.normal(size=3) + u.reshape((-1, 3))
    kept = r.copy()
    energy, force, virial, extras = driver(np.eye(3), r)
    ctx.close('energy in Hartree', energy, E / 2, 1e-6, scale=1 + abs(E))
    ctx.close('forces in Hartree', force, -J / 2, 1e-4, scale=scale)
    ctx.equal('virial', np.array(virial), np.zeros((3, 3)))
    ctx.equal('positions unchanged', r, kept)


@check.family(24)
def supercells(ctx, i):
    """Primitive cell, dense and sparse supercells agree."""
    import elphmod
    import elphmod.md
    rng = ctx.rng
    dim, elph = draw(rng, real=True, asr=bool(rng.integers(2)))
    elph.el.nk = elph.ph.nq = tuple(3 if x < dim else 1 for x in range(3))
    name, f, kT, n = smear(rng, elph.el)
    N = tuple(int(x) for x in rng.integers(1, 4 if dim == 1 else 3, dim))
    while np.prod(N) == 1:
        N = tuple(int(x) for x in rng.integers(1, 4 if dim == 1 else 3, dim))
    n3 = N + (1,) * (3 - dim)
    cells = int(np.prod(N))
    ctx.note(size=elph.el.size, nat=elph.ph.nat, R=elph.Rg, f=name, kT=kT,
        n=n, N=N)
    before = fingerprint([elph.data, elph.el.data, elph.ph.data, elph.ph.r])
    prim = elphmod.md.Driver(elph, kT, f, n, nk=N, nq=N)
    big = elph.supercell(*n3)
    dense = elphmod.md.Driver(big, kT, f, n * cells)
    thin = elph.supercell(*n3, sparse=True)
    sparse = elphmod.md.Driver(thin, kT, f, n * cells)
    auto = elphmod.md.Driver(elph, kT, f, n, nk=N, nq=N, supercell=n3)
    ctx.true('sparse', sparse.sparse and auto.sparse and not dense.sparse)
    mesh = 2 * np.pi * np.array(list(np.ndindex(n3))) / n3
    g = max(abs(elph.g(*q, *k)).max() for q in mesh[:3] for k in mesh)
    scale = 1 + abs(elph.ph.data).sum() + elph.el.size ** 2 * g ** 2 / kT
    size = elph.ph.size
    tol = 3e-4

    def compare(A, B, what):
        a, b = [x.free_energy(show=False) for x in (A, B)]
        ctx.close('energy ' + what, b, a, tol, scale=scale * cells)
        a, b = [x.jacobian(show=False) for x in (A, B)]
        ctx.close('forces ' + what, b, a, tol, scale=scale)
        a, b = [x.hessian() for x in (A, B)]
        ctx.close('Hessian ' + what, b, a, tol, scale=scale)
        ctx.close('density ' + what, B.density(), A.density(), 1e-3)

    for _ in range(2):
        u = centered(rng, size, 0.2)
        prim.u = u.copy()
        for driver in dense, sparse, auto:
            driver.u = np.tile(u, cells)
        e = prim.free_energy(show=False)
        J = prim.jacobian(show=False)
        E = dense.free_energy(show=False)
        ctx.close('energy of supercell', E / cells, e, tol, scale=scale)
        ctx.close('forces in supercell', dense.jacobian(show=False), np.tile(
            J, cells), tol, scale=scale)
        ctx.close('density of supercell', dense.density(), np.tile(
            prim.density(), cells), 1e-3)
        compare(dense, sparse, 'from sparse matrices')
        compare(dense, auto, 'from primitive model')
        w = np.sort(np.linalg.eigvalsh(prim.hessian(gamma_only=False)).ravel())
        W = np.linalg.eigvalsh(dense.hessian())
        ctx.close('Hessian of supercell', W, w, tol, scale=scale)
        ref = prim.superconductivity()
        w2 = np.linalg.eigvalsh(D_mass(prim))
        kT2 = float(rng.choice([kT, 0.3]))
        for driver in dense, sparse, auto:
            got = driver.superconductivity()
            ctx.close('lowest frequency', got[3] * abs(got[3]), ref[3]
                * abs(ref[3]), 1e-3, scale=abs(w2).max(), atol=1e-4 * scale
                / prim.elph.ph.M.min())
            if abs(w2).min() > 1e-3 * abs(w2).max() and w2.max() > 0 \
                    and name in SCHEMES[:2] and ref[0] > 1e-6 \
                    and prim.f.delta(prim.e / kT).mean() > 0.05: # (chemical
                    # potential is of limited accuracy if there is a gap)
                soft = (abs(w2) / abs(w2).min()).max()
                ctx.close('coupling strength etc.', np.array(got[:3])
                    / ref[:3], np.ones(3), 2e-3 * soft)
                ctx.close('at other temperature', np.array(driver
                    .superconductivity(kT=kT2)[:3]) / np.array(prim
                    .superconductivity(kT=kT2)[:3]), np.ones(3), 2e-3 * soft)
    u = centered(rng, size * cells, 0.2)
    for driver in dense, sparse, auto:
        driver.u = u.copy()
    compare(dense, sparse, 'from sparse matrices')
    compare(dense, auto, 'from primitive model')
    ctx.equal('models unchanged', fingerprint([elph.data, elph.el.data,
        elph.ph.data, elph.ph.r]), before)


def D_mass(driver):
    D = driver.hessian(gamma_only=False)
    M = driver.elph.ph.M.repeat(3)
    return D / np.sqrt(np.outer(M, M))


@check.family(24)
def superconductivity(ctx, i):
    """Effective coupling and average frequencies."""
    rng = ctx.rng
    elph, driver, ref, Qs, n, kT, unscreen = setup(ctx, rng)
    if rng.integers(2):
        driver.u = centered(rng, elph.ph.size, 0.2)
    driver.diagonalize()
    u, mu = driver.u.copy(), driver.mu
    T = float(rng.choice([kT, rng.uniform(0.1, 0.5)]))
    D = D_mass(driver)
    M = elph.ph.M.repeat(3)
    A, N0 = ref.average(u, mu, Qs, T)
    w2, v = np.linalg.eigh(D)
    eps = 1e-10 if rng.integers(2) else abs(w2).max() * 0.2
    if abs(w2 / eps - 1).min() < 1e-3 or np.all(w2 < eps):
        raise Skip('frequency close to threshold')
    V = np.zeros(w2.shape)
    for q in range(len(Qs)):
        for nu in range(len(M)):
            x = v[q, :, nu] / np.sqrt(M)
            g2 = np.einsum('x,xy,y', x.conj(), A[q], x).real
            if w2[q, nu] >= eps:
                V[q, nu] = g2 / w2[q, nu]
    good = np.maximum(w2, eps)
    lamda = N0 * V.sum()
    if not abs(V.sum()) > 1e-3 * abs(V).sum():
        raise Skip('coupling without definite sign')
    wlog = np.exp((V * np.log(good)).sum() / V.sum() / 2)
    w2nd = (V * good).sum() / V.sum()
    if w2nd <= 0:
        raise Skip('coupling without definite sign')
    got = driver.superconductivity(eps=eps, **({} if T == kT else dict(
        kT=T)))
    ctx.close('coupling strength', got[0], lamda, 1e-6, scale=abs(N0)
        * abs(V).sum() + abs(lamda))
    ctx.close('logarithmic average', got[1], wlog, 1e-5)
    ctx.close('second moment', got[2], np.sqrt(w2nd), 1e-5)
    x = w2.min()
    ctx.close('lowest frequency', got[3], np.sign(x) * np.sqrt(abs(x)), 1e-6,
        scale=np.sqrt(abs(w2).max()))
    # Fermi-surface average returned together with Hessian
    H, g2 = driver.hessian(kT=T, gamma_only=False)
    ctx.close('Hessian with average', H, driver.hessian(gamma_only=False),
        1e-10, scale=abs(H).max())
    ctx.close('average of couplings', g2, A, 1e-8, scale=abs(A).max())


@check.family(16)
def photoexcitation(ctx, i):
    """Forces of photoexcited electrons are derivative of energy."""
    import elphmod
    import elphmod.md
    rng = ctx.rng
    dim, elph = draw(rng, gap=4.0, real=bool(i % 2), nat=2)
    nk = (2,) * dim
    n = elph.el.size
    nx = float(rng.uniform(0.05, 0.6))
    kT = float(rng.uniform(0.1, 0.4))
    ctx.note(size=n, nat=elph.ph.nat, R=elph.Rg, kT=kT, nx=nx)
    f = elphmod.occupations.two_fermi_dirac
    kept = f.d
    try:
        driver = elphmod.md.Driver(elph, kT, f, n, nx, nk=nk, nq=nk)
        size = elph.ph.size
        u, v = centered(rng, size, 0.2), centered(rng, size, 1)
        v /= np.linalg.norm(v)
        E = driver.free_energy(u, show=False)
        gap = driver.e[..., n // 2:].min() - driver.e[..., :n // 2].max()
        if gap < 1 or driver.e[..., :n // 2].max() > -0.1 \
                or driver.e[..., n // 2:].min() < 0.1:
            raise Skip('no gap between valence and conduction bands')
        J = driver.jacobian(show=False)
        H = driver.hessian()
        ctx.close('density adds up', driver.density().sum(), n, atol=5e-5)
        h, Es, Js = 0.05, [], []
        for x in -2, -1, 1, 2:
            Es.append(driver.free_energy(u + x * h * v, show=False))
            Js.append(driver.jacobian(show=False))
        scale = 1 + abs(E)
        ctx.close('forces are derivative of energy', J.dot(v), (Es[0] - 8
            * Es[1] + 8 * Es[2] - Es[3]) / (12 * h), 3e-4, scale=scale)
        ctx.close('Hessian is derivative of forces', H.dot(v), (Js[0] - 8
            * Js[1] + 8 * Js[2] - Js[3]) / (12 * h), 3e-3, scale=scale)
        if not i % 2:
            return
        thin = elph.supercell(2, 1, 1, sparse=True)
        thick = elph.supercell(2, 1, 1)
        u = centered(rng, 2 * size, 0.2)
        results = []
        for x in thick, thin:
            driver = elphmod.md.Driver(x, kT, f, 2 * n, 2 * nx)
            E = driver.free_energy(u, show=False)
            results.append((E, driver.jacobian(show=False),
                driver.hessian()))
        for x, y, z in zip(results[0], results[1], ['energy', 'forces',
                'Hessian']):
            ctx.close(z + ' from sparse matrices', y, x, 1e-3, scale=scale)
        # same displacements in all unit cells
        elph.el.nk = elph.ph.nq = tuple(3 if x < dim else 1 for x in range(3))
        N = (2,) + (1,) * (dim - 1)
        u = centered(rng, size, 0.2)
        results = []
        for kwargs in {}, dict(supercell=(2, 1, 1)):
            driver = elphmod.md.Driver(elph, kT, f, n, nx, nk=N, nq=N,
                **kwargs)
            cells = 2 if kwargs else 1
            E = driver.free_energy(np.tile(u, cells), show=False)
            results.append((E / cells, driver.jacobian(show=False)[:size],
                driver.density()[:elph.el.size]))
            gap = driver.e[..., cells * n // 2:].min()
            if gap < 0.5 or driver.e[..., :cells * n // 2].max() > -0.1:
                raise Skip('no gap between valence and conduction bands')
        for x, y, z in zip(results[0], results[1], ['energy', 'forces',
                'density']):
            ctx.close(z + ' in supercell', y, x, 1e-3, scale=scale)
    finally:
        f.d = kept


@check.family(24)
def state(ctx, i):
    """Saving, loading, exporting, and derived models."""
    import elphmod
    rng = ctx.rng
    sparse = i % 4 == 0
    if sparse:
        dim, elph = draw(rng, real=True)
        name, f, kT, n = smear(rng, elph.el)
        elph = elph.supercell(2, 1, 1, sparse=True)
        driver = elphmod.md.Driver(elph, kT, f, n * 2)
        n *= 2
        ctx.note(size=elph.el.size, nat=elph.ph.nat, f=name, kT=kT, n=n)
    else:
        elph, driver, ref, Qs, n, kT, unscreen = setup(ctx, rng)
    ph = elph.ph
    r = ph.r.copy()
    np.random.seed(int(rng.integers(2 ** 31)))
    driver.random_displacements(0.05)
    ctx.true('amplitude', abs(driver.u).max() <= 0.1 + 1e-12)
    ctx.close('center of mass kept', driver.u.reshape((-1, 3)).sum(axis=0),
        np.zeros(3), atol=1e-12)
    E = driver.free_energy(show=False)
    J, H = driver.jacobian(show=False), driver.hessian()
    rho = driver.density()
    # save and load
    name = ctx.file('driver.pickle')
    driver.save(name)
    other = type(driver).load(name)
    ctx.close('displacements restored', other.u, driver.u, 0, atol=1e-15)
    ctx.close('energy restored', other.free_energy(show=False), E, 1e-5,
        scale=1 + abs(E))
    ctx.close('forces restored', other.jacobian(show=False), J, 1e-5,
        scale=1 + abs(J).max())
    ctx.close('Hessian restored', other.hessian(), H, 1e-4, scale=1
        + abs(H).max())
    ctx.close('density restored', other.density(), rho, 1e-4)
    ctx.close('driver still works', driver.hessian(), H, 1e-5, scale=1
        + abs(H).max())
    again = ctx.file('again.pickle')
    other.save(again)
    ctx.close('saved twice', type(driver).load(again).u, other.u, 0, atol=1e-15)
    # positions
    u = driver.u.copy()
    name = ctx.file('atoms.xyz')
    driver.to_xyz(name)
    v = centered(rng, ph.size, 0.1)
    driver.u = v.copy()
    driver.to_xyz(name, append=True)
    driver.u = np.zeros(ph.size)
    driver.from_xyz(name)
    ctx.close('last positions of trajectory', driver.u, v, atol=1e-9)
    driver.u = u.copy()
    driver.to_xyz(name)
    mine = centered(rng, ph.size, 0.1)
    kept = mine.copy()
    driver.free_energy(mine, show=False)
    driver.from_xyz(name)
    ctx.close('positions overwritten', driver.u, u, atol=1e-9)
    ctx.equal('passed displacements unchanged', mine, kept)
    with open(name) as lines:
        lines = lines.readlines()
    ctx.equal('number of atoms', int(lines[0]), ph.nat)
    ctx.equal('lines', len(lines), ph.nat + 2)
    ctx.close('cell', np.reshape(list(map(float, lines[1].split()[-9:])), (3,
        3)).T, ph.a, 1e-9, scale=abs(ph.a).max())
    name = ctx.file('pwi')
    driver.u = u.copy()
    driver.to_pwi(name)
    pw = elphmod.bravais.read_pwi(name)
    ctx.close('positions in input file', np.dot(np.array(pw['r']), ph.a),
        ph.r + u.reshape((-1, 3)), 1e-7, scale=abs(ph.a).max() * 2)
    ctx.equal('species in input file', list(pw['at']), list(ph.atom_order))
    ctx.equal('equilibrium positions unchanged', ph.r, r)
    # derived models
    driver.u = u.copy()
    driver.diagonalize()
    rydberg = bool(rng.integers(2))
    opt = {}
    if rng.integers(2):
        opt['seedname'] = ctx.file('seed')
    el = driver.electrons(rydberg=rydberg, **opt)
    unit = 1 if rydberg else elphmod.misc.Ry
    if opt and abs(el.data).max() * (elphmod.misc.Ry if rydberg
            else 1) < 900:
        read = elphmod.el.Model(opt['seedname'], rydberg=rydberg)
        k = m.kpoint(rng)
        ctx.close('electrons from file', read.H(*k), el.H(*k), 0, 1e-6
            * len(el.R))
    if not sparse:
        dk = [int(rng.choice([x for x in range(1, n + 1) if n % x == 0]))
            for n in driver.nk]
        part = driver.electrons(rydberg=rydberg, dk1=dk[0], dk2=dk[1],
            dk3=dk[2])
        for x in np.ndindex(*[n // d for n, d in zip(driver.nk, dk)]):
            k = 2 * np.pi * np.array(x) * dk / driver.nk
            ctx.close('electrons of coarser mesh', part.H(*k), el.H(*k),
                1e-7, scale=max(1, abs(driver.e).max()) * unit)
    e = driver.e.reshape((*driver.nk, -1))
    for x in np.ndindex(*driver.nk):
        k = 2 * np.pi * np.array(x) / driver.nk
        ctx.close('electrons of current structure', np.linalg.eigvalsh(
            m.fourier(el.R, el.data, k)), e[x] * unit, 1e-7,
            scale=max(1, abs(e).max()) * unit)
    mass = bool(rng.integers(2))
    new = driver.phonons(divide_mass=mass)
    H = driver.hessian(gamma_only=False)
    if mass:
        M = ph.M.repeat(3)
        H = H / np.sqrt(np.outer(M, M))
    for x, q in enumerate(driver.q if not driver.sparse else np.zeros((1,
            3))):
        ctx.close('phonons of current structure', new.D(*q), H[x], 1e-7,
            scale=abs(H).max())
    file = ctx.file('dyn')
    C = driver.hessian(gamma_only=False, fildyn=file)
    (q, D), M, a, tau, names = elphmod.ph.read_flfrc(file)[:5]
    b = np.linalg.inv(ph.a).T
    ctx.close('wave vectors in file', q, np.reshape(driver.q, (-1, 3))[:len(
        C)].dot(b), 1e-7, 1e-8)
    ctx.close('Hessian in file', D, C, 0, 0.75e-8)
    ctx.close('current positions in file', tau, r + u.reshape((-1, 3)), 1e-7,
        1e-7 * abs(ph.a).max())
    ctx.close('masses in file', M, ph.M, 1e-9)
    ctx.equal('species in file', list(names), list(ph.atom_order))
    ctx.close('positions of phonon model', new.r, r + u.reshape((-1, 3)),
        1e-12)
    ctx.equal('original model unchanged', ph.r, r)
    # orbitals of atoms
    cells = 2 if sparse else 1
    nat, no = ph.nat // cells, elph.el.size // cells
    owner = rng.integers(nat, size=no)
    driver.basis = [np.flatnonzero(owner == x).tolist() for x in range(nat)]
    at = driver.density_per_atom()
    rho = driver.density()
    ctx.close('density per atom', at, [sum(rho[c * no + o] for o in
        driver.basis[x]) for c in range(cells) for x in range(nat)], 1e-12)


@check.family(2)
def picture(ctx, i):
    """Drawn atoms and displacements are those of the driver."""
    import warnings
    import elphmod
    try:
        import matplotlib
    except ImportError:
        raise Skip('Matplotlib not available')
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    import mpl_toolkits.mplot3d.art3d as art
    rng = ctx.rng
    elph, driver = setup(ctx, rng)[:2]
    ph = elph.ph
    ph.atom_order = [str(x) for x in rng.choice(['C', 'S', 'Ta', 'Se', 'H'],
        ph.nat)]
    basis = rng.integers(ph.nat, size=elph.el.size)
    basis = [np.flatnonzero(basis == x).tolist() for x in range(ph.nat)]
    options = {}
    scale, size = 10.0, 100.0
    if rng.integers(2):
        options['scale'] = scale = float(rng.uniform(1, 20))
    if rng.integers(2):
        options['size'] = size = float(rng.uniform(10, 200))
    if rng.integers(2):
        driver.basis = basis
    live = bool(rng.integers(2))
    if live:
        options.update(interactive=True, pause=1e-6)
    ctx.note(options=options)
    driver.u = u = centered(rng, ph.size, 0.2)
    driver.diagonalize()

    def look(what):
        axes, = plt.gcf().axes
        dots, = [x for x in axes.collections if isinstance(x,
            art.Path3DCollection)]
        arrows, = [x for x in axes.collections if isinstance(x,
            art.Line3DCollection)]
        r = ph.r + u.reshape((-1, 3))
        ctx.close(what + ' atoms', np.transpose([np.asarray(x)
            for x in dots._offsets3d]), r, 1e-9, scale=1 + abs(r).max())
        shafts = [np.asarray(x) for x in arrows._segments3d
            if len(x) == 2][:ph.nat]
        # (Matplotlib stores arrows from tip to tail, without sorting by depth)
        ctx.close(what + ' displacements', [x[0] - x[1] for x in shafts],
            scale * u.reshape((-1, 3)), 1e-6, 1e-9)
        ctx.close(what + ' origin of displacements', [x[1] for x in shafts],
            r, 1e-9, scale=1 + abs(r).max())
        rho = driver.density_per_atom() if driver.basis is not None \
            else np.ones(ph.nat)
        ctx.close(what + ' sizes', np.broadcast_to(dots._sizes3d, ph.nat),
            size * rho / rho.max(), 1e-6)
        return axes

    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            name = ctx.file('atoms.png')
            label = bool(rng.integers(2))
            view = {}
            if rng.integers(2):
                view['elev'] = float(rng.integers(0, 90))
            if rng.integers(2):
                view['azim'] = float(rng.integers(-90, 90))
            if rng.integers(2):
                view['padding'] = float(rng.uniform(0.1, 3))
            driver.plot(filename=name, label=label, **view, **options)
            axes = look('drawn')
            ctx.close('view', (axes.elev, axes.azim), (view.get('elev', 90),
                view.get('azim', -90)), 1e-12)
            ctx.equal('labels', [x.get_text() for x in axes.texts], [str(x)
                for x in range(ph.nat * label)])
            with open(name, 'rb') as data:
                ctx.equal('type of picture', data.read(4), b'\x89PNG')
            box = [axes.get_xlim(), axes.get_ylim(), axes.get_zlim()]
            ctx.true('atoms in box', all(lower <= x <= upper for r in ph.r
                for x, (lower, upper) in zip(r, box)), box)
            pad = view.get('padding', 1)
            ctx.close('padding', box, np.transpose([ph.r.min(axis=0) - pad,
                ph.r.max(axis=0) + pad]), 1e-9, scale=1 + abs(ph.r).max())
            if not live:
                return
            u = centered(rng, ph.size, 0.2)
            driver.free_energy(u, show=False)
            look('updated')
            xyz = ctx.file('atoms.xyz')
            u = centered(rng, ph.size, 0.2)
            driver.u = u.copy()
            driver.to_xyz(xyz)
            driver.u = np.zeros(ph.size)
            driver.from_xyz(xyz)
            u = driver.u.copy()
            look('loaded')
    finally:
        driver.interactive = False
        plt.close('all')


@check.family(8)
def polar(ctx, i):
    """Models of polar materials derived from the driver."""
    import elphmod
    import elphmod.md
    rng = ctx.rng
    el = m.electrons(rng, size=int(rng.integers(1, 3)), dim=3, rmax=1, n=2,
        real=True)
    el.rydberg = True
    ph = m.phonon(rng, nat=2, dim=3, rmax=1, n=2, divide_mass=False,
        polar=True, quad=bool(rng.integers(2)))
    elph = m.coupling(rng, el=el, ph=ph, n=3, dim=3, divide_mass=False,
        real=True)
    elph.data *= 0.1
    name, f, kT, n = smear(rng, el)
    N = [(2, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2)][rng.integers(4)]
    ctx.note(size=el.size, R=elph.Rg, f=name, kT=kT, n=n, N=N)
    el.nk = ph.nq = N
    ph.prepare_long_range(G_max=100)
    driver = elphmod.md.Driver(elph, kT, f, n, nk=N, nq=N)
    driver.u = centered(rng, ph.size, 0.1)
    driver.diagonalize()
    H = driver.hessian(gamma_only=False)
    new = driver.phonons(divide_mass=False)
    for x, q in enumerate(driver.q):
        ctx.close('phonons of current structure', new.D(*q), H[x], 1e-5,
            scale=abs(H).max())
    big = elphmod.md.Driver(elph, kT, f, n, nk=N, nq=N, supercell=N)
    ctx.close('unscreened force constants of supercell', np.linalg.eigvalsh(
        big.C0[0]), np.sort(np.linalg.eigvalsh(driver.C0).ravel()), 1e-3,
        scale=abs(driver.C0).max())
