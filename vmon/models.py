"""Random model objects and independent Fourier sums (workload generators)."""

import numpy as np


def lattice(rng, scale=None, planar=False):
    """Well-conditioned primitive vectors."""
    while True:
        kind = int(rng.integers(4))
        if kind == 0:
            a = np.eye(3) + 0.3 * rng.normal(size=(3, 3))
        elif kind == 1: # hexagonal
            a = np.array([[1, 0, 0], [-0.5, np.sqrt(0.75), 0], [0, 0, 1.7]])
        elif kind == 2: # fcc
            a = np.array([[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]]) * 1.5
        else:
            a = np.diag(rng.uniform(0.7, 1.6, 3))
        if planar:
            a[:2, 2] = 0
            a[2, :2] = 0
            a[2, 2] = rng.uniform(2, 4)
        if np.linalg.cond(a) < 6:
            break
    return a * (rng.uniform(3, 8) if scale is None else scale)


def vectors(rng, n=4, dim=3, rmax=2, closed=True):
    """Distinct lattice vectors including the origin, closed under inversion."""
    pts = {(0, 0, 0)}
    for _ in range(n):
        R = [0, 0, 0]
        R[:dim] = map(int, rng.integers(-rmax, rmax + 1, dim))
        pts.add(tuple(R))
        if closed:
            pts.add(tuple(-x for x in R))
    pts = sorted(pts)
    return np.array([pts[i] for i in rng.permutation(len(pts))], dtype=int)


def electrons(rng, size=None, n=4, dim=3, rmax=2, real=False, scale=1.0,
        hermitian=True):
    """Random Hermitian tight-binding model."""
    import elphmod.el
    el = elphmod.el.Model()
    el.size = int(rng.integers(1, 4)) if size is None else size
    el.R = vectors(rng, n, dim, rmax)
    el.data = hermitian_data(rng, el.R, el.size, real) * scale
    if real == 'float':
        el.data = el.data.real.copy()
    el.nk = tuple(int(2 * rmax + 1) if x < dim else 1 for x in range(3))
    return el


def hermitian_data(rng, R, size, real=False):
    index = {tuple(r): n for n, r in enumerate(R.tolist())}
    data = np.zeros((len(R), size, size), dtype=complex)
    style = int(rng.integers(6))
    for n, r in enumerate(R.tolist()):
        h = rng.normal(size=(size, size)) * np.exp(-0.4 * np.linalg.norm(r))
        if not real:
            h = h + 1j * rng.normal(size=(size, size)) * np.exp(
                -0.4 * np.linalg.norm(r))
        if style == 0: # tiny matrix elements
            h = h * (10.0 ** rng.uniform(-9, 0) if any(r) else 1.0)
        elif style == 1: # selection rules
            h[rng.random((size, size)) < 0.4] = 0.0
            h[0, 0] += 0.1
        elif style == 2 and not real and any(r): # phases of hoppings
            h = h.real * rng.choice([1j, -1j, 1.0, np.exp(2j)])
        data[n] += h
        data[index[tuple(-x for x in r)]] += h.conj().T
    return data / 2


SPECIES = ['H', 'C', 'Ta', 'S', 'Se', 'Mo', 'Fe', 'O', 'Ti', 'Sr']


def phonon(rng, nat=None, n=4, dim=3, rmax=2, asr=False, polar=False,
        quad=False, two=False, L=None, divide_mass=True, planar=False,
        stable=False, neutral=True):
    """Random symmetric mass-spring model."""
    import elphmod.ph
    nat = int(rng.integers(1, 4)) if nat is None else nat
    a = lattice(rng, planar=planar or two)
    x = rng.uniform(0, 1, (nat, 3))
    x[0] = 0 if rng.integers(2) else x[0]
    for k in range(1, nat): # keep atoms apart
        x[k] = (x[k - 1] + np.array([0.31, 0.37, 0.29])
            + 0.05 * rng.normal(size=3)) % 1.0
    if two or planar:
        x[:, 2] = 0.5 + 0.05 * rng.normal(size=nat)
    tau = x.dot(a)
    names = [SPECIES[k] for k in rng.integers(len(SPECIES), size=nat)]
    amass = np.array([1822.888486 / 2 * (5 + 7.3 * SPECIES.index(X))
        for X in names])
    kwargs = {}
    if polar:
        eps = rng.normal(size=(3, 3)) * 0.3
        eps = eps.dot(eps.T) + np.eye(3) * rng.uniform(1.5, 4)
        if two:
            eps[:2, 2] = eps[2, :2] = 0.0
        Z = rng.normal(size=(nat, 3, 3))
        if neutral:
            Z -= Z.mean(axis=0)
        kwargs.update(epsil=eps, zeu=Z)
        if quad:
            Q = rng.normal(size=(nat, 3, 3, 3))
            kwargs.update(Q=Q + Q.swapaxes(2, 3))
        if two:
            kwargs.update(lr2d=True)
            if L is not None: # sometimes without out-of-plane terms
                kwargs.update(L=L, perp=int(L * 1e3) % 3 > 0)
    ph = elphmod.ph.Model(amass=amass, at=a, tau=tau, atom_order=names,
        divide_mass=divide_mass, **kwargs)
    ph.nq = tuple(2 * rmax + 1 if k < dim else 1 for k in range(3))
    ph.R = vectors(rng, n, dim, rmax)
    C = hermitian_data(rng, ph.R, 3 * nat, real=True).real * 0.05
    home = int(np.flatnonzero(~ph.R.any(axis=1))[0])
    if stable:
        C[home] += np.eye(3 * nat) * 0.05 * 3 * nat * len(ph.R)
    if asr:
        C = impose_asr(C, home, nat)
    if divide_mass:
        for k in range(nat):
            C[:, 3 * k:3 * k + 3] /= np.sqrt(amass[k])
            C[:, :, 3 * k:3 * k + 3] /= np.sqrt(amass[k])
    ph.data = C
    ph.l = np.zeros((len(ph.R), nat, nat))
    return ph


def impose_asr(C, home, nat):
    """Make self force constants symmetric and equal to minus all others."""
    C = C.copy()
    for i in range(nat):
        for j in range(nat): # symmetric pair blocks suffice
            b = C[:, 3 * i:3 * i + 3, 3 * j:3 * j + 3]
            b[...] = (b + b.swapaxes(1, 2)) / 2
    S = C.sum(axis=0)
    for i in range(nat):
        s = sum(S[3 * i:3 * i + 3, 3 * j:3 * j + 3] for j in range(nat))
        C[home, 3 * i:3 * i + 3, 3 * i:3 * i + 3] -= s
    return C


def coupling(rng, el=None, ph=None, n=5, dim=3, rmax=1, symmetric=True,
        real=False, divide_mass=True, asr=False):
    """Random electron-phonon model obeying the Hermitian relation."""
    import elphmod.elph
    if el is None:
        el = electrons(rng, dim=dim, rmax=rmax, real=real)
    if ph is None:
        ph = phonon(rng, nat=int(rng.integers(1, 3)), dim=dim, rmax=rmax)
    const = {}
    tails = rng.integers(5) == 0

    def add(R, S, g):
        key = (*map(int, R), *map(int, S))
        const[key] = const.get(key, 0) + g

    for _ in range(n):
        R, S = np.zeros((2, 3), dtype=int)
        R[:dim] = rng.integers(-rmax, rmax + 1, dim)
        S[:dim] = rng.integers(-rmax, rmax + 1, dim)
        if _ == 0:
            R[:] = S[:] = 0
        g = rng.normal(size=(ph.size, el.size, el.size))
        if not real:
            g = g + 1j * rng.normal(size=g.shape)
        if tails and _:
            g = g * 10.0 ** rng.uniform(-9, 0)
        add(R, S, g)
        if symmetric:
            add(R - S, -S, g.swapaxes(1, 2).conj())
    if asr: # displacing all atoms alike has no effect
        total = {}
        for k, g in const.items():
            total[k[3:]] = total.get(k[3:], 0) + g.reshape((ph.nat, 3,
                el.size, el.size)).sum(axis=0)
        for S, g in total.items():
            for R in (0, 0, 0), S:
                add(R, S, -np.tile(g, (ph.nat, 1, 1)) / (2 * ph.nat))
    Rg = sorted({k[:3] for k in const})
    Rk = sorted({k[3:] for k in const})
    Rg = [Rg[i] for i in rng.permutation(len(Rg))]
    Rk = [Rk[i] for i in rng.permutation(len(Rk))]
    elph = elphmod.elph.Model(el=el, ph=ph, Rk=np.array(Rk), Rg=np.array(Rg),
        dk=np.ones((1, 1, len(Rk)), dtype=int),
        dg=np.ones((1, 1, 1, len(Rg)), dtype=int), divide_mass=divide_mass)
    elph.data[...] = 0.0
    for i, R in enumerate(Rg):
        for j, S in enumerate(Rk):
            if R + S in const:
                elph.data[i, :, j] = const[R + S]
    elph.gq = np.empty((ph.size, len(Rk), el.size, el.size), dtype=complex)
    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
    return elph


def coulomb(rng, size=None, n=4, dim=3, rmax=2):
    """Random real symmetric electron-electron model."""
    import elphmod.elel
    elel = elphmod.elel.Model()
    elel.size = int(rng.integers(1, 4)) if size is None else size
    elel.no = elel.size
    elel.R = vectors(rng, n, dim, rmax)
    elel.data = hermitian_data(rng, elel.R, elel.size, real=True)
    return elel


# independent evaluation ----------------------------------------------------

def fourier(R, data, k, sign=1):
    """Plain double loop over lattice vectors."""
    k = np.concatenate([np.ravel(k), np.zeros(3)])[:3]
    total = np.zeros(data.shape[1:], dtype=complex)
    for n in range(len(R)):
        phase = sum(float(R[n][x]) * float(k[x]) for x in range(3))
        total = total + data[n] * (np.cos(phase) + 1j * sign * np.sin(phase))
    return total


def coupling_sum(elph, q, k):
    """Short-range coupling, plain double sum."""
    g = 0
    for i, R in enumerate(elph.Rg):
        for j, S in enumerate(elph.Rk):
            g = g + elph.data[i, :, j] * np.exp(1j * (np.dot(R, q)
                + np.dot(S, k)))
    return g


def rounded(rng, q):
    """Mesh points with rounding errors from different ways of computing them."""
    q = np.array(q, dtype=float)
    return q * (1 + 2.3e-16 * rng.integers(-3, 4, q.shape))


def kpoint(rng, dim=3):
    k = np.zeros(3)
    k[:dim] = rng.uniform(-4, 8, dim)
    kind = int(rng.integers(6))
    if kind == 0:
        k[:] = 0
    elif kind == 1:
        k[:dim] = np.pi * rng.integers(-2, 4, dim)
    elif kind == 2:
        k[:dim] = 2 * np.pi / 3 * rng.integers(-3, 4, dim)
    return k
