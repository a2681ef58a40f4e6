"""C15: electron-electron models and Coulomb transformations."""

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks import c09
from vmon.checks.c11 import arguments, draw_matrix, folded, union

check = Check('C15', 'A case is one random interaction (model, tensor on a '
    'mesh, or file) with wave vectors; distinct by these; non-trivial if it '
    'has elements beyond the home cell.', boost=16)


@check.family(40)
def value(ctx, i):
    """Fourier sum, lookup and standardization."""
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    elel = m.coulomb(rng, dim=dim, n=int(rng.integers(0, 6)))
    if rng.integers(2):
        elel.data = elel.data.astype(complex)
    R, data = elel.R.copy(), elel.data.copy()
    q = m.kpoint(rng, dim)
    ctx.note(size=elel.size, R=R, q=q)
    scale = abs(data).sum()
    ref = m.fourier(R, data, q)
    W = elel.W(*q)
    ctx.close('Fourier sum', W, ref, 1e-11, scale=scale)
    ctx.close('Hermitian', W, W.conj().T, 1e-11, scale=scale)
    ctx.close('periodic', elel.W(*(q + 2 * np.pi * rng.integers(-2, 3, 3))),
        ref, 1e-11, scale=scale)
    for n in rng.permutation(len(R))[:3]:
        ctx.equal('interaction of lattice vector', np.array(elel.WR(*R[n])),
            data[n])
    ctx.equal('none for unlisted vector', np.array(elel.WR(9, 0, 0)),
        np.zeros_like(data[0]))
    ctx.equal('model unchanged', (fingerprint(elel.R),
        fingerprint(elel.data)), (fingerprint(R), fingerprint(data)))
    # standardization with repeated, unsorted, and vanishing entries
    part = rng.normal(size=data[0].shape)
    if rng.integers(3) == 0: # complex interaction
        data, part = data * 1j, part * 1j
    elel.R = np.vstack([R, R[:1], [[5, 5, 5]]])
    elel.data = np.concatenate([data, part[None], 0 * part[None]])
    elel.data[0] -= part
    order = rng.permutation(len(elel.R))
    elel.R, elel.data = elel.R[order], elel.data[order]
    eps = float(rng.choice([0, 0, 0.1]))
    work = np.where(abs(elel.data) < eps * abs(elel.data).max(), 0,
        elel.data)
    ref = m.fourier(elel.R, work, q)
    elel.standardize(eps=eps)
    ctx.close('standardized', elel.W(*q), ref, 1e-11, scale=scale
        + abs(part).sum())
    rows = list(map(tuple, elel.R.tolist()))
    ctx.equal('sorted and unique', rows, sorted(set(rows)))
    ctx.true('vanishing matrices dropped', (5, 5, 5) not in rows)


@check.family(30)
def mesh(ctx, i):
    """Interpolation and files on q meshes."""
    import elphmod
    rng = ctx.rng
    nq = c09.draw_mesh(rng, 16)
    no = int(rng.integers(1, 4))
    at = c09.reduced_lattice(rng)
    r = rng.uniform(0, 0.5, (no, 3)).dot(at) if rng.integers(2) \
        else np.zeros((no, 3))
    W = rng.normal(size=(*nq, no, no)) + 1j * rng.normal(size=(*nq, no, no))
    real = rng.integers(2)
    if real: # Hermitian as for density-density interaction
        W = W + W.conj().swapaxes(-1, -2)
    ctx.note(nq=nq, no=no, at=at, r=r)
    elel = elphmod.elel.Model()
    given = W.copy()
    elphmod.elel.q2r(elel, given, at, r)
    ctx.equal('argument unchanged', given, W)
    ctx.equal('size', elel.size, no)

    def compare(elel, name, ref, tol):
        for x in np.ndindex(nq):
            q = [2 * np.pi * a / b for a, b in zip(x, nq)]
            ctx.close(name, elel.W(*q), ref[x], tol, scale=abs(ref).max())

    compare(elel, 'interaction on mesh', W, 1e-9)
    ref, gap = c09.brute(nq, at, r, r, +1)
    if real and gap and not c09.outside(ref, nq, +1):
        k = m.kpoint(rng)
        H = elel.W(*k)
        ctx.close('Hermitian in between', H, H.conj().T, 1e-9,
            scale=abs(W).max())
    if nq[2] == 1 and rng.integers(2): # lower-dimensional mesh
        low = elphmod.elel.Model()
        elphmod.elel.q2r(low, W[:, :, 0], at, r)
        ctx.close('two-dimensional mesh', low.W(*m.kpoint(rng, 2) * 0 + 0.3),
            elel.W(0.3, 0.3, 0.3), 1e-10, scale=abs(W).max())
    # tensor on mesh in text file, complete or density-density only
    T = np.zeros((*nq, no, no, no, no), dtype=complex)
    T += rng.normal(size=T.shape) + 1j * rng.normal(size=T.shape)
    for a in range(no):
        for b in range(no):
            T[..., a, a, b, b] = W[..., a, b]
    name = ctx.file('Uijkl')
    rounded = rng.integers(3) == 0

    def write(name, T):
        with open(name, 'w') as text:
            text.write('# comment line\n   nonsense\n\n')
            points = list(np.ndindex(nq))
            for x in rng.permutation(len(points)):
                for i, j, k, l in np.ndindex(no, no, no, no):
                    u = T[points[x]][j, i, l, k]
                    f = [a / b + (rng.integers(-1, 2) if b > 1 else 0)
                        for a, b in zip(points[x], nq)]
                    if rounded: # slightly below or above
                        f = [x + rng.integers(-1, 2) * 1e-6 for x in f]
                    text.write('%.6f %.6f %.6f %d %d %d %d %.12f %.12f\n' % (
                        *f, i + 1, j + 1, k + 1, l + 1, u.real, u.imag))

    write(name, T)
    full = elphmod.elel.read_orbital_Coulomb_interaction(name, nq, no)
    ctx.close('tensor from file', full, T, 1e-10, scale=abs(T).max())
    dd = elphmod.elel.read_orbital_Coulomb_interaction(name, nq, no, dd=True)
    ctx.close('density-density part from file', dd, W, 1e-10,
        scale=abs(T).max())
    kwargs = dict(a=at, r=r, no=no, nq=nq)
    read = elphmod.elel.Model(uijkl=name, **kwargs)
    compare(read, 'model from file', W, 1e-9)
    A, B = rng.normal(size=(2, *T.shape))
    write(ctx.file('Vfull'), A)
    write(ctx.file('Vredu'), B)
    corrected = elphmod.elel.Model(uijkl=name, vijkl_full=ctx.file('Vfull'),
        vijkl_redu=ctx.file('Vredu'), **kwargs)
    C = np.einsum('...aabb->...ab', A - B)
    compare(corrected, 'corrected model from file', W + C, 1e-9)
    # two-dimensional lattice defined by angle
    if nq[0] == nq[1] and nq[2] == 1:
        given = [nq[0], nq, nq[:2]][rng.integers(3)]
        opt = dict(nq=int(given) if np.ndim(given) == 0 else given, no=no)
    elif nq[2] == 1:
        opt = dict(nq=nq[:2], no=no)
    else:
        opt = dict(nq=nq, no=no)
    angle = float(rng.choice([60, 70, 90, 110, 120]))
    if rng.integers(3) == 0:
        angle = 120
    else:
        opt['angle'] = angle
    a = np.array([[1, 0, 0], [np.cos(np.radians(angle)), np.sin(np.radians(
        angle)), 0], [0, 0, 1]])
    flat = elphmod.elel.Model(uijkl=name, **opt)
    compare(flat, 'model of given angle', W, 1e-9)
    ref, gap = c09.brute(nq, a, np.zeros((no, 3)), np.zeros((no, 3)), +1)
    if gap and not c09.outside(ref, nq, +1):
        q = m.kpoint(rng)
        length = (flat.R.dot(a) ** 2).sum(axis=1)
        for n, R in enumerate(flat.R): # shortest among equivalent ones
            other = R + np.array(list(np.ndindex(3, 3, 3))) * nq - nq
            other = (other.dot(a) ** 2).sum(axis=1)
            ctx.true('shortest lattice vectors', length[n] <= other.min()
                + 1e-6, (R, angle))
        ctx.seen('angles')


@check.family(30)
def fold(ctx, i):
    """Supercells fold the spectrum."""
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    elel = m.coulomb(rng, dim=dim, n=int(rng.integers(1, 5)))
    R, data = elel.R.copy(), elel.data.copy()
    if rng.integers(3) == 0:
        part = rng.normal(size=data[0].shape)
        elel.R = np.vstack([R, R[:1]])
        elel.data = np.concatenate([data, part[None]])
        elel.data[0] -= part
    before = fingerprint([elel.R, elel.data])
    N, n = draw_matrix(rng)
    ctx.note(size=elel.size, R=R, N=N)
    sc = elel.supercell(*arguments(rng, N))
    scale = abs(data).sum()
    cells = np.array(sc.cells)
    ctx.equal('size', (sc.size, len(cells)), (n * elel.size, n))
    ctx.equal('supercell vectors', [tuple(map(int, x)) for x in sc.N],
        [tuple(map(int, x)) for x in N])
    K = m.kpoint(rng)
    W = sc.W(*K)
    ctx.close('Hermitian', W, W.conj().T, 1e-11, scale=scale)
    points = folded(N, K)
    ctx.close('union of folded spectra', np.linalg.eigvalsh(W),
        union(lambda *q: m.fourier(R, data, q), points), 1e-10, scale=scale)
    for q in points[:3]:
        B = np.kron(np.exp(1j * cells.dot(q))[:, None], np.eye(elel.size))
        ctx.close('Bloch waves stay Bloch waves', W.dot(B), B.dot(m.fourier(
            R, data, q)), 1e-10, scale=scale)
    index = {tuple(r): x for x, r in enumerate(R.tolist())}
    for _ in range(4):
        x, y = map(int, rng.integers(n, size=2))
        T = rng.integers(-1, 2, 3)
        d = tuple((T.dot(N) + cells[y] - cells[x]).tolist())
        ctx.close('matrix element', sc.WR(*T)[x * elel.size:(x + 1)
            * elel.size, y * elel.size:(y + 1) * elel.size], data[index[d]]
            if d in index else 0 * data[0], 1e-11, scale=scale)
    ctx.equal('model unchanged', fingerprint([elel.R, elel.data]), before)
    sc.standardize()
    ctx.close('standardized supercell', sc.W(*K), W, 1e-11, scale=scale)
    if n < 4:
        M, k = draw_matrix(rng, 3)
        second = sc.supercell(*arguments(rng, M))
        ctx.close('nested supercell', np.linalg.eigvalsh(second.W(*K)),
            union(lambda *q: m.fourier(R, data, q), folded(M.dot(N), K)),
            1e-10, scale=scale)


@check.family(24)
def files(ctx, i):
    """Files written and read agree to the printed precision."""
    import elphmod
    rng = ctx.rng
    elel = m.coulomb(rng, n=int(rng.integers(0, 6)))
    elel.data = elel.data + 1j * rng.normal(size=elel.data.shape)
    elel.data *= 10.0 ** rng.integers(-1, 3)
    name = ctx.file('dat.Wmat')
    ctx.note(size=elel.size, R=elel.R)
    before = fingerprint([elel.R, elel.data])
    elel.to_Wmat(name)
    ctx.equal('model unchanged', fingerprint([elel.R, elel.data]), before)
    read = elphmod.elel.Model(Wmat=name)
    ctx.equal('size', read.size, elel.size)
    ctx.equal('lattice vectors', np.array(read.R), elel.R)
    ctx.close('interaction', read.data, elel.data, atol=1e-10, rtol=1e-12)
    # onto mesh: each vector once
    nq = (5, 5, 5)
    at, r = c09.reduced_lattice(rng), np.zeros((elel.size, 3))
    mapped = elphmod.elel.Model(Wmat=name, nq=nq, a=at, r=r)
    for _ in range(3):
        q = 2 * np.pi * rng.integers(0, 5, 3) / 5
        ctx.close('mapped to mesh', mapped.W(*q), elel.W(*q), 1e-8,
            scale=abs(elel.data).sum())
    # single-band interaction
    nQ, nk = map(int, rng.integers(1, 4, 2))
    U = rng.normal(size=(nQ, nk, nk, nk, nk)) * 10 + 1j * rng.normal(
        size=(nQ, nk, nk, nk, nk))
    binary = bool(rng.integers(2))
    name = ctx.file('U' + ('.npy' if binary and rng.integers(2) else ''))
    kept = U.copy()
    elphmod.elel.write_band_Coulomb_interaction(name, U, binary=binary)
    V = elphmod.elel.read_band_Coulomb_interaction(name, nQ, nk,
        binary=binary, share=bool(rng.integers(2)))
    ctx.close('band interaction', V, U, atol=0 if binary else 1e-9,
        rtol=1e-15)
    ctx.equal('argument unchanged', U, kept)
    # local tensor
    no = int(rng.integers(1, 4))
    T = rng.normal(size=(no,) * 4) + 1j * rng.normal(size=(no,) * 4)
    name = ctx.file('local')
    with open(name, 'w') as text:
        text.write('# I J K L RE(U) IM(U)\n\n')
        for x in rng.permutation(no ** 4):
            a = np.unravel_index(x, (no,) * 4)
            text.write(' %d %d %d %d %.12f %.12f\n' % (*[y + 1 for y in a],
                T[a].real, T[a].imag))
    ctx.close('local tensor', elphmod.elel.read_local_Coulomb_tensor(name,
        no), T, 1e-11, 1e-12)
    ctx.close('local density-density', elphmod.elel
        .read_local_Coulomb_tensor(name, no, dd=True),
        np.einsum('aabb->ab', T), 1e-11, 1e-12, scale=abs(T).max())


@check.family(16)
def bands(ctx, i):
    """Coulomb interaction in the band basis."""
    import elphmod
    rng = ctx.rng
    no = int(rng.integers(1, 4))
    nq = int(rng.integers(1, 4))
    nk = nq * int(rng.integers(1, 3 if nq < 3 else 2))
    nqC = nq * int(rng.integers(1, 3))
    if i % 4 == 3: # dense mesh for single orbital
        no, nq = 1, int(rng.integers(2, 4))
        nk, nqC = nq, nq * int(rng.integers(40, 300))
    band = int(rng.integers(no))
    dd = bool(rng.integers(2))
    el = m.electrons(rng, size=no, dim=2, n=4)
    U = rng.normal(size=(nqC, nqC) + (no,) * 4) + 1j * rng.normal(
        size=(nqC, nqC) + (no,) * 4)
    ctx.note(no=no, nq=nq, nk=nk, nqC=nqC, band=band, dd=dd, R=el.R)
    kept = U.copy()
    V = elphmod.elel.orbital2band(U, el.H, nq, nk, band=band, dd=dd,
        share=bool(rng.integers(2)))
    ctx.equal('argument unchanged', U, kept)
    Q = sorted(elphmod.bravais.irreducibles(nq))
    ctx.equal('shape', V.shape, (len(Q), nk, nk, nk, nk))
    E = np.empty((nk, nk, no))
    psi = np.empty((nk, nk, no), dtype=complex)
    for k in np.ndindex(nk, nk):
        E[k], u = np.linalg.eigh(m.fourier(el.R, el.data, [2 * np.pi * x / nk
            for x in k]))
        psi[k] = u[:, band]
    if no > 1 and np.diff(E, axis=-1).min() < 1e-6:
        raise Skip('degenerate bands')
    own = elphmod.dispersion.dispersion_full_nosym(el.H, nk, vectors=True,
        gauge=True)[1][..., band]
    if dd:
        diag = np.einsum('qpaabb->qpab', U)
    for iq, (q1, q2) in enumerate(Q):
        u = U[q1 * nqC // nq, q2 * nqC // nq]
        for k in np.ndindex(nk, nk):
            kq = (k[0] + q1 * nk // nq) % nk, (k[1] + q2 * nk // nq) % nk
            for K in np.ndindex(nk, nk):
                Kq = (K[0] + q1 * nk // nq) % nk, (K[1] + q2 * nk // nq) % nk

                def element(p):
                    if dd:
                        return (p[kq] * p[k].conj()).dot(diag[q1 * nqC // nq,
                            q2 * nqC // nq]).dot(p[K] * p[Kq].conj())
                    return np.einsum('abcd,a,b,c,d', u, p[kq], p[k].conj(),
                        p[K], p[Kq].conj())

                got = V[(iq, *k, *K)]
                ctx.close('magnitude', abs(got), abs(element(psi)), 1e-9,
                    scale=abs(U).max() * no)
                ctx.close('value in fixed gauge', got, element(own), 1e-9,
                    scale=abs(U).max() * no)


@check.family(20)
def hartree(ctx, i):
    """Hartree energy is the sum over nonzero vectors."""
    import elphmod
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    G = rng.normal(size=(n, 3)) * 3
    G[0] = 0
    rho = rng.normal(size=n) + 1j * rng.normal(size=n)
    volume, a = rng.uniform(10, 500), rng.uniform(1, 6)
    ctx.note(n=n, volume=volume, a=a)
    before = fingerprint([rho, G])
    args = (rho, G, n, volume) if i % 3 == 0 else (rho, G, n, volume, a)
    E = elphmod.elel.hartree_energy(*args)
    a = (1.0 if i % 3 == 0 else a) / elphmod.misc.a0
    # e^2 / 2 * 4 pi * volume * sum |rho|^2 / G^2 with e^2 = 2
    ref = sum(4 * np.pi * volume * abs(rho[x]) ** 2 / (sum(G[x] ** 2)
        * (2 * np.pi / a) ** 2) for x in range(1, n))
    ctx.close('energy', E, ref, 1e-11, scale=abs(ref) + 1e-300)
    ctx.equal('arguments unchanged', fingerprint([rho, G]), before)
    phase = np.exp(1j * rng.uniform(0, 7, n))
    ctx.close('independent of phases', elphmod.elel.hartree_energy(rho
        * phase, *args[1:]), ref, 1e-11, scale=abs(ref) + 1e-300)
    keep = int(rng.integers(1, n + 1))
    ctx.close('number of vectors', elphmod.elel.hartree_energy(rho, G, keep,
        *args[3:]), sum(4 * np.pi * volume * abs(rho[x]) ** 2 / (sum(G[x]
        ** 2) * (2 * np.pi / a) ** 2) for x in range(1, keep)), 1e-11,
        scale=abs(ref) + 1e-300)
