"""C01: results do not depend on number of processes or shared memory."""

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m

check = Check('C01', 'A case is one program (random input and options) run '
    'with one number of processes, node layout and pattern of delays; '
    'distinct by these; non-trivial since there are at least two processes.')
check.parallel = True


def hermitian(rng, n, kind=None):
    """Random periodic matrix function."""
    el = m.electrons(rng, size=n, dim=3)
    return el.H


def mesh_points(rng):
    """List or mesh of k points, possibly fewer than processes."""
    d = int(rng.integers(1, 4))
    shape = tuple(map(int, rng.integers(1, 5, int(rng.integers(1, 3)))))
    return rng.uniform(0, 2 * np.pi, (*shape, d))


@check.family(20)
def bands(ctx, i):
    """Dispersion for all options."""
    import elphmod
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 6]))
    H = hermitian(rng, n)
    k = mesh_points(rng)
    opt = dict(vectors=bool(rng.integers(2)), gauge=bool(rng.integers(2)))
    if rng.integers(2):
        opt['order'] = True
        opt['by_mean'] = bool(rng.integers(2))
    if n in (3, 6) and k.shape[-1] > 1 and rng.integers(2):
        opt['rotate'] = True
    if rng.integers(4) == 0:
        opt['hermitian'] = False
        A = rng.normal(size=(n, n))
        plain = H
        H = lambda *x: plain(*x) + 0.3 * A
    ctx.note(n=n, k=k.shape, **opt)
    for everyone, shared in ctx.variants((True, False), (False, True)):
        out = elphmod.dispersion.dispersion(H, k, broadcast=everyone,
            shared_memory=shared, **opt)
        ctx.result('all results', out, root=not everyone)


@check.family(16)
def full_bands(ctx, i):
    """Dispersion on complete mesh."""
    import elphmod
    rng = ctx.rng
    N = int(rng.choice([2, 3, 4, 6]))
    n = int(rng.integers(1, 4))
    opt = dict(vectors=bool(rng.integers(2)), order=bool(rng.integers(2)))
    ctx.note(N=N, n=n, **opt)
    if rng.integers(2):
        H = hermitian(rng, n)
        if n > 1 and rng.integers(2):
            opt['gauge'] = True
        function = elphmod.dispersion.dispersion_full_nosym
    else: # hexagonal symmetry
        A = rng.normal(size=(3, n, n))
        A = A + A.swapaxes(1, 2)

        def H(k1=0, k2=0, k3=0):
            c = np.cos(k1) + np.cos(k2) + np.cos(k1 - k2)
            d = (np.cos(k1 + k2) + np.cos(2 * k1 - k2) + np.cos(2 * k2 - k1))
            return A[0] + c * A[1] + d * A[2]

        N += N % 2
        function = elphmod.dispersion.dispersion_full
        opt['angle'] = 60
    for everyone, shared in ctx.variants((True, False), (False, True)):
        out = function(H, N, broadcast=everyone, shared_memory=shared, **opt)
        ctx.result('all results', out, root=not everyone)


@check.family(8)
def sampling(ctx, i):
    """Functions sampled on k points, unfolding weights."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng, dim=3)
    k = mesh_points(rng)
    ctx.note(size=el.size, k=k.shape)
    ctx.result('sampled', elphmod.dispersion.sample(el.H, k))
    cells = [(0, 0, 0), (1, 0, 0)]
    n = int(rng.integers(1, 6))
    x = rng.normal(size=(2, n, 2 * el.size, 2 * el.size))
    U = np.linalg.qr(x[0] + 1j * x[1])[0]
    ctx.result('unfolding weights', elphmod.dispersion.unfolding_weights(
        rng.normal(size=(n, 3)), cells, U[:, :el.size, :el.size], U))


def ordered(*lists, data=()):
    """Bring lattice vectors (and data along their axes) into unique order."""
    out = []
    orders = [np.lexsort(np.asarray(R).reshape((-1, 3)).T) for R in lists]
    for R, order in zip(lists, orders):
        out.append(np.asarray(R)[order])
    for x, axes in data:
        for axis, order in zip(axes, orders):
            x = np.take(x, order, axis=axis)
        out.append(x)
    return out


def vectors(rng, *shape):
    """Random unitary matrices."""
    x = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    return np.linalg.qr(x)[0]


@check.family(20)
def coupling(ctx, i):
    """Coupling sampled with all distributions of work."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.choice([1, 2, 2, 3]))
    elph = m.coupling(rng, dim=dim)
    nk = tuple(map(int, rng.integers(1, 4, dim)))
    if dim == 2 and rng.integers(4):
        nk = nk[:1] * 2
    nq = int(rng.integers(1, 6))
    q = [tuple(m.rounded(rng, [2 * np.pi * int(rng.integers(b)) / b
        for b in nk])) for _ in range(nq)]
    U = vectors(rng, *nk, elph.el.size, elph.el.size)
    u = vectors(rng, nq, elph.ph.size, elph.ph.size)
    nb = int(rng.integers(1, elph.el.size + 1))
    opt = {}
    if rng.integers(2):
        opt['U'] = U[..., :nb]
    if rng.integers(2):
        opt['u'] = u
    if rng.integers(2):
        opt['squared'] = True
    ctx.note(nk=nk, nq=nq, size=elph.el.size, nat=elph.ph.nat,
        options=sorted(opt))
    infer = 'U' in opt and rng.integers(2)
    for everyone, shared in ctx.variants((True, False), (False, True)):
        g = elph.sample(q, nk=None if infer else nk, broadcast=everyone,
            shared_memory=shared, **opt)
        ctx.result('sampled coupling', g, root=not everyone)
    ctx.result('afterwards', elph.g(*rng.normal(size=6)))
    if dim == 2 and nk[0] == nk[1]:
        plain = elph.sample(q, nk)
        for everyone, shared in ctx.variants((True, False), (False, True)):
            g = elphmod.elph.transform(plain, q, nk[0], broadcast=everyone,
                shared_memory=shared, **opt)
            ctx.result('transformed coupling', g, root=not everyone)


@check.family(16)
def single_coupling(ctx, i):
    """Coupling for single points, together and on their own."""
    import elphmod
    rng = ctx.rng
    elph = m.coupling(rng, dim=int(rng.integers(1, 4)))
    points = rng.uniform(0, 6, (int(rng.integers(2, 9)), 6))
    points[1:, :3] = points[rng.integers(2, size=len(points) - 1), :3]
    comm = elphmod.MPI.comm
    ctx.note(size=elph.el.size, nat=elph.ph.nat, points=len(points))
    for n, p in enumerate(points):
        opt = dict(elbnd=bool(rng.integers(2)), phbnd=bool(rng.integers(2)))
        others = rng.uniform(0, 6, (8, 6))
        kind = ctx.variant('all', 'root', 'alone', 'one', 'split')
        if kind == 'all':
            ctx.result('coupling', elph.g(*p, **opt))
        elif kind == 'root':
            ctx.result('coupling', elph.g(*p, broadcast=False, **opt),
                root=True)
        elif kind == 'alone': # every process moves on to another point first
            elph.g(*others[comm.rank % 8], comm=elphmod.MPI.I)
            ctx.result('coupling', elph.g(*p, comm=elphmod.MPI.I, **opt))
        elif kind == 'one': # one process changes its mind
            if comm.rank == n % comm.size:
                elph.g(*points[0][::-1], comm=elphmod.MPI.I)
            ctx.result('coupling', elph.g(*p, **opt))
        else:
            sub = comm.Split(comm.rank % 2, key=comm.rank)
            ctx.result('coupling', elph.g(*p, comm=sub, **opt))
    ctx.result('real space', [elph.gR(*R, *S) for R in elph.Rg[:2]
        for S in elph.Rk[:2]])


@check.family(16)
def coupling_models(ctx, i):
    """Operations on coupling models with and without shared memory."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 3))
    elph = m.coupling(rng, dim=dim, asr=bool(rng.integers(2)))
    N = [1, 1, 1]
    N[int(rng.integers(dim))] = 2
    p = rng.uniform(0, 6, 6)
    ctx.note(size=elph.el.size, nat=elph.ph.nat, N=N)
    kind = int(rng.integers(4))
    if kind == 0:
        for shared, in ctx.variants((False, True)):
            sc = elph.supercell(*N, shared_memory=shared)
            ctx.result('supercell', (sc.Rg, sc.Rk, sc.data))
            ctx.result('supercell coupling', sc.g(*p))
            sc.standardize(eps=1e-3 * abs(sc.data).max())
            ctx.result('standardized supercell', (sc.Rg, sc.Rk, sc.data))
    elif kind == 1:
        sc = elph.supercell(*N, sparse=True)
        ctx.result('sparse supercell', [g.toarray() for g in sc.gs])
    elif kind == 2:
        nq = tuple(2 if x < dim else 1 for x in range(3))
        nk = tuple(2 if x < dim else 1 for x in range(3))
        q = [2 * np.pi * np.array(x) / nq for x in np.ndindex(*nq)]
        elph.el.nk, elph.ph.nq = nk, nq
        g = elph.sample(q, nk, shared_memory=ctx.variant(False, True))
        r = rng.uniform(0, 1, (elph.el.size, 3)).dot(elph.ph.a)
        elphmod.elph.q2r(elph, nq, nk, g, r, elph.divide_mass,
            shared_memory=ctx.variant(False, True))
        ctx.result('real-space coupling', ordered(elph.Rg, elph.Rk,
            data=[(elph.data, (0, 2))]))
        elph.asr(report=False)
        ctx.result('sum rule', ordered(elph.Rg, elph.Rk,
            data=[(elph.data, (0, 2))]))
    else:
        elph.symmetrize()
        ctx.result('symmetrized', (elph.Rg, elph.Rk, elph.data))
        elph.clear()
        ctx.result('cleared', (elph.Rg, elph.data.shape))
    ctx.result('coupling', elph.g(*p) if elph.data.size else None)


@check.family(12)
def electron_models(ctx, i):
    """Operations on tight-binding and interaction models."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng) if rng.integers(2) else m.coulomb(rng)
    N = rng.integers(1, 3, 3)
    eps = float(rng.choice([0.0, 0.3]))
    ctx.note(kind=type(el).__module__, size=el.size, N=N, eps=eps)
    sc = el.supercell(*map(int, N))
    ctx.result('supercell', (sc.R, sc.data, sc.cells))
    sc.standardize(eps=eps)
    ctx.result('standardized', (sc.R, sc.data))
    if hasattr(sc, 'H'):
        back = sc.unit_cell()
        ctx.result('unit cell', (back.R, back.data))
        sc.symmetrize()
        ctx.result('symmetrized', (sc.R, sc.data))
        sp = el.supercell(*map(int, N), sparse=True)
        ctx.result('sparse supercell', [h.toarray() for h in sp.Hs])
        name = ctx.file('x')
        el.to_hrdat(name)
        new = elphmod.el.Model(name, rydberg=True)
        ctx.result('file', (new.R, new.data))
    else:
        name = ctx.file('x.Wmat')
        el.to_Wmat(name)
        ctx.comm.Barrier()
        new = elphmod.elel.Model(Wmat=name)
        ctx.result('file', (new.R, new.data))


@check.family(16)
def phonon_models(ctx, i):
    """Operations on mass-spring models, sum rules, files."""
    import elphmod
    rng = ctx.rng
    polar = rng.integers(3) == 0
    ph = m.phonon(rng, dim=int(rng.integers(1, 4)), rmax=1, polar=polar,
        divide_mass=bool(rng.integers(2)))
    N = [1, 1, 1]
    N[int(rng.integers(3))] = 2
    ctx.note(nat=ph.nat, polar=polar, N=N)
    q = rng.uniform(0, 6, 3)
    kind = int(rng.integers(3))
    if kind == 0:
        sc = ph.supercell(*N)
        ctx.result('supercell', (sc.R, sc.data, sc.r, sc.M))
        back = sc.unit_cell()
        ctx.result('unit cell', (back.R, back.data))
        sc.standardize(eps=1e-3 * abs(sc.data).max())
        ctx.result('standardized', (sc.R, sc.data))
        if not polar:
            sp = ph.supercell(*N, sparse=True)
            ctx.result('sparse supercell', [d.toarray() for d in sp.Ds])
    elif kind == 1:
        asr, rsr = [(1, 0), (0, 1), (1, 1)][rng.integers(3)]
        ph.symmetrize()
        elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=False)
        ctx.result('sum rules', ph.data)
    name = ctx.file('x.ifc')
    ph.to_flfrc(name, *[int(x) for x in rng.integers(2, 4, 3)])
    opt = {}
    if rng.integers(2):
        opt['apply_asr_simple'] = True
    if rng.integers(2):
        opt['apply_asr'] = True
    if polar:
        opt['lr'] = bool(rng.integers(2))
    if polar and rng.integers(2):
        opt['apply_zasr'] = True
    new = elphmod.ph.Model(name, divide_mass=bool(rng.integers(2)), lr2d=False,
        **opt)
    ctx.result('file', (*ordered(new.R, data=[(new.data, (0,))]), new.M, new.r,
        new.atom_order, tuple(new.nq)))
    ctx.result('dynamical matrix', new.D(*q))
    n = int(rng.integers(1, 4))
    D = elphmod.dispersion.sample(new.D, rng.uniform(0, 6, (n, 3)))
    omega = np.linspace(0.01, 1, int(rng.integers(1, 7)))
    ctx.result('spectral function', elphmod.ph.spectral_function(np.repeat(
        D[..., None], len(omega), axis=-1), omega, 0.1))


@check.family(20)
def diagrams(ctx, i):
    """Perturbation theory."""
    from elphmod import diagrams as d, MPI
    rng = ctx.rng
    nk = tuple(map(int, rng.integers(1, 4, 2)))
    nb, modes, nq = map(int, rng.integers(1, 4, 3))
    nq += int(rng.integers(3))
    e = rng.normal(size=(*nk, nb))
    q = [tuple(m.rounded(rng, [2 * np.pi * int(rng.integers(b)) / b
        for b in nk])) for _ in range(nq)]
    g = rng.normal(size=(nq, modes, *nk, nb, nb)) + 1j * rng.normal(size=(nq,
        modes, *nk, nb, nb))
    g2 = abs(g) ** 2
    kT = float(rng.uniform(0.05, 0.5))
    ctx.note(nk=nk, nb=nb, modes=modes, nq=nq, kT=kT)
    comm = ctx.variant(MPI.comm, MPI.comm, MPI.I)
    kind = int(rng.integers(7))
    if kind == 0:
        opt = dict(fluctuations=True) if rng.integers(2) else {}
        ctx.result('self-energy', d.phonon_self_energy(q, e, g2, kT=kT,
            comm=comm, **opt))
        ctx.result('matrix self-energy', d.phonon_self_energy(q, e, g=g,
            kT=kT, comm=comm, omega=ctx.rng.normal(size=2) + 0.1j))
        ctx.result('bubble', d.phonon_self_energy(q, e, kT=kT, comm=comm))
    elif kind == 1:
        ctx.result('double delta', d.double_fermi_surface_average(q, e, g2,
            kT=kT, comm=comm))
    elif kind == 2:
        W = rng.normal(size=(nq, nb, nb))
        U = vectors(rng, *nk, nb, nb)
        ctx.result('polarization times coupling', d.Pi_g(q, e, g, U, kT=kT,
            status=False, dd=True))
        ctx.result('dressed coupling', d.renormalize_coupling_band(q, e, g,
            W, U, kT=kT, status=False))
        g_ = g * rng.normal(size=g.shape)
        ctx.result('dressed coupling', d.renormalize_coupling_orbital(q, e,
            g_, W, U, kT=kT, status=False))
    elif kind == 3:
        w = rng.uniform(0.1, 1, (nq, modes))
        full = [tuple(2 * np.pi * np.array(x) / nk) for x in np.ndindex(*nk)]
        w = rng.uniform(0.1, 1, (len(full), modes))
        k = full[:int(rng.integers(1, len(full) + 1))]
        w = w.reshape((*nk, modes))
        gg = rng.uniform(0, 1, (*nk, modes, len(k), nb, nb))
        omega = rng.normal(size=int(rng.integers(1, 4))) + 0.1j
        ctx.result('Fan-Migdal', d.fan_migdal_self_energy(k, e, w, gg, omega,
            kT=kT, comm=comm))
    elif kind == 4:
        omega = np.linspace(-1, 1, 2 * int(rng.integers(1, 5)) + 1)
        v = rng.normal(size=(*nk, nb, 2))
        A = rng.uniform(0, 1, (*nk, nb, len(omega)))
        ctx.result('conductivity', d.green_kubo_conductivity(v, A, omega,
            kT=kT, comm=comm))
        ctx.result('conductivity', d.green_kubo_conductivity(v, A, omega,
            kT=kT, dc_only=True, comm=comm))
    elif kind == 5:
        n = int(rng.integers(2, 5))
        e = rng.normal(size=(n, n))
        g2 = rng.uniform(0, 1, (nq, modes, n, n))
        q = m.rounded(rng, 2 * np.pi * rng.integers(n, size=(nq, 2)) / n)
        ctx.result('Matsubara self-energy', d.phonon_self_energy2(q, e, g2,
            kT=kT, nmats=4))
    else:
        ctx.result('susceptibility', [d.susceptibility(np.ones((3, 3)) * e[0,
            0, 0])(*q[0])])
        ctx.result('grand potential', d.grand_potential(e, kT=kT))
        ctx.result('first order', d.first_order(e, g[0], kT=kT))
        ctx.result('triangle', d.triangle(q[0], q[-1], e, g[0, 0], g[-1, 0], g[0,
            -1], kT=kT))


@check.family(16)
def molecular_dynamics(ctx, i):
    """Energies, forces, and Hessian of MD driver."""
    import elphmod
    import elphmod.md
    rng = ctx.rng
    dim, elph = c17.draw(rng)
    name, f, kT, n = c17.smear(rng, elph.el)
    nq = tuple(int(x) for x in rng.integers(1, 3, dim))
    nk = tuple(x * int(rng.integers(1, 3)) for x in nq)
    ctx.note(size=elph.el.size, nat=elph.ph.nat, nk=nk, nq=nq, f=name, n=n)
    opt = dict(nk=nk, nq=nq, unscreen=bool(rng.integers(2)))
    driver = elphmod.md.Driver(elph, kT, f, n, shared_memory=ctx.variant(False,
        True), **opt)
    u = rng.normal(size=elph.ph.size) * 0.1
    tol = dict(rtol=1e-9)
    ctx.result('free energy', driver.free_energy(u, show=False))
    ctx.result('forces', driver.jacobian(show=False))
    ctx.result('Fermi level', driver.mu)
    gamma = bool(rng.integers(2))
    H = driver.hessian(gamma_only=gamma)
    ctx.result('Hessian', H, )
    ctx.result('density', driver.density())
    if rng.integers(2):
        lamda = driver.superconductivity()
        ctx.result('superconductivity', lamda)
    name = ctx.file('x.xyz')
    driver.to_xyz(name)
    driver.random_displacements(0.1)
    first = np.array(elphmod.MPI.comm.allgather(driver.u.tolist()))
    ctx.result('same displacements', bool(np.all(first == first[0])))
    driver.from_xyz(name)
    ctx.result('trajectory', driver.u)
    ph = driver.phonons()
    ctx.result('phonons', ordered(ph.R, data=[(ph.data, (0,))]))
    el = driver.electrons()
    ctx.result('electrons', ordered(el.R, data=[(el.data, (0,))]))
    if rng.integers(2):
        name = ctx.file('driver')
        driver.save(name)
        again = elphmod.md.Driver.load(name)
        ctx.result('saved driver', again.free_energy(u, show=False))
    ctx.result('free energy again', driver.free_energy(u, show=False))


@check.family(16)
def fermi_surface(ctx, i):
    """Densities of states, contours, effective couplings."""
    import elphmod
    rng = ctx.rng
    N = int(rng.integers(2, 7))
    e = rng.normal(size=(N, N))
    g = rng.uniform(size=(N, N))
    E = rng.normal(size=3)
    ctx.note(N=N, e=e)
    D = elphmod.dos.hexDOS(e)
    ctx.result('density of states', [D(x) for x in E])
    A = elphmod.dos.hexa2F(e, g)
    ctx.result('spectral function', [A(x) for x in E])
    y = rng.normal(size=(N, N))
    dd = elphmod.dos.double_delta(e, y, g if rng.integers(2) else None)
    for x in E[:2] * 0.3:
        w = dd(x)
        key = sorted(w, key=str) if isinstance(w, dict) else w
        ctx.result('double delta', (key, [w[k] for k in key])
            if isinstance(w, dict) else w)
    lines = elphmod.dos.isoline(e)(E[0] * 0.3)
    ctx.result('contours', len(lines))
    ctx.result('contours', sorted(round(float(np.linalg.norm(np.diff(line,
        axis=0), axis=1).sum()), 8) for line in lines))


@check.family(8)
def critical_temperature(ctx, i):
    """Effective couplings and critical temperatures."""
    import elphmod
    rng = ctx.rng
    nq, nk, nb, modes, e, q, w2, g2 = c21.draw(rng, symmetric=True)
    opt = c21.options(rng)
    tetra = bool(rng.integers(2))
    ctx.note(nq=nq, nk=nk, nb=nb, modes=modes, tetra=tetra)
    if tetra:
        opt['tetra'] = True
    else:
        opt['kT'] = 0.5
    if rng.integers(2):
        ctx.result('irreducible points', sorted(
            elphmod.bravais.irreducibles(nq)))
    ctx.result('McMillan', elphmod.eliashberg.McMillan(nq, e, w2, g2, **opt))


@check.family(16)
def images(ctx, i):
    """Images, colors, interpolation."""
    import elphmod
    rng = ctx.rng
    N = int(rng.integers(2, 6))
    mesh = rng.normal(size=(N, N))
    everyone = ctx.variant(True, False)
    kind = int(rng.integers(5))
    ctx.note(N=N, kind=kind)
    if kind == 0:
        ctx.result('image', elphmod.plot.plot(mesh, resolution=int(
            rng.integers(1, 5)), broadcast=everyone), root=not everyone)
    elif kind == 1:
        q = [(0, 0), (2 * np.pi / N, 0)]
        ctx.result('image', elphmod.plot.double_plot(rng.normal(size=(len(q),
            N, N)), q, N, resolution=3, broadcast=everyone),
            root=not everyone)
    elif kind == 2:
        ctx.result('image', elphmod.plot.toBZ(mesh, points=int(rng.integers(2,
            8)), broadcast=everyone, outside=0.0), root=not everyone)
    elif kind == 3:
        comm = ctx.variant(elphmod.MPI.comm, elphmod.MPI.I)
        ctx.result('colors', elphmod.plot.color(mesh, c23.Map([0, 0.3, 1]),
            comm=comm))
    else:
        angle = int(rng.choice([60, 90, 120]))
        ctx.result('resized', elphmod.bravais.resize(mesh, tuple(map(int,
            rng.integers(1, 7, 2))), angle=angle))
        a = c09.reduced_lattice(rng)
        tau = c09.sites(rng, int(rng.integers(1, 4)), a)
        nr = c09.draw_mesh(rng, 12)
        R, ndegen, length = elphmod.bravais.wigner(*nr, a, tau)
        ctx.result('Wigner-Seitz vectors', ordered(R, data=[(ndegen, (0,)),
            (length, (0,))]))
        n = 3 * len(tau)
        data = rng.normal(size=(*nr, n, n))
        phid = data.reshape((*nr, len(tau), 3, len(tau), 3)).transpose((3, 5,
            0, 1, 2, 4, 6))
        R, data, length = elphmod.bravais.short_range_model(
            np.ascontiguousarray(phid), a, tau, sgn=-1)
        ctx.result('short-range model', ordered(R, data=[(data, (0,)),
            (length, (0,))]))


@check.family(12)
def files(ctx, i):
    """Files read by all processes."""
    import elphmod
    rng = ctx.rng
    comm = elphmod.MPI.comm
    shape = tuple(map(int, rng.integers(1, 5, 3)))
    a = m.lattice(rng)
    X = ['C', 'Ta'][:int(rng.integers(1, 3))]
    tau = rng.normal(size=(len(X), 3))
    r0 = rng.normal(size=3)
    data = rng.normal(size=shape)
    ctx.note(shape=shape, X=X)
    name = ctx.file('x.xsf')
    elphmod.misc.write_xsf(name, r0, a, X, tau, data)
    sub = ctx.variant(comm, elphmod.MPI.I)
    comm.Barrier()
    ctx.result('grid', elphmod.misc.read_xsf(name, comm=sub))
    ctx.result('grid header', elphmod.misc.read_xsf(name, comm=sub,
        only_header=True))
    for shared, in ctx.variants((False, True)):
        ctx.result('grid points', elphmod.misc.real_space_grid(shape, r0, a,
            shared_memory=shared))
    el = m.electrons(rng)
    name = ctx.file('w')
    el.to_hrdat(name)
    W = rng.normal(size=(el.size, 2, 3, 2))
    for n in range(el.size):
        elphmod.misc.write_xsf('%s_%05d.xsf' % (name, n + 1), r0, a, X, tau,
            W[n])
    comm.Barrier()
    got = elphmod.el.Model(name, read_xsf=True, normalize_wf=bool(
        rng.integers(2)), buffer_wf=bool(rng.integers(2)),
        shared_memory=ctx.variant(False, True))
    ctx.result('wave functions', (got.W, got.r, got.tau, got.dV))
    bands = rng.normal(size=(3, 5))
    name = ctx.file('bands')
    elphmod.el.write_bands(name, rng.normal(size=(5, 3)), bands)
    ctx.result('bands', elphmod.el.read_bands(name))
    struct = dict(ibrav=0, nat=2, ntyp=1, at_species=['H'], mass=[1.0],
        pp=['H.UPF'], at=['H', 'H'], r=rng.normal(size=(2,
        3)), coords='angstrom', cell_units='angstrom', primitives=a)
    name = ctx.file('x.pwi')
    elphmod.bravais.write_pwi(name, struct)
    back = elphmod.bravais.read_pwi(name)
    ctx.result('input', sorted(back))
    ctx.result('input geometry', (back['r'], back.get('primitives')))


@check.family(12)
def interactions(ctx, i):
    """Coulomb interaction of a single band."""
    import elphmod
    rng = ctx.rng
    no = int(rng.integers(1, 3))
    nq = int(rng.choice([1, 2, 3]))
    nk = nq * int(rng.integers(1, 3))
    el = m.electrons(rng, size=no, dim=2)
    dd = bool(rng.integers(2))
    # only the Hermitian interaction of irreducible points matters
    elel = m.coulomb(rng, size=no, dim=2)
    W = elphmod.dispersion.sample(elel.W, [[2 * np.pi * np.array((x, y)) / nq
        for y in range(nq)] for x in range(nq)])
    U = np.zeros((nq, nq, no, no, no, no), dtype=complex)
    for x in range(no):
        for y in range(no):
            U[:, :, x, x, y, y] = W[..., x, y]
    ctx.note(no=no, nq=nq, nk=nk, dd=dd)
    band = int(rng.integers(no))
    for share, in ctx.variants((True, False)):
        V = elphmod.elel.orbital2band(U, el.H, nq, nk, band=band, share=share,
            dd=dd)
        ctx.result('band basis', V, root=not share)
    nQ, n = map(int, rng.integers(1, 3, 2))
    V = rng.normal(size=(nQ, n, n, n, n)) + 0j
    name = ctx.file('V.npy')
    binary = bool(rng.integers(2))
    elphmod.elel.write_band_Coulomb_interaction(name, V, binary=binary)
    for share, in ctx.variants((True, False)):
        ctx.result('file', elphmod.elel.read_band_Coulomb_interaction(name, nQ,
            n, binary=binary, share=share), root=not share)


# programs of other checks (with their own oracles) run in parallel:

from vmon.checks import (c05, c08, c09, c11, c12, c13, c14, c15, c16, c17, c18,
    c19, c20, c21, c22, c23, c25) # noqa: E402


check.replay(c05.check, 2)
check.replay(c08.check, 3)
check.replay(c09.check, 9)
check.replay(c11.check, 9)
check.replay(c12.check, 6)
check.replay(c13.check, 6)
check.replay(c14.check, 6, 'polar_supercell')
check.replay(c15.check, 6)
check.replay(c16.check, 6)
check.replay(c17.check, 5, 'picture')
check.replay(c18.check, 6)
check.replay(c19.check, 5)
check.replay(c20.check, 6)
check.replay(c21.check, 6)
check.replay(c22.check, 6)
check.replay(c23.check, 5)
check.replay(c25.check, 3, 'progress_bar')
