"""C18: files of models survive a write/read round trip."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks import c15

check = Check('C18', 'A case is one random object (model, table, grid) written '
    'to a file and read back; distinct by content and shape; non-trivial if '
    'the file holds more than one number.', boost=14)

check.include(c15.check, 'files', share=0.3)

NAMES = ['H', 'C', 'Ta', 'Ta1', 'S', 'Se', 'O12', 'Fe2', 'W']


def body(name, skip=0):
    with open(name) as text:
        return text.read().split('\n', skip)[-1]


@check.family(14)
def hopping(ctx, i):
    """Tight-binding models as Wannier90 files."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    el = m.electrons(rng, n=int(rng.integers(1, 14)), dim=dim,
        rmax=int(rng.integers(1, 4)), scale=10.0 ** rng.integers(-3, 1))
    # (the columns of the file format hold less than 1000 eV)
    el.data *= min(1.0, 60.0 / abs(el.data).max())
    el.rydberg = bool(rng.integers(2))
    el.divide_ndegen = True
    Ry = elphmod.misc.Ry
    unit = Ry if el.rydberg else 1.0
    ctx.note(size=el.size, vectors=len(el.R), rydberg=el.rydberg)
    before = fingerprint((el.R, el.data))
    name = ctx.file('x')
    el.to_hrdat(name)
    ctx.equal('model unchanged', fingerprint((el.R, el.data)), before)
    R, H = elphmod.el.read_hrdat(name)
    order = sorted(range(len(el.R)), key=lambda n: tuple(el.R[n]))
    ctx.equal('lattice vectors', R, el.R[order])
    ctx.close('hoppings', H, el.data[order] * unit, 1e-14, 0.75e-6)
    for rydberg in False, True:
        back = elphmod.el.Model(name, rydberg=rydberg)
        ctx.equal('size', back.size, el.size)
        for _ in range(3):
            k = m.kpoint(rng)
            ctx.close('Hamiltonian', back.H(*k) * (Ry if rydberg else 1.0),
                m.fourier(el.R, el.data, k) * unit, 1e-12, 1e-6 * len(R))
    again = ctx.file('y')
    elphmod.el.write_hrdat(again, R, H)
    ctx.equal('same file', body(again + '_hr.dat', 1).replace('-0.000000',
        ' 0.000000'), body(name + '_hr.dat', 1).replace('-0.000000',
        ' 0.000000'))
    # degeneracies in header:
    deg = rng.integers(1, 13, len(el.R))
    z = ctx.file('z')
    elphmod.el.write_hrdat(z, el.R[:, :max(dim, 2)] if dim < 3 else el.R,
        el.data, list(deg) if rng.integers(2) else deg)
    R, H = elphmod.el.read_hrdat(z)
    ctx.equal('lattice vectors', R, el.R[order])
    ctx.close('hoppings over degeneracy', H, (el.data
        / deg[:, None, None])[order], 1e-14, 0.75e-6)
    R, H = elphmod.el.read_hrdat(z, divide_ndegen=False)
    ctx.close('hoppings without degeneracy', H, el.data[order], 1e-14,
        0.75e-6)


@check.family(6)
def hopping_tb(ctx, i):
    """The same model in both formats of Wannier90."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng, n=int(rng.integers(1, 12)))
    deg = rng.integers(1, 4, len(el.R))
    name = ctx.file('w')
    with open(name + '_tb.dat', 'w') as text:
        text.write(' written on 1Jan2020 at 00:00:00\n')
        for _ in range(3):
            text.write('%14.7f %14.7f %14.7f\n' % tuple(rng.normal(size=3)))
        text.write('%10d\n%10d\n' % (el.size, len(el.R)))
        for n in range(0, len(deg), 15):
            text.write(''.join('%5d' % d for d in deg[n:n + 15]) + '\n')
        for R, H in zip(el.R, el.data):
            text.write('\n%5d%5d%5d\n' % tuple(R))
            for b in range(el.size):
                for a in range(el.size):
                    text.write('%5d%5d   %18.10E%18.10E\n' % (a + 1, b + 1,
                        H[a, b].real, H[a, b].imag))
        for R in el.R: # position matrix elements
            text.write('\n%5d%5d%5d\n' % tuple(R))
            for b in range(el.size):
                for a in range(el.size):
                    text.write('%5d%5d' % (a + 1, b + 1)
                        + '%16.8E' * 6 % tuple(rng.normal(size=6)) + '\n')
    ctx.note(size=el.size, R=el.R)
    R, H = elphmod.el.read_hrdat(name)
    ctx.equal('lattice vectors', R, el.R)
    ctx.close('hoppings', H, el.data / deg[:, None, None], 2e-10)
    other = ctx.file('v')
    elphmod.el.write_hrdat(other, el.R, el.data * 10, deg)
    a = elphmod.el.Model(name)
    b = elphmod.el.Model(other)
    k = m.kpoint(rng)
    ctx.close('both formats agree', a.H(*k) * 10, b.H(*k), 1e-8,
        1e-6 * len(el.R))


@check.family(4)
def respack(ctx, i):
    """Tight-binding models from RESPACK files."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    N = tuple(int(rng.integers(2, 6)) if x < dim else 1 for x in range(3))
    no = int(rng.integers(1, 4))
    H = rng.normal(size=(*N, no, no)) + 1j * rng.normal(size=(*N, no, no))
    H = H + H.conj().swapaxes(-2, -1)
    t = np.fft.fftn(H, axes=(0, 1, 2)) / np.prod(N) # H = sum t exp(ikR)
    name = ctx.file('dat.h_mat_r')
    R = np.array(list(itertools.product(*[range(-(n // 2), n // 2 + 1)
        for n in N])))
    with open(name, 'w') as text:
        text.write('#\n# transfer integrals\n#\n')
        for x in R:
            text.write('%5d%5d%5d\n' % tuple(x))
            for a, b in np.ndindex(no, no):
                z = t[tuple(x % N)][a, b]
                text.write('%5d%5d%20.12f%20.12f\n' % (a + 1, b + 1, z.real,
                    z.imag))
            text.write('\n')
    opt = {}
    if min(N) == 1 or any(n % 2 for n in N) or rng.integers(2):
        opt['N'] = N if rng.integers(2) else np.array(N)
    if rng.integers(3):
        opt['a'] = m.lattice(rng)
        opt['r'] = rng.uniform(-0.5, 1, (no, 3)).dot(opt['a'])
    rydberg = bool(rng.integers(2))
    ctx.note(N=N, no=no, rydberg=rydberg, options=sorted(opt))
    before = fingerprint(opt)
    el = elphmod.el.Model(name, rydberg=rydberg, **opt)
    ctx.equal('arguments unchanged', fingerprint(opt), before)
    ctx.equal('size', el.size, no)
    for x in np.ndindex(*N):
        k = 2 * np.pi * np.array(x) / N
        ctx.close('Hamiltonian on mesh', el.H(*k) * (elphmod.misc.Ry
            if rydberg else 1.0), H[x], 1e-9, scale=abs(H).max()
            + np.prod(N) * 1e-2)


def crystal(rng, nat):
    """Random structure with repeated species and isotopes."""
    a = m.lattice(rng)
    tau = rng.uniform(-0.5, 1.5, (nat, 3)).dot(a)
    names = [NAMES[x] for x in rng.integers(len(NAMES), size=nat)]
    kind = {X: 911.444243 * rng.uniform(1, 240) for X in names}
    amass = np.array([kind[X] for X in names])
    if rng.integers(3) == 0: # isotope
        amass[rng.integers(nat)] *= 1.5
    polar = bool(rng.integers(2))
    eps = zeu = None
    if polar:
        eps = rng.normal(size=(3, 3)) + 5 * np.eye(3)
        zeu = rng.normal(size=(nat, 3, 3)) * 10.0 ** rng.integers(-1, 2)
    return a, tau, names, amass, eps, zeu


def geometry(ctx, got, a, tau, names, amass, eps, zeu):
    scale = np.linalg.norm(a[0])
    ctx.close('masses', got[1], amass, 0, 0.51e-10 + 1e-12 * amass.max())
    ctx.close('lattice', got[2], a, 1e-8, 1e-7 * abs(a / scale).max()
        + 1e-9 * scale)
    ctx.close('positions', got[3], tau, 1e-8, 1e-7 * abs(tau / scale).max()
        + 1e-10 * scale)
    ctx.equal('species', list(got[4]), list(names))
    if eps is None or zeu is None:
        ctx.true('no charges', got[6] is None and got[7] is None)
    else:
        ctx.close('dielectric tensor', got[6], eps, 1e-13, 0.51e-12)
        ctx.close('effective charges', got[7], zeu, 1e-13, 0.51e-7)


@check.family(8)
def force_constants(ctx, i):
    """Interatomic force constants as written by q2r.x."""
    import elphmod
    rng = ctx.rng
    nat = int(rng.integers(1, 5))
    a, tau, names, amass, eps, zeu = crystal(rng, nat)
    nr = tuple(map(int, rng.integers(1, 4, 3)))
    phid = rng.normal(size=(nat, nat, *nr, 3, 3))
    phid *= 10.0 ** rng.integers(-9, 3, phid.shape)
    alph = None if rng.integers(3) == 0 else float(rng.uniform(0.1, 30))
    ctx.note(nat=nat, nr=nr, names=names, polar=eps is not None, alph=alph)
    if eps is not None and rng.integers(6) == 0:
        zeu = None
    args = (phid, list(amass) if rng.integers(2) else amass, a, tau, names,
        alph, eps, zeu)
    before = fingerprint(args)
    name = ctx.file('x.ifc')
    elphmod.ph.write_flfrc(name, *args)
    ctx.equal('arguments unchanged', fingerprint(args), before)
    got = elphmod.ph.read_flfrc(name)
    ctx.equal('mesh', got[0].shape, phid.shape)
    ctx.close('force constants', got[0] / phid, np.ones(phid.shape), 6e-12)
    geometry(ctx, got, a, tau, names, amass, eps, zeu)
    if eps is not None and zeu is not None and alph is not None:
        ctx.close('Ewald parameter', got[5], alph, 6e-6)
    again = ctx.file('y.ifc')
    elphmod.ph.write_flfrc(again, *got)
    ctx.equal('same force constants', [x for x in body(again).split('\n')
        if 'E' in x], [x for x in body(name).split('\n') if 'E' in x])


@check.family(8)
def mass_spring(ctx, i):
    """Mass-spring models via force-constant files."""
    import elphmod
    rng = ctx.rng
    polar = rng.integers(3) == 0
    divide = bool(rng.integers(2))
    quad = bool(polar and rng.integers(2))
    ph = m.phonon(rng, dim=int(rng.integers(1, 4)), rmax=1, polar=polar,
        divide_mass=divide, n=3, quad=quad)
    if quad: # given with ten decimals
        ph.Q = np.round(ph.Q, 8)
    if polar:
        ph.alpha = float('%.3g' % rng.uniform(0.5, 2))
        ph.prepare_long_range()
    nq = tuple(int(rng.integers(2, 4)) if x > 1 else 1 for x in ph.nq)
    if rng.integers(2):
        nq = ph.nq
    name = ctx.file('x.ifc')
    before = fingerprint(ph)
    ctx.note(nat=ph.nat, nq=nq, polar=polar, divide=divide, R=ph.R)
    if nq == ph.nq and rng.integers(2):
        ph.to_flfrc(name)
    else:
        ph.to_flfrc(name, *nq)
    ctx.equal('model unchanged', fingerprint(ph), before)
    other = bool(rng.integers(2))
    opt = {}
    if quad:
        opt['quadrupole_fmt'] = ctx.file('quadrupole.fmt')
        elphmod.ph.write_quadrupole_fmt(opt['quadrupole_fmt'], ph.Q)
    back = elphmod.ph.Model(name, divide_mass=other, lr2d=False, **opt)
    ctx.equal('mesh', tuple(back.nq), nq)
    if quad:
        ctx.close('quadrupoles of model', back.Q, ph.Q, 1e-9)
    ctx.equal('species', list(back.atom_order), list(ph.atom_order))
    ctx.equal('long-range terms', bool(back.lr), bool(ph.lr))
    s = np.repeat(np.sqrt(ph.M), 3)
    for x in itertools.product(*map(range, nq)):
        q = 2 * np.pi * np.array(x) / nq
        D = ph.D(*q) * (np.outer(s, s) if divide else 1.0)
        E = back.D(*q) * (np.outer(s, s) if other else 1.0)
        ctx.close('dynamical matrix', E, D, 1e-6 if polar else 1e-9,
            scale=abs(D).max() + 1e-3)
    third = elphmod.ph.Model(name, divide_mass=other, lr=False)
    ctx.true('short-range only', not third.lr)
    if polar:
        ctx.close('charges', third.Z, ph.Z, 1e-12, 1e-7)


@check.family(8)
def dynamical_matrices(ctx, i):
    """Dynamical matrices on a mesh as written by ph.x."""
    import elphmod
    rng = ctx.rng
    polar = rng.integers(3) == 0
    ph = m.phonon(rng, dim=int(rng.integers(1, 4)), rmax=1, n=3,
        divide_mass=False, polar=polar)
    names = [X + str(rng.integers(10)) if rng.integers(3) == 0 else X
        for X in ph.atom_order]
    mass = {X: 911.4 * rng.uniform(1, 100) for X in names}
    M = np.array([mass[X] for X in names])
    nq = tuple(map(int, rng.integers(1, 4, 3)))
    points = list(itertools.product(*map(range, nq)))
    b = 2 * np.pi * np.linalg.inv(ph.a).T
    rng.shuffle(points)
    cuts = sorted({0, *map(int, rng.integers(0, len(points), 3))})
    stars = [points[x:y] for x, y in zip(cuts, [*cuts[1:], None])]
    style = ['own', 'text', 'xml'][rng.integers(3)]
    ibrav, celldm = 0, [np.linalg.norm(ph.a[0]), 0, 0, 0, 0, 0]
    if style != 'own' and rng.integers(2):
        ibrav = int(rng.choice([1, 2, 3, -3, 4, 6, 7, 8, 9, 10, 11]))
        celldm = [round(float(x), 7) for x in (rng.uniform(5, 9),
            *rng.uniform(0.6, 2, 2), 0, 0, 0)]
        r = ph.r.dot(np.linalg.inv(ph.a))
        ph.a = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
        ph.r = r.dot(ph.a)
        b = 2 * np.pi * np.linalg.inv(ph.a).T
        if polar:
            ph.prepare_long_range()
    dyn = ctx.file('dyn')

    def star(n):
        return dyn + str(n) + ('.xml' if style == 'xml' else '')

    ctx.note(nat=ph.nat, nq=nq, polar=polar, stars=[len(s) for s in stars],
        style=style, ibrav=ibrav)
    D = {}
    scale = 1.0
    with open(star(0) if rng.integers(2) else dyn + '0', 'w') as text:
        text.write('%4d%4d%4d\n%4d\n' % (*nq, len(stars)))
        for s in stars:
            text.write('%19.15f%19.15f%19.15f\n' % tuple(np.dot(
                np.array(s[0]) / nq, b) / (2 * np.pi) * celldm[0]))
    for n, s in enumerate(stars):
        x = [np.array(p) / nq + (0 if polar else rng.integers(-1, 2, 3))
            for p in s] # (truncated Ewald sums are nearly periodic only)
        q = np.array([np.dot(p, b) for p in x])
        for p, y in zip(s, x):
            D[tuple(p)] = m.fourier(ph.R, ph.data, 2 * np.pi * y)
        args = ((q, np.array([D[tuple(p)] for p in s])), M, ph.a, ph.r,
            names, None, ph.eps, ph.Z)
        before = fingerprint(args)
        if style == 'own':
            elphmod.ph.write_flfrc(star(n + 1), *args)
        else:
            (write_xml if style == 'xml' else write_dyn)(star(n + 1), ibrav,
                celldm, ph.a, ph.r, names, M, ph.eps, ph.Z, args[0])
        ctx.equal('arguments unchanged', fingerprint(args), before)
        got = elphmod.ph.read_flfrc(star(n + 1))
        ctx.close('wave vectors', got[0][0], q, 1e-7, 1e-8)
        ctx.close('dynamical matrices', got[0][1], args[0][1], 0, 0.75e-8)
        geometry(ctx, got, ph.a, ph.r, names, M, ph.eps, ph.Z)
    divide = bool(rng.integers(2))
    r = np.outer(*[np.repeat(np.sqrt(M), 3)] * 2)
    back = elphmod.ph.Model(dyn + '.xml' if style == 'xml' else dyn,
        divide_mass=divide, lr2d=False,
        ifc=ctx.file('ifc') if rng.integers(2) else None)
    ctx.equal('mesh', tuple(back.nq), nq)
    ctx.equal('atoms', list(back.atom_order), names)
    for p in points:
        q = 2 * np.pi * np.array(p) / nq
        ref = D[tuple(p)]
        # (mesh may break time-reversal symmetry of irregular data only)
        minus = D[tuple(-np.array(p) % nq)]
        assert abs(minus - ref.conj()).max() < 1e-9 or polar
        ctx.close('interpolated', back.D(*q) * (r if divide else 1.0), ref,
            1e-8, 1e-6 if polar else 1e-7, scale=scale)
    # frequencies at first point of each star:
    if style != 'own':
        return
    elphmod.ph.fildyn_freq(dyn)
    k, x, w = elphmod.el.read_bands(dyn + '.freq')
    unit = 13.605693122994 / 1.239841984332e-4
    for n, s in enumerate(stars):
        w2 = np.linalg.eigvalsh(D[tuple(s[0])] / r)
        ref = np.sign(w2) * np.sqrt(abs(w2)) * unit
        ok = abs(ref) > 5.0
        ctx.close('frequencies', w[ok, n], ref[ok], 2e-6, 1e-2,
            scale=abs(ref).max())
        ctx.close('q points', k[n], np.dot(np.array(s[0]) / nq, b)
            / (2 * np.pi) * np.linalg.norm(ph.a[0]), 1e-9, 0.51e-6)


@check.family(6)
def tables(ctx, i):
    """Quadrupoles, q points, arrays, bands."""
    import elphmod
    rng = ctx.rng
    nat = int(rng.integers(1, 12))
    Q = rng.normal(size=(nat, 3, 3, 3)) * 10.0 ** rng.integers(-2, 4)
    Q = Q + Q.swapaxes(2, 3)
    for _ in range(int(rng.integers(3))): # atoms and directions without
        Q[rng.integers(nat) if rng.integers(2) else -1] = 0
        Q[rng.integers(nat), rng.integers(3)] = 0
    name = ctx.file('quadrupole.fmt')
    elphmod.ph.write_quadrupole_fmt(name, Q)
    ctx.close('quadrupoles', elphmod.ph.read_quadrupole_fmt(name), Q, 1e-13,
        0.51e-10)
    q = rng.uniform(-3, 3, (int(rng.integers(1, 9)), 2))
    n = int(rng.integers(1, 40))
    name = ctx.file('dyn0')
    elphmod.ph.write_q(name, q, n)
    nq, back = elphmod.ph.read_q(name)
    ctx.equal('mesh', tuple(nq), (n, n, 1))
    ctx.close('q points', np.array(back)[:, :2], q, 0, 1e-15)
    ctx.close('in plane', np.array(back)[:, 2], np.zeros(len(q)))
    shape = tuple(map(int, rng.integers(1, 12, int(rng.integers(1, 5)))))
    x = np.array(rng.normal(size=shape) * 10.0 ** rng.integers(-12, 12, shape))
    if rng.integers(2):
        x = x + 1j * np.array(rng.normal(size=shape))
    order = int(rng.integers(3))
    if order == 1:
        x = np.asfortranarray(x)
    elif order == 2 and x.ndim:
        x = x.transpose(rng.permutation(x.ndim))
        shape = x.shape
    ctx.note(nat=nat, q=len(q), n=n, shape=shape, dtype=str(x.dtype),
        order=order)
    name = ctx.file('x.dat')
    elphmod.elph.write_data(name, x)
    back = elphmod.elph.read_data(name)
    ctx.equal('shape', back.shape, shape)
    ctx.equal('type', back.dtype, x.dtype)
    for part in (np.real, np.imag) if np.iscomplexobj(x) else (np.real,):
        a, b = part(back).ravel(), part(x).ravel()
        ctx.close('values', a / b, np.ones(len(b)), 6e-10)
    nk, nb = int(rng.integers(1, 20)), int(rng.integers(1, 30))
    k = rng.uniform(-2, 2, (nk, 3))
    e = rng.uniform(-40, 40, (nb, nk))
    name = ctx.file('x.bands')
    fmt, digits = ('%8.3f', 3) if rng.integers(2) else ('%12.6f', 6)
    cols = int(rng.integers(1, 12))
    if fmt == '%8.3f' and rng.integers(2):
        elphmod.el.write_bands(name, k, e)
    else:
        elphmod.el.write_bands(name, k, e, fmt, cols)
    K, X, E = elphmod.el.read_bands(name)
    ctx.close('k points', K, k, 0, 0.51e-6)
    ctx.close('energies', E, e, 0, 0.51 * 10.0 ** -digits)
    ref = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(K, axis=0),
        axis=1))])
    ctx.close('distances', X, ref, 1e-12)
    ctx.sig(nat, shape, nk, nb, fmt, cols)


@check.family(8)
def grids(ctx, i):
    """Volumetric data."""
    import elphmod
    rng = ctx.rng
    shape = tuple(map(int, rng.integers(1, 7, 3)))
    nat = int(rng.integers(1, 5))
    r0 = rng.normal(size=3)
    a = m.lattice(rng)
    X = [NAMES[x] for x in rng.integers(len(NAMES), size=nat)]
    tau = rng.uniform(-9, 9, (nat, 3))
    data = rng.normal(size=shape) * 10.0 ** rng.integers(-8, 8, shape)
    if rng.integers(3) == 0: # tails
        data *= 10.0 ** rng.integers(-130, -70, shape)
    kind = int(rng.integers(3))
    if kind == 1:
        data = np.asfortranarray(data)
    elif kind == 2:
        data = data.transpose((2, 0, 1))
        shape = data.shape
    ctx.note(shape=shape, nat=nat, X=X, kind=kind)
    args = r0, a, X, tau, data
    before = fingerprint(args)
    name = ctx.file('x.xsf')
    elphmod.misc.write_xsf(name, *args)
    ctx.equal('arguments unchanged', fingerprint(args), before)

    def head(got, tol):
        ctx.close('origin', got[0], r0, 0, 10 * tol)
        ctx.close('grid vectors', got[1], a, 0, tol)
        ctx.equal('atoms', list(got[2]), X)
        ctx.close('positions', got[3], tau, 0, tol)

    got = elphmod.misc.read_xsf(name)
    head(got, 0.51e-7)
    ctx.equal('shape', got[4].shape, shape)
    ctx.close('values', got[4] / data, np.ones(shape), 6e-6)
    got = elphmod.misc.read_xsf(name, only_header=True)
    head(got, 0.51e-7)
    ctx.equal('shape in header', tuple(map(int, got[4])), shape)
    name = ctx.file('h.xsf')
    elphmod.misc.write_xsf(name, r0, a, X, tau, shape, only_header=True)
    got = elphmod.misc.read_xsf(name, only_header=True)
    head(got, 0.51e-7)
    ctx.equal('shape in header', tuple(map(int, got[4])), shape)
    # same grid in cube format (last index fastest):
    name = ctx.file('x.cube')
    Z = [int(x) for x in rng.integers(1, 90, nat)]
    with open(name, 'w') as text:
        text.write('title\ncomment\n')
        text.write('%5d%12.6f%12.6f%12.6f\n' % (nat, *r0))
        for n, v in zip(shape, a):
            text.write('%5d%14.9f%14.9f%14.9f\n' % (n, *(v / n)))
        for z, t in zip(Z, tau):
            text.write('%5d%12.6f%12.6f%12.6f%12.6f\n' % (z, z, *t))
        flat = np.ascontiguousarray(data).ravel()
        width = shape[2] if rng.integers(2) else 6
        for n in range(0, flat.size, width):
            row = flat[n:n + width]
            for x in range(0, len(row), 6):
                text.write(''.join('%14.5E' % y for y in row[x:x + 6]) + '\n')
    got = elphmod.misc.read_cube(name)
    ctx.close('origin (cube)', got[0], r0, 0, 0.51e-6)
    ctx.close('grid vectors (cube)', got[1], a, 0, 1e-8)
    ctx.equal('atoms (cube)', [int(x) for x in got[2]], Z)
    ctx.close('positions (cube)', got[3], tau, 0, 0.51e-6)
    ctx.equal('shape (cube)', got[4].shape, shape)
    ctx.close('values (cube)', got[4] / data, np.ones(shape), 6e-6)
    got = elphmod.misc.read_cube(name, only_header=True)
    ctx.equal('shape in header (cube)', tuple(map(int, got[4])), shape)


@check.family(4)
def wannier(ctx, i):
    """Wannier functions in position representation."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng, n=2)
    name = ctx.file('w')
    elphmod.el.write_hrdat(name, el.R, el.data)
    shape = tuple(map(int, rng.integers(2, 6, 3)))
    a = m.lattice(rng)
    r0 = rng.normal(size=3)
    nat = int(rng.integers(1, 3))
    X = [NAMES[x] for x in rng.integers(len(NAMES), size=nat)]
    tau = rng.uniform(-5, 5, (nat, 3))
    W = rng.normal(size=(el.size, *shape))
    for n in range(el.size):
        elphmod.misc.write_xsf('%s_%05d.xsf' % (name, n + 1), r0, a, X, tau,
            W[n])
    normal = bool(rng.integers(2))
    buffer = bool(rng.integers(2))
    ctx.note(shape=shape, size=el.size, normal=normal, buffer=buffer)
    dV = abs(np.linalg.det(a)) / np.prod(shape)
    ref = W / np.sqrt((W ** 2).sum(axis=(1, 2, 3), keepdims=True) * dV) \
        if normal else W
    grid = np.empty((*shape, 3))
    for x in np.ndindex(*shape):
        grid[x] = r0 + sum(x[y] / (shape[y] - 1) * a[y] for y in range(3))
    for _ in range(1 + buffer): # second time from buffer
        got = elphmod.el.Model(name, read_xsf=True, normalize_wf=normal,
            buffer_wf=buffer)
        ctx.close('wave functions', got.W, ref, 1e-5)
        ctx.close('grid', got.r, grid, 1e-6)
        ctx.close('positions', got.tau, tau, 0, 0.51e-7)
        ctx.equal('atoms', list(got.atom_order), X)
        ctx.close('volume element', got.dV, dV, 1e-5)


@check.family(8)
def coupling(ctx, i):
    """Electron-phonon models as EPW files."""
    import elphmod
    rng = ctx.rng
    divide = bool(rng.integers(2))
    elph = m.coupling(rng, symmetric=bool(rng.integers(2)),
        divide_mass=divide, dim=int(rng.integers(1, 4)))
    M = np.asarray(elph.ph.M)
    degenerate = bool(rng.integers(2))
    nat, size = elph.ph.nat, elph.el.size
    elph.divide_ndegen = not degenerate
    if degenerate:
        dims, dims2 = [(1, 1), (size, nat), (size, 1), (1, nat)][
            rng.integers(4)]
        elph.dk = rng.integers(1, 5, (dims, dims, len(elph.Rk)))
        elph.dg = rng.integers(1, 5, (1, dims, dims2, len(elph.Rg)))
    ctx.note(Rk=elph.Rk, Rg=elph.Rg, divide=divide, degenerate=degenerate)
    before = fingerprint((elph.data, elph.dk, elph.dg, elph.Rk, elph.Rg))
    name = ctx.file('x')
    elph.to_epmatwp(name)
    ctx.equal('model unchanged', fingerprint((elph.data, elph.dk, elph.dg,
        elph.Rk, elph.Rg)), before)
    s = np.repeat(np.sqrt(M), 3)[:, None, None, None]
    plain = elph.data * s if divide else elph.data
    for mass in False, True:
        back = elphmod.elph.Model(name + '.epmatwp', name + '.wigner',
            elph.el, elph.ph, divide_mass=mass, divide_ndegen=not degenerate)
        ctx.equal('lattice vectors (k)', back.Rk, elph.Rk)
        ctx.equal('lattice vectors (q)', back.Rg, elph.Rg)
        ctx.close('coupling', back.data, plain / s if mass else plain, 1e-14)
        if degenerate:
            ctx.equal('degeneracies (k)', back.dk, elph.dk)
            ctx.equal('degeneracies (q)', back.dg, elph.dg)
        q, k = m.kpoint(rng), m.kpoint(rng)
        ctx.close('coupling at q and k', back.g(*q, *k), m.coupling_sum(elph,
            q, k) * (s[..., 0] if divide else 1.0)
            / (s[..., 0] if mass else 1.0), 1e-12,
            scale=abs(plain).sum(axis=(0, 2)).max() / (1.0 if not mass
            else s.min()))


@check.family(5)
def displacement(ctx, i):
    """Coupling in displacement basis and displacement patterns."""
    import elphmod
    rng = ctx.rng
    nQ, modes = map(int, rng.integers(1, 4, 2))
    nk, nb = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    angle = [60, 90, 120][rng.integers(3)]
    angle0 = float(rng.choice([0, 30, -90]))
    single = nb == 1 and rng.integers(2)
    g = rng.normal(size=(nQ, modes, nk, nk, nb, nb)) \
        + 1j * rng.normal(size=(nQ, modes, nk, nk, nb, nb))
    g *= 10.0 ** rng.integers(-6, 3)
    ctx.note(nQ=nQ, modes=modes, nk=nk, nb=nb, angle=angle, angle0=angle0)
    name = ctx.file('elph.%d.%d.xml')
    elphmod.elph.write_xml_files(name, g[..., 0, 0] if single else g,
        angle=angle, angle0=angle0)
    opt = dict(nk=nk, nbands=nb, angle=angle, angle0=angle0, old=True,
        status=False)
    got = elphmod.elph.read_xml_files(name, nQ, modes, range(nb), **opt)
    ctx.close('coupling', got, g[..., 0, 0] if nb == 1 else g, 1e-14)
    got = elphmod.elph.read_xml_files(name, nQ, modes, range(nb),
        squeeze=False, **opt)
    ctx.close('coupling', got, g, 1e-14)
    q = [int(x) for x in rng.permutation(nQ)[:int(rng.integers(1, nQ + 1))]]
    rep = [int(x) for x in rng.permutation(modes)[:int(rng.integers(1,
        modes + 1))]]
    bands = [int(x) for x in rng.permutation(nb)[:int(rng.integers(1,
        nb + 1))]]
    got = elphmod.elph.read_xml_files(name, q, rep, bands, squeeze=False,
        **opt)
    ctx.close('selected coupling', got, g[np.ix_(q, rep, range(nk), range(nk),
        bands, bands)], 1e-14)
    # recent versions of Quantum ESPRESSO, other order of k points:
    a1, a2 = elphmod.bravais.translations(angle, angle0)
    b = elphmod.bravais.reciprocals(a1, a2)
    new = ctx.file('new.%d.%d.xml')
    for x in np.ndindex(nQ, modes):
        with open(new % (x[0] + 1, x[1] + 1), 'w') as xml:
            xml.write('<?xml version="1.0" encoding="UTF-8"?>\n<Root>\n'
                '  <EL_PHON_HEADER>\n    <DONE_ELPH>true</DONE_ELPH>\n'
                '  </EL_PHON_HEADER>\n  <PARTIAL_EL_PHON>\n'
                '    <NUMBER_OF_K>%d</NUMBER_OF_K>\n'
                '    <NUMBER_OF_BANDS>%d</NUMBER_OF_BANDS>\n' % (nk * nk, nb))
            for n, ik in enumerate(rng.permutation(nk * nk)):
                K = np.array(divmod(int(ik), nk))
                xml.write('    <K_POINT.%d>\n      <COORDINATES_XK>\n'
                    '%23.15E %23.15E %23.15E\n      </COORDINATES_XK>\n'
                    '      <PARTIAL_ELPH>\n' % (n + 1, *np.dot(K / nk
                    + rng.integers(-2, 3, 2), b), rng.choice([0.0, 0.5])))
                for y in g[(*x, *K)].T.ravel():
                    xml.write('%23.15E %23.15E\n' % (y.real, y.imag))
                xml.write('      </PARTIAL_ELPH>\n    </K_POINT.%d>\n'
                    % (n + 1))
            xml.write('  </PARTIAL_EL_PHON>\n</Root>\n')
    opt['old'] = False
    if rng.integers(2):
        del opt['old']
    got = elphmod.elph.read_xml_files(new, q, rep, bands, squeeze=False,
        **opt)
    ctx.close('coupling from recent version', got, g[np.ix_(q, rep, range(nk),
        range(nk), bands, bands)], 1e-14)
    u = rng.normal(size=(nQ, modes, modes))
    name = ctx.file('patterns.%d.xml')
    for n in range(nQ):
        with open(name % (n + 1), 'w') as text:
            text.write('<?xml version="1.0"?>\n<Root>\n  <IRREPS_INFO>\n'
                '    <NUMBER_IRR_REP type="integer" size="1">\n%8d\n'
                '    </NUMBER_IRR_REP>\n' % modes)
            for x in range(modes):
                text.write('    <REPRESENTION.%d>\n'
                    '      <NUMBER_OF_PERTURBATIONS type="integer" size="1">\n'
                    '        1\n      </NUMBER_OF_PERTURBATIONS>\n'
                    '      <PERTURBATION.1>\n'
                    '        <DISPLACEMENT_PATTERN type="complex" size="%d">\n'
                    % (x + 1, modes))
                for y in range(modes):
                    text.write('%23.15E,%23.15E\n' % (u[n, x, y], 0.0))
                text.write('        </DISPLACEMENT_PATTERN>\n'
                    '      </PERTURBATION.1>\n    </REPRESENTION.%d>\n'
                    % (x + 1))
            text.write('  </IRREPS_INFO>\n</Root>\n')
    ctx.close('patterns', elphmod.elph.read_patterns(name, nQ, modes,
        status=False), u, 1e-14)
    ctx.close('selected patterns', elphmod.elph.read_patterns(name, q, modes,
        status=False), u[q], 1e-14)


def write_xml(name, ibrav, celldm, a, tau, names, amass, eps, zeu, data,
        alph=None, end='</Root>'):
    """Write XML file as done by Quantum ESPRESSO."""
    import elphmod
    alat = celldm[0]
    types = sorted(set(names), key=names.index)
    dyn = isinstance(data, tuple)
    nat = len(names)
    if dyn:
        q, D = data
        nq = len(q)
    else:
        phid = data
        nr = phid.shape[2:5]

    def numbers(x):
        return ' '.join('%.15E' % y for y in np.ravel(x))

    with open(name, 'w') as text:
        put = text.write
        put('<?xml version="1.0" encoding="UTF-8"?>\n<Root>\n<GEOMETRY_INFO>\n')
        put('<NUMBER_OF_TYPES>%d</NUMBER_OF_TYPES>\n' % len(types))
        put('<NUMBER_OF_ATOMS>%d</NUMBER_OF_ATOMS>\n' % nat)
        put('<BRAVAIS_LATTICE_INDEX>%d</BRAVAIS_LATTICE_INDEX>\n' % ibrav)
        put('<CELL_DIMENSIONS>%s</CELL_DIMENSIONS>\n' % numbers(celldm))
        put('<AT>\n%s\n</AT>\n' % numbers(a / alat))
        for n, X in enumerate(types, 1):
            put('<TYPE_NAME.%d>%s</TYPE_NAME.%d>\n' % (n, X, n))
            put('<MASS.%d>%.15E</MASS.%d>\n' % (n, amass[names.index(X)]
                / elphmod.misc.uRy, n))
        for n in range(nat):
            put('<ATOM.%d SPECIES="%s" INDEX="%d" TAU="%s"/>\n' % (n + 1,
                names[n], types.index(names[n]) + 1, numbers(tau[n] / alat)))
        if dyn:
            put('<NUMBER_OF_Q>%d</NUMBER_OF_Q>\n' % nq)
        put('</GEOMETRY_INFO>\n<DIELECTRIC_PROPERTIES>\n')
        if eps is not None:
            put('<EPSILON>\n%s\n</EPSILON>\n<ZSTAR>\n' % numbers(eps))
            for n in range(nat):
                put('<Z_AT_.%d>%s</Z_AT_.%d>\n' % (n + 1, numbers(zeu[n]),
                    n + 1))
            put('</ZSTAR>\n')
        put('</DIELECTRIC_PROPERTIES>\n')
        if dyn:
            for n in range(nq):
                put('<DYNAMICAL_MAT_.%d>\n<Q_POINT>%s</Q_POINT>\n' % (n + 1,
                    numbers(q[n] * alat / (2 * np.pi))))
                for x in range(nat):
                    for y in range(nat):
                        d = D[n, 3 * x:3 * x + 3, 3 * y:3 * y + 3].T.ravel()
                        put('<PHI.%d.%d>\n' % (x + 1, y + 1))
                        for z in d:
                            put('%.15E %.15E\n' % (z.real, z.imag))
                        put('</PHI.%d.%d>\n' % (x + 1, y + 1))
                put('</DYNAMICAL_MAT_.%d>\n' % (n + 1))
        else:
            put('<INTERATOMIC_FORCE_CONSTANTS>\n')
            put('<MESH_NQ1_NQ2_NQ3>%d %d %d</MESH_NQ1_NQ2_NQ3>\n' % nr)
            put('<alpha_ewald>%.15E</alpha_ewald>\n' % alph)
            for x in itertools.product(range(nat), range(nat),
                    *map(range, nr)):
                tag = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % tuple(y + 1 for y in x)
                put('<%s>\n<IFC>%s</IFC>\n</%s>\n' % (tag, numbers(phid[x].T),
                    tag))
            put('</INTERATOMIC_FORCE_CONSTANTS>\n')
        put(end + '\n')


def write_dyn(name, ibrav, celldm, a, tau, names, amass, eps, zeu, data):
    """Write dynamical-matrix file as done by Quantum ESPRESSO."""
    alat = celldm[0]
    types = sorted(set(names), key=names.index)
    with open(name, 'w') as text:
        put = text.write
        put('Dynamical matrix file\n%-75s\n' % 'some title')
        put('%3d%5d%3d' % (len(types), len(names), ibrav))
        put(''.join('%11.7f' % x for x in celldm) + '\n')
        if ibrav == 0:
            put('Basis vectors\n')
            for x in a / alat:
                put('  ' + ''.join('%15.9f' % y for y in x) + '\n')
        for n, X in enumerate(types, 1):
            put("%12d  '%-3s'  %20.10f\n" % (n, X, amass[names.index(X)]))
        for n, X in enumerate(names):
            put('%5d%5d' % (n + 1, types.index(X) + 1))
            put(''.join('%18.10f' % x for x in tau[n] / alat) + '\n')
        for q, D in zip(*data):
            put('\n     Dynamical  Matrix in cartesian axes\n\n     q = ( ')
            put(''.join('%14.9f' % x for x in q * alat / (2 * np.pi)))
            put(' ) \n\n')
            for x, y in np.ndindex(len(names), len(names)):
                put('%5d%5d\n' % (x + 1, y + 1))
                for z in D[3 * x:3 * x + 3, 3 * y:3 * y + 3]:
                    put('  '.join('%12.8f%12.8f' % (d.real, d.imag)
                        for d in z) + '\n')
        if eps is not None:
            put('\n     Dielectric Tensor:\n\n')
            for x in eps:
                put(''.join('%24.12f' % y for y in x) + '\n')
            put('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n\n')
            for n, z in enumerate(zeu, 1):
                put('     atom # %4d\n' % n)
                for x in z:
                    put(''.join('%24.12f' % y for y in x) + '\n')
        put('\n     Diagonalizing the dynamical matrix\n\n     q = ( ')
        put(''.join('%14.9f' % x for x in data[0][0] * alat / (2 * np.pi)))
        put(' ) \n\n ' + '*' * 74 + '\n')
        for n in range(3 * len(names)):
            put('     freq (%5d) =%15.6f [THz] =%15.6f [cm-1]\n' % (n + 1,
                n / 3, n * 10))
            for x in names:
                put(' (' + ''.join('%10.6f%10.6f' % (0.1, 0.2)
                    for y in range(3)) + ' )\n')
        put(' ' + '*' * 74 + '\n')


@check.family(5)
def xml(ctx, i):
    """Force constants and dynamical matrices in XML and plain text."""
    import elphmod
    rng = ctx.rng
    nat = int(rng.integers(1, 4))
    a, tau, names, amass, eps, zeu = crystal(rng, nat)
    amass = np.array([amass[names.index(X)] for X in names])
    alat = np.linalg.norm(a[0])
    dyn = bool(rng.integers(2))
    nr = tuple(map(int, rng.integers(1, 4, 3)))
    nq = int(rng.integers(1, 4))
    phid = rng.normal(size=(nat, nat, *nr, 3, 3))
    q = rng.normal(size=(nq, 3))
    D = rng.normal(size=(nq, 3 * nat, 3 * nat)) \
        + 1j * rng.normal(size=(nq, 3 * nat, 3 * nat))
    alph = float(rng.uniform(0.5, 2))

    ibrav = 0
    celldm = [alat, 0, 0, 0, 0, 0]
    if rng.integers(3) == 0:
        ibrav = int(rng.choice([1, 2, 3, -3, 4, 6, 7, 8, 9, 10, 11]))
        celldm = [float(x) for x in (rng.uniform(3, 9), *rng.uniform(0.6, 2,
            2), 0, 0, 0)]
        alat = celldm[0]
        a = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
        tau = rng.uniform(-0.5, 1.5, (nat, 3)).dot(a)
    end = str(rng.choice(['</Root>', '</Root>', '</root>', '']))
    name = ctx.file('x.xml')
    ctx.note(nat=nat, dyn=dyn, nr=nr, nq=nq, names=names, ibrav=ibrav,
        polar=eps is not None, end=end)
    write_xml(name, ibrav, celldm, a, tau, names, amass, eps, zeu, (q, D)
        if dyn else phid, alph, end)
    got = elphmod.ph.read_flfrc(name)
    geometry(ctx, got, a, tau, names, amass, eps, zeu)
    other = ctx.file('x.txt')
    if dyn:
        ctx.close('wave vectors', got[0][0], q, 1e-12)
        ctx.close('dynamical matrices', got[0][1], D, 1e-13)
        elphmod.ph.write_flfrc(other, *got)
        text = elphmod.ph.read_flfrc(other)
        ctx.close('plain text agrees', text[0][1], D, 0, 0.75e-8)
    else:
        ctx.close('force constants', got[0], phid, 1e-13)
        ctx.close('Ewald parameter', got[5], alph, 1e-13)
        elphmod.ph.write_flfrc(other, *got)
        text = elphmod.ph.read_flfrc(other)
        ctx.close('plain text agrees', text[0], phid, 1e-11)
    geometry(ctx, text, a, tau, names, amass, eps, zeu)
