"""C09: mapping of mesh data to the Wigner-Seitz cell."""

import itertools

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m

check = Check('C09', 'A case is one mesh, lattice and set of sites (with '
    'random matrices on the mesh or synthetic Wannier files); distinct by '
    'these; non-trivial if the mesh has more than one point.', boost=8)


def reduced_lattice(rng):
    kind = int(rng.integers(7))
    if kind == 0: # square/cubic: many degenerate vectors
        a = np.diag([1.0, 1.0, rng.choice([1.0, 3.0])])
    elif kind == 1:
        a = np.array([[1, 0, 0], [-0.5, np.sqrt(0.75), 0], [0, 0, 3.0]])
    elif kind == 2: # 60 degrees
        a = np.array([[1, 0, 0], [0.5, np.sqrt(0.75), 0], [0, 0, 3.0]])
    elif kind == 3:
        a = np.array([[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]]) * 1.5
    elif kind == 4:
        a = np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]) * 1.2
    elif kind == 5:
        a = np.diag(rng.uniform(0.7, 1.4, 3))
    else:
        a = np.eye(3) + 0.15 * rng.normal(size=(3, 3))
    return a * rng.uniform(1, 7)


def sites(rng, n, a, symmetric=None):
    if symmetric is None:
        symmetric = rng.integers(2)
    if symmetric: # special positions: degenerate distances
        x = rng.integers(0, 2, (n, 3)) / 2.0
        if rng.integers(2):
            x = rng.integers(0, 3, (n, 3)) / 3.0
        x[:, 2] = 0.0
    else:
        x = rng.uniform(0, 0.9, (n, 3))
    if rng.integers(3) == 0:
        x[0] = 0.0
    return x.dot(a)


def brute(nr, at, tau, tau2, sgn, eps=1e-7, span=3):
    """Images of minimal bond length: {(i, j, mesh point): [(R, length)]}."""
    # (lattice vector R = sgn * image, search centred on the mesh point)
    result = {}
    shifts = np.array(list(itertools.product(range(-span, span + 1),
        repeat=3)))
    gap = np.inf
    for mesh in itertools.product(*map(range, nr)):
        R = sgn * (np.array(mesh) + shifts * np.array(nr))
        x = R.dot(at)
        for i in range(len(tau)):
            for j in range(len(tau2)):
                l = np.linalg.norm(x + (tau2[j] - tau[i]), axis=1)
                d = l - l.min()
                near = d < eps
                width = 1e3 if eps < 1e-3 else 1 + 1e-6
                between = d[(d > eps / width) & (d < eps * width)]
                if between.size:
                    gap = 0.0
                result[i, j, mesh] = (sorted(map(tuple, R[near].tolist())),
                    l.min())
    return result, gap


def outside(images, nr, sgn, nsc=2):
    """Is any closest image outside the supercells that are searched?"""
    return any(not -nsc * y <= sgn * x < nsc * y for vectors, _ in
        images.values() for R in vectors for x, y in zip(R, nr))


def draw_mesh(rng, limit=20):
    while True:
        nr = tuple(map(int, rng.integers(1, 6, 3)))
        if rng.integers(2):
            nr = (*nr[:2], 1)
        if rng.integers(5) == 0:
            nr = (nr[0], 1, 1)
        if np.prod(nr) <= limit:
            return nr


@check.family(60)
def wigner(ctx, i):
    """Selected lattice vectors are all images of minimal length."""
    from elphmod import bravais
    rng = ctx.rng
    nr = draw_mesh(rng)
    at = reduced_lattice(rng)
    tau = sites(rng, int(rng.integers(1, 3)), at)
    two = bool(rng.integers(2))
    tau2 = sites(rng, int(rng.integers(1, 3)), at) if two else tau
    sgn = int(rng.choice([-1, 1]))
    eps, nsc = 1e-7, int(rng.choice([2, 2, 1, 3]))
    kwargs = {} if nsc == 2 else dict(nsc=nsc)
    if rng.integers(3) == 0: # positions with errors below tolerance
        kwargs['eps'] = eps = 10.0 ** -float(rng.uniform(4, 8))
        tau = tau + rng.uniform(-1e-4, 1e-4, tau.shape) * eps
        if not two:
            tau2 = tau
    elif rng.integers(3) == 0: # coarse tolerance
        kwargs['eps'] = eps = float(rng.uniform(0.02, 1.0))
    ctx.note(nr=nr, at=at, tau=tau, tau2=tau2 if two else None, sgn=sgn,
        **kwargs)
    ref, gap = brute(nr, at, tau, tau2, sgn, eps)
    if not gap:
        raise Skip('nearly degenerate distances')
    if outside(ref, nr, sgn, nsc):
        raise Skip('closest image outside documented search range')
    t0, t1, t2 = at.copy(), tau.copy(), tau2.copy()
    if two:
        kwargs['tau2'] = tau2
    R, deg, length = bravais.wigner(*nr, at, tau, sgn=sgn, **kwargs)
    ctx.true('arguments unchanged', np.array_equal(at, t0)
        and np.array_equal(tau, t1) and np.array_equal(tau2, t2))
    ctx.true('integer lattice vectors', R.dtype.kind == 'i'
        and R.shape == (len(R), 3))
    ctx.equal('shape of degeneracies', deg.shape, (len(R), len(tau),
        len(tau2)))
    ctx.equal('shape of lengths', length.shape, deg.shape)
    ctx.equal('no lattice vector repeated', len(set(map(tuple, R.tolist()))),
        len(R))
    ctx.true('no superfluous lattice vector', np.all(deg.any(axis=(1, 2))))
    got = {}
    for n, r in enumerate(R.tolist()):
        mesh = tuple(sgn * x % k for x, k in zip(r, nr))
        for a in range(len(tau)):
            for b in range(len(tau2)):
                if deg[n, a, b]:
                    got.setdefault((a, b, mesh), []).append((tuple(r),
                        int(deg[n, a, b]), length[n, a, b]))
    ctx.equal('every mesh point and pair mapped', sorted(got), sorted(ref))
    for key, (vectors, l) in ref.items():
        ctx.equal('images of minimal distance', sorted(x[0] for x in got[key]),
            vectors)
        ctx.true('degeneracy is number of images', all(x[1] == len(vectors)
            for x in got[key]), lambda: '%s: %s' % (key, got[key]))
        ctx.true('length of bond', all(abs(x[2] - l) < 1e-9 * (1 + l) + eps
            for x in got[key]), lambda: '%s: %s, expected %s' % (key,
            got[key], l))


@check.family(30)
def short_range(ctx, i):
    """Real-space data add up to the mesh data they were made from."""
    from elphmod import bravais
    rng = ctx.rng
    nr = draw_mesh(rng)
    at = reduced_lattice(rng)
    n = int(rng.integers(1, 4))
    tau = sites(rng, n, at)
    sgn = int(rng.choice([-1, 1]))
    cart = int(rng.choice([1, 3]))
    complex_ = bool(rng.integers(2))
    shape = (n, n, *nr, cart, cart) if cart > 1 or rng.integers(2) \
        else (n, n, *nr)
    data = rng.normal(size=shape)
    if complex_:
        data = data + 1j * rng.normal(size=shape)
    before = data.copy()
    ctx.note(nr=nr, at=at, tau=tau, sgn=sgn, cart=cart, complex=complex_)
    R, const, l = bravais.short_range_model(data, at, tau, sgn=sgn)
    ctx.equal('data unchanged', data, before)
    full = data.reshape((n, n, *nr, cart, cart))
    R2, raw, l2 = bravais.short_range_model(data, at, tau, sgn=sgn,
        divide_ndegen=False)
    ctx.equal('same lattice vectors', R2, R)
    ctx.close('undivided data', raw, [full[(slice(None), slice(None), *(sgn * r
        % nr))].transpose(0, 2, 1, 3).reshape((n * cart, n * cart))
        for r in R], 1e-14)
    ctx.equal('shape', const.shape, (len(R), n * cart, n * cart))
    total = np.zeros((*nr, n * cart, n * cart), dtype=const.dtype)
    for k, r in enumerate(R.tolist()):
        total[tuple(sgn * x % y for x, y in zip(r, nr))] += const[k]
    ref = full.transpose(2, 3, 4, 0, 5, 1, 6).reshape(total.shape)
    ctx.close('images add up to mesh data', total, ref, 1e-12)
    # each image carries an equal share of minimal-distance images only
    images, gap = brute(nr, at, tau, tau, sgn)
    if gap and not outside(images, nr, sgn):
        for (a, b, mesh), (vectors, _) in images.items():
            for k, r in enumerate(R.tolist()):
                if tuple(sgn * x % y for x, y in zip(r, nr)) == mesh:
                    share = 1.0 / len(vectors) if tuple(r) in vectors else 0
                    ctx.close('share of image', const[k,
                        a * cart:(a + 1) * cart, b * cart:(b + 1) * cart],
                        full[(a, b, *mesh)] * share, 1e-12, scale=abs(
                        full).max())


def hermitian_mesh(rng, nr, n):
    H = rng.normal(size=(*nr, n, n)) + 1j * rng.normal(size=(*nr, n, n))
    return H + H.conj().swapaxes(-1, -2)


@check.family(60)
def k2r(ctx, i):
    """Tight-binding model through the matrices on a mesh."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    nk = draw_mesh(rng, 30)
    nk3 = tuple(x if k < dim else 1 for k, x in enumerate(nk))
    nk = nk3[:dim]
    n = int(rng.integers(1, 4))
    at = reduced_lattice(rng)
    r = sites(rng, n, at)
    fft = bool(rng.integers(3))
    rydberg = [bool(rng.integers(2)), bool(rng.integers(2))]
    ctx.note(nk=nk, n=n, at=at, r=r, fft=fft, rydberg=rydberg)
    H = hermitian_mesh(rng, nk3, n)
    if fft:
        arg = H.reshape((*nk, n, n))
    else:
        # t[R] = sum_k H(k) exp(-ikR) / N by definition
        t = np.zeros_like(H)
        for R in itertools.product(*map(range, nk3)):
            for k in itertools.product(*map(range, nk3)):
                t[R] += H[k] * np.exp(-2j * np.pi * sum(x * y / z
                    for x, y, z in zip(R, k, nk3)))
        arg = (t / np.prod(nk3)).reshape((*nk, n, n))
    before = arg.copy()
    el = elphmod.el.Model(rydberg=rydberg[0])
    if rng.integers(2): # model that already holds other data
        elphmod.el.k2r(el, hermitian_mesh(rng, (2, 2, 1), 2), at,
            sites(rng, 2, at))
    elphmod.el.k2r(el, arg, at, r, fft=fft, rydberg=rydberg[1])
    ctx.equal('input unchanged', arg, before)
    unit = 1.0
    if rydberg[1] and not rydberg[0]:
        unit = elphmod.misc.Ry
    elif rydberg[0] and not rydberg[1]:
        unit = 1.0 / elphmod.misc.Ry
    ctx.equal('mesh remembered', tuple(map(int, el.nk)), nk3)
    ctx.equal('size', el.size, n)
    for k in itertools.product(*map(range, nk3)):
        x = [2 * np.pi * a / b for a, b in zip(k, nk3)]
        ctx.close('matrix on mesh', el.H(*x), H[k] * unit, 1e-9,
            scale=abs(H).max() * unit)
        ctx.close('matrix on mesh (independent sum)',
            m.fourier(el.R, el.data, x), H[k] * unit, 1e-9,
            scale=abs(H).max() * unit)
    images, gap = brute(nk3, at, r, r, 1)
    if not gap or outside(images, nk3, 1):
        ctx.seen('closest image outside documented search range')
        return
    index = {tuple(R): k for k, R in enumerate(el.R.tolist())}
    for R, k in index.items():
        minus = index.get(tuple(-x for x in R))
        block = el.data[minus] if minus is not None else 0 * el.data[k]
        ctx.close('Hermitian in real space', el.data[k], block.conj().T,
            1e-9, scale=abs(el.data).max())
    k = m.kpoint(rng, dim)
    h = el.H(*k)
    ctx.close('Hermitian everywhere', h, h.conj().T, 1e-9, scale=abs(H).max()
        * unit)
    # invariance: shifting all sites rigidly does not matter
    other = elphmod.el.Model(rydberg=rydberg[0])
    elphmod.el.k2r(other, arg, at, r + at.T.dot(rng.normal(size=3)), fft=fft,
        rydberg=rydberg[1])
    ctx.close('origin does not matter', other.H(*k), h, 1e-9,
        scale=abs(H).max() * unit)


@check.family(40)
def wannier_files(ctx, i):
    """Degeneracies and superlattice vectors of files are undone."""
    import elphmod
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    at = reduced_lattice(rng)
    r = sites(rng, n, at)
    nk = draw_mesh(rng, 16)
    H = hermitian_mesh(rng, nk, n)
    t = np.fft.fftn(H, axes=(0, 1, 2)) / np.prod(nk)
    ctx.note(nk=nk, n=n, at=at, r=r)
    # Wigner-Seitz vectors as used by Wannier90: atom-independent
    home, gap = brute(nk, at, np.zeros((1, 3)), np.zeros((1, 3)), 1)
    pairs, gap2 = brute(nk, at, r, r, 1)
    if not gap or not gap2:
        raise Skip('nearly degenerate distances')
    if outside(home, nk, 1) or outside(pairs, nk, 1):
        raise Skip('closest image outside documented search range')
    tb = bool(rng.integers(2))
    wsvec = bool(rng.integers(4))
    points = []
    for (_, _, mesh), (vectors, _) in home.items():
        for R in vectors:
            points.append((R, len(vectors), mesh))
    points = [points[k] for k in rng.permutation(len(points))]
    ctx.note(tb=tb, wsvec=wsvec, nrpts=len(points))
    seed = ctx.file('seed')
    digits = 12
    data = np.array([t[mesh] for _, _, mesh in points])
    with open(seed + ('_tb.dat' if tb else '_hr.dat'), 'w') as f:
        f.write(' written on 12Mar2022 at 11:22:33\n')
        if tb:
            for x in at:
                f.write(' %18.12f %18.12f %18.12f\n' % tuple(x))
        f.write('%12d\n%12d\n' % (n, len(points)))
        for k in range(0, len(points), 15):
            f.write(''.join('%5d' % p[1] for p in points[k:k + 15]) + '\n')
        for k, (R, deg, mesh) in enumerate(points):
            if tb:
                f.write('\n%5d%5d%5d\n' % R)
            for b in range(n):
                for a in range(n):
                    if not tb:
                        f.write('%5d%5d%5d' % R)
                    f.write('%5d%5d %.*e %.*e\n' % (a + 1, b + 1,
                        digits, t[mesh][a, b].real,
                        digits, t[mesh][a, b].imag))
        if tb: # position operator follows
            for k, (R, deg, mesh) in enumerate(points):
                f.write('\n%5d%5d%5d\n' % R)
                for b in range(n):
                    for a in range(n):
                        f.write('%5d%5d' % (a + 1, b + 1)
                            + ' 0.1E+01 0.0E+00' * 3 + '\n')
    if wsvec:
        with open(seed + '_wsvec.dat', 'w') as f:
            f.write('## written on 12Mar2022  with use_ws_distance=.true.\n')
            for R, deg, mesh in points:
                for a in range(n):
                    for b in range(n):
                        shifts = [tuple(x - y for x, y in zip(S, R))
                            for S in pairs[a, b, mesh][0]]
                        f.write('%5d%5d%5d%5d%5d\n' % (*R, a + 1, b + 1))
                        f.write('%5d\n' % len(shifts))
                        for s in shifts:
                            f.write('%5d%5d%5d\n' % s)
    rydberg = bool(rng.integers(2))
    unit = 1 / elphmod.misc.Ry if rydberg else 1.0
    name = seed if tb or rng.integers(2) else seed + '_hr.dat'
    el = elphmod.el.Model(name, rydberg=rydberg)
    ctx.equal('size', el.size, n)
    for k in itertools.product(*map(range, nk)):
        x = [2 * np.pi * a / b for a, b in zip(k, nk)]
        ctx.close('matrix on mesh', el.H(*x), H[k] * unit, 1e-9,
            scale=abs(H).max() * unit)
    if wsvec: # same model as made directly
        ref = elphmod.el.Model(rydberg=rydberg)
        elphmod.el.k2r(ref, H, at, r)
        for _ in range(3):
            k = m.kpoint(rng)
            ctx.close('same as direct mapping', el.H(*k), ref.H(*k), 1e-9,
                scale=abs(H).max() * unit)
    k = m.kpoint(rng)
    ctx.close('Hermitian', el.H(*k), el.H(*k).conj().T, 1e-9,
        scale=abs(H).max() * unit)
    plain = elphmod.el.Model(name, rydberg=rydberg, divide_ndegen=False)
    ctx.equal('lattice vectors of file', plain.R.tolist(),
        [list(p[0]) for p in points])
    ctx.close('undivided data of file', plain.data, data * unit, 1e-10)


@check.family(40)
def q2r(ctx, i):
    """Force constants through dynamical matrices on a complete mesh."""
    import elphmod
    rng = ctx.rng
    nq = draw_mesh(rng, 16)
    model = m.phonon(rng, n=3, rmax=1, divide_mass=bool(rng.integers(2)))
    model.a = reduced_lattice(rng)
    model.r = sites(rng, model.nat, model.a)
    D = np.empty((*nq, model.size, model.size), dtype=complex)
    for k in itertools.product(*map(range, nq)):
        D[k] = m.fourier(model.R, model.data,
            [2 * np.pi * a / b for a, b in zip(k, nq)])
    scale = abs(D).max()
    ctx.note(nq=nq, nat=model.nat, divide_mass=model.divide_mass)
    model.data = model.R = model.l = None
    dims = nq if nq[2] > 1 or rng.integers(2) else nq[:2]
    mass = bool(rng.integers(2))
    given = D.copy()
    for a in range(model.size): # input matrices with or without masses
        for b in range(model.size):
            factor = np.sqrt(model.M[a // 3] * model.M[b // 3])
            if mass and not model.divide_mass:
                given[..., a, b] /= factor
            elif model.divide_mass and not mass:
                given[..., a, b] *= factor
    given = given.reshape((*dims, model.size, model.size))
    before = given.copy()
    nqs = dims if rng.integers(2) else None
    if len(set(dims)) == 1 and rng.integers(2):
        nqs = dims[0]
    elphmod.ph.q2r(model, D_full=given, nq=nqs, divide_mass=mass)
    ctx.equal('input unchanged', given, before)
    ctx.equal('mesh remembered', tuple(map(int, model.nq)), nq)
    for k in itertools.product(*map(range, nq)):
        x = [2 * np.pi * a / b for a, b in zip(k, nq)]
        ctx.close('matrix on mesh', model.D(*x), D[k], 1e-9, scale=scale)
    images, gap = brute(nq, model.a, model.r, model.r, -1)
    if gap and not outside(images, nq, -1):
        for n, R in enumerate(model.R.tolist()):
            mesh = tuple(-x % y for x, y in zip(R, nq))
            for a in range(model.nat):
                for b in range(model.nat):
                    vectors, l = images[a, b, mesh]
                    if tuple(R) not in vectors:
                        ctx.true('no force constants off the cell',
                            not model.data[n, 3 * a:3 * a + 3,
                            3 * b:3 * b + 3].any())
                    else:
                        ctx.close('bond length', model.l[n, a, b], l, 1e-9,
                            atol=1e-9)
        index = {tuple(R): n for n, R in enumerate(model.R.tolist())}
        for R, n in index.items():
            minus = index.get(tuple(-x for x in R))
            block = model.data[minus] if minus is not None else 0 * model.data[n]
            ctx.close('symmetric in real space', model.data[n], block.conj().T,
                1e-9, scale=scale)
        q = m.kpoint(rng)
        ctx.close('Hermitian everywhere', model.D(*q), model.D(*q).conj().T, 1e-9,
            scale=scale)


@check.family(40)
def wigner_file(ctx, i):
    """Wigner-Seitz definitions of coupling files (text and binary)."""
    from elphmod import bravais
    rng = ctx.rng
    text = bool(rng.integers(2))
    # any of: one or many orbitals and atoms, numbers of vectors
    dims = int(rng.integers(1, 4))
    dims2 = int(rng.integers(1, 4))
    nk, nq, ng = map(int, rng.integers(1, 9, 3))
    Rk = rng.integers(-3, 4, (nk, 3))
    Rq = rng.integers(-3, 4, (nq, 3))
    Rg = rng.integers(-3, 4, (ng, 3))
    dk = rng.integers(0, 7, (dims, dims, nk))
    dq = rng.integers(0, 7, (dims2, dims2, nq))
    kind = 'text' if text else str(rng.choice(['old', '6.5', '6.8']))
    ctx.note(kind=kind, dims=dims, dims2=dims2, nk=nk, nq=nq, ng=ng)
    if kind == '6.5':
        dg = rng.integers(0, 7, (dims, dims, dims2, ng))
    elif kind == 'old':
        dg = rng.integers(0, 7, (1, 1, dims2, ng))
        dk = dk[:1, :1]
    else:
        dg = rng.integers(0, 7, (1, dims, dims2, ng))
    name = ctx.file('wigner.dat' if kind == 'old' else 'wigner.fmt')
    if text:
        with open(name, 'w') as f:
            f.write('%d %d %d %d %d\n' % (nk, nq, ng, dims, dims2))
            for n in range(nk):
                f.write('%6d%6d%6d%12.6f\n' % (*Rk[n], 0.1 * n))
                for b in range(dims):
                    f.write(' '.join(map(str, dk[:, b, n])) + '\n')
            for n in range(nq):
                f.write('%6d%6d%6d%12.6f\n' % (*Rq[n], 0.1 * n))
                for b in range(dims2):
                    f.write(' '.join(map(str, dq[:, b, n])) + '\n')
            for n in range(ng):
                f.write('%6d%6d%6d%12.6f\n' % (*Rg[n], 0.1 * n))
                for b in range(dims):
                    f.write(' '.join(map(str, dg[0, b, :, n])) + '\n')
    else:
        i4 = np.int32
        with open(name, 'wb') as f:
            if kind != 'old':
                np.array([dims, dims2], i4).tofile(f)
            np.array([nk], i4).tofile(f)
            Rk.astype(i4).tofile(f)
            dk.astype(i4).tofile(f)
            if kind == 'old':
                np.arange(nk, dtype=float).tofile(f)
                np.array([nq], i4).tofile(f)
                Rq.astype(i4).tofile(f)
                dq.astype(i4).tofile(f)
                np.arange(nq, dtype=float).tofile(f)
            np.array([ng], i4).tofile(f)
            Rg.astype(i4).tofile(f)
            if kind == '6.8':
                dg.transpose(2, 3, 0, 1).astype(i4).tofile(f)
            else:
                dg.astype(i4).tofile(f)
            if kind == 'old':
                np.arange(ng, dtype=float).tofile(f)
    if kind == '6.8' and dims == 1:
        raise Skip('cannot be told from the previous format')
    if rng.integers(2): # other extension is found, too
        other = name[:-4] + ('.fmt' if name.endswith('.dat') else '.dat')
        got = bravais.read_wigner_file(other, old_ws=kind == 'old', nat=dims2)
    else:
        got = bravais.read_wigner_file(name, old_ws=kind == 'old', nat=dims2)
    for what, x, y in zip(['k vectors', 'k degeneracies', 'g vectors',
            'g degeneracies'], got, [Rk, dk, Rg, dg]):
        ctx.equal(what, np.asarray(x), y)


@check.family(40)
def degeneracies(ctx, i):
    """Coupling divided by the degeneracies of both lattice vectors."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng)
    ph = m.phonon(rng, n=1, rmax=1)
    nk, ng = map(int, rng.integers(1, 6, 2))
    Rk = rng.permutation(np.array(list(itertools.product(range(-1, 2),
        repeat=3))))[:nk]
    Rg = rng.permutation(np.array(list(itertools.product(range(-1, 2),
        repeat=3))))[:ng]
    orbital = [bool(rng.integers(2)) for _ in range(3)]
    dims = [el.size if o else 1 for o in orbital[:1] * 2]
    dk = rng.integers(0, 4, (*dims, nk))
    dg = rng.integers(0, 4, (el.size if orbital[0] and orbital[1] else 1,
        el.size if orbital[0] else 1, ph.nat if orbital[2] else 1, ng))
    mass = bool(rng.integers(2))
    divide = bool(rng.integers(4))
    raw = rng.normal(size=(ng, ph.size, nk, el.size, el.size)) \
        + 1j * rng.normal(size=(ng, ph.size, nk, el.size, el.size))
    ctx.note(nk=nk, ng=ng, el=el.size, nat=ph.nat, dk=dk.shape, dg=dg.shape,
        mass=mass, divide=divide)
    name = ctx.file('x.epmatwp')
    with open(name, 'wb') as f:
        np.ascontiguousarray(raw.swapaxes(3, 4)).tofile(f)
    elph = elphmod.elph.Model(name, None, el, ph, Rk=Rk, dk=dk, Rg=Rg, dg=dg,
        divide_mass=mass, divide_ndegen=divide)
    ref = raw.copy()
    for g, x, k, a, b in np.ndindex(raw.shape):
        if divide:
            # file stores degeneracies with orbital indices exchanged
            d = dk[b if dk.shape[0] > 1 else 0, a if dk.shape[1] > 1 else 0,
                k] * dg[b if dg.shape[0] > 1 else 0,
                a if dg.shape[1] > 1 else 0, x // 3 if dg.shape[2] > 1
                else 0, g]
            ref[g, x, k, a, b] = raw[g, x, k, a, b] / d if d else 0.0
        if mass:
            ref[g, x, k, a, b] /= np.sqrt(ph.M[x // 3])
    ctx.close('divided coupling', elph.data, ref, 1e-12)
    R, S = Rg[rng.integers(ng)], Rk[rng.integers(nk)]
    ctx.close('element', elph.gR(*R, *S), ref[
        [tuple(x) for x in Rg.tolist()].index(tuple(R)), :,
        [tuple(x) for x in Rk.tolist()].index(tuple(S))], 1e-12)
    q, k = m.kpoint(rng), m.kpoint(rng)
    elph.data[...] = ref
    ctx.close('Fourier sum', elph.g(*q, *k), m.coupling_sum(elph, q, k),
        1e-9, scale=abs(ref).sum() / max(len(Rg), 1) or 1)
