"""C14: electron-phonon models."""

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks import c09, c12
from vmon.checks.c11 import arguments, draw_matrix, folded

check = Check('C14', 'A case is one random electron-phonon model with meshes, '
    'wave vectors, supercells or a sequence of operations; distinct by these; '
    'non-trivial if the model has couplings beyond the home cell.', boost=8)


def constants(elph):
    """{(R, R'): coupling} from the stored arrays."""
    const = {}
    for i, R in enumerate(elph.Rg.tolist()):
        for j, S in enumerate(elph.Rk.tolist()):
            g = np.array(elph.data[i, :, j])
            if np.any(g):
                key = (*R, *S)
                const[key] = const.get(key, 0) + g
    return const


def evaluate(const, q, k, shape):
    g = np.zeros(shape, dtype=complex)
    for key, x in const.items():
        g = g + x * np.exp(1j * (np.dot(key[:3], q) + np.dot(key[3:], k)))
    return g


def adjoint(const):
    out = {}
    for key, x in const.items():
        R, S = np.array(key[:3]), np.array(key[3:])
        out[(*(R - S).tolist(), *(-S).tolist())] = x.swapaxes(1, 2).conj()
    return out


def draw(rng, dim=None, **kwargs):
    dim = int(rng.integers(1, 4)) if dim is None else dim
    mass = bool(rng.integers(2))
    ph = kwargs.pop('ph', None)
    if ph is None:
        ph = m.phonon(rng, nat=int(rng.integers(1, 3)), dim=dim, rmax=1,
            divide_mass=mass)
    return m.coupling(rng, ph=ph, n=int(rng.integers(1, 6)), dim=dim,
        rmax=int(rng.integers(1, 3)), divide_mass=mass, **kwargs), dim


def shape(elph):
    return elph.ph.size, elph.el.size, elph.el.size


@check.family(40)
def value(ctx, i):
    """Fourier sum, periodicity, Hermitian relation, lookup, band basis."""
    rng = ctx.rng
    elph, dim = draw(rng, symmetric=bool(rng.integers(3)))
    const = constants(elph)
    adj = adjoint(const)
    symmetric = set(adj) == set(const) and all(np.allclose(adj[x], const[x])
        for x in const)
    before = fingerprint(elph.data)
    q, k = m.kpoint(rng, dim), m.kpoint(rng, dim)
    if rng.integers(2):
        q, k = q % (2 * np.pi), k % (2 * np.pi)
    ctx.note(Rg=elph.Rg, Rk=elph.Rk, q=q, k=k)
    scale = abs(elph.data).sum(axis=(0, 2)).max()
    g = elph.g(*q, *k)
    ctx.close('Fourier sum', g, evaluate(const, q, k, shape(elph)), 1e-11,
        scale=scale)
    kept = g.copy()
    G, K = 2 * np.pi * rng.integers(-2, 3, (2, 3))
    ctx.close('periodic', elph.g(*(q + G), *(k + K)), g, 1e-11, scale=scale)
    if symmetric:
        ctx.close('Hermitian relation', elph.g(*-q, *(k + q)).conj()
            .swapaxes(1, 2), g, 1e-11, scale=scale)
    Uk = np.linalg.eigh(elph.el.H(*k))[1]
    Ukq = np.linalg.eigh(elph.el.H(*(k + q)))[1]
    uq = np.linalg.eigh(elph.ph.D(*q))[1]
    ref = np.array([Ukq.conj().T.dot(x).dot(Uk) for x in kept])
    ctx.close('electronic bands', abs(elph.g(*q, *k, elbnd=True)), abs(ref),
        1e-9, scale=scale)
    ref2 = np.tensordot(uq.T, ref, 1)
    ctx.close('phonon bands', abs(elph.g(*q, *k, elbnd=True, phbnd=True)),
        abs(ref2), 1e-9, scale=scale)
    ref2 = np.tensordot(uq.T, kept, 1)
    ctx.close('phonon bands only', abs(elph.g(*q, *k, phbnd=True)),
        abs(ref2), 1e-9, scale=scale)
    ctx.close('not affected by options', elph.g(*q, *k), kept, 1e-12,
        scale=scale)
    ctx.equal('earlier result kept', g, kept)
    # points that differ little or in a single coordinate from previous ones:
    for x in range(4):
        near = np.array(q)
        far = rng.integers(2)
        near[rng.integers(3)] += (rng.uniform(1, 3) if far
            else 10.0 ** rng.uniform(-8, -1))
        K = k if rng.integers(2) else k + rng.uniform(-1e-3, 1e-3, 3)
        if rng.integers(2):
            elph.g(*q, *k)
        ctx.close('nearby point', elph.g(*near, *K), evaluate(const, near, K,
            shape(elph)), 1e-12, scale=scale)
    for x in range(3):
        a = int(rng.integers(len(elph.Rg)))
        b = int(rng.integers(len(elph.Rk)))
        ctx.equal('matrix element', np.array(elph.gR(*elph.Rg[a],
            *elph.Rk[b])), elph.data[a, :, b])
    ctx.equal('none for unlisted vectors', np.array(elph.gR(9, 0, 0, 0, 0,
        0)), np.zeros(shape(elph)))
    ctx.equal('none for unlisted vectors', np.array(elph.gR(0, 0, 0, 0, 9,
        0)), np.zeros(shape(elph)))
    ctx.equal('data unchanged', fingerprint(elph.data), before)


@check.family(40)
def history(ctx, i):
    """Random evaluations and operations against an independent model."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(1, 3))
    elph, dim = draw(rng, dim=dim, symmetric=bool(rng.integers(3)))
    const = constants(elph)
    points = [(m.kpoint(rng, dim), m.kpoint(rng, dim)) for _ in range(2)]
    points.append((points[0][0], points[1][1]))
    steps = []
    for _ in range(int(rng.integers(4, 10))):
        scale = 1e-3 + sum(abs(x).max() for x in const.values())
        step = int(rng.integers(12))
        if step == 0:
            elph.standardize()
        elif step == 1:
            elph.symmetrize() if rng.integers(2) else elph.standardize(
                symmetrize=True)
            new = {}
            for c in const, adjoint(const):
                for key in c:
                    new[key] = new.get(key, 0) + c[key] / 2
            const = new
        elif step == 2:
            eps = 10.0 ** rng.uniform(-3, -0.5)
            full = constants(elph) # merged or not: apply to stored elements
            big = abs(elph.data).max()
            if len(set(map(tuple, elph.Rg.tolist()))) == len(elph.Rg):
                elph.standardize(eps=eps)
                const = {key: np.where(abs(x) < eps * big, 0, x)
                    for key, x in full.items()}
        elif step == 3:
            elph.asr(report=bool(rng.integers(2)))
            s = np.repeat(np.sqrt(elph.ph.M) if elph.divide_mass
                else np.ones(elph.ph.nat), 3)[:, None, None]
            new = {}
            for S in {key[3:] for key in const}:
                keys = [key for key in const if key[3:] == S]
                x = {key: (const[key] * s).reshape((-1, 3,
                    *shape(elph)[1:])) for key in keys}
                total = sum(y.sum(axis=0) for y in x.values())
                norm = sum(abs(y).sum(axis=0) for y in x.values())
                norm = np.where(norm == 0, 1, norm)
                for key in keys:
                    new[key] = (x[key] - abs(x[key]) / norm * total).reshape(
                        shape(elph)) / s
            const = new
            total = sum((const[key] * s).reshape((-1, 3,
                *shape(elph)[1:])).sum(axis=0) for key in const)
            ctx.close('acoustic sum (reference)', total, 0 * total, 1e-9,
                scale=scale * 1e3)
            u = np.tile(rng.normal(size=3), elph.ph.nat)
            if elph.divide_mass:
                u = u * np.repeat(np.sqrt(elph.ph.M), 3)
            ctx.close('no coupling to acoustic displacements', np.einsum(
                'x,xab->ab', u, elph.g(0, 0, 0, *points[0][1])),
                np.zeros(shape(elph)[1:]), 1e-9, scale=scale * abs(u).sum())
        elif step == 4:
            nq = tuple(3 if x < dim else 1 for x in range(3))
            nk = tuple(int(rng.integers(1, 4)) if x < dim else 1
                for x in range(3))
            g = rng.normal(size=(*nq, elph.ph.size, *nk, *shape(elph)[1:]))
            g = g + 1j * rng.normal(size=g.shape)
            r = np.array([elph.ph.r[x % elph.ph.nat]
                for x in range(elph.el.size)])
            inp = bool(rng.integers(2))
            elphmod.elph.q2r(elph, nq, nk, g.copy(), r, inp)
            const = constants(elph)
            s = np.repeat(np.sqrt(elph.ph.M), 3)[:, None, None]
            f = 1 if inp == elph.divide_mass else s if inp else 1 / s
            for __ in range(3):
                x = tuple(int(rng.integers(y)) for y in nq)
                y = tuple(int(rng.integers(z)) for z in nk)
                ctx.close('coupling on mesh', elph.g(*[2 * np.pi * a / b
                    for a, b in zip(x, nq)], *[2 * np.pi * a / b
                    for a, b in zip(y, nk)]), g[x][(slice(None), *y)] * f,
                    1e-9, scale=abs(g).max() * np.max(f))
        elif step == 5:
            elph.sample(np.array([points[0][0]]), tuple([2] * 3))
        steps.append(step)
        ctx.note(nRg=len(elph.Rg), steps=steps)
        for q, k in [points[x] for x in rng.integers(3, size=2)]:
            ctx.close('value after step', elph.g(*q, *k), evaluate(const, q,
                k, shape(elph)), 1e-9, scale=scale + sum(abs(x).max()
                for x in const.values()))


@check.family(30)
def mesh(ctx, i):
    """Interpolation reproduces the couplings it is made from."""
    import elphmod
    rng = ctx.rng
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), rmax=1)
    elph, dim = draw(rng, ph=ph)
    while True:
        nq, nk = c09.draw_mesh(rng, 8), c09.draw_mesh(rng, 8)
        if np.prod(nq) * np.prod(nk) <= 40:
            break
    r = ph.r[rng.integers(ph.nat, size=elph.el.size)].copy()
    if rng.integers(2):
        r += 0.05 * rng.normal(size=r.shape)
    g = rng.normal(size=(*nq, ph.size, *nk, elph.el.size, elph.el.size))
    g = g + 1j * rng.normal(size=g.shape)
    inp = bool(rng.integers(2))
    ctx.note(nq=nq, nk=nk, nat=ph.nat, size=elph.el.size, inp=inp,
        mass=elph.divide_mass)
    given = g.copy()
    flat = rng.integers(2)
    arg = given.reshape((-1, *given.shape[3:])) if flat else given
    elphmod.elph.q2r(elph, nq, nk, arg, r, inp)
    ctx.equal('argument unchanged', given, g)
    s = np.repeat(np.sqrt(ph.M), 3)[:, None, None]
    f = 1 if inp == elph.divide_mass else s if inp else 1 / s
    scale = abs(g).max() * np.max(f)
    for x in np.ndindex(nq):
        for y in np.ndindex(nk):
            q = [2 * np.pi * a / b for a, b in zip(x, nq)]
            k = [2 * np.pi * a / b for a, b in zip(y, nk)]
            ctx.close('coupling on mesh', elph.g(*q, *k),
                g[x][(slice(None), *y)] * f, 1e-9, scale=scale)
    # lattice vectors chosen for new mesh can be reused
    g *= rng.normal()
    elphmod.elph.q2r(elph, nq, nk, g, None, inp)
    ctx.close('second interpolation', elph.g(*q, *k),
        g[x][(slice(None), *y)] * f, 1e-9, scale=abs(g).max() * np.max(f))
    if i % 2 == 0: # meshes seen from elsewhere
        Q = np.array([[2 * np.pi * a / b for a, b in zip(x, nq)]
            for x in np.ndindex(nq)])
        back = elph.sample(Q, nk)
        f = np.reshape(f, (-1, 1, 1, 1, 1, 1))
        ctx.close('sampled again', np.array(back).reshape(g.shape), g * f,
            1e-9, scale=abs(g).max() * np.max(f))


@check.family(40)
def sampling(ctx, i):
    """Sampled couplings equal rotated couplings at single points."""
    import elphmod
    rng = ctx.rng
    elph, dim = draw(rng, dim=int(rng.integers(1, 4)))
    nk = tuple(map(int, rng.integers(1, 5 - dim // 2, dim)))
    nq = int(rng.integers(1, 4))
    steps = rng.integers(0, nk, (nq, dim))
    if rng.integers(3) == 0:
        steps = steps + np.array(nk) * rng.integers(-1, 2, (nq, dim))
    q = m.rounded(rng, steps * 2 * np.pi / np.array(nk))
    nel = elph.el.size
    U = u = None
    if rng.integers(3):
        U = np.linalg.qr(rng.normal(size=(*nk, nel, nel)) + 1j * rng.normal(
            size=(*nk, nel, nel)))[0][..., :int(rng.integers(1, nel + 1))]
    if rng.integers(3):
        u = np.linalg.qr(rng.normal(size=(nq, elph.ph.size, elph.ph.size))
            + 1j * rng.normal(size=(nq, elph.ph.size, elph.ph.size)))[0]
        u = u[..., :int(rng.integers(1, elph.ph.size + 1))]
    squared = bool(rng.integers(2))
    ctx.note(dim=dim, nk=nk, q=q, U=np.shape(U), u=np.shape(u),
        squared=squared)
    before = fingerprint([q, U, u, elph.data])
    given = q if rng.integers(2) else [tuple(x) for x in q]
    kwargs = {}
    if U is None or rng.integers(2):
        kwargs['nk'] = nk[0] if len(set(nk)) == 1 and rng.integers(2) else nk
    args = dict(U=U, u=u, squared=squared, **kwargs)
    g = np.array(elph.sample(given, **args))
    ctx.equal('arguments unchanged', fingerprint([q, U, u, elph.data]),
        before)
    nmode = elph.ph.size if u is None else u.shape[-1]
    nband = nel if U is None else U.shape[-1]
    ctx.equal('shape', g.shape, (nq, nmode, *nk, nband, nband))
    const = constants(elph)
    for iq in range(nq):
        for x in np.ndindex(nk):
            Q, K = np.zeros((2, 3))
            Q[:dim] = q[iq]
            K[:dim] = 2 * np.pi * np.array(x) / nk
            ref = evaluate(const, Q, K, shape(elph))
            if U is not None:
                y = tuple((np.array(x) + steps[iq]) % nk)
                ref = np.array([U[y].conj().T.dot(z).dot(U[x]) for z in ref])
            if u is not None:
                ref = np.array([sum(u[iq, z, v] * ref[z] for z in range(
                    elph.ph.size)) for v in range(nmode)])
            if squared:
                ref = ref.real ** 2 + ref.imag ** 2
            ctx.close('matrix elements', g[(iq, slice(None), *x)], ref,
                1e-9, scale=1e-3 + abs(g).max())
    ctx.true('real' if squared else 'complex', np.isrealobj(g) == squared)
    ctx.close('same again', np.array(elphmod.elph.sample(elph.g, given,
        **args)), g, 1e-13, scale=1e-3 + abs(g).max())
    if dim == 2 and nk[0] == nk[1]:
        plain = np.array(elph.sample(given, nk))
        kept = plain.copy()
        t = np.array(elphmod.elph.transform(plain, given, nk, U=U, u=u,
            squared=squared))
        ctx.close('transformed afterwards', t, g, 1e-9, scale=1e-3
            + abs(g).max())
        ctx.equal('coupling unchanged by transform', plain, kept)


@check.family(30)
def fold(ctx, i):
    """Supercell couplings act on Bloch waves like primitive ones."""
    rng = ctx.rng
    elph, dim = draw(rng, dim=int(rng.integers(1, 4)),
        el=m.electrons(rng, size=int(rng.integers(1, 3)), dim=2))
    if rng.integers(3) == 0: # repeated lattice vectors
        part = rng.normal(size=elph.data[0].shape)
        elph.Rg = np.vstack([elph.Rg, elph.Rg[:1]])
        elph.data = np.concatenate([elph.data, part[None]]).astype(complex)
        elph.data[0] -= part
    N, n = draw_matrix(rng, 5)
    args = arguments(rng, N)
    ctx.note(Rg=elph.Rg, Rk=elph.Rk, N=N, mass=elph.divide_mass)
    const = constants(elph)
    before = fingerprint([elph.data, elph.Rg, elph.Rk])
    scale = abs(elph.data).sum()
    sc = elph.supercell(*args)
    ctx.equal('settings', (sc.divide_mass, sc.divide_ndegen),
        (elph.divide_mass, elph.divide_ndegen))
    ctx.equal('sizes', (sc.el.size, sc.ph.size, sc.data.shape), (n
        * elph.el.size, n * elph.ph.size, (len(sc.Rg), n * elph.ph.size,
        len(sc.Rk), n * elph.el.size, n * elph.el.size)))
    ctx.true('same cells of electrons, phonons, and coupling', list(map(
        tuple, sc.cells)) == list(map(tuple, sc.el.cells)) == list(map(tuple,
        sc.ph.cells)))

    def bloch(sc, cells, k, q, name, K, Q):
        size, nph = elph.el.size, elph.ph.size
        g = sc.g(*Q, *K).reshape((n, nph, n, size, n, size))
        g = np.einsum('XxAaBb,X,B->xAab', g, np.exp(1j * cells.dot(q)),
            np.exp(1j * cells.dot(k)))
        ref = evaluate(const, q, k, shape(elph))
        ref = np.einsum('xab,A->xAab', ref, np.exp(1j * cells.dot(k + q)))
        ctx.close(name, g, ref, 1e-10, scale=scale * n * n)

    cells = np.array(sc.cells)
    for _ in range(3):
        q, k = rng.uniform(-3, 3, (2, 3))
        bloch(sc, cells, k, q, 'Bloch waves', N.dot(k), N.dot(q))
    if len(const):
        key = list(const)[int(rng.integers(len(const)))]
        a = int(rng.integers(n)) # element relative to any cell
        inv = np.linalg.inv(N)
        def locate(R):
            for y in range(n):
                T = (np.array(R) - cells[y]).dot(inv)
                if np.allclose(T, np.round(T)):
                    return tuple(map(int, np.round(T))), y
        T, X = locate(np.array(key[:3]) + cells[a])
        S, B = locate(np.array(key[3:]) + cells[a])
        nph, nel = elph.ph.size, elph.el.size
        ctx.close('single element', sc.gR(*T, *S)[X * nph:(X + 1) * nph,
            a * nel:(a + 1) * nel, B * nel:(B + 1) * nel], const[key], 1e-11,
            scale=scale)
    sparse = elph.supercell(*args, sparse=True)
    ctx.close('sparse matrices', np.array([np.asarray(x.toarray())
        for x in sparse.gs]), sc.g().real, 1e-10, scale=scale)
    if i % 3 == 0 and n <= 3:
        M, k = draw_matrix(rng, 3)
        second = sc.supercell(*arguments(rng, M))
        direct = elph.supercell(*arguments(rng, M.dot(N)))
        Q, K = m.kpoint(rng), m.kpoint(rng)
        s = lambda x: np.sort(np.linalg.svd(x.g(*Q, *K).reshape((
            x.ph.size, -1)), compute_uv=False))
        ctx.close('nested supercell', s(second), s(direct), 1e-9,
            scale=scale * n * k)
    ctx.equal('model unchanged', fingerprint([elph.data, elph.Rg, elph.Rk]),
        before)


def polar(rng, nat=None):
    two = bool(rng.integers(2))
    L = rng.uniform(4, 9) if two and rng.integers(2) else None
    return m.phonon(rng, nat=int(rng.integers(1, 3)) if nat is None else nat,
        n=1, rmax=1, polar=True, quad=bool(rng.integers(2)), two=two, L=L,
        dim=2 if two else 3, divide_mass=bool(rng.integers(2)))


@check.family(16)
def long_range(ctx, i):
    """Long-range coupling follows formula and can be split off."""
    rng = ctx.rng
    ph = polar(rng)
    dim = 2 if ph.lr2d else 3
    elph = m.coupling(rng, ph=ph, el=m.electrons(rng, size=int(rng.integers(
        1, 3)), dim=dim, rmax=1), n=3, dim=dim, divide_mass=ph.divide_mass)
    const = constants(elph)
    q, k = rng.uniform(-np.pi, np.pi, (2, 3))
    if ph.lr2d:
        q[2] = k[2] = 0
    ctx.note(two=ph.lr2d, L=ph.L, quad=ph.Q is not None, nat=ph.nat, q=q,
        mass=ph.divide_mass)

    def full(q, k):
        lr = c12.long_range_coupling(ph, q)
        return evaluate(const, q, k, shape(elph)) + lr[:, None, None] \
            * np.eye(elph.el.size)

    ref = full(q, k)
    scale = abs(ref).max()
    ctx.close('long-range part', elph.g_lr(*q), c12.long_range_coupling(ph,
        q), 1e-9, scale=abs(elph.g_lr(*q)).max())
    ctx.close('added to short range', elph.g(*q, *k), ref, 1e-9, scale=scale)
    ctx.close('added to short range for buffered q', elph.g(*q, *-k),
        full(q, -k), 1e-9, scale=scale)
    ctx.close('charge of opposite wave vector', elph.g(*-q, *k), full(-q, k),
        1e-9, scale=scale)
    if i % 2:
        return
    # range separation on the original mesh
    ph.nq = (2, 2, 1) if ph.lr2d else (2, 2, 2)
    elph.el.nk = (2, 1, 1)
    import elphmod
    mesh = [np.array([2 * np.pi * a / b for a, b in zip(x, ph.nq)])
        for x in np.ndindex(ph.nq)]
    r = np.array(ph.r[[0] * elph.el.size])
    g = rng.normal(size=(*ph.nq, ph.size, *elph.el.nk, *shape(elph)[1:])) \
        * scale + 0j
    elphmod.elph.q2r(elph, ph.nq, elph.el.nk, g, r, ph.divide_mass)
    ks = [np.zeros(3), np.array([np.pi, 0, 0])]
    if rng.integers(2):
        ph.sample_orig()
    elph.sample_orig()
    old = [[elph.g(*q, *k).copy() for k in ks] for q in mesh]
    steps = []
    for _ in range(2):
        kind = int(rng.integers(4))
        if kind == 0:
            ph.Z = ph.Z * rng.uniform(0.5, 1.5)
        elif kind == 1:
            ph.alpha = rng.uniform(0.6, 1.2)
        elif kind == 2 and ph.Q is not None:
            ph.Q = ph.Q * rng.uniform(-1, 1)
        elif kind == 3:
            ph.lr = False
        steps.append(kind)
        ph.update_short_range()
        elph.update_short_range()
        for q, x in zip(mesh, old):
            for k, y in zip(ks, x):
                ctx.close('coupling on mesh kept', elph.g(*q, *k), y, 1e-9,
                    scale=np.max(np.abs(old)) + abs(elph.data).sum())
        ph.lr = True
    ctx.note(steps=steps)


@check.family(4)
def polar_supercell(ctx, i):
    """Folding of long-range couplings."""
    rng = ctx.rng
    ph = polar(rng, nat=1)
    dim = 2 if ph.lr2d else 3
    elph = m.coupling(rng, ph=ph, el=m.electrons(rng, size=1, dim=dim,
        rmax=1), n=2, dim=dim, divide_mass=ph.divide_mass)
    N = np.diag([2, 1, 1]) if i % 2 else np.eye(3, dtype=int)
    n = int(np.prod(np.diag(N)))
    ctx.note(N=N, two=ph.lr2d)
    sc = elph.supercell(*map(int, np.diag(N)))
    q, k = rng.uniform(-1, 1, (2, 3))
    if ph.lr2d:
        q[2] = k[2] = 0
    cells = np.array(sc.cells)
    g = sc.g(*N.dot(q), *N.dot(k)).reshape((n, ph.size, n, 1, n, 1))
    g = np.einsum('XxAaBb,X,B->xAab', g, np.exp(1j * cells.dot(q)),
        np.exp(1j * cells.dot(k)))
    ref = np.einsum('xab,A->xAab', elph.g(*q, *k), np.exp(1j * cells.dot(k
        + q)))
    ctx.close('Bloch-waves-%d' % n, g, ref, 1e-4,
        scale=abs(ref).max())


@check.family(10)
def decay(ctx, i):
    """Maximum matrix elements over distance and deletion of all data."""
    import elphmod
    rng = ctx.rng
    elph, dim = draw(rng)
    ctx.note(Rg=elph.Rg, Rk=elph.Rk)
    for name, R, axes in [('decay_epmate', elph.Rk, (0, 1, 3, 4)),
            ('decay_epmatp', elph.Rg, (1, 2, 3, 4))]:
        d, g = getattr(elph, name)()
        ref = [(np.linalg.norm(r.dot(elph.ph.a)) * elphmod.misc.a0, x)
            for r, x in zip(R, abs(elph.data).max(axis=axes)) if x > 0]
        rank = lambda x: (round(float(x[0]), 6), float(x[1]))
        ctx.close(name, np.array(sorted(zip(d, g), key=rank)).reshape((-1,
            2)), np.array(sorted(ref, key=rank)).reshape((-1, 2)), 1e-9)
    q, k = m.kpoint(rng, dim), m.kpoint(rng, dim)
    elph.g(*q, *k)
    elph.clear()
    ctx.equal('no coupling left', abs(elph.g(*q, *k)).max(), 0.0)
    ctx.equal('no hopping left', abs(elph.el.H(*k)).max(), 0.0)
    ctx.equal('no force constants left', abs(elph.ph.D(*q)).max(), 0.0)
