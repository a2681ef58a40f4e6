"""C22: diagonalization returns true, consistently ordered eigenpairs."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m

check = Check('C22', 'A case is one random matrix function sampled or '
    'diagonalized on a random list or mesh of k points with random options; '
    'distinct by matrix and points; non-trivial for more than one band.',
    boost=100)


def draw(rng, hermitian=True, n=None):
    """Random periodic matrix function."""
    n = int(rng.integers(1, 6)) if n is None else n
    el = m.electrons(rng, size=n, n=int(rng.integers(1, 6)))
    if hermitian:
        return n, el.H
    A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))

    def H(*k):
        return el.H(*k) + A * (1 + np.exp(1j * sum(k)))

    return n, H


def points(rng, full=False):
    dim = int(rng.integers(1, 4))
    kind = int(rng.integers(4))
    if kind == 0 and not full:
        shape = (int(rng.integers(1, 12)),)
        k = rng.uniform(-7, 7, shape)
        return k, shape, k.reshape((-1, 1))
    shape = tuple(map(int, rng.integers(1, 5, max(kind, 1))))
    k = rng.uniform(-7, 7, (*shape, dim))
    return k, shape, k.reshape((-1, dim))


def pairs(ctx, H, k, v, V, hermitian, tol=1e-10):
    """Are these eigenvalues and eigenvectors at the given k points?"""
    n = v.shape[-1]
    for x, e, U in zip(k, v.reshape((-1, n)), V.reshape((-1, n, n))):
        M = H(*x)
        s = abs(M).max() + 1e-12
        ctx.close('eigenpairs', M.dot(U), U * e, tol, scale=s)
        if hermitian:
            ctx.close('orthonormal', U.conj().T.dot(U), np.eye(n), tol)
        else:
            ctx.close('normalized', np.linalg.norm(U, axis=0), np.ones(n), tol)


def values(M, hermitian):
    if hermitian:
        return np.linalg.eigvalsh(M)
    return np.linalg.eigvals(M)


def same(ctx, name, a, b, hermitian, tol=1e-8):
    """Compare sets of eigenvalues irrespective of order."""
    for x, y in zip(a, b):
        if hermitian:
            ctx.close(name, np.sort(x), np.sort(y), tol, scale=abs(y).max()
                + 1e-9)
        else:
            y = list(y)
            for z in x:
                d = [abs(z - w) for w in y]
                ctx.true(name, min(d) <= 1e-6 * (1 + abs(z)))
                y.pop(int(np.argmin(d)))


@check.family(14)
def options(ctx, i):
    """Any combination of options yields the same eigenstates."""
    import elphmod
    rng = ctx.rng
    hermitian = bool(rng.integers(4))
    n, H = draw(rng, hermitian)
    k, shape, flat = points(rng)
    ctx.note(bands=n, shape=k.shape, hermitian=hermitian)
    before = fingerprint(k)
    ref = np.array([values(H(*x), hermitian) for x in flat])
    arg = k if rng.integers(2) else k.tolist()
    opt = {} if hermitian else dict(hermitian=False)
    v = elphmod.dispersion.dispersion(H, arg, **opt)
    ctx.equal('shape', v.shape, (*shape, n))
    ctx.equal('type', v.dtype.kind, 'f' if hermitian else 'c')
    same(ctx, 'eigenvalues', v.reshape((-1, n)), ref, hermitian)
    ctx.true('sorted', bool((np.diff(v.real, axis=-1) >= 0).all()))
    for vectors, gauge, order in itertools.product([False, True], repeat=3):
        got = elphmod.dispersion.dispersion(H, arg, vectors=vectors,
            gauge=gauge, order=order, broadcast=bool(rng.integers(2)),
            shared_memory=bool(rng.integers(2)), **opt)
        got = list(got) if vectors or order else [got]
        e = got.pop(0)
        same(ctx, 'same eigenvalues', e.reshape((-1, n)), ref, hermitian)
        if vectors:
            V = got.pop(0)
            ctx.equal('shape of vectors', V.shape, (*shape, n, n))
            pairs(ctx, H, flat, e, V, hermitian)
            if gauge:
                W = V.reshape((-1, n, n))
                for x, b in np.ndindex(len(W), n):
                    c = W[x, :, b]
                    big = c[abs(c) > abs(c).max() * (1 - 1e-9)]
                    ctx.true('gauge', any(abs(y.imag) < 1e-12 and y.real > 0
                        for y in big))
        if order:
            o = got.pop(0)
            ctx.equal('shape of order', o.shape, (*shape, n))
            O, E = o.reshape((-1, n)), e.reshape((-1, n))
            for x in range(len(O)):
                ctx.equal('permutation', sorted(O[x]), list(range(n)))
                if hermitian:
                    ctx.close('ordered', E[x], v.reshape((-1, n))[x, O[x]],
                        1e-9, scale=abs(ref).max() + 1e-9)
        else:
            ctx.true('sorted', bool((np.diff(e.real, axis=-1) >= 0).all()))
        ctx.equal('nothing else', got, [])
    ctx.equal('k points unchanged', fingerprint(k), before)
    # point by point:
    x = int(rng.integers(len(flat)))
    one = elphmod.dispersion.dispersion(H, flat[x:x + 1], **opt)
    same(ctx, 'single point', one, ref[x:x + 1], hermitian)


@check.family(6)
def conjugate(ctx, i):
    """Pairs of complex eigenvalues of real matrices have definite order."""
    import elphmod
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    A, B = rng.normal(size=(2, n, n))
    B *= rng.uniform(0, 1)
    H = lambda k=0: A + B * np.cos(k)
    k = rng.uniform(-np.pi, np.pi, (int(rng.integers(1, 8)), 1))
    ctx.note(bands=n, points=len(k))
    ref = [np.linalg.eigvals(H(*x)).astype(complex) for x in k]
    for e in ref: # the order must not hinge on rounding errors
        real = np.sort(np.append(e[e.imag >= 0].real, np.inf))
        if min(np.diff(real[:-1]), default=1) < 1e-6 or any(
                0 < abs(e.imag)) and min(abs(e.imag[e.imag != 0])) < 1e-4:
            raise Skip('eigenvalues too close')
    ref = np.array([e[np.lexsort((e.imag, e.real))] for e in ref])
    v = elphmod.dispersion.dispersion(H, k, hermitian=False)
    w, V = elphmod.dispersion.dispersion(H, k, hermitian=False, vectors=True)
    ctx.close('eigenvalues', v, ref, 1e-7, scale=abs(ref).max())
    ctx.close('with eigenvectors', w, ref, 1e-7, scale=abs(ref).max())
    pairs(ctx, H, k, w, V, False, 1e-8)
    ctx.seen('complex pairs', int((ref.imag > 0).sum()))


def bands(rng, n, kind):
    """Smooth crossing bands and constant character."""
    U = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    if kind == 'path':
        a = rng.normal(size=(n, 3))
        fun = lambda x: a[:, 0] + a[:, 1] * np.cos(x) + a[:, 2] * np.sin(x)
    else:
        a = rng.normal(size=(n, 3))
        vec = {60: [(1, 0), (0, 1), (1, 1)], 90: [(1, 0), (0, 1)],
            120: [(1, 0), (0, 1), (1, -1)]}[kind]
        far = {60: [(1, -1), (2, 1), (1, 2)], 90: [(1, 1), (1, -1)],
            120: [(1, 1), (2, -1), (1, -2)]}[kind]

        def fun(x, y):
            return a[:, 0] + a[:, 1] * sum(np.cos(r * x + s * y)
                for r, s in vec) + a[:, 2] * sum(np.cos(r * x + s * y)
                for r, s in far)

    def H(*k):
        k = [*k, 0, 0][:1 if kind == 'path' else 2]
        return (U * fun(*k)).dot(U.conj().T)

    return U, fun, H


@check.family(14)
def crossing(ctx, i):
    """Bands are followed through crossings."""
    import elphmod
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    U, fun, H = bands(rng, n, 'path')
    k = np.sort(rng.uniform(-np.pi, np.pi, int(rng.integers(2, 40))))
    if rng.integers(3) == 0: # degenerate points
        from scipy.optimize import brentq
        a, b = rng.permutation(n)[:2]
        y = np.linspace(-np.pi, np.pi, 501)
        d = np.array([fun(z)[a] - fun(z)[b] for z in y])
        z = np.where(d[1:] * d[:-1] < 0)[0]
        if len(z):
            r = brentq(lambda s: fun(s)[a] - fun(s)[b], y[z[0]], y[z[0] + 1],
                xtol=1e-15)
            k = np.sort(np.append(k, r))
    E = np.array([fun(x) for x in k])
    gap = np.sort(E, axis=1)
    gap = np.diff(gap, axis=1).min(axis=1)
    deg = gap < 1e-7
    if deg[0]:
        raise Skip('degenerate first point')
    mean = bool(rng.integers(2))
    ctx.note(n=n, points=len(k), degenerate=int(deg.sum()), by_mean=mean)
    v, V, o = elphmod.dispersion.dispersion(H, k, vectors=True, order=True,
        by_mean=mean, eps=1e-7)
    ref = E[:, np.argsort(E.sum(axis=0) if mean else E[0])]
    total = np.sort(E.mean(axis=0))
    if mean and np.diff(total).min() < 1e-9:
        raise Skip('equal averages')
    ctx.close('continuous bands', v, ref, 1e-9, 1e-9)
    pairs(ctx, H, k[:, None], v, V, True, 1e-6)
    # characters do not change:
    cols = np.argsort(E.sum(axis=0) if mean else E[0])
    good = ~deg
    for x in np.where(good)[0]:
        w = abs(U[:, cols].conj().T.dot(V[x]))
        if gap[x] > 1e-4:
            ctx.close('continuous characters', w, np.eye(n), 1e-6, 1e-6)
    # lower-level function with eigenstates in ascending order:
    e, W = elphmod.dispersion.dispersion(H, k, vectors=True)
    before = fingerprint((e, W))
    O = elphmod.dispersion.band_order(e, W, by_mean=mean, eps=1e-7,
        status=bool(rng.integers(2)))
    ctx.equal('arguments unchanged', fingerprint((e, W)), before)
    ctx.close('same order', np.take_along_axis(e, O, 1), ref, 1e-9, 1e-9)
    if mean:
        ctx.true('sorted by average', bool((np.diff(v.mean(axis=0))
            > -1e-9).all()))
    # phases do not matter:
    ph = np.exp(1j * rng.uniform(0, 7, (len(k), 1, n)))
    if not deg.any():
        ctx.equal('independent of phases', elphmod.dispersion.band_order(e,
            W * ph, by_mean=mean, status=False), O)
    # bands cannot jump by more than given limit:
    limit = rng.uniform(0.1, 2)
    O = elphmod.dispersion.band_order(e, W, by_mean=False, dv=limit,
        status=False)
    for x in O:
        ctx.equal('permutation', sorted(x), list(range(n)))
    if abs(np.diff(E, axis=0)).max(initial=0) < limit and not deg.any():
        ctx.close('limit of slope', np.take_along_axis(e, O, 1),
            E[:, np.argsort(E[0])], 1e-9, 1e-9)


@check.family(14)
def meeting(ctx, i):
    """Any number of bands meet at points with arbitrary basis."""
    import elphmod
    rng = ctx.rng
    n, points = int(rng.integers(2, 7)), int(rng.integers(2, 25))
    U = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n,
        n)))[0]
    x = np.linspace(-1, 1, points)[:, None]
    E = rng.normal(size=n) + rng.normal(size=n) * x + rng.normal(size=n) * x * x
    v, V = np.empty((points, n)), np.empty((points, n, n), dtype=complex)
    deg = []
    for p in range(points):
        W = U.copy()
        if p and rng.integers(3) == 0:
            deg.append(p)
            some = rng.permutation(n)[:int(rng.integers(2, n + 1))]
            E[p, some] = E[p, some].mean()
            W[:, some] = W[:, some].dot(np.linalg.qr(rng.normal(size=(len(
                some),) * 2) + 1j * rng.normal(size=(len(some),) * 2))[0])
        order = np.argsort(E[p], kind='stable')
        v[p] = E[p, order]
        V[p] = W[:, order] * np.exp(1j * rng.uniform(0, 7, n))
    mean = bool(rng.integers(2))
    ctx.note(n=n, points=points, degenerate=deg, by_mean=mean)
    ctx.sig(E)
    o = elphmod.dispersion.band_order(v, V, by_mean=mean, status=False)
    key = E.sum(axis=0) if mean else E[0]
    if np.diff(np.sort(key)).min() < 1e-9:
        raise Skip('equal averages')
    ctx.close('bands continue through meeting points', np.take_along_axis(v, o,
        1), E[:, np.argsort(key)], 1e-9, 1e-9)


@check.family(20)
def limit(ctx, i):
    """Energies win over characters if the limit of jumps says so."""
    import elphmod
    rng = ctx.rng
    n, points = int(rng.integers(1, 7)), int(rng.integers(2, 12))
    spacing = 10.0 ** rng.uniform(-3, 3)
    start = spacing * (np.arange(n) + rng.uniform(-0.1, 0.1, n)
        + rng.uniform(-9, 9))
    steps = spacing * rng.uniform(-0.02, 0.02, (points, n))
    v = start + steps
    V = np.array([np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(
        size=(n, n)))[0] for _ in range(points)])
    ctx.note(n=n, points=points, spacing=spacing)
    ctx.sig(v)
    o = elphmod.dispersion.band_order(v, V, by_mean=bool(rng.integers(2)),
        dv=spacing * float(rng.uniform(0.1, 0.6)), eps=1e-10 * spacing,
        status=False)
    ctx.equal('no jumps', o, np.tile(np.arange(n), (points, 1)))
    # characters win without limit:
    p = np.array([rng.permutation(n) for _ in range(points)])
    W = np.array([V[0][:, x] for x in p]) + 1e-3 / n * V
    o = elphmod.dispersion.band_order(v, W, by_mean=False, status=False,
        eps=1e-10 * spacing)
    first = np.argsort(p, axis=1)
    ctx.equal('same characters', o, first[:, p[0]])


@check.family(12)
def full(ctx, i):
    """Complete symmetric meshes."""
    import elphmod
    rng = ctx.rng
    angle = int(rng.choice([60, 90, 120]))
    n = int(rng.integers(1, 5))
    U, fun, H = bands(rng, n, angle)
    size = int(rng.integers(1, 10))
    ctx.note(angle=angle, n=n, size=size)
    k = 2 * np.pi / size * np.array(list(itertools.product(range(size),
        repeat=2)), dtype=float)
    E = np.array([fun(*x) for x in k]).reshape((size, size, n))
    ref = np.sort(E, axis=-1)
    opt = dict(angle=angle) if angle != 60 or rng.integers(2) else {}
    shm = dict(shared_memory=bool(rng.integers(2)), broadcast=bool(
        rng.integers(2)))
    v = elphmod.dispersion.dispersion_full(H, size, **opt, **shm)
    ctx.close('eigenvalues', v, ref, 1e-9, 1e-9)
    v, V = elphmod.dispersion.dispersion_full(H, size, vectors=True, **opt,
        **shm)
    ctx.close('eigenvalues', v, ref, 1e-9, 1e-9)
    pairs(ctx, H, k, v, V, True, 1e-8)
    more = dict(gauge=bool(rng.integers(2)), hermitian=bool(rng.integers(2)))
    v, V = elphmod.dispersion.dispersion_full(H, size, vectors=True, **opt,
        **shm, **more)
    v, V = np.asarray(v), np.asarray(V)
    ctx.close('eigenvalues with options', v, ref, 1e-8, 1e-8)
    ctx.close('eigenvectors with options', np.linalg.norm(V, axis=-2),
        np.ones((size, size, n)), 1e-9)
    HV = np.array([H(*x) for x in k]).reshape((size, size, n, n)) @ V
    ctx.close('eigenpairs with options', HV, V * v[..., None, :], 1e-7, 1e-7)
    if more['gauge']:
        best = np.take_along_axis(V, abs(V).argmax(axis=-2)[..., None, :],
            -2)
        # (not necessarily the same one of several largest components)
        top = np.sort(abs(V), axis=-2)
        clear = (top[..., -1, :] - (top[..., -2, :] if n > 1 else 0)) > 1e-6
        ctx.close('gauge', best[..., 0, :].imag[clear], np.zeros(clear.sum()),
            0, 1e-9)
        ctx.true('sign of gauge', np.all(best[..., 0, :].real[clear] > 0))
    ctx.close('eigenvalues only', elphmod.dispersion.dispersion_full(H, size,
        **opt, **shm, **more), ref, 1e-8, 1e-8)
    # energies with lifetimes (normal matrix):
    z = complex(1, rng.uniform(-0.5, 0.5))
    v = elphmod.dispersion.dispersion_full(lambda *k, H=H: z * H(*k), size, **opt,
        **shm, hermitian=False)
    ctx.close('complex energies', v, z * ref, 1e-8, 1e-8)
    v, V = elphmod.dispersion.dispersion_full(lambda *k, H=H: z * H(*k), size,
        vectors=True, **opt, **shm, hermitian=False)
    ctx.close('complex energies with vectors', v, z * ref, 1e-8, 1e-8)
    for vectors in False, True:
        got = elphmod.dispersion.dispersion_full(H, size, vectors=vectors,
            order=True, **opt, **shm)
        ctx.equal('number of results', len(got), 2 + vectors)
        o = got[-1]
        ctx.equal('permutations', np.sort(o, axis=-1), np.tile(np.arange(n),
            (size, size, 1)))
        ctx.close('reordered', got[0], np.take_along_axis(ref, o, -1), 1e-9,
            1e-9)
        if vectors:
            pairs(ctx, H, k, got[0], got[1], True, 1e-8)
    # without symmetry:
    a = elphmod.dispersion.dispersion_full_nosym(H, size, **shm)
    ctx.close('without symmetry', a, ref, 1e-9, 1e-9)
    got = elphmod.dispersion.dispersion_full_nosym(H, size, vectors=True,
        order=True, **opt, **shm)
    pairs(ctx, H, k, got[0], got[1], True, 1e-8)
    ctx.close('reordered without symmetry', got[0], np.take_along_axis(ref,
        got[2], -1), 1e-9, 1e-9)
    got = elphmod.dispersion.dispersion_full_nosym(H, size, order=True, **opt,
        **shm)
    ctx.close('reordered without symmetry', got[0], np.take_along_axis(ref,
        got[1], -1), 1e-9, 1e-9)
    # bands of different, constant character never mix, if there are no
    # degenerate points:
    if n > 1 and np.diff(ref, axis=-1).min() > 1e-3:
        e, W, o = elphmod.dispersion.dispersion_full(H, size, vectors=True,
            order=True, **opt)
        first = abs(U.conj().T.dot(W[0, 0])).argmax(axis=0)
        ctx.close('disentangled', e, E[..., first], 1e-8, 1e-8)
    # arbitrary mesh and matrix:
    n, H = draw(rng)
    size = tuple(map(int, rng.integers(1, 5, int(rng.integers(1, 4)))))
    v, V = elphmod.dispersion.dispersion_full_nosym(H, size, vectors=True)
    ctx.equal('shape', v.shape, (*size, n))
    k = [2 * np.pi * np.array(x) / size for x in np.ndindex(*size)]
    pairs(ctx, H, k, v, V, True)


@check.family(8)
def gauge(ctx, i):
    """Vectors aligned with wave vector."""
    import elphmod
    rng = ctx.rng
    ph = m.phonon(rng, n=2, nat=int(rng.integers(1, 4)))
    angle = int(rng.choice([60, 90, 120]))
    dim = int(rng.integers(2, 4))
    q = rng.uniform(-7, 7, (int(rng.integers(1, 6)), dim))
    ctx.note(nat=ph.nat, angle=angle, q=q)
    D = ph.D
    v, V = elphmod.dispersion.dispersion(D, q, vectors=True)
    w, W = elphmod.dispersion.dispersion(D, q, vectors=True, rotate=True,
        angle=angle)
    ctx.close('eigenvalues', w, v, 1e-12)
    a1, a2 = elphmod.bravais.translations(180 - angle)
    b = 2 * np.pi * np.linalg.inv(np.array([a1, a2])).T
    for n in range(len(q)):
        x = q[n, :2] / (2 * np.pi)
        x = x - np.round(x)
        best = min((np.dot(x + s, b) for s in itertools.product(range(-2, 3),
            repeat=2)), key=np.linalg.norm)
        alt = sorted(np.linalg.norm(np.dot(x + s, b)) for s in
            itertools.product(range(-2, 3), repeat=2))
        if alt[1] - alt[0] < 1e-6 or alt[0] < 1e-6:
            continue
        phi = np.arctan2(best[1], best[0])
        R = np.array([[np.cos(phi), np.sin(phi), 0], [-np.sin(phi),
            np.cos(phi), 0], [0, 0, 1]])
        R = np.kron(np.eye(ph.nat), R)
        overlap = (R.dot(V[n]).conj() * W[n]).sum(axis=0)
        if np.diff(v[n]).min(initial=1.0) > 1e-9:
            ctx.close('rotated', abs(overlap), np.ones(len(overlap)), 1e-7)
    # mapping of eigenvectors:
    n = int(rng.integers(1, 6))
    shape = tuple(map(int, rng.integers(1, 4, int(rng.integers(0, 3)))))
    A = np.linalg.qr(rng.normal(size=(*shape, n, n)) + 1j * rng.normal(size=(
        *shape, n, n)))[0]
    order = rng.permuted(np.tile(np.arange(n), (*shape, 1)), axis=-1)
    B = np.take_along_axis(A, order[..., None, :], -1) * np.exp(1j
        * rng.uniform(0, 7, (*shape, 1, n)))
    got = elphmod.dispersion.map_dispersions(A, B)
    ctx.equal('shape', got.shape, (*shape, n))
    ctx.equal('mapping', np.take_along_axis(order, got, -1), np.tile(
        np.arange(n), (*shape, 1)))


@check.family(8)
def samples(ctx, i):
    """Functions sampled on arbitrary sets of points."""
    import elphmod
    rng = ctx.rng
    k, shape, flat = points(rng)
    out = tuple(map(int, rng.integers(1, 4, int(rng.integers(1, 4)))))
    real = bool(rng.integers(2))
    w = rng.normal(size=(3, *out))

    def fun(k1=0, k2=0, k3=0, x=1.0, flip=False):
        y = x * np.exp(1j * (w[0] * k1 + w[1] * k2 + w[2] * k3))
        if flip:
            y = -y
        return y.real if real else y

    kwargs = {}
    if rng.integers(2):
        kwargs['x'] = rng.normal()
    if rng.integers(2):
        kwargs['flip'] = True
    ctx.note(shape=k.shape, out=out, real=real)
    before = fingerprint(k)
    got = elphmod.dispersion.sample(fun, k if rng.integers(2) else k.tolist(),
        **kwargs)
    ctx.equal('k points unchanged', fingerprint(k), before)
    ctx.equal('shape', got.shape, (*shape, *out))
    ctx.equal('type', got.dtype.kind, 'f' if real else 'c')
    ref = np.array([fun(*x, **kwargs) for x in flat]).reshape(got.shape)
    ctx.equal('values', got, ref)
