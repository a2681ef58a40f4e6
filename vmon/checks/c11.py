"""C11: electronic supercells."""

import itertools

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m
from vmon.checks.c06 import integer_matrix

check = Check('C11', 'A case is one random tight-binding model and supercell '
    'matrix; distinct by these; non-trivial if the supercell has more than '
    'one cell.', boost=8)


def arguments(rng, N):
    """Ways of passing a supercell matrix."""
    args = []
    for k in range(3):
        row = N[k]
        if all(row[l] == 0 for l in range(3) if l != k) and rng.integers(2):
            args.append(int(row[k]))
        else:
            args.append([tuple(map(int, row)), list(map(int, row)),
                np.array(row)][rng.integers(3)])
    return args


def folded(N, K):
    """Inequivalent primitive wave vectors that fold onto supercell point."""
    N = np.array(N)
    n = abs(int(round(np.linalg.det(N))))
    inv = np.linalg.inv(N)
    points = {}
    span = int(abs(N).sum(axis=1).max()) + 1
    for G in itertools.product(range(0, n), repeat=3):
        x = inv.dot(G)
        key = tuple(np.round((x % 1.0) * n).astype(int) % n)
        if key not in points:
            points[key] = inv.dot(K) + 2 * np.pi * x
            if len(points) == n:
                break
    assert len(points) == n
    return np.array([points[key] for key in sorted(points)])


def draw_matrix(rng, limit=9, flat=False):
    while True:
        N, n = integer_matrix(rng, limit)
        if flat:
            N = N.copy()
            N[2] = 0, 0, 1
            N[:2, 2] = 0
            n = int(round(np.linalg.det(N)))
            if not n or abs(n) > limit:
                continue
        return N, abs(n)


def union(f, points):
    return np.sort(np.concatenate([np.linalg.eigvalsh(f(*k))
        for k in points]))


@check.family(40)
def fold(ctx, i):
    """Union of primitive spectra, Bloch states, sparse form, way back."""
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    el = m.electrons(rng, dim=dim, n=int(rng.integers(1, 5)),
        rmax=int(rng.integers(1, 3)), real=bool(rng.integers(2)))
    el.rydberg = bool(rng.integers(2))
    el.divide_ndegen = bool(rng.integers(3))
    N, n = draw_matrix(rng)
    args = arguments(rng, N)
    ctx.note(size=el.size, R=el.R, N=N, dim=dim)
    R, data = el.R.copy(), el.data.copy()
    repeated = rng.integers(4) == 0
    if repeated: # lattice vectors may occur repeatedly
        part = rng.normal(size=data[0].shape).astype(complex)
        el.R = np.vstack([R, R[:1]])
        el.data = np.concatenate([data, part[None]])
        el.data[0] -= part
    sc = el.supercell(*args)
    scale = abs(data).sum()
    ctx.equal('size', sc.size, n * el.size)
    ctx.equal('supercell vectors', [tuple(map(int, x)) for x in sc.N],
        [tuple(map(int, x)) for x in N])
    ctx.equal('number of cells', len(sc.cells), n)
    ctx.equal('units kept', (sc.rydberg, sc.divide_ndegen), (el.rydberg,
        el.divide_ndegen))
    K = m.kpoint(rng)
    H = sc.H(*K)
    ctx.close('Hermitian', H, H.conj().T, 1e-11, scale=scale)
    points = folded(N, K)
    ctx.close('union of folded spectra', np.sort(np.linalg.eigvalsh(H)),
        union(lambda *k: m.fourier(R, data, k), points), 1e-10, scale=scale)
    cells = np.array(sc.cells)
    for k in points[:4]:
        B = np.kron(np.exp(1j * cells.dot(k))[:, None], np.eye(el.size))
        ctx.close('Bloch waves stay Bloch waves', H.dot(B),
            B.dot(m.fourier(R, data, k)), 1e-10, scale=scale)
    # real-space matrix elements between listed cells
    index = {tuple(r): x for x, r in enumerate(R.tolist())}
    for _ in range(4):
        x, y = map(int, rng.integers(n, size=2))
        T = rng.integers(-1, 2, 3)
        d = tuple((T.dot(N) + cells[y] - cells[x]).tolist())
        got = sc.t(*T)[x * el.size:(x + 1) * el.size,
            y * el.size:(y + 1) * el.size]
        ctx.close('matrix element', got, data[index[d]] if d in index
            else 0 * data[0], 1e-11, scale=scale)
    rows = set(map(tuple, sc.R.tolist()))
    ctx.equal('no lattice vector repeated', len(rows), len(sc.R))
    if i % 2 == 0:
        back = sc.unit_cell()
        k = m.kpoint(rng)
        ctx.equal('size of unit cell', back.size, el.size)
        ctx.close('unit cell recovered', back.H(*k), m.fourier(R, data, k),
            1e-11, scale=scale)
        ctx.equal('units of unit cell', (back.rydberg, back.divide_ndegen),
            (el.rydberg, el.divide_ndegen))
        for x, r in enumerate(R.tolist()):
            ctx.close('hopping recovered', back.t(*r), data[x], 1e-11,
                scale=scale)
    sparse = el.supercell(*args, sparse=True)
    ref = sc.H()
    ctx.close('sparse matrix', np.asarray(sparse.Hs.toarray()),
        sum(sc.data.real), 1e-11, scale=scale)
    ctx.equal('sparse: size', sparse.size, sc.size)
    ctx.equal('sparse: cells', list(map(tuple, sparse.cells)),
        list(map(tuple, sc.cells)))
    if not repeated:
        ctx.equal('model unchanged', el.data, data)
        ctx.equal('vectors unchanged', el.R, R)


@check.family(20)
def nested(ctx, i):
    """Supercells of supercells and operations in between."""
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    el = m.electrons(rng, dim=dim, size=int(rng.integers(1, 3)))
    N, n = draw_matrix(rng, 4)
    M, k = draw_matrix(rng, 4)
    ctx.note(size=el.size, R=el.R, N=N, M=M)
    scale = abs(el.data).sum()
    first = el.supercell(*arguments(rng, N))
    if rng.integers(2):
        first.standardize()
    second = first.supercell(*arguments(rng, M))
    K = m.kpoint(rng)
    ctx.close('union of folded spectra', np.sort(np.linalg.eigvalsh(
        second.H(*K))), union(lambda *k: m.fourier(el.R, el.data, k),
        folded(M.dot(N), K)), 1e-10, scale=scale)
    back = second.unit_cell()
    q = m.kpoint(rng)
    ctx.close('intermediate supercell recovered', back.H(*q), first.H(*q),
        1e-11, scale=scale)
    if rng.integers(2):
        second.standardize(symmetrize=bool(rng.integers(2)))
        ctx.close('standardized first', second.unit_cell().H(*q),
            first.H(*q), 1e-10, scale=scale)
    direct = el.supercell(*arguments(rng, M.dot(N)))
    ctx.close('same as direct supercell', np.sort(np.linalg.eigvalsh(
        direct.H(*K))), np.sort(np.linalg.eigvalsh(second.H(*K))), 1e-10,
        scale=scale)


@check.family(20)
def unfolding(ctx, i):
    """Weights are nonnegative, complete and select primitive states."""
    import elphmod
    rng = ctx.rng
    el = m.electrons(rng, dim=int(rng.integers(1, 4)))
    N, n = draw_matrix(rng, 6)
    ctx.note(size=el.size, R=el.R, N=N)
    sc = el.supercell(*arguments(rng, N))
    K = rng.uniform(0, 2 * np.pi, 3)
    points = folded(N, K)
    E, U = np.linalg.eigh(sc.H(*K))
    E0, U0 = zip(*[np.linalg.eigh(el.H(*k)) for k in points])
    U0 = np.array(U0)
    order = rng.permutation(sc.size)
    blocks = None
    blocks0 = None
    cells = [sc.cells[x] for x in range(n)]
    UU = np.array([U] * n)
    kind = int(rng.integers(3))
    if kind == 1: # orbitals in arbitrary order
        inverse = np.argsort(order)
        UU = UU[:, order]
        blocks = [inverse[x * el.size:(x + 1) * el.size] for x in range(n)]
    elif kind == 2: # cells in arbitrary order, explicit slices
        p = rng.permutation(n)
        cells = [sc.cells[x] for x in p]
        blocks = [slice(x * el.size, (x + 1) * el.size) for x in p]
        blocks0 = [slice(0, el.size)] * n
    ctx.note(kind=kind)
    before = U0.copy(), UU.copy()
    # integer lattice translations of the k points do not matter
    shifted = points + 2 * np.pi * rng.integers(-1, 2, points.shape)
    w = elphmod.dispersion.unfolding_weights(shifted, cells, U0, UU,
        blocks0=blocks0, blocks=blocks)
    ctx.true('arguments unchanged', np.array_equal(U0, before[0])
        and np.array_equal(UU, before[1]))
    ctx.equal('shape', w.shape, (n, sc.size))
    ctx.true('nonnegative', np.all(w >= 0) and np.all(w <= 1 + 1e-9))
    ctx.close('all primitive states found', w.sum(axis=1),
        np.full(n, float(el.size)), 1e-9)
    ctx.close('each state distributed completely', w.sum(axis=0),
        np.ones(sc.size), 1e-9)
    for x in range(n): # states with weight belong to this k point
        for y in range(sc.size):
            if w[x, y] > 1e-9:
                ctx.true('energy among primitive ones', min(abs(E0[x]
                    - E[y])) < 1e-6 * abs(E).max(), lambda: (E0[x], E[y]))
        ctx.close('spectral weight', sum(w[x] * E), sum(E0[x]), 1e-9,
            scale=abs(E).max() * el.size)
    # other sign convention: complex-conjugate states
    v = elphmod.dispersion.unfolding_weights(points, cells, U0.conj(),
        UU.conj(), blocks0=blocks0, blocks=blocks, sgn=+1)
    ctx.close('opposite sign convention', v, w, 1e-9)
    u = elphmod.dispersion.unfolding_weights(points[:1], cells, U0[:1],
        UU[:1], blocks0=blocks0, blocks=blocks)
    ctx.close('point by point', u, w[:1], 1e-9)
    # some of the primitive states:
    some = np.sort(rng.permutation(el.size)[:int(rng.integers(1, el.size
        + 1))])
    u = elphmod.dispersion.unfolding_weights(points, cells, U0[..., some], UU,
        blocks0=blocks0, blocks=blocks)
    ctx.close('some primitive states', u * sc.size / len(some), [[sum(abs(sum(
        np.exp(-1j * points[x].dot(cells[c])) * np.vdot(U0[x, :, s],
        UU[x][blocks[c] if blocks else slice(c * el.size, (c + 1) * el.size),
        y]) for c in range(n))) ** 2 for s in some) for y in range(sc.size)]
        for x in range(n)], 1e-9)
