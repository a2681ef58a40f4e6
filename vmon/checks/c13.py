"""C13: phonon supercells and cell changes."""

import copy

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks.c11 import arguments, draw_matrix, folded, union

check = Check('C13', 'A case is one random mass-spring model (with or without '
    'charges) and a supercell matrix or sequence of cell changes; distinct by '
    'these; non-trivial if the supercell has several cells or the sequence '
    'several steps.', boost=6)


def draw(rng, polar=None, dim=None, **kwargs):
    dim = int(rng.integers(1, 4)) if dim is None else dim
    kind = max(0, int(rng.integers(-3, 4))) if polar is None else int(polar)
    two = kind == 1 or kind == 3 and bool(rng.integers(2))
    options = dict(n=int(rng.integers(1, 5)), rmax=int(rng.integers(1, 3)),
        divide_mass=bool(rng.integers(2)))
    if kind:
        options.update(nat=int(rng.integers(1, 3)), polar=True, two=two,
            quad=bool(rng.integers(2)), n=2, rmax=1,
            L=rng.uniform(4, 9) if two and rng.integers(2) else None)
    options.update(kwargs)
    return m.phonon(rng, dim=dim, **options), kind


def snapshot(ph):
    """Own copy of what defines the model (independent of its methods)."""
    return dict(R=ph.R.copy(), data=ph.data.copy(), M=np.array(ph.M),
        r=np.array(ph.r), a=np.array(ph.a), names=list(ph.atom_order),
        Z=None if ph.Z is None else np.array(ph.Z),
        Q=None if ph.Q is None else np.array(ph.Q))


def labels(ctx, ph, old, atoms, shifts=None):
    """Everything attached to atoms has moved along."""
    atoms = list(atoms)
    ctx.equal('number of atoms', (ph.nat, ph.size, len(ph.atom_order)),
        (len(atoms), 3 * len(atoms), len(atoms)))
    ctx.equal('masses', np.array(ph.M), old['M'][atoms])
    ctx.equal('labels', list(ph.atom_order), [old['names'][x]
        for x in atoms])
    r = old['r'][atoms]
    if shifts is not None:
        r = r + shifts
    ctx.close('positions', np.array(ph.r), r, 1e-11, scale=abs(r).max()
        + abs(old['a']).max())
    for key in 'Z', 'Q':
        got = getattr(ph, key)
        if old[key] is None:
            ctx.true('no charges', got is None)
        else:
            ctx.equal('charges', np.array(got), old[key][atoms])


@check.family(40)
def fold(ctx, i):
    """Union of primitive spectra, Bloch states, sparse form, way back."""
    rng = ctx.rng
    ph, kind = draw(rng)
    N, n = draw_matrix(rng, 3 if kind else 8, flat=bool(ph.lr2d))
    args = arguments(rng, N)
    ctx.note(nat=ph.nat, R=ph.R, N=N, kind=kind, mass=ph.divide_mass)
    if rng.integers(4) == 0: # lattice vectors may occur repeatedly
        part = rng.normal(size=ph.data[0].shape) * abs(ph.data).max()
        ph.R = np.vstack([ph.R, ph.R[:1]])
        ph.data = np.concatenate([ph.data, part[None]])
        ph.data[0] -= part
    old = snapshot(ph)
    before = fingerprint(ph)
    sc = ph.supercell(*args)
    D = lambda *q: ph.D(*q) if kind else m.fourier(old['R'], old['data'], q)
    scale = abs(old['data']).sum() + (abs(ph.D0_lr).max() if kind else 0)
    tol = 1e-10 if not kind else 1e-4
    cells = np.array(sc.cells)
    ctx.equal('number of cells', len(cells), n)
    ctx.equal('supercell vectors', [tuple(map(int, x)) for x in sc.N],
        [tuple(map(int, x)) for x in N])
    ctx.close('lattice vectors', np.array(sc.a), np.array(N).dot(old['a']),
        1e-12)
    labels(ctx, sc, old, np.tile(np.arange(ph.nat), n), np.repeat(
        cells.dot(old['a']), ph.nat, axis=0))
    ctx.equal('settings', (sc.divide_mass, sc.divide_ndegen, sc.lr, sc.lr2d,
        sc.L, sc.perp), (ph.divide_mass, ph.divide_ndegen, ph.lr, ph.lr2d,
        ph.L, ph.perp))
    K = m.kpoint(rng)
    if kind: # stay within reach of truncated reciprocal-space sums
        K = rng.uniform(-np.pi, np.pi, 3)
        if ph.lr2d:
            K[2] = 0
        K = np.array(N).dot(K)
    points = folded(N, K)
    if kind: # smallest wave vectors
        points = (points + np.pi) % (2 * np.pi) - np.pi
    E = np.linalg.eigvalsh(sc.D(*K))
    ctx.close('union of folded spectra', E, union(D, points), tol,
        scale=scale)
    for q in points[:3]:
        B = np.kron(np.exp(1j * cells.dot(q))[:, None], np.eye(ph.size))
        ctx.close('Bloch waves stay Bloch waves', sc.D(*K).dot(B), B.dot(
            D(*q)), tol, scale=scale)
    index = {}
    for x, r in enumerate(map(tuple, old['R'].tolist())):
        index[r] = index.get(r, 0) + old['data'][x]
    for _ in range(4):
        x, y = map(int, rng.integers(n, size=2))
        T = rng.integers(-1, 2, 3)
        d = tuple((T.dot(N) + cells[y] - cells[x]).tolist())
        ctx.close('force constant', sc.C(*T)[x * ph.size:(x + 1) * ph.size,
            y * ph.size:(y + 1) * ph.size], index.get(d, 0 * old['data'][0]),
            1e-11, scale=scale)
    ctx.equal('no lattice vector repeated', len(set(map(tuple,
        sc.R.tolist()))), len(sc.R))
    if i % 2 == 0:
        back = sc.unit_cell()
        q = rng.uniform(-3, 3, 3)
        if ph.lr2d:
            q[2] = 0
        labels(ctx, back, old, range(ph.nat))
        ctx.close('lattice recovered', np.array(back.a), old['a'], 1e-11)
        ctx.close('unit cell recovered', back.D(*q), D(*q), max(tol
            / 10, 1e-11) if kind else 1e-11, scale=scale)
        ctx.close('Ewald parameter', back.alpha, ph.alpha, 1e-9)
        ctx.equal('settings of unit cell', (back.divide_mass,
            back.divide_ndegen, back.lr, back.lr2d, back.L, back.perp),
            (ph.divide_mass, ph.divide_ndegen, ph.lr, ph.lr2d, ph.L,
            ph.perp))
    sparse = ph.supercell(*args, sparse=True)
    ctx.close('sparse matrix', np.asarray(sparse.Ds.toarray()),
        sc.D().real, 1e-10, scale=scale)
    labels(ctx, sparse, old, np.tile(np.arange(ph.nat), n), np.repeat(
        cells.dot(old['a']), ph.nat, axis=0))
    ctx.equal('model unchanged', fingerprint(ph), before)


@check.family(24)
def nested(ctx, i):
    """Supercells of supercells with operations in between."""
    rng = ctx.rng
    ph, _ = draw(rng, polar=0, nat=int(rng.integers(1, 3)))
    N, n = draw_matrix(rng, 4)
    M, k = draw_matrix(rng, 4)
    ctx.note(nat=ph.nat, R=ph.R, N=N, M=M)
    scale = abs(ph.data).sum()
    first = ph.supercell(*arguments(rng, N))
    if rng.integers(2):
        first.standardize(symmetrize=bool(rng.integers(2)))
    before = fingerprint(first)
    second = first.supercell(*arguments(rng, M))
    K = m.kpoint(rng)
    ctx.close('union of folded spectra', np.linalg.eigvalsh(second.D(*K)),
        union(lambda *q: m.fourier(ph.R, ph.data, q), folded(M.dot(N), K)),
        1e-10, scale=scale)
    ctx.close('lattice vectors', np.array(second.a), M.dot(N).dot(ph.a),
        1e-11)
    back = second.unit_cell()
    q = m.kpoint(rng)
    ctx.close('intermediate supercell recovered', back.D(*q), first.D(*q),
        1e-11, scale=scale)
    ctx.close('intermediate positions', np.array(back.r),
        np.array(first.r), 1e-10, scale=abs(second.a).max())
    direct = ph.supercell(*arguments(rng, M.dot(N)))
    ctx.close('same as direct supercell', np.linalg.eigvalsh(direct.D(*K)),
        np.linalg.eigvalsh(second.D(*K)), 1e-10, scale=scale)
    ctx.equal('intermediate unchanged', fingerprint(first), before)
    # a change of the supercell must not change the others
    old = fingerprint(ph)
    second.shift_atoms(slice(0, int(rng.integers(1, second.nat + 1))), (1, 0, 0))
    second.order_atoms(*rng.permutation(second.nat))
    ctx.equal('intermediate still unchanged', fingerprint(first), before)
    ctx.equal('primitive model unchanged', fingerprint(ph), old)


@check.family(40)
def changes(ctx, i):
    """Random sequences of cell changes against an independent model."""
    import elphmod
    rng = ctx.rng
    ph, kind = draw(rng, nat=int(rng.integers(2, 4)))
    old = snapshot(ph)
    twin = copy.copy(ph) # shares arrays with the changed model
    before = fingerprint(twin)
    scale = abs(ph.data).sum() + (abs(ph.D0_lr).max() if kind else 0)
    tol = 1e-10 if not kind else 1e-5
    atoms = list(range(ph.nat))
    S = np.zeros((ph.nat, 3), dtype=int)
    q = rng.uniform(-3, 3, 3)
    if ph.lr2d:
        q[2] = 0
    off = bool(kind and rng.integers(4) == 0) # long-range part switched off
    if off:
        ph.lr = False
    before = fingerprint(twin)
    D = ph.D(*q)
    steps = []
    for _ in range(int(rng.integers(1, 5))):
        step = int(rng.integers(4))
        steps.append(step)
        if step == 0:
            order = list(map(int, rng.permutation(ph.nat)))
            ph.order_atoms(*order)
            atoms = [atoms[x] for x in order]
            S = S[order]
        elif step == 1:
            x = sorted(map(int, rng.integers(0, ph.nat + 1, 2)))
            s = [slice(*x), slice(x[0], None), slice(None, None, 2)][
                rng.integers(3)]
            shift = rng.integers(-2, 3, 3)
            if ph.lr2d:
                shift[2] = 0
            given = [tuple(map(int, shift)), shift, list(map(int, shift))][
                rng.integers(3)]
            ph.shift_atoms(s, given)
            S = S.copy()
            S[s] += shift
        elif step == 2:
            ph.standardize(symmetrize=bool(rng.integers(2)))
            if len(ph.R):
                rows = list(map(tuple, ph.R.tolist()))
                ctx.equal('sorted and unique', rows, sorted(set(rows)))
        else:
            new = copy.copy(ph)
            new.order_atoms(*rng.permutation(ph.nat))
            new.shift_atoms(slice(0, 1), (0, 1, 0))
        ctx.note(nat=ph.nat, R=old['R'], kind=kind, steps=steps)
        labels(ctx, ph, old, atoms, S.dot(old['a']))
        if kind and not off: # long-range part needs to know the new positions
            ph.prepare_long_range()
        P = np.zeros((len(atoms), len(atoms)), dtype=complex)
        for x, y in enumerate(atoms):
            P[y, x] = np.exp(1j * S[x].dot(q))
        P = np.kron(P, np.eye(3))
        ctx.close('same physics', ph.D(*q), P.T.dot(D).dot(P.conj()), tol,
            scale=scale)
    ctx.equal('copy of model unchanged', fingerprint(twin), before)
