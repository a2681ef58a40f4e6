"""C10: tight-binding models."""

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m
from vmon.checks import c09

check = Check('C10', 'A case is one random tight-binding model with k points '
    'and operations applied to it; distinct by these; non-trivial if the model '
    'has hopping beyond the home cell.', boost=10)

check.include(c09.check, 'k2r', 'wannier_files', share=0.4)


def draw(ctx, **kwargs):
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    el = m.electrons(rng, n=int(rng.integers(0, 6)), dim=dim,
        rmax=int(rng.integers(1, 4)), scale=10.0 ** rng.uniform(-2, 1),
        **kwargs)
    ctx.note(size=el.size, R=el.R, dim=dim)
    return el, dim


def spectrum(H):
    return np.sort(np.linalg.eigvalsh(H))


@check.family(40)
def hamiltonian(ctx, i):
    """Fourier sum, Hermiticity, periodicity, velocity and lookup."""
    el, dim = draw(ctx)
    rng = ctx.rng
    data, R = el.data.copy(), el.R.copy()
    scale = abs(data).sum(axis=0).max()
    k = m.kpoint(rng, dim)
    ctx.note(k=k)
    H = el.H(*k[:dim]) if rng.integers(2) else el.H(*k)
    ctx.close('Fourier sum', H, m.fourier(R, data, k), 1e-11, scale=scale)
    ctx.close('Hermitian', H, H.conj().T, 1e-12, scale=scale)
    G = 2 * np.pi * rng.integers(-2, 3, 3)
    ctx.close('periodic in each coordinate', el.H(*(k + G)), H, 1e-11,
        scale=scale)
    ctx.close('complex conjugate of transpose at opposite point',
        el.H(*-k), m.fourier(R, data, -k), 1e-11, scale=scale)
    v = el.v(*k)
    ctx.equal('shape of velocity', v.shape, (3, el.size, el.size))
    vscale = scale * (1 + abs(R).max())
    for x in range(3):
        ref = m.fourier(R, data * 1j * R[:, x][:, None, None], k)
        ctx.close('velocity is derivative (sum)', v[x], ref, 1e-11,
            scale=vscale)
        h = 1e-4
        d = np.zeros(3)
        d[x] = h
        num = (8 * (el.H(*(k + d)) - el.H(*(k - d)))
            - (el.H(*(k + 2 * d)) - el.H(*(k - 2 * d)))) / (12 * h)
        ctx.close('velocity is derivative (numerical)', v[x], num, 1e-8,
            scale=vscale)
        ctx.close('velocity is Hermitian', v[x], v[x].conj().T, 1e-11,
            scale=vscale)
    for n in rng.permutation(len(R))[:3]:
        ctx.equal('hopping of lattice vector', np.array(el.t(*R[n])), data[n])
    far = np.array([9, -9, 9])
    t = el.t(*far)
    ctx.equal('no hopping beyond cell', np.array(t), np.zeros((el.size,
        el.size)))
    missing = [r for r in np.ndindex(3, 3, 3) if not np.any(np.all(
        R == np.array(r) - 1, axis=1))]
    if missing:
        r = np.array(missing[rng.integers(len(missing))]) - 1
        ctx.equal('no hopping for unlisted vector', np.array(el.t(*r)),
            np.zeros((el.size, el.size)))
    ctx.equal('data unchanged', el.data, data)
    ctx.equal('lattice vectors unchanged', el.R, R)


@check.family(40)
def standardize(ctx, i):
    """Repeated, unsorted and small entries."""
    el, dim = draw(ctx, hermitian=True)
    rng = ctx.rng
    # split entries into repeated lattice vectors and zero matrices
    n = len(el.R)
    extra = rng.integers(n, size=int(rng.integers(0, 4)))
    R, data = [*el.R], [*el.data]
    for e in extra:
        part = rng.normal(size=el.data[0].shape) * abs(el.data).max()
        data[e] = data[e] - part
        R.append(R[e])
        data.append(part.astype(complex))
    if rng.integers(2):
        R.append(np.array([5, 5, 5]))
        data.append(np.zeros_like(data[0]))
    order = rng.permutation(len(R))
    el.R = np.array(R)[order]
    el.data = np.array(data)[order]
    if rng.integers(2): # sparse matrix elements
        el.data[rng.uniform(size=el.data.shape) < 0.3] = 0.0
        if not el.data.any():
            raise Skip('no hopping')
    eps = float(rng.choice([0.0, 0.0, 0.05, 0.2]))
    sym = bool(rng.integers(2))
    ctx.note(eps=eps, sym=sym, repeated=len(extra))
    R, data = el.R.copy(), el.data.copy()
    ref = np.where(abs(data) < eps * abs(data).max(), 0.0, data) if eps \
        else data
    near = np.any(abs(abs(data) - eps * abs(data).max())
        < 1e-9 * abs(data).max()) if eps else False
    if near:
        raise Skip('element at threshold')
    k = m.kpoint(rng, dim)
    H = m.fourier(R, ref, k)
    if sym:
        H = (H + H.conj().T) / 2
    if sym and not eps and rng.integers(2):
        el.symmetrize()
    else:
        el.standardize(eps=eps, symmetrize=sym)
    scale = abs(data).sum()
    ctx.close('same Hamiltonian', el.H(*k), H, 1e-11, scale=scale)
    rows = [tuple(r) for r in el.R.tolist()]
    ctx.equal('sorted and unique', rows, sorted(set(rows)))
    ctx.true('nonzero source of each matrix', set(rows) <= set(
        tuple(s * x for x in r) for r, t in zip(R.tolist(), ref) if t.any()
        for s in ([1, -1] if sym else [1])))
    ctx.true('no nonzero hopping lost', set(rows) >= set(tuple(r)
        for r, t in zip(R.tolist(), ref) if t.any()))
    if sym:
        for r in rows:
            ctx.close('Hermitian in real space', el.t(*r),
                el.t(*[-x for x in r]).conj().T, 1e-12, scale=scale)
    R, data = el.R.copy(), el.data.copy()
    el.standardize(symmetrize=sym)
    keep = data.any(axis=(1, 2))
    ctx.equal('repeated: same lattice vectors', el.R, R[keep])
    ctx.close('repeated: same data', el.data, data[keep], 1e-12)


@check.family(40)
def rearrange(ctx, i):
    """Reordering orbitals, moving them to other cells, clearing."""
    el, dim = draw(ctx)
    rng = ctx.rng
    scale = abs(el.data).sum()
    k = m.kpoint(rng, dim)
    order = rng.permutation(el.size)
    H = el.H(*k)
    E = spectrum(H)
    steps = []
    phase = np.ones(el.size, dtype=complex)
    perm = np.arange(el.size)
    for step in range(int(rng.integers(1, 4))):
        if rng.integers(2):
            order = rng.permutation(el.size)
            el.order_orbitals(*map(int, order))
            phase, perm = phase[order], perm[order]
            steps.append(('order', order.tolist()))
        else:
            lo, hi = sorted(map(int, rng.integers(0, el.size + 1, 2)))
            S = rng.integers(-2, 3, 3)
            S[dim:] = 0
            arg = tuple(map(int, S))
            if rng.integers(2):
                arg = np.array(arg)
            el.shift_orbitals(slice(lo, hi), arg)
            # orbital at R now called R - S: <0a|H|R+S b>
            phase[lo:hi] *= np.exp(-1j * S.dot(k))
            steps.append(('shift', lo, hi, S.tolist()))
    ctx.note(steps=steps)
    ref = H[perm][:, perm] * phase[None, :] * phase[:, None].conj()
    ctx.close('documented mapping of elements', el.H(*k), ref, 1e-11,
        scale=scale)
    ctx.close('same spectrum', spectrum(el.H(*k)), E, 1e-11, scale=scale)
    ctx.close('Hermitian', el.H(*k), el.H(*k).conj().T, 1e-11, scale=scale)
    size = el.size
    el.clear()
    ctx.equal('cleared', (len(el.R), len(el.data), el.data.shape[1:],
        el.R.shape[1]), (0, 0, (size, size), 3))
    ctx.equal('no Hamiltonian left', np.array(el.H(*k)),
        np.zeros((size, size)))


@check.family(10)
def decay(ctx, i):
    """Hopping as a function of distance from files."""
    import elphmod
    el, dim = draw(ctx)
    rng = ctx.rng
    seed = ctx.file('seed')
    deg = rng.integers(1, 5, len(el.R))
    el.data = np.round(el.data, 6)
    elphmod.el.write_hrdat(seed, el.R, el.data, deg)
    a, c = rng.uniform(1, 4, 2)
    ibrav = int(rng.choice([1, 2, 4, 6]))
    kwargs = dict(ibrav=ibrav, a=a, c=c)
    at = elphmod.bravais.primitives(**kwargs)
    d, H = elphmod.el.decayH(seed, **kwargs)
    plain = elphmod.el.Model(seed, divide_ndegen=False)
    divided = elphmod.el.Model(seed)
    ref = {}
    for n, R in enumerate(el.R.tolist()):
        ref[tuple(R)] = (np.linalg.norm(np.dot(R, at)),
            abs(el.data[n]).max() / elphmod.misc.Ry, n)
    ctx.equal('all vectors', sorted(map(tuple, plain.R.tolist())),
        sorted(ref))
    for n, R in enumerate(plain.R.tolist()):
        l, h, o = ref[tuple(R)]
        ctx.close('distance', d[n], l, 1e-9, atol=1e-9)
        ctx.close('hopping', H[n], h, 1e-9, atol=1e-12)
        ctx.close('undivided', plain.data[n], el.data[o], 1e-9, atol=1e-12)
        ctx.close('divided', divided.t(*R), el.data[o] / deg[o], 1e-9,
            atol=1e-12)
