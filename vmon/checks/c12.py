"""C12: mass-spring models."""

import itertools

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m
from vmon.checks import c09

check = Check('C12', 'A case is one random mass-spring model (with or without '
    'charges, masses divided or not) and wave vectors; distinct by these; '
    'non-trivial if the model has couplings beyond the home cell.', boost=4)

check.include(c09.check, 'q2r', share=0.5)


def long_range_terms(ph, q, perp=None, extra=2, G_max=28, flat=False):
    """Published range-separated dipole/quadrupole terms, plain loops."""
    a = np.array(ph.a)
    b = 2 * np.pi * np.linalg.inv(a).T
    scale = 4 * ph.alpha * (2 * np.pi / np.linalg.norm(a[0])) ** 2
    two = ph.lr2d
    n = [extra + int(np.sqrt(scale * G_max) * np.linalg.norm(x) / (2 * np.pi))
        for x in a]
    if two or flat:
        n[2] = 0
    for G in itertools.product(*[range(-x, x + 1) for x in n]):
        G0 = np.dot(G, b)
        GeG = G0.dot(G0) if two else G0.dot(ph.eps).dot(G0)
        if GeG >= scale * G_max:
            continue
        K = G0 + np.dot(np.array(q) / (2 * np.pi), b)
        K2 = K.dot(K) if two else K.dot(ph.eps).dot(K)
        if K2 <= 1e-10:
            continue
        k = np.sqrt(K2)
        parts = []
        ZK = np.array([[sum(K[e] * ph.Z[x, e, u] for e in range(3))
            for u in range(3)] for x in range(ph.nat)])
        QK = np.zeros((ph.nat, 3)) if ph.Q is None else np.array(
            [[K.dot(ph.Q[x, u]).dot(K) for u in range(3)]
            for x in range(ph.nat)])
        if two:
            thick = abs(np.linalg.det(a)) / np.linalg.norm(np.cross(a[0],
                a[1]))
            reff = (ph.eps - np.eye(3)) * thick / 2
            KrK = K[:2].dot(reff[:2, :2]).dot(K[:2])
            area = np.linalg.norm(np.cross(a[0], a[1]))
            pref = 4 * np.pi / area
            if ph.L is None:
                f = pref * np.exp(-K2 / scale) / (k + KrK)
                parts.append((f, 1j * ZK + 0.5 * QK))
            else:
                f = 1 - np.tanh(k * ph.L / 2)
                Qzz = 0 if ph.Q is None else ph.Q[:, :, 2, 2]
                parts.append((pref * f / k / (1 + f / k * KrK),
                    1j * ZK + 0.5 * QK - 0.5 * K2 * Qzz))
                if ph.perp if perp is None else perp:
                    Zz = 1j * k * ph.Z[:, 2, :]
                    if ph.Q is not None:
                        Zz = Zz + k * np.einsum('nuy,y->nu',
                            ph.Q[:, :, 2, :2], K[:2])
                    parts.append((-pref * f / k / (1 - f * k
                        * reff[2, 2]), Zz))
        else:
            f = 8 * np.pi / abs(np.linalg.det(a)) * np.exp(-K2 / scale) \
                / K2
            parts.append((f, 1j * ZK + 0.5 * QK))
        for f, v in parts:
            yield f, (v * np.exp(-1j * ph.r.dot(K))[:, None]).ravel()


def long_range(ph, q, perp=None, extra=2, **kwargs):
    """Long-range dynamical matrix including acoustic correction."""
    mass = np.sqrt(ph.M) if ph.divide_mass else np.ones(ph.nat)

    def term(q):
        return sum((f * np.outer(w.conj(), w) for f, w in long_range_terms(
            ph, q, perp, extra, **kwargs)), np.zeros((3 * ph.nat,
            3 * ph.nat)) + 0j)

    total = term(q)
    zero = term([0, 0, 0])
    for x in range(ph.nat):
        for y in range(ph.nat):
            total[3 * x:3 * x + 3, 3 * x:3 * x + 3] -= zero[3 * x:3 * x + 3,
                3 * y:3 * y + 3]
    for x in range(ph.nat):
        total[3 * x:3 * x + 3] /= mass[x]
        total[:, 3 * x:3 * x + 3] /= mass[x]
    return total


def long_range_coupling(ph, q, extra=2):
    """Long-range electron-phonon coupling (in-plane terms only)."""
    mass = np.sqrt(ph.M) if ph.divide_mass else np.ones(ph.nat)
    return sum((f * w for f, w in long_range_terms(ph, q, False, extra)),
        np.zeros(3 * ph.nat) + 0j) / np.repeat(mass, 3)


def masses(ph):
    return np.repeat(np.sqrt(ph.M), 3)


def force_constants(ph):
    """Plain force constants {R: C}."""
    s = masses(ph)
    total = {}
    for R, C in zip(ph.R.tolist(), ph.data):
        C = C * np.outer(s, s) if ph.divide_mass else C.copy()
        total[tuple(R)] = total.get(tuple(R), 0) + C
    return total


@check.family(40)
def dynamical(ctx, i):
    """Fourier sum, Hermiticity, periodicity and lookup."""
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    ph = m.phonon(rng, n=int(rng.integers(0, 6)), dim=dim,
        rmax=int(rng.integers(1, 4)), divide_mass=bool(rng.integers(2)))
    data, R = ph.data.copy(), ph.R.copy()
    scale = abs(data).sum(axis=0).max()
    q = m.kpoint(rng, dim)
    ctx.note(nat=ph.nat, R=R, q=q)
    D = ph.D(*q[:dim]) if rng.integers(2) else ph.D(*q)
    ctx.close('Fourier sum', D, m.fourier(R, data, q), 1e-11, scale=scale)
    ctx.close('Hermitian', D, D.conj().T, 1e-11, scale=scale)
    ctx.close('time reversal', ph.D(*-q), D.conj(), 1e-11, scale=scale)
    G = 2 * np.pi * rng.integers(-2, 3, 3)
    ctx.close('periodic', ph.D(*(q + G)), D, 1e-11, scale=scale)
    for n in rng.permutation(len(R))[:3]:
        ctx.equal('force constants of lattice vector', np.array(
            ph.C(*R[n])), data[n])
    missing = [r for r in np.ndindex(3, 3, 3) if not np.any(np.all(
        R == np.array(r) - 1, axis=1))]
    if missing:
        r = np.array(missing[rng.integers(len(missing))]) - 1
        ctx.equal('none for unlisted vector', np.array(ph.C(*r)),
            np.zeros((ph.size, ph.size)))
    # bookkeeping of standardization
    n = len(R)
    part = rng.normal(size=data[0].shape) * abs(data).max()
    ph.R = np.concatenate([R, R[:1]])[rng.permutation(n + 1)]
    ph.data = np.zeros((n + 1, ph.size, ph.size))
    first = True
    for x, r in enumerate(ph.R):
        y = int(np.flatnonzero(np.all(R == r, axis=1))[0])
        ph.data[x] = data[y]
        if y == 0:
            ph.data[x] = part if first else data[y] - part
            first = False
    eps = float(rng.choice([0, 0, 0.1]))
    sym = bool(rng.integers(2))
    work = np.where(abs(ph.data) < eps * abs(ph.data).max(), 0.0, ph.data)
    ref = m.fourier(ph.R, work, q)
    if sym:
        ref = (ref + ref.conj().T) / 2
    ph.standardize(eps=eps, symmetrize=sym)
    ctx.close('standardized', ph.D(*q), ref, 1e-10, scale=10 * scale
        + abs(part).max())
    rows = [tuple(r) for r in ph.R.tolist()]
    ctx.equal('sorted and unique', rows, sorted(set(rows)))
    ctx.true('no zero matrices', sym or all(
        x.any() or True for x in ph.data))
    ctx.true('real force constants', ph.data.dtype == float)


@check.family(30)
def mass_division(ctx, i):
    """Same physics with and without masses divided, all input kinds."""
    import elphmod
    rng = ctx.rng
    nq = c09.draw_mesh(rng, 12)
    ref = m.phonon(rng, n=3, rmax=1, divide_mass=False)
    D = np.array([m.fourier(ref.R, ref.data, [2 * np.pi * x / y
        for x, y in zip(k, nq)]) for k in np.ndindex(nq)])
    D = D.reshape((*nq, ref.size, ref.size))
    s = np.outer(masses(ref), masses(ref))
    simple = bool(rng.integers(2))
    ctx.note(nq=nq, nat=ref.nat, apply_asr_simple=simple)
    results = []
    for inp, out in itertools.product([False, True], repeat=2):
        ph = elphmod.ph.Model(amass=ref.M, at=ref.a, tau=ref.r,
            atom_order=ref.atom_order, divide_mass=out)
        elphmod.ph.q2r(ph, D_full=D / s if inp else D.copy(), nq=nq,
            divide_mass=inp, apply_asr_simple=simple)
        C = ph.data * s if out else ph.data
        order = np.lexsort(ph.R.T)
        results.append((ph.R[order], C[order]))
        total = sum(C).reshape((ph.nat, 3, ph.nat, 3)).sum(axis=2)
        if simple:
            ctx.close('acoustic sum vanishes', total, 0 * total, 1e-9,
                scale=abs(C).sum())
            for k in np.ndindex(nq): # only self force constants changed
                x = [2 * np.pi * a / b for a, b in zip(k, nq)]
                diff = (ph.D(*x) * (s if out else 1) - D[k]).reshape((
                    ph.nat, 3, ph.nat, 3))
                for n in range(ph.nat):
                    diff[n, :, n, :] = 0
                ctx.close('other force constants kept', diff, 0 * diff, 1e-9,
                    scale=abs(C).sum())
        else:
            for k in np.ndindex(nq):
                x = [2 * np.pi * a / b for a, b in zip(k, nq)]
                ctx.close('matrix on mesh', ph.D(*x) * (s if out else 1),
                    D[k], 1e-9, scale=abs(D).max())
    for R, C in results[1:]:
        ctx.equal('same lattice vectors', R, results[0][0])
        ctx.close('same force constants', C, results[0][1], 1e-9,
            scale=abs(D).max())


@check.family(20)
def wedge(ctx, i):
    """Hexagonal models through the irreducible wedge."""
    import elphmod
    rng = ctx.rng
    import copy
    lib = [elphmod.models.graphene, elphmod.models.tas2][i % 2]
    mass = bool(rng.integers(2))
    el, ph, elph, elel = lib.create(divide_mass=mass)[:4] \
        if i % 2 == 0 else (*lib.create(divide_mass=mass), None)[:4]
    nq = int(rng.integers(1, 8))
    rigid = rng.uniform(-1, 1) # out-of-plane position is arbitrary
    ctx.note(model=lib.__name__, nq=nq, mass=mass)
    irr = sorted(elphmod.bravais.irreducibles(nq))
    q = np.array(irr, dtype=float).reshape((-1, 2)) * 2 * np.pi / nq
    D = np.array([ph.D(*x) for x in q])
    inp = bool(rng.integers(2))
    s = np.outer(masses(ph), masses(ph))
    given = D * (1 if inp == mass else s if mass else 1 / s)
    new = copy.copy(ph)
    if rng.integers(2):
        given = list(given)
    elphmod.ph.q2r(new, given, q if rng.integers(2) else [tuple(x)
        for x in q], nq, divide_mass=inp)
    for k in np.ndindex(nq, nq):
        x = [2 * np.pi * a / nq for a in k]
        ctx.close('matrix on complete mesh', new.D(*x), ph.D(*x), 1e-9,
            scale=abs(D).max())
    ctx.equal('mesh remembered', tuple(map(int, new.nq)), (nq, nq, 1))


def constraints(ph, R, asr, rsr, pairs):
    """Linear sum rules on symmetric force constants (independent)."""
    n, nat = len(R), ph.nat
    x = R.dot(ph.a)
    rows = []
    for k in range(nat):
        for y in range(3):
            for x1 in range(3):
                if asr:
                    A = np.zeros((n, nat, 3, nat, 3))
                    for l in range(nat):
                        A[:, k, x1, l, y] = 1
                    rows.append(A)
                for x2 in range(3):
                    if rsr and x1 < x2:
                        A = np.zeros((n, nat, 3, nat, 3))
                        for l in range(nat):
                            A[:, k, x1, l, y] += x[:, x2] + ph.r[l, x2]
                            A[:, k, x2, l, y] -= x[:, x1] + ph.r[l, x1]
                        rows.append(A)
    rows = [(A + A[pairs].transpose(0, 3, 4, 1, 2)) / 2 for A in rows]
    return np.array([A.ravel() for A in rows])


@check.family(24)
def sum_rules(ctx, i):
    """Acoustic and rotational sums vanish, deviation is minimal."""
    import elphmod
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), n=int(rng.integers(2, 6)),
        dim=dim, rmax=1, divide_mass=bool(rng.integers(2)),
        asr=bool(rng.integers(3) == 0))
    asr, rsr = [(True, False), (False, True), (True, True)][rng.integers(3)]
    ctx.note(nat=ph.nat, R=ph.R, asr=asr, rsr=rsr, mass=ph.divide_mass)
    s = np.outer(masses(ph), masses(ph)) if ph.divide_mass else 1.0
    R = ph.R.copy()
    pairs = [int(np.flatnonzero(np.all(R == -r, axis=1))[0]) for r in R]
    old = ph.data * s
    scale = abs(old).max()
    shape = (len(R), ph.nat, 3, ph.nat, 3)
    elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr,
        report=bool(rng.integers(2)))
    new = ph.data * s
    ctx.equal('lattice vectors kept', ph.R, R)
    ctx.close('permutation symmetry kept', new, new[pairs].transpose(0, 2, 1),
        1e-10, scale=scale)
    C = new.reshape(shape)
    x = R.dot(ph.a)
    size = 1 + abs(x).max() + abs(ph.r).max()
    if asr:
        total = C.sum(axis=(0, 3))
        ctx.close('acoustic sum vanishes', total, 0 * total, 1e-9,
            scale=scale * len(R))
        u = rng.normal(size=3)
        shift = np.tile(u, ph.nat)
        if ph.divide_mass:
            shift = shift * masses(ph)
        D = ph.D()
        ctx.close('rigid translation costs no energy', D.dot(shift),
            0 * shift, 1e-9, scale=abs(D).max() * abs(shift).max()
            + abs(ph.data).max() * len(R))
    if rsr:
        for x1 in range(3):
            for x2 in range(3):
                total = sum(C[:, :, x1, l, :] * (x[:, x2] + ph.r[l, x2])[
                    :, None, None] - C[:, :, x2, l, :] * (x[:, x1]
                    + ph.r[l, x1])[:, None, None]
                    for l in range(ph.nat)).sum(axis=0)
                ctx.close('rotation sum vanishes', total, 0 * total, 1e-8,
                    scale=scale * len(R) * size)
    A = constraints(ph, R, asr, rsr, pairs)
    best = old.ravel() - np.linalg.lstsq(A, A.dot(old.ravel()),
        rcond=1e-10)[0]
    ctx.close('least possible change', new.ravel(), best, 1e-7, scale=scale)
    elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=False)
    ctx.close('nothing left to correct', ph.data * s, new, 1e-9, scale=scale)


@check.family(20)
def options(ctx, i):
    """Sum rules requested while creating or interpolating models."""
    import elphmod
    rng = ctx.rng
    ref = m.phonon(rng, nat=int(rng.integers(1, 3)), n=3, rmax=1,
        divide_mass=bool(rng.integers(2)), asr=rng.integers(2) == 0)
    nq = (3, 2, 1) if rng.integers(2) else (2, 2, 2)
    kind = ['apply_asr', 'apply_asr_simple', 'apply_rsr'][rng.integers(3)]
    ctx.note(nat=ref.nat, nq=nq, kind=kind, mass=ref.divide_mass)
    D = np.array([ref.D(*[2 * np.pi * a / b for a, b in zip(k, nq)])
        for k in np.ndindex(nq)]).reshape((*nq, ref.size, ref.size))
    plain = elphmod.ph.Model(amass=ref.M, at=ref.a, tau=ref.r,
        atom_order=ref.atom_order, divide_mass=ref.divide_mass)
    fixed = elphmod.ph.Model(amass=ref.M, at=ref.a, tau=ref.r,
        atom_order=ref.atom_order, divide_mass=ref.divide_mass)
    elphmod.ph.q2r(plain, D_full=D, nq=nq, divide_mass=ref.divide_mass)
    elphmod.ph.q2r(fixed, D_full=D, nq=nq, divide_mass=ref.divide_mass,
        **{kind: True})
    if any(tuple(-x for x in R) not in set(map(tuple, ph.R.tolist()))
            for ph in (plain, fixed) for R in ph.R.tolist()):
        # limited search range of Wigner-Seitz cells for oblique lattices
        raise Skip('force constants not symmetric')
    name = ctx.file('ifc')
    plain.to_flfrc(name)
    read = elphmod.ph.Model(name, divide_mass=ref.divide_mass, **{kind: True})
    for ph in fixed, read:
        C = force_constants(ph)
        total = sum(C.values()).reshape((ph.nat, 3, ph.nat, 3)).sum(axis=2)
        scale = sum(abs(x).max() for x in C.values())
        if kind != 'apply_rsr':
            ctx.close('acoustic sum vanishes', total, 0 * total, 1e-8,
                scale=scale)
        else:
            x = {R: np.dot(R, ph.a) for R in C}
            size = 1 + max(abs(y).max() for y in x.values()) + abs(
                ph.r).max()
            for a in range(3):
                for b in range(3):
                    t = 0
                    for R in C:
                        c = C[R].reshape((ph.nat, 3, ph.nat, 3))
                        for l in range(ph.nat):
                            t = t + c[:, a, l] * (x[R][b] + ph.r[l, b]) \
                                - c[:, b, l] * (x[R][a] + ph.r[l, a])
                    ctx.close('rotation sum vanishes', t, 0 * t, 1e-8,
                        scale=scale * size)
    k = m.kpoint(rng)
    ctx.close('file and direct interpolation agree', read.D(*k), fixed.D(*k),
        1e-5, scale=abs(fixed.data).sum())


@check.family(24)
def dipoles(ctx, i):
    """Long-range sums follow the published formulas."""
    rng = ctx.rng
    two = bool(rng.integers(2))
    quad = bool(rng.integers(2))
    L = rng.uniform(4, 9) if two and rng.integers(2) else None
    ph = m.phonon(rng, nat=int(rng.integers(1, 4)), n=2, rmax=1, polar=True,
        quad=quad, two=two, L=L, dim=2 if two else 3,
        divide_mass=bool(rng.integers(2)), neutral=bool(rng.integers(3)))
    if rng.integers(3) == 0:
        ph.alpha = rng.uniform(0.3, 1.0)
        ph.prepare_long_range()
    q = m.kpoint(rng, 2 if two else 3)
    q = (q + np.pi) % (2 * np.pi) - np.pi
    if i % 4 == 3: # approach the zone center
        q *= 10 ** rng.uniform(-3, -0.5)
        ctx.seen('close to zone center')
    ctx.note(two=two, quad=quad, L=L, nat=ph.nat, q=q, alpha=ph.alpha,
        mass=ph.divide_mass, perp=ph.perp)
    ref = long_range(ph, q)
    zero = long_range(ph, [0, 0, 0])
    scale = max(abs(ref).max(), abs(ph.D0_lr).max())
    got = ph.D_lr(*q)
    ctx.close('published formula', got, ref, 1e-9, scale=scale)
    # the self term is Hermitian only for symmetrized charges
    diff = got - ph.D_lr()
    ctx.close('Hermitian', diff, diff.conj().T, 1e-10, scale=scale)
    ctx.close('added to short range', ph.D(*q), m.fourier(ph.R, ph.data, q)
        + ref, 1e-9, scale=scale + abs(ph.data).sum())
    s = masses(ph) if ph.divide_mass else np.ones(ph.size)
    u = np.tile(rng.normal(size=3), ph.nat) * s
    D0 = ph.D_lr()
    ctx.close('rigid translation costs no long-range energy', D0.dot(u),
        0 * u, 1e-9, scale=scale * abs(u).max() * ph.size)
    if L is None:
        ph.prepare_long_range(G_max=100.0) # truncation error negligible
        got = ph.D_lr(*q)
        G = 2 * np.pi * rng.integers(-1, 2, 3)
        G[2] = 0 if two else G[2]
        ctx.close('periodic', ph.D_lr(*(q + G)), got, 1e-6, scale=scale)
        ctx.close('cutoff', got, ref, 3e-2, scale=scale)
    # other cutoff, only in-plane reciprocal lattice vectors:
    kwargs = dict(G_max=rng.uniform(2, 40), flat=bool(rng.integers(2)))
    steps = [abs(np.dot(G, G) if two else np.dot(G, ph.eps).dot(G))
        for G in ph.G] # avoid cutoffs that coincide with vectors
    if all(abs(x / ph.scale - kwargs['G_max']) > 1e-6 for x in steps):
        ph.prepare_long_range(kwargs['G_max'], G_2d=kwargs['flat'])
        ctx.close('chosen reciprocal lattice vectors', ph.D_lr(*q),
            long_range(ph, q, **kwargs), 1e-9, scale=scale
            + abs(ph.D0_lr).max())
        ctx.seen('cutoffs')
    if not quad:
        ph.Z = np.zeros_like(ph.Z)
        ph.prepare_long_range()
        ctx.close('vanishes without charges', ph.D_lr(*q), 0 * got, 1e-12,
            scale=1)


@check.family(20)
def range_separation(ctx, i):
    """Changing charges, cutoffs etc. keeps matrices on the mesh."""
    rng = ctx.rng
    two = bool(rng.integers(2))
    L = rng.uniform(4, 9) if two and rng.integers(2) else None
    quad = bool(rng.integers(2))
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), n=3, rmax=1, polar=True,
        quad=quad, two=two, L=L, dim=2 if two else 3,
        divide_mass=bool(rng.integers(2)))
    ph.nq = (3, 2, 1) if two else (2, 2, 2)
    mesh = [[2 * np.pi * a / b for a, b in zip(k, ph.nq)]
        for k in np.ndindex(ph.nq)]
    ctx.note(two=two, quad=quad, L=L, nat=ph.nat, nq=ph.nq)

    def truncation(): # of reciprocal-space sums
        return max(abs(ph.D(*q) - ph.D(*(np.array(q) - 2 * np.pi
            * np.not_equal(q, 0)))).max() for q in mesh)

    error = truncation()
    old = [ph.D(*q) for q in mesh]
    # the matrices as they would follow from real force constants
    old = [(D + ph.D(*[-x for x in q]).conj()) / 2 for q, D in zip(mesh, old)]
    scale = max(abs(np.array(old)).max(), abs(ph.D0_lr).max())
    ph.sample_orig()
    ctx.equal('mesh', np.shape(ph.q0), (len(mesh), 3))
    ctx.close('sampled mesh', np.array(ph.q0), np.array(mesh), 1e-12)
    steps = []
    for step in range(2):
        kind = int(rng.integers(5))
        if kind == 0:
            ph.Z = ph.Z * rng.uniform(0.5, 1.5)
        elif kind == 1:
            ph.alpha = rng.uniform(0.6, 1.2)
        elif kind == 2 and quad:
            ph.Q = ph.Q * rng.uniform(-1, 1)
        elif kind == 3 and L is not None:
            ph.L = rng.uniform(4, 9)
        elif kind == 4:
            ph.lr = False
        steps.append(kind)
        ph.update_short_range()
        error += truncation()
        for q, D in zip(mesh, old):
            ctx.close('matrix on mesh kept', ph.D(*q), D, 3e-5, scale=scale,
                atol=10 * error)
        ph.lr = True
    if 4 in steps[-1:]:
        ph.lr = False
        q = m.kpoint(rng)
        ctx.close('no long-range part left', ph.D(*q), m.fourier(ph.R,
            ph.data, q), 1e-11, scale=scale)
    ctx.note(steps=steps)


@check.family(20)
def decay(ctx, i):
    """Bond lengths and the sum of force constants."""
    import elphmod
    rng = ctx.rng
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), n=3, rmax=1,
        divide_mass=bool(rng.integers(2)))
    nq = (3, 2, 1) if rng.integers(2) else (2, 2, 2)
    D = np.array([ph.D(*[2 * np.pi * a / b for a, b in zip(k, nq)])
        for k in np.ndindex(nq)]).reshape((*nq, ph.size, ph.size))
    elphmod.ph.q2r(ph, D_full=D, nq=nq, divide_mass=ph.divide_mass)
    ctx.note(nat=ph.nat, nq=nq)
    l, C = ph.decay()
    ref = []
    for n, R in enumerate(ph.R):
        for a in range(ph.nat):
            for b in range(ph.nat):
                c = np.sqrt((ph.data[n, 3 * a:3 * a + 3,
                    3 * b:3 * b + 3] ** 2).sum())
                if c > 0:
                    ref.append((np.linalg.norm(R.dot(ph.a) + ph.r[b]
                        - ph.r[a]), c))
    got = np.array(sorted(zip(l, C)))
    ref = np.array(sorted(ref))
    ctx.equal('number of bonds', got.shape, ref.shape)
    ctx.close('bond lengths', got[:, 0], ref[:, 0], 1e-9)
    ctx.close('total strength', got[:, 1].sum(), ref[:, 1].sum(), 1e-9)
    s = np.outer(masses(ph), masses(ph)) if ph.divide_mass else 1.0
    total = abs(ph.data * s).sum()
    home = abs(ph.C() * s)
    total -= sum(home[3 * a:3 * a + 3, 3 * a:3 * a + 3].sum()
        for a in range(ph.nat))
    ctx.close('sum of force constants', ph.sum_force_constants(),
        total / (2 * np.prod(nq)), 1e-9)
