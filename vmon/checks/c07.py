"""C07: irreducible k points, images, symmetries, completion, Voronoi cell."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint

check = Check('C07', 'A case is one mesh (size, angle) with a drawn function, '
    'wedge or set of points on it; distinct by these; non-trivial since the '
    'point group is applied explicitly by the oracle.', boost=15)

ANGLES = (60, 90, 120)


def group(angle):
    """All 2 x 2 integer matrices of the point group acting on mesh indices."""
    R = {60: [[0, -1], [1, 1]], 90: [[0, -1], [1, 0]],
        120: [[1, -1], [1, 0]]}[angle]
    R = np.array(R)
    M = np.array([[0, 1], [1, 0]]) # reflection that swaps both axes
    ops = []
    g = np.eye(2, dtype=int)
    for n in range(6 if angle != 90 else 4):
        ops += [g, np.dot(M, g)]
        g = np.dot(R, g)
    assert np.array_equal(g, np.eye(2))
    return ops


def metric(angle):
    c = {60: 0.5, 90: 0.0, 120: -0.5}[angle]
    return np.array([[1, c], [c, 1]])


def orbit(k1, k2, nk, angle):
    return {tuple(int(x) for x in np.dot(g, (k1, k2)) % nk)
        for g in group(angle)}


def shortest(k1, k2, nk, angle, span=3):
    """All equivalent mesh points of minimal length, exhaustive search."""
    best, found = None, set()
    for m1 in range(-span, span + 1):
        for m2 in range(-span, span + 1):
            p = (k1 % nk + m1 * nk, k2 % nk + m2 * nk)
            d = 2 * (p[0] ** 2 + p[1] ** 2) + 2 * {60: 1, 90: 0,
                120: -1}[angle] * p[0] * p[1]
            if best is None or d < best:
                best, found = d, {p}
            elif d == best:
                found.add(p)
    return best, found


@check.family(6, 6)
def classes(ctx, i):
    """Images and irreducible points of a mesh, exhaustively."""
    from elphmod import bravais
    angle = ANGLES[i % 3]
    nk = i // 3 + 1 if i < 90 else int(ctx.rng.integers(1, 12))
    ctx.note(nk=nk, angle=angle)
    irr = bravais.irreducibles(nk, angle)
    seen = {}
    for k1 in range(nk):
        for k2 in range(nk):
            got = bravais.images(k1, k2, nk, angle)
            ref = orbit(k1, k2, nk, angle)
            ctx.true('images', set(got) == ref, '%s of %s' % (got, (k1, k2)))
            ctx.true('self', (k1, k2) in got)
            lengths = {shortest(*p, nk, angle)[0] for p in got}
            ctx.equal('equal distance', len(lengths), 1)
            reps = [p for p in got if p in irr]
            ctx.equal('one representative', len(reps), 1)
            ctx.true('first in sequence', reps[0] == min(got))
            seen[k1, k2] = reps[0]
    ctx.equal('mesh covered', set(irr), set(seen.values()))
    ctx.equal('on mesh', all(0 <= a < nk and 0 <= b < nk for a, b in irr),
        True)
    k = tuple(map(int, ctx.rng.integers(-3 * nk, 3 * nk, 2)))
    ctx.true('outside point', set(bravais.images(*k, nk, angle))
        == orbit(*k, nk, angle))
    if angle == 60:
        ctx.true('default angle', bravais.irreducibles(nk) == irr
            and bravais.images(*k, nk) == bravais.images(*k, nk, 60))


def symmetric_function(rng, nk, angle, ops, distinct=True):
    """Function constant on the orbits of the selected operations."""
    f = np.full((nk, nk), np.nan)
    for k1 in range(nk):
        for k2 in range(nk):
            if np.isnan(f[k1, k2]):
                # orbit under group generated by ops
                todo, done = [(k1, k2)], set()
                while todo:
                    p = todo.pop()
                    if p in done:
                        continue
                    done.add(p)
                    todo += [tuple(int(x) for x in np.dot(g, p) % nk)
                        for g in ops]
                value = rng.normal() * int(rng.integers(5) > 0)
                for p in done:
                    f[p] = value
    return f


@check.family(60)
def symmetries(ctx, i):
    """Symmetries found are exactly those the data has; completion."""
    from elphmod import bravais
    rng = ctx.rng
    angle = ANGLES[i % 3]
    nk = int(rng.integers(1, 9))
    all_ops = group(angle)
    pick = int(rng.integers(4))
    if pick == 0:
        ops = all_ops
    elif pick == 1:
        ops = [all_ops[j] for j in rng.integers(len(all_ops), size=1)]
    elif pick == 2:
        ops = [all_ops[j] for j in rng.integers(len(all_ops), size=2)]
    else:
        ops = [np.eye(2, dtype=int)]
    f = symmetric_function(rng, nk, angle, ops)
    noise = float(rng.choice([0.0, 0.0, 1e-8]))
    g = f + noise * rng.uniform(-0.4, 0.4, f.shape)
    eps = 1e-6 if noise else float(rng.choice([0.0, 1e-12]))
    unity = bool(rng.integers(2))
    ctx.note(nk=nk, angle=angle, pick=pick, eps=eps, unity=unity)
    keep = g.copy()
    found = list(bravais.symmetries(g, epsilon=eps, unity=unity, angle=angle))
    ctx.equal('data unchanged', g, keep)
    names = [name for name, image in found]
    ctx.equal('no repetition', len(set(names)), len(names))
    # lattice vectors of the mesh with b2 along y (documented orientation)
    b2 = np.array([0.0, 1.0])
    phi = np.deg2rad(90 - angle)
    b1 = np.array([np.cos(phi), np.sin(phi)])
    B = np.array([b1, b2]).T
    expected = {}
    for reflect in (False, True):
        for rot in range(0, 360, 90 if angle == 90 else 60):
            c, s = np.cos(np.deg2rad(rot)), np.sin(np.deg2rad(rot))
            O = np.array([[c, -s], [s, c]])
            if reflect:
                O = np.dot(np.diag([-1, 1]), O)
            op = np.rint(np.linalg.solve(B, np.dot(O, B))).astype(int)
            image = np.array([[np.dot(op, (k1, k2)) % nk for k2 in range(nk)]
                for k1 in range(nk)])
            ok = all(abs(keep[k1, k2] - keep[tuple(image[k1, k2])]) <= eps
                for k1 in range(nk) for k2 in range(nk))
            if ok and (unity or reflect or rot):
                expected[reflect, rot] = image
    ctx.equal('operations found', sorted((bool(a), int(b)) for a, b in names),
        sorted(expected))
    for name, image in found:
        ctx.equal('mapping', np.asarray(image), expected[name])
    if unity:
        ctx.true('identity first', names[0] == (False, 0))
    # completion from the wedge (all symmetries)
    if pick == 0:
        for mode in range(2):
            part = np.full((nk, nk), np.nan)
            if mode == 0:
                for k in bravais.irreducibles(nk, angle):
                    part[k] = f[k]
            else: # any set with at least one point of every class
                mask = rng.random((nk, nk)) < 0.4
                part[mask] = f[mask]
                for k in bravais.irreducibles(nk, angle):
                    cand = sorted(orbit(*k, nk, angle))
                    p = cand[rng.integers(len(cand))]
                    part[p] = f[p]
            bravais.complete(part, angle=angle)
            ctx.true('completed', not np.isnan(part).any())
            ctx.equal('completion', part, f)
    full = f.copy()
    bravais.complete(full, angle=angle)
    ctx.equal('complete data unchanged', full, f)


@check.family(16)
def wedge(ctx, i):
    """Functions of q and k completed from irreducible q points."""
    from elphmod import bravais
    rng = ctx.rng
    nq = int(rng.choice([1, 2, 3, 4, 6]))
    nk = int(rng.choice([1, 2, 3, 4, 6]))
    dtype = rng.choice(['f', 'c'])
    ctx.note(nq=nq, nk=nk, dtype=str(dtype))
    ops = group(60)
    # invariant function: sum over the group of a smooth random function
    T = rng.integers(-2, 3, (4, 4))
    A = rng.normal(size=4) + (1j * rng.normal(size=4) if dtype == 'c' else 0)
    full = np.zeros((nq, nq, nk, nk), dtype=complex if dtype == 'c' else float)
    for idx in np.ndindex(full.shape):
        total = 0
        for g in ops:
            q = np.dot(g, idx[:2]) / nq
            k = np.dot(g, idx[2:]) / nk
            for t, amp in zip(T, A):
                total = total + amp * np.cos(2 * np.pi * (np.dot(t[:2], q)
                    + np.dot(t[2:], k)))
        full[idx] = total.real if dtype == 'f' else total
    irr = sorted(bravais.irreducibles(nq))
    part = np.array([full[q] for q in irr])
    keep = part.copy()
    got = bravais.complete_k(part, nq)
    ctx.equal('wedge unchanged', part, keep)
    ctx.close('completion of q and k', got, full, rtol=1e-9, atol=1e-9)
    ctx.true('type', got.dtype == part.dtype)


@check.family(60)
def voronoi(ctx, i):
    """Mapping to the Wigner-Seitz cell or Brillouin zone."""
    from elphmod import bravais
    rng = ctx.rng
    angle = ANGLES[i % 3]
    nk = int(rng.integers(1, 14))
    ctx.note(nk=nk, angle=angle)
    for _ in range(25):
        k = tuple(map(int, rng.integers(-2 * nk, 3 * nk, 2)))
        got = bravais.to_Voronoi(*k, nk, angle)
        best, ref = shortest(*k, nk, angle)
        ctx.true('equivalent', all((p[0] - k[0]) % nk == 0 and (p[1] - k[1])
            % nk == 0 for p in got))
        ctx.true('minimal', set(got) == ref, '%s vs %s' % (got, ref))
        for p in got:
            d = bravais.squared_distance(*p, angle)
            ctx.true('integer distance', isinstance(d, (int, np.integer))
                and 2 * d == best)
    # fractional and shifted cell
    G = metric(angle)
    f = tuple(rng.uniform(0, nk, 2))
    d = bravais.squared_distance(*f, angle)
    ctx.close('squared distance', d, np.dot(f, np.dot(G, f)), rtol=1e-12)
    dk = rng.uniform(-0.3, 0.3, 2) * nk
    if rng.integers(3) == 0:
        dk[rng.integers(2)] = 0.0
    if rng.integers(3) == 0:
        dk = np.round(2 * dk) / 2
        dk[abs(dk) > 0.3 * nk] = 0.0
    ctx.note(dk=dk)

    def images(k):
        every = [(k[0] + nk * m1, k[1] + nk * m2) for m1 in range(-4, 5)
            for m2 in range(-4, 5)]
        dist = [np.dot(np.subtract(p, dk), np.dot(G, np.subtract(p, dk)))
            for p in every]
        gaps = np.subtract(dist, min(dist))
        if np.any((gaps > 1e-11 * nk ** 2) & (gaps < 1e-8)):
            raise Skip
        return {p for p, gap in zip(every, gaps) if gap < 1e-9}

    for _ in range(10):
        k = tuple(map(int, rng.integers(-2 * nk, 3 * nk, 2)))
        got = bravais.to_Voronoi(*k, nk, angle, *dk, epsilon=1e-9)
        ctx.true('shifted cell', set(got) == images(k), '%s vs %s' % (got,
            images(k)))
    got = bravais.to_Voronoi(*f, nk, angle, epsilon=1e-9)
    best = min(np.dot(p, np.dot(G, p)) for p in (np.array(f) + nk * np.array(
        [m1, m2]) for m1 in range(-3, 4) for m2 in range(-3, 4)))
    for p in got:
        ctx.close('minimal length', np.dot(p, np.dot(G, p)), best, rtol=1e-9,
            atol=1e-9)
    irvec, ndegen, wslen = bravais.wigner_2d(nk, angle, *dk, epsilon=1e-9)
    ref = sorted((p, len(cell)) for k in np.ndindex(nk, nk)
        for cell in [images(k)] for p in cell)
    ctx.true('points of shifted cell', list(map(tuple, irvec))
        == [p for p, d in ref])
    ctx.true('degeneracies of shifted cell', list(ndegen)
        == [d for p, d in ref])
    ctx.close('lengths in shifted cell', np.array(wslen), np.array([np.sqrt(
        np.dot(p, np.dot(G, p))) for p, d in ref]), rtol=1e-12, atol=1e-12)
    # list of lattice points in the cell
    irvec, ndegen, wslen = bravais.wigner_2d(nk, angle)
    ctx.true('sorted', list(irvec) == sorted(irvec))
    ctx.equal('no repetition', len(set(irvec)), len(irvec))
    ctx.close('weights add up', sum(1.0 / d for d in ndegen), nk ** 2,
        rtol=1e-10)
    classes = {}
    for R, deg in zip(irvec, ndegen):
        classes.setdefault((R[0] % nk, R[1] % nk), set()).add(tuple(R))
    for k, members in classes.items():
        ctx.true('cell members', members == shortest(*k, nk, angle)[1])
    for R, deg in zip(irvec, ndegen):
        ctx.equal('degeneracy', int(deg), len(classes[R[0] % nk, R[1] % nk]))
    ctx.close('lengths', np.array(wslen), np.array([np.sqrt(np.dot(R,
        np.dot(G, R))) for R in irvec]), rtol=1e-12, atol=1e-12)
    ctx.equal('all classes', len(classes), nk ** 2)


@check.family(15)
def full_dispersion(ctx, i):
    """Symmetry-exploiting dispersion equals the plain one."""
    import elphmod
    from elphmod import dispersion, bravais
    rng = ctx.rng
    angle = ANGLES[i % 3]
    nk = int(rng.integers(1, 10))
    n = int(rng.integers(1, 4))
    ops = group(angle)
    T = rng.integers(-2, 3, (3, 2))
    coef = rng.normal(size=(3, n, n))
    coef = coef + coef.swapaxes(1, 2)

    def H(k1=0, k2=0, k3=0):
        h = np.zeros((n, n))
        for g in ops:
            k = np.dot(g, (k1, k2))
            for t, c in zip(T, coef):
                h = h + c * np.cos(np.dot(t, k))
        return h.astype(complex)

    ref = np.empty((nk, nk, n))
    for k1 in range(nk):
        for k2 in range(nk):
            ref[k1, k2] = np.linalg.eigvalsh(H(2 * np.pi * k1 / nk,
                2 * np.pi * k2 / nk))
    ctx.note(nk=nk, bands=n, angle=angle)
    got = dispersion.dispersion_full(H, nk, angle=angle)
    ctx.close('full dispersion', got, ref, rtol=1e-9, atol=1e-10)
    if rng.integers(2):
        got, V = dispersion.dispersion_full(H, nk, angle=angle, vectors=True)
        ctx.close('full dispersion', got, ref, rtol=1e-9, atol=1e-10)
    plain = dispersion.dispersion_full_nosym(H, nk)
    ctx.close('plain dispersion', plain, ref, rtol=1e-9, atol=1e-10)
    e, U = dispersion.dispersion_full_nosym(H, nk, vectors=True)
    for k1 in range(nk):
        for k2 in range(nk):
            h = H(2 * np.pi * k1 / nk, 2 * np.pi * k2 / nk)
            ctx.close('eigenpair', np.dot(h, U[k1, k2]), U[k1, k2]
                * e[k1, k2], rtol=1e-8, atol=1e-8)
