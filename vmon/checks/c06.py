"""C06: supercell bookkeeping."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint

check = Check('C06', 'A case is one integer supercell matrix (with a set of '
    'lattice vectors to decompose); distinct by matrix and way of passing it; '
    'non-trivial if its determinant is not one.', boost=30)


def integer_matrix(rng, big):
    """Skewed, left-handed, diagonal, negative matrices."""
    while True:
        kind = int(rng.integers(6))
        if kind == 0:
            m = np.diag(rng.integers(1, 7, 3))
        elif kind == 1:
            m = np.diag(rng.integers(1, 6, 3) * rng.choice([-1, 1], 3))
        elif kind == 2:
            m = rng.integers(-3, 4, (3, 3))
        elif kind == 3: # in-plane
            m = np.zeros((3, 3), dtype=int)
            m[:2, :2] = rng.integers(-4, 5, (2, 2))
            m[2, 2] = rng.choice([1, 1, 2, -1])
        elif kind == 4: # permuted
            m = np.diag(rng.integers(1, 5, 3))[rng.permutation(3)]
        else: # large shear, small determinant
            m = np.diag(rng.integers(1, 3, 3))
            m[0, 1] = rng.integers(-6, 7)
            m[1, 2] = rng.integers(-6, 7)
            m[0, 2] = rng.integers(-6, 7)
            if rng.integers(2):
                m = m.T
        N = int(round(np.linalg.det(m)))
        if N and abs(N) <= big:
            return m, N


def det(m):
    m = [[int(x) for x in r] for r in m]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adjugate(m):
    """Rows r so that R . (column) = N * coordinates, exact integers."""
    m = [[int(x) for x in r] for r in m]
    c = [[0] * 3 for n in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != i]
            d, e = [k for k in range(3) if k != j]
            c[i][j] = (-1) ** (i + j) * (m[a][d] * m[b][e] - m[a][e] * m[b][d])
    return c


@check.family(160)
def cells(ctx, i):
    """List of unit cells and unique decomposition of lattice vectors."""
    from elphmod import bravais
    rng = ctx.rng
    m, N = integer_matrix(rng, 60)
    ctx.note(matrix=m, N=N)
    args = []
    for k in range(3):
        only = all(m[k, l] == 0 for l in range(3) if l != k)
        form = int(rng.integers(4))
        if only and form == 0:
            args.append(int(m[k, k]))
        elif form == 1:
            args.append(tuple(map(int, m[k])))
        elif form == 2:
            args.append(list(map(int, m[k])))
        else:
            args.append(np.array(m[k]))
    ctx.note(form=[type(x).__name__ for x in args])
    before = fingerprint(args)
    sc = bravais.supercell(*args)
    ctx.equal('arguments unchanged', fingerprint(args), before)
    n, A, B, listed = sc
    D = det(m)
    ctx.equal('determinant', int(n), abs(D))
    ctx.equal('vectors', np.array(A), m)
    adj = np.array(adjugate(m)) * (1 if D > 0 else -1)
    ctx.equal('reciprocal vectors', np.array(B), adj)
    ctx.equal('dual', np.dot(np.array(B), np.array(A).T), abs(D) * np.eye(3,
        dtype=int))
    ctx.equal('number of cells', len(listed), abs(D))
    ctx.true('home cell', (0, 0, 0) in listed)
    for R in listed:
        ctx.true('integer tuple', isinstance(R, tuple) and len(R) == 3
            and all(int(x) == x for x in R))
    keys = {tuple(int(np.dot(R, b)) % abs(D) for b in adj) for R in listed}
    ctx.equal('inequivalent', len(keys), abs(D))
    # every vector of the list is inside the supercell
    for R in listed:
        ctx.true('inside', all(0 <= int(np.dot(R, b)) < abs(D) for b in adj))
    # decomposition
    pts = [tuple(map(int, rng.integers(-12, 13, 3))) for k in range(25)]
    pts += [(0, 0, 0)] + [tuple(map(int, R)) for R in m] + list(listed[:3])
    pts += [tuple(-x for x in R) for R in listed[-2:]]
    for R in pts:
        RS, index = bravais.to_supercell(R, sc)
        ctx.true('index', 0 <= index < abs(D))
        back = np.dot(RS, m) + np.array(listed[index])
        ctx.equal('recombination', back, np.array(R))
        T = rng.integers(-4, 5, 3)
        RT = tuple(map(int, np.array(R) + np.dot(T, m)))
        RS2, index2 = bravais.to_supercell(RT, sc)
        ctx.equal('translation keeps cell', index2, index)
        ctx.equal('translation adds', np.array(RS2), np.array(RS) + T)
        if rng.integers(2):
            RS3, index3 = bravais.to_supercell(np.array(R), sc)
            ctx.true('array argument', tuple(RS3) == tuple(RS)
                and index3 == index)
    for index, R in enumerate(listed):
        RS, got = bravais.to_supercell(R, sc)
        ctx.true('listed cell is itself', got == index and tuple(RS)
            == (0, 0, 0))
    ctx.equal('info unchanged', fingerprint(bravais.supercell(*args)),
        fingerprint(sc))


@check.family(2, 4)
def exhaustive(ctx, i):
    """All in-plane supercell matrices with small entries."""
    from elphmod import bravais
    r = 3 if ctx.tier == 'thorough' else 2
    todo = list(itertools.product(range(-r, r + 1), repeat=4))
    step = 30 if ctx.tier == 'quick' else 60
    for a, b, c, d in todo[i % step::step]:
        D = a * d - b * c
        if not D:
            continue
        N3 = (a + 2 * b + c + d) % 2 + 1
        perm = (a + b + c + d) % 3
        m = np.array([[a, b, 0], [c, d, 0], [0, 0, N3]])
        m = np.roll(m, perm, axis=1)
        sc = bravais.supercell(*map(tuple, m.tolist()))
        ctx.sig(m)
        ctx.equal('number of cells', len(set(sc[3])), abs(D) * N3)
        ctx.equal('determinant', int(sc[0]), abs(D) * N3)
        hits = {}
        for R in itertools.product(range(-2, 3), repeat=3):
            RS, index = bravais.to_supercell(R, sc)
            ctx.equal('recombination', np.dot(RS, m) + np.array(
                sc[3][index]), np.array(R))
            hits.setdefault((tuple(map(int, RS)), index), []).append(R)
        ctx.true('one-to-one', all(len(x) == 1 for x in hits.values()))


@check.family(40)
def nested(ctx, i):
    """Supercell of a supercell, bookkeeping in models and their cells."""
    from elphmod import bravais
    import elphmod.models.chain
    rng = ctx.rng
    m, N = integer_matrix(rng, 6)
    l, M = integer_matrix(rng, 6)
    ctx.note(first=m, second=l)
    s1 = bravais.supercell(*map(tuple, m.tolist()))
    s2 = bravais.supercell(*map(tuple, l.tolist()))
    lm = np.dot(l, m)
    s12 = bravais.supercell(*map(tuple, lm.tolist()))
    ctx.equal('determinants multiply', int(s12[0]), int(s1[0]) * int(s2[0]))
    pairs = {}
    for R in map(tuple, rng.integers(-9, 10, (40, 3)).tolist()):
        R1, i1 = bravais.to_supercell(R, s1)
        R2, i2 = bravais.to_supercell(R1, s2)
        R12, i12 = bravais.to_supercell(R, s12)
        back = np.dot(np.dot(R2, l) + np.array(s2[3][i2]), m) + np.array(
            s1[3][i1])
        ctx.equal('nested recombination', back, np.array(R))
        key = pairs.setdefault(i12, (i1, i2))
        ctx.equal('same class', (i1, i2), key)


@check.family(4)
def interleaved(ctx, i):
    """Several supercells of equal size in use at the same time."""
    from elphmod import bravais
    rng = ctx.rng
    groups = {}
    perm = np.roll(np.arange(3), int(rng.integers(3)))
    for _ in range(400):
        if rng.integers(2):
            m = np.zeros((3, 3), dtype=int)
            m[:2, :2] = rng.integers(-3, 5, (2, 2))
            m[2, 2] = 1
            m = m[perm][:, perm]
        else:
            m = integer_matrix(rng, 12)[0]
        if not 1 < abs(det(m)) < 13:
            continue
        sc = bravais.supercell(*map(tuple, m.tolist()))
        groups.setdefault(abs(det(m)), []).append((m, sc))
    ctx.note(sizes={n: len(x) for n, x in groups.items()})
    for n, members in groups.items():
        if rng.integers(2): # similar supercells next to each other
            members.sort(key=lambda x: (x[1][3][0], x[1][3][-1], sorted(
                x[1][3])))
        for _ in range(2):
            for m, sc in members:
                for R in [tuple(map(int, rng.integers(-5, 6, 3))),
                        sc[3][rng.integers(n)]]:
                    RS, index = bravais.to_supercell(R, sc)
                    ctx.equal('recombination', np.dot(RS, m) + np.array(
                        sc[3][index]), np.array(R))
        for m, sc in members:
            ctx.seen('supercells side by side')
            ctx.equal('same supercell', fingerprint(bravais.supercell(*map(
                tuple, m.tolist()))), fingerprint(sc))
    ctx.sig(sorted(groups), [m for x in groups.values() for m, _ in x][:9])


@check.family(30)
def in_models(ctx, i):
    """Cells and lattice vectors recorded by tight-binding and phonon models."""
    import elphmod
    from vmon import models
    rng = ctx.rng
    m, N = integer_matrix(rng, 8)
    ctx.note(matrix=m)
    ph = models.phonon(rng)
    sc = ph.supercell(*map(tuple, m.tolist()))
    ref = elphmod.bravais.supercell(*map(tuple, m.tolist()))
    ctx.equal('cells', {tuple(map(int, R)) for R in sc.cells},
        {tuple(map(int, R)) for R in ref[3]})
    ctx.equal('vectors', np.array(sc.N), m)
    ctx.close('lattice', sc.a, np.dot(m, ph.a), rtol=1e-12)
    ctx.equal('atoms', sc.nat, ph.nat * abs(N))
    # positions: every atom of every cell once, modulo nothing
    pos = (np.array(sc.cells)[:, None].dot(ph.a)[:, :, :]
        + ph.r[None]).reshape((-1, 3))
    ctx.close('positions', sc.r, pos, rtol=1e-12, atol=1e-12)
    el = models.electrons(rng)
    es = el.supercell(*map(tuple, m.tolist()))
    ctx.equal('orbitals', es.size, el.size * abs(N))
    ctx.equal('cells', {tuple(map(int, R)) for R in es.cells},
        {tuple(map(int, R)) for R in ref[3]})
