"""C05: Bravais lattices, reciprocals, coordinates, meshes."""

import contextlib
import io
import sys

import numpy as np

from vmon.core import Check, fingerprint

check = Check('C05', 'A case is one drawn set of cell parameters, vectors or '
    'mesh dimensions; distinct by these parameters; non-trivial since all '
    'vectors are compared with independently constructed ones.', boost=30)

IBRAV = [0, 1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12, 13,
    -13, 14]


def conventional(a, b, c, cosbc, cosac, cosab):
    """Cell with given lengths and angles, a || x, b in xy plane."""
    A = np.array([a, 0.0, 0.0])
    sab = np.sqrt(1 - cosab ** 2)
    B = b * np.array([cosab, sab, 0.0])
    x = cosac
    y = (cosbc - cosac * cosab) / sab
    C = c * np.array([x, y, np.sqrt(1 - x ** 2 - y ** 2)])
    return np.array([A, B, C])


# primitive vectors in units of conventional ones (pw.x documentation)
P = {
    1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    2: [[-.5, 0, .5], [0, .5, .5], [-.5, .5, 0]],
    3: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
    -3: [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]],
    4: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    6: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    7: [[.5, -.5, .5], [.5, .5, .5], [-.5, -.5, .5]],
    8: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    9: [[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]],
    -9: [[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]],
    91: [[1, 0, 0], [0, .5, -.5], [0, .5, .5]],
    10: [[.5, 0, .5], [.5, .5, 0], [0, .5, .5]],
    11: [[.5, .5, .5], [-.5, .5, .5], [-.5, -.5, .5]],
    12: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    -12: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    13: [[.5, 0, -.5], [0, 1, 0], [.5, 0, .5]],
    -13: [[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]],
    14: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    }


def reference(ibrav, a, b, c, cosbc, cosac, cosab):
    if ibrav in (1, 2, 3, -3):
        b = c = a
    if ibrav in (4, 6, 7):
        b = a
    cbc = cac = cab = 0.0
    if ibrav == 4:
        cab = -0.5
    if ibrav in (12, 13):
        cab = cosab
    if ibrav in (-12, -13):
        cac = cosac
    if ibrav == 14:
        cbc, cac, cab = cosbc, cosac, cosab
    return np.dot(P[ibrav], conventional(a, b, c, cbc, cac, cab))


def draw(rng):
    a = 10 ** rng.uniform(-0.5, 1)
    b = a * 10 ** rng.uniform(-0.5, 0.5)
    c = a * 10 ** rng.uniform(-0.5, 0.7)
    while True:
        cos = rng.uniform(-0.9, 0.9, 3)
        if 1 + 2 * np.prod(cos) - np.sum(cos ** 2) > 0.02:
            break
    return (a, b, c) + tuple(map(float, cos))


A0 = 0.529177210903


@check.family(168)
def primitive_vectors(ctx, i):
    """Primitive vectors, lengths/cosines or celldm, angstrom or bohr."""
    from elphmod import bravais, misc
    rng = ctx.rng
    ctx.close('bohr radius', misc.a0, A0, rtol=1e-6)
    ibrav = IBRAV[i % len(IBRAV)]
    a, b, c, cosbc, cosac, cosab = draw(rng)
    if ibrav in (5, -5):
        cosab = rng.uniform(-0.49, 0.98)
    bohr = bool(rng.integers(2))
    mode = int(rng.integers(3))
    ctx.note(ibrav=ibrav, bohr=bohr, mode=mode, a=a, b=b, c=c, cosbc=cosbc,
        cosac=cosac, cosab=cosab)
    extra = dict(nat=3, prefix='x', ecutwfc=50.0) if rng.integers(2) else {}
    if mode == 0:
        kwargs = dict(ibrav=ibrav, a=a, b=b, c=c, cosbc=cosbc, cosac=cosac,
            cosab=cosab)
    else: # celldm; only as many and as few entries as needed
        celldm = [a / misc.a0, b / a, c / a, 0.0, 0.0, 0.0]
        if ibrav == 14:
            celldm[3:] = cosbc, cosac, cosab
        elif ibrav in (12, 13, 5, -5):
            celldm[3] = cosab
        elif ibrav in (-12, -13):
            celldm[4] = cosac
        if ibrav in (0, 1, 2, 3, -3) and mode == 2:
            celldm = celldm[:1]
        elif ibrav in (4, 6, 7) and mode == 2:
            celldm = celldm[:3]
        kwargs = dict(ibrav=ibrav, celldm=celldm)
    unit = 1 / misc.a0 if bohr else 1.0
    if ibrav == 0:
        cell = rng.normal(size=(3, 3)) * 3
        if rng.integers(3) == 0: # integers
            cell = rng.integers(-4, 5, (3, 3))
            while abs(np.linalg.det(cell)) < 0.5:
                cell = rng.integers(-4, 5, (3, 3))
            if rng.integers(2):
                cell = [list(map(int, x)) for x in cell]
        word, scale = [('alat', a), ('{alat}', a), ('ALAT', a),
            ('angstrom', 1.0), ('Angstrom', 1.0), ('(angstrom)', 1.0),
            ('bohr', misc.a0), ('BOHR', misc.a0), ('{bohr}', misc.a0)][
            int(rng.integers(9))]
        ctx.note(cell_units=word)
        kwargs.update(r_cell=cell, cell_units=word)
        ref = np.array(cell) * scale * unit
    elif ibrav in (5, -5):
        ref = None
    else:
        ref = reference(ibrav, a, b, c, cosbc, cosac, cosab) * unit
    before = fingerprint(kwargs)
    got = bravais.primitives(bohr=bohr, **kwargs, **extra)
    ctx.equal('parameters unchanged', fingerprint(kwargs), before)
    again = bravais.primitives(bohr=bohr, **kwargs, **extra)
    ctx.close('repeatable', again, got, rtol=1e-14)
    other = bravais.primitives(bohr=not bohr, **kwargs)
    ctx.close('units', other, got * (misc.a0 if bohr else 1 / misc.a0),
        rtol=1e-13)
    if ref is not None:
        ctx.close('vectors', got, ref, rtol=1e-12)
    else: # trigonal: equal lengths and mutual angles, threefold axis
        gram = np.dot(got, got.T)
        ctx.close('rhombohedral', gram, (a * unit) ** 2 * (
            (1 - cosab) * np.eye(3) + cosab), rtol=1e-12)
        axis = [0, 0, 1] if ibrav == 5 else np.ones(3) / np.sqrt(3)
        proj = np.dot(got, axis)
        ctx.close('threefold axis', proj, a * unit * np.sqrt(
            (1 + 2 * cosab) / 3) * np.ones(3), rtol=1e-12, atol=1e-12)
        ctx.true('right-handed', np.linalg.det(got) > 0)
        if ibrav == 5: # orientation in QE: second vector in yz plane
            ctx.close('orientation', [got[1, 0], got[0, 1] - got[2, 1],
                got[0, 0] + got[2, 0]], np.zeros(3), atol=1e-12 * a * unit)
            ctx.true('orientation sign', got[0, 0] > 0 and got[1, 1] > 0)
        else: # circulant
            ctx.close('orientation', got, np.array([np.roll(got[0], n)
                for n in range(3)]), rtol=1e-12)
            ref5 = bravais.primitives(ibrav=5, a=a, cosab=cosab, bohr=bohr)
            ctx.close('same cell', np.dot(ref5, ref5.T), gram, rtol=1e-12)
    vol = abs(np.linalg.det(got))
    ctx.close('volume', bravais.volume(*got), vol, rtol=1e-10)
    count = {2: 4, 3: 2, -3: 2, 7: 2, 9: 2, -9: 2, 91: 2, 10: 4, 11: 2, 13: 2,
        -13: 2}.get(ibrav, 1)
    if ibrav in P:
        conv = dict(zip(['b', 'c'], [b, c]))
        full = reference(ibrav, a, b, c, cosbc, cosac, cosab) * unit
        cell = np.linalg.det(np.linalg.solve(np.array(P[ibrav], float), full))
        ctx.close('cells per conventional cell', vol * count, abs(cell),
            rtol=1e-10)
    # duality
    rec = np.array(bravais.reciprocals(*got))
    ctx.close('dual', np.dot(rec, got.T), np.eye(3), atol=1e-10)


@check.family(2, 2)
def unknown(ctx, i):
    """Unknown lattices and incomplete free cells are refused."""
    from elphmod import bravais
    for ibrav in (15, -1, 99, -14, 92):
        try:
            bravais.primitives(ibrav=ibrav, a=1.0)
        except BaseException as e:
            ctx.seen('refused')
            ctx.sig(ibrav)
        else:
            ctx.fail('refused', 'ibrav=%d accepted' % ibrav)
    try:
        bravais.primitives(ibrav=0, a=1.0)
    except BaseException:
        ctx.seen('refused')
    else:
        ctx.fail('refused', 'free cell without vectors accepted')


@check.family(150)
def vectors(ctx, i):
    """Rotations, two-dimensional translations, reciprocals, volumes."""
    from elphmod import bravais
    rng = ctx.rng
    # rotation
    n = int(rng.integers(0, 4))
    v2 = rng.normal(size=(2,) + tuple(rng.integers(1, 4, n)))
    if v2.ndim > 2:
        v2 = v2.reshape(2, -1)
    v3 = rng.normal(size=(3,) + v2.shape[1:])
    phi, psi = rng.uniform(-20, 20, 2)
    keep = v2.copy(), v3.copy()
    r2 = bravais.rotate(v2, phi)
    z = (v2[0] + 1j * v2[1]) * np.exp(1j * phi)
    ctx.close('rotation', r2, np.array([z.real, z.imag]), rtol=1e-12)
    r3 = bravais.rotate(v3, phi, two_dimensional=False)
    z = (v3[0] + 1j * v3[1]) * np.exp(1j * phi)
    ctx.close('rotation 3D', r3, np.array([z.real, z.imag, v3[2]]), rtol=1e-12)
    ctx.close('composition', bravais.rotate(r2, psi), bravais.rotate(v2,
        phi + psi), rtol=1e-12)
    ctx.close('rotation of list', bravais.rotate([1.0, 2.0], 0.3),
        bravais.rotate(np.array([1.0, 2.0]), 0.3))
    ctx.equal('argument unchanged', np.array_equal(v2, keep[0])
        and np.array_equal(v3, keep[1]), True)
    # translations
    angle = float(rng.choice([60, 90, 120, rng.uniform(1, 179),
        -rng.uniform(1, 179)]))
    angle0 = float(rng.choice([0, 30, -45, rng.uniform(-360, 360)]))
    ctx.note(angle=angle, angle0=angle0)
    for two in (True, False):
        a1, a2 = bravais.translations(angle, angle0, two_dimensional=two)
        rad = np.deg2rad(angle0), np.deg2rad(angle0 + angle)
        ref = np.array([[np.cos(x), np.sin(x)] + [0.0] * (not two)
            for x in rad])
        ctx.close('translations', np.array([a1, a2]), ref, atol=1e-12)
    a1, a2 = bravais.translations(angle, angle0)
    b = np.array(bravais.reciprocals(a1, a2))
    ctx.close('dual 2D', b.dot(np.array([a1, a2]).T), np.eye(2), atol=1e-9)
    ctx.close('area', bravais.volume(a1, a2), abs(np.sin(np.deg2rad(angle))),
        rtol=1e-9, atol=1e-13)
    ctx.close('default translations', np.array(bravais.translations()),
        np.array([[1, 0], [-0.5, np.sqrt(3) / 2]]), atol=1e-12)
    # arbitrary vectors
    scale = 10 ** rng.uniform(-3, 3)
    while True:
        a = rng.normal(size=(3, 3))
        if abs(np.linalg.det(a)) > 0.05 and abs(np.linalg.det(a[:2, :2])
                ) > 0.05:
            break
    a *= scale
    keep = a.copy()
    b = np.array(bravais.reciprocals(*a))
    ctx.close('dual 3D', b.dot(a.T), np.eye(3), atol=1e-10)
    ctx.close('double dual', np.array(bravais.reciprocals(*b)), a, rtol=1e-10)
    ctx.close('volume 3D', bravais.volume(*a), abs(np.linalg.det(a)),
        rtol=1e-10)
    b = np.array(bravais.reciprocals(*a[:2, :2]))
    ctx.close('dual 2D', b.dot(a[:2, :2].T), np.eye(2), atol=1e-10)
    ctx.close('area', bravais.volume(*a[:2, :2]),
        abs(np.linalg.det(a[:2, :2])), rtol=1e-10)
    perm = rng.permutation(3)
    ctx.close('volume of permuted vectors', bravais.volume(*a[perm]),
        bravais.volume(*a), rtol=1e-10)
    ctx.close('length', bravais.volume(np.array([scale])), scale)
    ctx.equal('argument unchanged', a, keep)


@check.family(80)
def coordinates(ctx, i):
    """Crystal and Cartesian coordinates are an inverse pair."""
    from elphmod import bravais
    rng = ctx.rng
    while True:
        a = rng.normal(size=(3, 3))
        if np.linalg.cond(a) < 100:
            break
    a *= 10 ** rng.uniform(-2, 2)
    n = int(rng.integers(1, 12))
    x = rng.normal(size=(n, 3)) * 10 ** rng.uniform(-2, 2)
    if rng.integers(2):
        x = np.round(x)
    kind = int(rng.integers(4))
    if kind == 1:
        x = np.asfortranarray(x)
    elif kind == 2:
        x = x.astype(int) # integer lattice points
    elif kind == 3:
        x = np.repeat(x, 2, axis=0)[::2]
    ctx.note(n=n, kind=kind, det=float(np.linalg.det(a)))
    ctx.sig(a, x)
    keep = x.copy(), a.copy()
    r = bravais.crystal_to_cartesian(x, *a)
    ref = np.array([sum(y[k] * a[k] for k in range(3)) for y in x])
    ctx.close('to Cartesian', r, ref, rtol=1e-11, atol=1e-300)
    y = bravais.cartesian_to_crystal(r, *a)
    ctx.close('round trip', y, x, rtol=1e-10, atol=1e-300)
    ctx.close('round trip', bravais.crystal_to_cartesian(
        bravais.cartesian_to_crystal(x, *a), *a), x, rtol=1e-10, atol=1e-300)
    r2 = bravais.crystal_to_cartesian(x[:, :2], a[0, :2], a[1, :2])
    ctx.close('to Cartesian 2D', r2, np.dot(x[:, :2], a[:2, :2]), rtol=1e-11,
        atol=1e-300)
    ctx.equal('argument unchanged', x, keep[0])
    ctx.equal('argument unchanged', a, keep[1])
    # points on a path
    A, B = rng.integers(-9, 10, (2, 3)).astype(float)
    axis = int(rng.integers(4))
    if axis < 3: # along one axis
        B = A.copy()
        B[axis] += float(rng.integers(1, 9))
    t = int(rng.integers(-4, 9)) / 4
    T = A + t * (B - A)
    got = bool(bravais.point_on_path(T, A, B))
    inside = 0 <= t <= 1 or np.all(A == B)
    ctx.equal('point on path', got, bool(inside))
    off = T + np.cross(B - A, [0.3, 0.7, -0.2])
    if not np.array_equal(off, T):
        ctx.equal('point off path', bool(bravais.point_on_path(off, A, B)),
            False)


@check.family(60)
def meshes(ctx, i):
    """Uniform meshes and printed k points: each point once, in C order."""
    from elphmod import bravais
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    n = tuple(map(int, rng.integers(1, 8, dim)))
    ctx.note(n=n)
    ref = np.array([[2 * np.pi * k / N for k, N in zip(index, n)]
        for index in np.ndindex(*n)])
    k = bravais.mesh(*n)
    ctx.close('mesh', k, ref.reshape(n + (dim,)), atol=1e-13)
    flat = bravais.mesh(*n, flat=True)
    ctx.close('flat mesh', flat, ref, atol=1e-13)
    ctx.true('contiguous', flat.flags.c_contiguous and k.flags.c_contiguous
        and flat.flags.owndata and k.flags.owndata)
    k[...] = 7.0
    ctx.close('independent', bravais.mesh(*n, flat=True), ref, atol=1e-13)
    # printed k points
    n = tuple(map(int, rng.integers(1, 7, 3)))
    weights = bool(rng.integers(2))
    ask = int(rng.integers(3))
    out = io.StringIO()
    args = dict(nk1=n[0], nk2=n[1], nk3=n[2], weights=weights)
    answers = ''
    for key, drop in zip(['nk1', 'nk2', 'nk3', 'weights'],
            rng.integers(2, size=4) * (ask == 2)):
        if drop:
            value = args.pop(key)
            if key == 'weights':
                answers += ('y' if value else 'n') + '\n'
            elif value == 1 and rng.integers(2):
                answers += '\n'
            else:
                answers += '%d\n' % value
    ctx.note(nk=n, weights=weights, asked=answers)
    stdin = sys.stdin
    try:
        sys.stdin = io.StringIO(answers)
        with contextlib.redirect_stdout(out):
            bravais.kpoints(**args)
    finally:
        sys.stdin = stdin
    lines = out.getvalue().split('\n')
    text = [line for line in lines if line.strip()]
    head = text[0].split()[-1].split(':')[-1]
    ctx.equal('number of points', int(head), int(np.prod(n)))
    table = np.array([list(map(float, line.split())) for line in text[1:]])
    ref = np.array([[k / N for k, N in zip(index, n)]
        for index in np.ndindex(*n)])
    if weights:
        ref = np.concatenate([ref, np.full((len(ref), 1), 1 / np.prod(n))],
            axis=1)
    ctx.close('printed points', table, ref, atol=6e-11)
