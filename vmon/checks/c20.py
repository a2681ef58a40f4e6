"""C20: densities of states, spectra, and Fermi contours."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m

check = Check('C20', 'A case is one random dispersion, coupling, or dynamical '
    'matrix and a set of energies; distinct by content; non-trivial if some '
    'energies are within the band.', boost=28)


def mesh(rng, N):
    """Random, smooth, symmetric, discrete, or partly flat dispersion."""
    kind = int(rng.integers(6))
    k = np.arange(N) * 2 * np.pi / N
    a, b = np.meshgrid(k, k, indexing='ij')
    if kind == 0:
        e = rng.normal(size=(N, N))
    elif kind == 1: # hopping on triangular lattice (mirror symmetric)
        e = -np.cos(a) - np.cos(b) - np.cos(a - b)
        e = e + rng.normal() * (np.cos(2 * a) + np.cos(2 * b)
            + np.cos(2 * (a - b)))
    elif kind == 2:
        e = sum(rng.normal() * np.cos(x * a + y * b + rng.uniform(0, 7))
            for x, y in rng.integers(-2, 3, (4, 2)))
    elif kind == 3: # many equal values
        e = rng.integers(-2, 3, (N, N)).astype(float)
    elif kind == 4: # only depends on one direction (mesh-aligned contours)
        e = [np.cos(a), np.sin(b), np.cos(a - b)][rng.integers(3)] + 0.0
        e = e.round(12)
    else: # partly flat
        e = np.maximum(np.cos(a) + np.cos(b) + np.sin(a + b),
            rng.uniform(-1, 1))
    return kind, e * 10.0 ** rng.integers(-2, 2) + rng.normal() * (kind != 3)


def triangles(N):
    """All triangles of periodic triangular mesh."""
    for i, j in itertools.product(range(N), repeat=2):
        yield (i, j), (i + 1, j), (i, j + 1)
        yield (i + 1, j + 1), (i + 1, j), (i, j + 1)


def cut(corners, e, E):
    """Ends of isoline within triangle (fractional indices)."""
    ends = []
    for x, y in (0, 1), (0, 2), (1, 2):
        if (e[x] - E) * (e[y] - E) < 0:
            w = (E - e[x]) / (e[y] - e[x])
            ends.append((1 - w, x, w, y))
    return ends


CELL = np.array([[1.0, 0.0], [0.5, np.sqrt(0.75)]])


def exact(e, g, E):
    """Density of states and coupling-weighted density from geometry."""
    N = len(e)
    total = np.zeros(2)
    length = 0.0
    for t in triangles(N):
        v = np.array([e[x % N, y % N] for x, y in t])
        c = np.array([g[x % N, y % N] for x, y in t])
        ends = cut(t, v, E)
        if len(ends) < 2:
            continue
        r = np.array(t, dtype=float).dot(CELL)
        grad = np.linalg.solve(r[1:] - r[0], v[1:] - v[0])
        points = np.array([a * r[x] + b * r[y] for a, x, b, y in ends])
        dk = np.linalg.norm(points[1] - points[0])
        w = np.mean([a * c[x] + b * c[y] for a, x, b, y in ends])
        s = dk / np.linalg.norm(grad) / (N ** 2 * np.sqrt(0.75))
        total += [s, s * w]
        length += dk
    return total, length


def energies(rng, e, n):
    """Generic energies inside of band, sufficiently far from mesh values."""
    lo, hi = e.min(), e.max()
    if hi - lo < 1e-6:
        return []
    out = []
    for E in rng.uniform(lo, hi, n):
        if abs(e - E).min() > 1e-6 * (hi - lo):
            out.append(E)
    return out


@check.family(10)
def density(ctx, i):
    """Density of states and Eliashberg function."""
    import elphmod
    rng = ctx.rng
    N = int(rng.integers(1, 13))
    kind, e = mesh(rng, N)
    g = rng.normal(size=(N, N)) + rng.normal()
    ctx.note(kind=kind, N=N)
    ctx.sig(kind, e.round(9).tobytes())
    before = fingerprint((e, g))
    dos = elphmod.dos.hexDOS(e)
    a2f = elphmod.dos.hexa2F(e, g)
    same = elphmod.dos.hexa2F(e, e)
    const = elphmod.dos.hexa2F(e, np.full((N, N), 2.5))
    lo, hi = e.min(), e.max()
    wide = hi - lo
    inside = energies(rng, e, 5)
    shift = tuple(int(x) for x in rng.integers(-N, N + 1, 2))
    roll = elphmod.dos.hexDOS(np.roll(e, shift, (0, 1)))
    turn = elphmod.dos.hexDOS(e.T)
    invert = elphmod.dos.hexDOS(-e)
    for E in inside:
        ref, _ = exact(e, g, E)
        near = abs(e - E).min() / wide
        tol = 1e-11 / near
        ctx.close('density', dos(E), ref[0], tol)
        ctx.close('weighted density', a2f(E), ref[1], tol,
            scale=ref[0] * abs(g).max() + 1e-9)
        ctx.close('coupling equal to energy', same(E), E * dos(E), tol,
            scale=dos(E) * abs(e).max() + 1e-9)
        ctx.close('constant coupling', const(E), 2.5 * dos(E), 1e-11)
        ctx.close('origin of mesh', roll(E), dos(E), 1e-11)
        ctx.close('interchanged axes', turn(E), dos(E), 1e-11)
        ctx.close('inverted band', invert(-E), dos(E), 1e-9)
        ctx.true('nonnegative', dos(E) >= 0)
        mini, maxi = E - rng.uniform(0, wide), E + rng.uniform(0, wide)
        if rng.integers(3) == 0:
            mini = None
        elif rng.integers(3) == 0:
            maxi = None
        part = elphmod.dos.hexDOS(e, mini, maxi)
        ctx.close('energy window', part(E), dos(E), 1e-12)
        part = elphmod.dos.hexa2F(e, g, minimum=mini, maximum=maxi)
        ctx.close('energy window (coupling)', part(E), a2f(E), 1e-12,
            1e-14 * abs(a2f(E)))
    for E in lo - 1e-3 - wide, hi + 1e-3 + wide:
        ctx.equal('outside of band', float(dos(E)), 0.0)
        ctx.equal('outside of band (coupling)', float(a2f(E)), 0.0)
    if inside: # vectorized as function of energy
        E = np.array(inside)
        ctx.close('vectorized', dos(E), [float(dos(x)) for x in E], 1e-13)
        ctx.equal('shape', dos(E[:, None]).shape, (len(E), 1))
    # integral with exact quadrature between mesh values:
    if wide > 1e-6 and N <= 5:
        v = np.unique(e)
        x, w = np.polynomial.legendre.leggauss(3)
        total = np.zeros(2)
        for p, q in zip(v[:-1], v[1:]):
            if q - p < 1e-10 * wide:
                continue
            for y, z in zip(x, w):
                E = (p + q) / 2 + (q - p) / 2 * y
                total += np.array([dos(E), a2f(E)]) * z * (q - p) / 2
        flat = 0.0
        flatg = 0.0
        for t in triangles(N):
            u = [e[r % N, s % N] for r, s in t]
            if max(u) - min(u) < 1e-10 * wide:
                flat += 0.5 / N ** 2
                flatg += 0.5 / N ** 2 * np.mean([g[r % N, s % N]
                    for r, s in t])
        ctx.close('integral', total[0] + flat, 1.0, 1e-9)
        ctx.close('integral of coupling', total[1] + flatg, g.mean(), 1e-9,
            scale=abs(g).max())
    ctx.equal('arguments unchanged', fingerprint((e, g)), before)
    # values at mesh energies are finite unless there is a flat triangle:
    for E in set(float(x) for x in rng.choice(e.ravel(), 3)):
        flat = any(all(e[r % N, s % N] == E for r, s in t)
            for t in triangles(N))
        ctx.equal('finite', bool(np.isfinite(dos(E))), not flat)
        ctx.equal('finite (coupling)', bool(np.isfinite(a2f(E))), not flat)
        if flat or wide < 1e-6:
            continue
        # mean of one-sided limits
        gap = np.unique(abs(np.unique(e) - E))
        d = (gap[1] if len(gap) > 1 else wide) * 1e-7
        if d > 1e-9 * wide:
            one = np.mean([dos(E - d), dos(E + d)])
            # (limits differ where an edge coincides with the contour)
            if abs(one) < 1e3 * (1 / wide):
                ctx.close('density at mesh energy', dos(E), one, 1e-4,
                    1e-4 / wide)
                ctx.close('weighted density at mesh energy', a2f(E),
                    np.mean([a2f(E - d), a2f(E + d)]), 1e-4, 1e-4 / wide,
                    scale=one * abs(g).max())


@check.family(8)
def double_delta(ctx, i):
    """Intersections of contours."""
    import elphmod
    rng = ctx.rng
    N = int(rng.integers(2, 11))
    kind, x = mesh(rng, N)
    if rng.integers(2):
        q = tuple(int(s) for s in rng.integers(0, N, 2))
        y = np.roll(x, q, (0, 1))
    else:
        _, y = mesh(rng, N)
    f = rng.normal(size=(N, N))
    ctx.note(kind=kind, N=N)
    ctx.sig(kind, x.round(9).tobytes())
    z = float(rng.choice([0.0, np.median(x), rng.uniform(x.min(), x.max()),
        x.flat[0]]))
    if rng.integers(3) == 0: # symmetric contours crossing mirror lines
        y = x[::-1, ::-1].copy() if rng.integers(2) else x.T.copy()
    before = fingerprint((x, y, f))
    dd = elphmod.dos.double_delta(x, y, f)
    got = dd(z)
    ctx.equal('arguments unchanged', fingerprint((x, y, f)), before)
    ref = {}
    clear = True # are all intersections clearly inside of a triangle?
    sx, sy = (np.ptp(a) + 1e-9 * abs(a).max() + 1e-9 for a in (x, y))
    fx = elphmod.bravais.linear_interpolation(x)
    for t in triangles(N):
        X = np.array([x[r % N, s % N] for r, s in t])
        Y = np.array([y[r % N, s % N] for r, s in t])
        F = np.array([f[r % N, s % N] for r, s in t])
        A = np.array([X[1:] - X[0], Y[1:] - Y[0]])
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        if abs(det) < 1e-9 * sx * sy:
            if (X.min() - z) * (X.max() - z) <= 1e-9 * sx and (Y.min() - z) \
                    * (Y.max() - z) <= 1e-9 * sy:
                clear = False
            continue
        c = np.linalg.solve(A, [z - X[0], z - Y[0]])
        c = np.array([1 - c.sum(), *c])
        if c.min() > -1e-7:
            if c.min() < 1e-7:
                clear = False
            else:
                ref[tuple(c.dot(np.array(t, float)))] = c.dot(F) / abs(det) \
                    / N ** 2
    if clear:
        ctx.equal('number of intersections', len(got), len(ref))
        if len(got) == len(ref):
            A = np.array([(*k, w) for k, w in got.items()]).reshape((-1, 3))
            B = np.array([(*k, w) for k, w in ref.items()]).reshape((-1, 3))
            d = A[:, None, :2] - B[None, :, :2]
            d = abs(d - N * np.round(d / N)).max(axis=2)
            if len(A):
                pair = d.argmin(axis=1)
                ctx.equal('one-to-one', len(set(pair)), len(A))
                ctx.close('positions', d.min(axis=1), np.zeros(len(A)), 1e-6,
                    1e-6)
                ctx.close('weights', A[:, 2], B[pair, 2], 1e-6,
                    scale=abs(B[:, 2]).max())
        ctx.close('interchanged functions', sum(elphmod.dos.double_delta(y, x,
            f)(z).values()), sum(ref.values()), 1e-6, scale=sum(map(abs,
            ref.values())) + 1e-12)
    for (k1, k2), w in got.items():
        ctx.close('on contour', fx(k1, k2), z, 1e-6, scale=sx)
    # distinct (on periodic mesh):
    p = np.array(list(got)).reshape((-1, 2))
    for a, b in itertools.combinations(range(len(p)), 2):
        d = p[a] - p[b]
        d -= N * np.round(d / N)
        ctx.true('distinct', abs(d).max() > 1e-7)
    one = elphmod.dos.double_delta(x, y)(z)
    ctx.equal('same intersections', sorted(one), sorted(got))
    ctx.close('unit weight', np.array([one[k] for k in sorted(one)]),
        np.array([elphmod.dos.double_delta(x, y, np.ones((N, N)))(z)[k]
        for k in sorted(one)]), 1e-12)
    # rounding errors only if equal to mesh value within numerical accuracy:
    near = np.concatenate([abs(x - z).ravel() / sx, abs(y - z).ravel() / sy])
    if clear or near[near > 1e-15].min(initial=1.0) > 1e-7 and kind in (3, 4):
        shift = tuple(int(s) for s in rng.integers(0, N, 2))
        X, Y, F = (np.roll(a, shift, (0, 1)) for a in (x, y, f))
        other = elphmod.dos.double_delta(X, Y, F)(z)
        if not clear: # (contours through corners or along edges)
            other2 = elphmod.dos.double_delta(x, y, f)(z)
            ctx.equal('reproducible', sorted(other2), sorted(got))
        ctx.equal('number of intersections of rolled mesh', len(other),
            len(got))
        ctx.close('rolled mesh', sum(other.values()), sum(got.values()), 1e-7,
            scale=sum(map(abs, got.values())) + 1e-12)


@check.family(6)
def contours(ctx, i):
    """Isolines."""
    import elphmod
    rng = ctx.rng
    N = int(rng.choice([3, 6, 9, 12, 4, 5, 7, 8, 10]))
    kind, e = mesh(rng, N)
    ctx.note(kind=kind, N=N)
    ctx.sig(kind, e.round(9).tobytes())
    before = fingerprint(e)
    line = elphmod.dos.isoline(e)
    ctx.equal('arguments unchanged', fingerprint(e), before)
    fun = elphmod.bravais.linear_interpolation(e)
    span = np.ptp(e) + 1e-300
    shift = tuple(int(x) for x in rng.integers(0, N, 2))
    rolled = None

    def length(contours):
        return sum(np.linalg.norm(np.diff(c.dot(CELL), axis=0), axis=1).sum()
            for c in contours) * N

    levels = energies(rng, e, 3) + [float(e.flat[rng.integers(e.size)]),
        e.max() + span, e.min() - span]
    for E in levels:
        got = line(E)
        for c in got:
            ctx.equal('form', c.shape[1:], (2,))
            ctx.true('segments', len(c) > 1)
            for p in c:
                ctx.close('on contour', fun(*(p * N)), E, 1e-8, scale=span)
            for p in zip(c[:-1], c[1:]): # linear in between
                ctx.close('center of segment', fun(*(np.mean(p, axis=0) * N)),
                    E, 1e-8, scale=span)
            step = np.linalg.norm(np.diff(c.dot(CELL), axis=0), axis=1) * N
            ctx.true('connected', step.max() <= 1 + 1e-9)
            # first Brillouin zone (of the reciprocal lattice at 60 degrees):
            x, y = c.T
            ctx.true('Brillouin zone', max(abs(x - y).max(), abs(2 * x
                + y).max(), abs(x + 2 * y).max()) <= 1 + 1e-9)
        if E > e.max() or E < e.min():
            ctx.equal('outside of band', got, [])
        elif abs(e - E).min() > 1e-6 * span:
            _, ref = exact(e, e, E)
            L = length(got)
            if N % 3 == 0: # (otherwise corners of Brillouin zone are missing)
                # energies at the zone boundary are mesh values or averages
                ctx.close('length', L, ref, 1e-6)
            else:
                ctx.true('not longer', L <= ref * (1 + 1e-9))
            if N % 3 == 0:
                if rolled is None:
                    rolled = elphmod.dos.isoline(np.roll(e, shift, (0, 1)))
                ctx.close('origin of mesh', length(rolled(E)), L, 1e-6)


@check.family(8)
def spectrum(ctx, i):
    """Phonon spectral functions."""
    import elphmod
    rng = ctx.rng
    size = 3 * int(rng.integers(1, 4))
    nq = tuple(map(int, rng.integers(1, 4, int(rng.integers(0, 3)))))
    static = bool(rng.integers(2))
    eta = 10.0 ** rng.uniform(-3, -1)
    nw = int(rng.integers(1, 30))
    w = rng.uniform(-1, 3, nw)
    A = rng.normal(size=(*nq, size, size)) + 1j * rng.normal(size=(*nq, size,
        size))
    D = A @ A.conj().swapaxes(-1, -2) / size
    D = np.repeat(D[..., None], nw, axis=-1)
    if not static: # frequency-dependent self-energy
        D = D + 0.1 * (rng.normal(size=D.shape) + 1j * rng.normal(
            size=D.shape)) - 0.5j * np.eye(size)[:, :, None] * (w > 0)
    ctx.note(size=size, nq=nq, static=static, eta=eta, nw=nw)
    before = fingerprint((D, w))
    got = elphmod.ph.spectral_function(D, w, eta)
    ctx.equal('arguments unchanged', fingerprint((D, w)), before)
    ctx.equal('shape', got.shape, (nw, *nq))
    for n in range(nw):
        G = np.linalg.inv(np.asarray(D[..., n]) - (w[n] + 1j * eta) ** 2
            * np.eye(size))
        ref = sum(G[..., x, x].imag for x in range(size)) * w[n] * 2 / np.pi
        ctx.close('spectral function', got[n], ref, 1e-8,
            scale=abs(G).max() + 1)
    if static:
        ctx.true('nonnegative', got.min() >= -1e-9 * abs(got).max())
        w = np.linspace(0, 1500, 3001) ** 1.0
        D0 = D[..., 0]
        W = np.sqrt(np.linalg.eigvalsh(D0))
        eta = max(0.05, float(W.max()) * 0.05)
        top = 60 * (W.max() + 1)
        w = np.linspace(0, top, int(top / eta * 8) + 2)
        A = elphmod.ph.spectral_function(np.repeat(D0[..., None], len(w),
            axis=-1), w, eta)
        total = np.trapezoid(A, w, axis=0)
        # (Lorentzian tails beyond upper limit and odd part below zero)
        ctx.close('number of modes', total, np.full(nq, float(size)), 0,
            size * 0.01)


@check.family(6)
def weights(ctx, i):
    """Polarizations of phonons and orbital weights of electrons."""
    import elphmod
    rng = ctx.rng
    nat, nq = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    bands = 3 * nat
    angle = float(rng.choice([60, 90, 120]))
    q = rng.uniform(-7, 7, (nq, 3))
    q[rng.integers(nq)] = 0
    A = rng.normal(size=(nq, bands, bands)) + 1j * rng.normal(size=(nq, bands,
        bands))
    e = np.linalg.qr(A)[0]
    ctx.note(nat=nat, nq=nq, angle=angle)
    before = fingerprint((e, q))
    path = q if rng.integers(2) else q[:, :2]
    got = elphmod.ph.polarization(e, path, angle) if angle != 60 \
        or rng.integers(2) else elphmod.ph.polarization(e, path)
    ctx.equal('arguments unchanged', fingerprint((e, q)), before)
    ctx.equal('shape', got.shape, (nq, bands, 3))
    ctx.close('sum of weights', got.sum(axis=2), np.ones((nq, bands)), 1e-12)
    ctx.true('nonnegative', got.min() >= 0)
    # sum of each kind of weight over all modes:
    ctx.close('sum over modes', got.sum(axis=1), np.full((nq, 3), float(nat)),
        1e-10)
    t = np.deg2rad(180 - angle)
    a = np.array([[np.cos(-t / 2 + np.pi / 2 - np.pi / 2), 0], [0, 0]])
    a1, a2 = elphmod.bravais.translations(180 - angle)
    b = np.linalg.inv(np.array([a1, a2])).T
    u = e.reshape((nq, nat, 3, bands))
    for n in range(nq):
        k = q[n, 0] * b[0] + q[n, 1] * b[1]
        if np.linalg.norm(k) < 1e-9:
            ctx.close('isotropic', got[n, :, 0], got[n, :, 1], 1e-12)
            continue
        k /= np.linalg.norm(k)
        L = (abs(u[n, :, :2].transpose(0, 2, 1).dot(k)) ** 2).sum(axis=0)
        Z = (abs(u[n, :, 2]) ** 2).sum(axis=0)
        ctx.close('longitudinal', got[n, :, 0], L, 1e-11, scale=1.0)
        ctx.close('out of plane', got[n, :, 2], Z, 1e-11, scale=1.0)
    # weights for integration:
    x = np.sort(rng.uniform(-5, 5, int(rng.integers(2, 30))))
    y = rng.normal(size=len(x))
    dx = elphmod.misc.differential(x)
    ctx.close('trapezoidal rule', np.dot(dx, y), np.trapezoid(y, x), 1e-12,
        scale=10 * abs(y).max())
    ctx.close('length of interval', dx.sum(), x[-1] - x[0], 1e-12)
    # orbital weights:
    names = []
    for X in rng.permutation(['Ta', 'S', 'C', 'W'])[:int(rng.integers(1, 4))]:
        for atom in range(int(rng.integers(1, 3))):
            for shell, orbs in ('s', ['']), ('p', 'z x y'.split()), ('d',
                    'z2 xz yz x2-y2 xy'.split()):
                if rng.integers(2):
                    n = int(rng.integers(1, 7))
                    names += [(str(X), str(atom + 1), str(n), shell, o)
                        for o in orbs]
    if not names:
        return
    full = ['%s%s-%s%s%s' % x for x in names]
    if rng.integers(3) == 0:
        full.append('x')
        names.append(('', '', '', 'x', ''))
    proj = rng.uniform(0, 1, (nq, 3, len(full)))
    proj /= proj.sum(axis=2, keepdims=True)
    groups, refs = [], []
    for _ in range(int(rng.integers(1, 5))):
        chosen = set()
        parts = []
        for _ in range(int(rng.integers(1, 4))):
            pick = names[rng.integers(len(names))]
            use = rng.integers(2, size=5)
            if pick[3] == 'x':
                use[:] = 1
            use[1] &= use[0] # atom number belongs to element
            if use[4] or use[2]:
                use[3] = 1
            if not use.any():
                use[3] = 1
            sel = [x if y else '' for x, y in zip(pick, use)]
            text = '%s%s-%s%s%s' % tuple(sel)
            if not sel[0]:
                text = text[1:] if rng.integers(2) else text
            if not any(sel[2:]):
                text = text.rstrip('-') if rng.integers(2) else text
            parts.append(' ' * int(rng.integers(2)) + text)
            chosen |= {n for n, x in enumerate(names) if all(p == y for p, y
                in zip(sel, x) if p)}
        groups.append(','.join(parts))
        refs.append(proj[..., sorted(chosen)].sum(axis=2))
    ctx.note(orbitals=full, groups=groups)
    got = elphmod.el.proj_sum(proj, full, *groups)
    ctx.close('orbital weights', got, np.moveaxis(np.array(refs), 0, -1),
        1e-13, shape=True)
    got = elphmod.el.proj_sum(proj, full, *groups, other=True)
    ctx.close('sum of all weights', got.sum(axis=2), np.ones((nq, 3)), 1e-12)
    ctx.close('same weights', got[..., :-1], np.moveaxis(np.array(refs), 0,
        -1), 1e-13)
