"""C08: interpolation, stacking, paths."""

import numpy as np

from vmon.core import Check, Skip, fingerprint

check = Check('C08', 'A case is one drawn data set (mesh, axes, angle, period) '
    'or one drawn path; distinct by these; non-trivial since the oracle '
    'compares with independently interpolated values.', boost=15)

ANGLES = (60, 90, 120)


def draw_data(rng, ndim_extra=None, dtype=None):
    """Mesh shape, positions of the mesh axes and data."""
    dims = int(rng.integers(1, 3))
    n = tuple(map(int, rng.integers(1, 7, dims)))
    extra = int(rng.integers(0, 3))
    shape_extra = tuple(map(int, rng.integers(1, 4, extra)))
    order = rng.permutation(dims + extra)
    shape = np.empty(dims + extra, dtype=int)
    src = n + shape_extra
    for position, s in zip(order, src):
        shape[position] = s
    axes = tuple(int(x) for x in order[:dims])
    rest = tuple(x for x in range(dims + extra) if x not in axes)
    data = rng.normal(size=tuple(shape))
    if dtype == 'complex':
        data = data + 1j * rng.normal(size=data.shape)
    elif dtype == 'int':
        data = np.round(10 * data).astype(int)
    front = np.transpose(data, axes + rest)
    return data, axes, front, dims


def stacked(values, period):
    """Shift values by periods to the most localized arrangement."""
    values = np.array(values) % period
    best = None
    order = np.argsort(values, axis=0)
    for n in range(len(values)):
        v = values.copy()
        for m in range(n):
            v[order[m]] += period
        if best is None or np.std(v) < best[0] - 1e-12:
            best = np.std(v), v
    return best[1]


def reference(front, dims, angle, x, period=None):
    """Value at fractional indices, all non-mesh axes element by element."""
    n = front.shape[:dims]
    i = [int(np.floor(y)) for y in x]
    d = [y - np.floor(y) for y in x]

    def at(*shift):
        return front[tuple((a + s) % m for a, s, m in zip(i, shift, n))]

    if dims == 1:
        corners = [((0,), 1 - d[0]), ((1,), d[0])]
    elif angle == 90:
        corners = [((0, 0), (1 - d[0]) * (1 - d[1])), ((1, 0), d[0]
            * (1 - d[1])), ((1, 1), d[0] * d[1]), ((0, 1), (1 - d[0]) * d[1])]
    elif angle == 60:
        if d[0] + d[1] > 1:
            corners = [((1, 0), 1 - d[1]), ((0, 1), 1 - d[0]),
                ((1, 1), d[0] + d[1] - 1)]
        else:
            corners = [((1, 0), d[0]), ((0, 1), d[1]), ((0, 0), 1 - d[0]
                - d[1])]
    else:
        if d[0] > d[1]:
            corners = [((0, 0), 1 - d[0]), ((1, 1), d[1]), ((1, 0), d[0]
                - d[1])]
        else:
            corners = [((0, 0), 1 - d[1]), ((1, 1), d[0]), ((0, 1), d[1]
                - d[0])]
    values = [at(*s) for s, w in corners]
    weights = [w for s, w in corners]
    if period:
        values = np.array(values)
        flat = values.reshape((len(values), -1))
        flat = np.array([stacked(c, period) for c in flat.T]).T
        values = flat.reshape(values.shape)
    return sum(w * v for w, v in zip(weights, values))


def modulo(diff, period):
    return abs((diff + period / 2) % period - period / 2)


@check.family(180)
def linear(ctx, i):
    """Piecewise linear interpolation at arbitrary fractional indices."""
    from elphmod import bravais
    rng = ctx.rng
    dtype = ['float', 'complex', 'int', 'float'][int(rng.integers(4))]
    data, axes, front, dims = draw_data(rng, dtype=dtype)
    if rng.integers(2): # most common: mesh axes only
        front = front[(slice(None),) * dims + (0,) * (front.ndim - dims)]
        data = front.T.copy() if dims == 2 and rng.integers(2) else front
        axes = (0,) if dims == 1 else (0, 1) if data is front else (1, 0)
    angle = ANGLES[i % 3]
    period = None
    if dtype == 'float' and rng.integers(3) == 0:
        period = float(rng.choice([2 * np.pi, 1.0, 0.3]))
    if dims == 1 and rng.integers(2):
        axes = axes[0]
    ctx.note(shape=data.shape, axes=axes, angle=angle, dtype=dtype,
        period=period)
    keep = data.copy()
    f = bravais.linear_interpolation(data, angle=angle, axes=axes,
        period=period)
    n = front.shape[:dims]
    # mesh points, periodic images
    for _ in range(12):
        j = tuple(map(int, rng.integers(-2 * max(n), 3 * max(n), dims)))
        got = f(*j)
        ref = front[tuple(a % m for a, m in zip(j, n))]
        if period:
            ctx.true('mesh value', np.shape(got) == np.shape(ref)
                and np.all(modulo(got - ref, period) < 1e-9))
        else:
            ctx.close('mesh value', got, ref, rtol=1e-12, atol=1e-12)
    # fractional points
    for _ in range(12):
        x = rng.uniform(-2, 3, dims) * max(n)
        if rng.integers(4) == 0:
            x[rng.integers(dims)] = np.round(x[0])
        got = f(*x)
        tol = 1e-9 * (1 + abs(front).max())
        if period:
            flat = front.reshape(n + (-1,))
            values = np.reshape(got, -1)
            ctx.equal('shape', values.size, flat.shape[-1])
            # equally localized arrangements are equivalent up to ties
            for c in range(flat.shape[-1]):
                ctx.true('interpolated (periodic)', stacked_ok(flat[..., c],
                    dims, angle, x, period, float(values[c])))
        else:
            ref = reference(front, dims, angle, x, period)
            ctx.close('interpolated', got, ref, rtol=0, atol=tol)
            shift = rng.integers(-2, 3, dims) * np.array(n)
            ctx.close('periodic', f(*(x + shift)), got, rtol=0,
                atol=1e-8 * (1 + abs(front).max()))
    # vectorized over arrays
    x = rng.uniform(0, 3, (dims, 3, 2))
    got = f(*x)
    ctx.equal('shape', np.shape(got), (3, 2) + front.shape[dims:])
    for idx in np.ndindex(3, 2):
        one = f(*x[(slice(None),) + idx])
        ctx.close('vectorized', got[idx], one, rtol=1e-9, atol=1e-9)
    ctx.equal('data unchanged', data, keep)


def stacked_ok(front, dims, angle, x, period, got):
    ref = reference(front, dims, angle, x, period)
    if modulo(got - ref, period) < 1e-8 * (1 + period):
        return True
    # near ties of the localization criterion: accept any minimal stacking
    i = [int(np.floor(y)) for y in x]
    n = front.shape[:dims]
    corner = [front[tuple((a + s) % m for a, s, m in zip(i, sh, n))]
        for sh in np.ndindex(*(2,) * dims)]
    v = np.sort(np.array(corner) % period)
    stds = sorted(np.std(np.concatenate([v[m:], v[:m] + period]))
        for m in range(len(v)))
    return len(stds) > 1 and stds[1] - stds[0] < 1e-6 * period


@check.family(24)
def polar(ctx, i):
    """Interpolation of complex values in polar coordinates."""
    from elphmod import bravais
    rng = ctx.rng
    dims = int(rng.integers(1, 3))
    n = tuple(map(int, rng.integers(1, 7, dims)))
    angle = ANGLES[i % 3]
    r = rng.uniform(0.5, 2, n)
    phase = rng.uniform(-0.5, 0.5, n) + rng.uniform(0, 6)
    data = r * np.exp(1j * phase)
    ctx.note(shape=n, angle=angle)
    axes = (0, 1) if dims == 2 else 0
    f = bravais.linear_interpolation(data, angle=angle, axes=axes, polar=True)
    for _ in range(12):
        x = rng.uniform(-1, 2, dims) * max(n)
        ref = reference(r, dims, angle, x) * np.exp(1j * reference(phase, dims,
            angle, x))
        ctx.close('polar', complex(f(*x)), complex(ref), rtol=1e-9)
    for j in np.ndindex(*n):
        ctx.close('mesh value', complex(f(*j)), complex(data[j]), rtol=1e-12)
    real = rng.normal(size=n)
    g = bravais.linear_interpolation(real, angle=angle, axes=axes, polar=True)
    h = bravais.linear_interpolation(real, angle=angle, axes=axes)
    x = rng.uniform(0, 3, dims)
    ctx.close('real data', complex(g(*x)), complex(h(*x)), rtol=1e-12)


@check.family(90)
def resizing(ctx, i):
    """Resizing along one or two axes, periodic or with fixed ends."""
    from elphmod import bravais
    rng = ctx.rng
    data, axes, front, dims = draw_data(rng, dtype='complex'
        if rng.integers(3) == 0 else 'float')
    if rng.integers(2): # most common: mesh axes only
        front = front[(slice(None),) * dims + (0,) * (front.ndim - dims)]
        data = front.T.copy() if dims == 2 and rng.integers(2) else front
        axes = (0,) if dims == 1 else (0, 1) if data is front else (1, 0)
    n = front.shape[:dims]
    angle = ANGLES[i % 3]
    kind = int(rng.integers(3))
    periodic = bool(rng.integers(3))
    if kind == 0:
        new = n
    elif kind == 1:
        new = tuple(int(m * rng.integers(1, 4)) for m in n)
    else:
        new = tuple(map(int, rng.integers(1, 9, dims)))
    ctx.note(shape=n, new=new, axes=axes, angle=angle, periodic=periodic,
        complex=bool(np.iscomplexobj(data)))
    keep = data.copy()
    got = bravais.resize(data, new if dims == 2 or rng.integers(2) else new[0],
        angle=angle, axes=axes if dims == 2 or rng.integers(2) else axes[0],
        periodic=periodic)
    ctx.equal('data unchanged', data, keep)
    ctx.true('type', got.dtype == data.dtype)
    got = np.transpose(got, axes + tuple(x for x in range(got.ndim)
        if x not in axes))
    ctx.equal('shape', got.shape, tuple(new) + front.shape[dims:])
    if new == n and (periodic or all(m > 1 for m in n)):
        ctx.close('identity', got, front, rtol=1e-12, atol=1e-12)
    if kind == 1 and periodic:
        step = tuple(slice(None, None, a // b) for a, b in zip(new, n))
        ctx.close('original points', got[step], front, rtol=1e-11, atol=1e-11)
    for j in np.ndindex(*new):
        if periodic:
            x = [a * b / c for a, b, c in zip(j, n, new)]
        else:
            x = [a * (b - 1) / max(c - 1, 1) for a, b, c in zip(j, n, new)]
        # at (numerical) mesh lines all adjacent facets agree
        ref = reference(front, dims, angle, x)
        ctx.close('resized', got[j], ref, rtol=0, atol=1e-9 * (1 + abs(
            front).max()))


@check.family(30)
def resizing_period(ctx, i):
    """Resizing periodic values keeps them modulo the period."""
    from elphmod import bravais
    rng = ctx.rng
    n = tuple(map(int, rng.integers(2, 6, 2)))
    period = 2 * np.pi
    smooth = rng.uniform(-0.4, 0.4, n) + rng.uniform(0, 7)
    factor = int(rng.integers(1, 4))
    angle = ANGLES[i % 3]
    ctx.note(shape=n, factor=factor, angle=angle)
    new = tuple(m * factor for m in n)
    got = bravais.resize(smooth % period, new, angle=angle, period=period)
    ref = bravais.resize(smooth, new, angle=angle)
    ctx.true('modulo period', np.all(modulo(got - ref, period) < 1e-9))
    pol = bravais.resize(2.0 * np.exp(1j * smooth), new, angle=angle,
        polar=True)
    ctx.close('polar', pol, 2 * np.exp(1j * ref), rtol=1e-9)


@check.family(120)
def fourier(ctx, i):
    """Fourier interpolation: mesh values, band-limited functions."""
    from elphmod import bravais
    rng = ctx.rng
    N = int(rng.integers(1, 8))
    angle = ANGLES[i % 3]
    sign = int(rng.choice([-1, 1]))
    ctx.note(N=N, angle=angle, sign=sign)
    extra = () if rng.integers(2) else tuple(map(int, rng.integers(1, 4,
        rng.integers(1, 3))))
    data = rng.normal(size=(N, N) + extra)
    keep = data.copy()
    f = bravais.Fourier_interpolation(data, angle=angle, sign=sign)
    for _ in range(15):
        j = rng.integers(-2 * N, 3 * N, 2)
        ctx.close('mesh value', f(*j), data[j[0] % N, j[1] % N],
            rtol=0, atol=2e-5)
    x = rng.uniform(-1, 2, (2, 4)) * N
    got = f(*x)
    ctx.equal('shape', got.shape, (4,) + extra)
    shift = rng.integers(-2, 3, 2)[:, None] * N
    ctx.close('periodic', f(*(x + shift)), got, rtol=0, atol=1e-8)
    coef = bravais.Fourier_interpolation(data, angle=angle, sign=sign,
        function=False)
    total = sum(np.multiply.outer(np.exp(-sign * 2j * np.pi / N * (R[0] * x[0]
        + R[1] * x[1])), v) for R, v in coef.items())
    ctx.close('parameters', np.real(total), got, rtol=0, atol=1e-9)
    # unequal-length coefficients: only shortest lattice vectors
    for R, v in coef.items():
        ctx.true('shortest vectors', tuple(map(int, R)) in {tuple(p) for p in
            bravais.to_Voronoi(*R, N, angle=180 - angle)})
    # band-limited function
    terms = [R for R in coef if all(bravais.squared_distance(*R,
        angle=180 - angle) < bravais.squared_distance(*S, angle=180 - angle)
        for S in [(R[0] + a * N, R[1] + b * N) for a in (-1, 0, 1)
        for b in (-1, 0, 1) if a or b])]
    if terms:
        pick = [terms[int(rng.integers(len(terms)))] for _ in range(3)]
        amp = rng.normal(size=3)
        phi = rng.uniform(0, 6, 3)

        def g(a, b):
            return sum(A * np.cos(2 * np.pi * (R[0] * a + R[1] * b) / N + p)
                for R, A, p in zip(pick, amp, phi))

        mesh = np.array([[g(a, b) for b in range(N)] for a in range(N)])
        h = bravais.Fourier_interpolation(mesh, angle=angle, sign=sign)
        ctx.close('band-limited', h(*x), g(*x), rtol=0, atol=3e-5)
    ctx.equal('data unchanged', data, keep)


@check.family(80)
def stacking(ctx, i):
    """Points on a periodic axis moved together by full periods."""
    from elphmod import bravais
    rng = ctx.rng
    m = int(rng.integers(1, 7))
    shape = tuple(map(int, rng.integers(1, 4, rng.integers(0, 3))))
    period = float(rng.choice([2 * np.pi, 10.0, 0.7]))
    pts = [rng.uniform(-3, 3, shape) * period for _ in range(m)]
    ctx.note(points=m, shape=shape, period=period)
    keep = [p.copy() if shape else p for p in pts]
    if period == 2 * np.pi and rng.integers(2):
        got = bravais.stack(*pts)
    else:
        got = bravais.stack(*pts, period=period)
    got = np.array(got)
    ctx.equal('shape', got.shape, (m,) + shape)
    pts = np.array(pts)
    ctx.close('equivalent', np.round((got - pts) / period) * period, got - pts,
        rtol=0, atol=1e-9 * period)
    flat, out = pts.reshape((m, -1)), got.reshape((m, -1))
    for c in range(flat.shape[1]):
        v = np.sort(flat[:, c] % period)
        best = min(np.std(np.concatenate([v[k:], v[:k] + period]))
            for k in range(m))
        ctx.close('most localized', np.std(out[:, c]), best, rtol=1e-9,
            atol=1e-9)
    ctx.close('documented example', bravais.stack(3, 5, 9, 12, period=10),
        np.array([13, 15, 9, 12]), atol=0)


HEX = dict(G=[0, 0, 0], A=[0, 0, .5], M=[0, .5, 0], L=[0, .5, .5],
    K=[1 / 3, 1 / 3, 0], H=[1 / 3, 1 / 3, .5])


@check.family(100)
def paths(ctx, i):
    """Paths through arbitrary points or labels, any lattice."""
    from elphmod import bravais
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    N = float(rng.choice([1, 7, 30, 100, rng.uniform(0.5, 60)]))
    kwargs = {}
    mode = int(rng.integers(3))
    qe = bool(rng.integers(2))
    if mode == 0:
        a = rng.normal(size=(3, 3)) + 2 * np.eye(3)
        b = np.linalg.inv(a).T
        kwargs['recvec'] = b
    else:
        ibrav = int(rng.choice([1, 2, 3, -3, 4, 6, 7, 8, 9, -9, 12, -12, 5,
            14]))
        kwargs.update(ibrav=ibrav, a=float(rng.uniform(1, 5)), b=float(
            rng.uniform(1, 5)), c=float(rng.uniform(1, 5)), cosab=0.2,
            cosac=0.1, cosbc=-0.1)
        b = np.linalg.inv(bravais.primitives(**kwargs)).T
    pts = [list(rng.uniform(-1, 1, 3)) for _ in range(n)]
    for j in range(n):
        if rng.integers(3) == 0:
            pts[j] = [0.0, 0.0, 0.0]
        elif rng.integers(3) == 0:
            pts[j] = [float(x) for x in rng.integers(-1, 2, 3) / 2]
    coords = np.array(pts, dtype=float)
    pts = ['G' if not np.any(p) and rng.integers(2) else p for p in pts]
    if rng.integers(4) == 0: # zero-length segment
        pts[1] = pts[0]
        coords[1] = coords[0]
    moveG = 0 if rng.integers(3) else float(rng.uniform(0.001, 0.2))
    ctx.note(points=pts, N=N, mode=mode, moveG=moveG, qe=qe, kwargs={k: v
        for k, v in kwargs.items() if k != 'recvec'})
    if moveG and np.any(np.all(coords[1:] == coords[:-1], axis=1)):
        moveG = 0
    before = fingerprint((pts, kwargs))
    out = bravais.path(pts, N=N, qe=qe, moveG=moveG, **kwargs)
    ctx.equal('arguments unchanged', fingerprint((pts, kwargs)), before)
    k, x, corners = out[:3]
    k = k / (2 * np.pi)
    ctx.equal('corners', len(corners), n)
    ctx.true('lengths agree', len(k) == len(x))
    ctx.equal('first corner', corners[0], 0)
    ctx.equal('last corner', corners[-1], len(k) - 1)
    ctx.close('starts at zero', x[0], 0.0, atol=1e-14)
    total = 0.0
    for j in range(n):
        G = not np.any(coords[j])
        if not (moveG and G):
            ctx.close('corner point', k[corners[j]], coords[j], rtol=0,
                atol=1e-12)
        if j:
            total += np.linalg.norm(np.dot(coords[j] - coords[j - 1], b))
        ctx.close('corner distance', x[corners[j]], total, rtol=1e-10,
            atol=1e-10)
    for j in range(n - 1):
        dx = np.linalg.norm(np.dot(coords[j + 1] - coords[j], b))
        m = max(1, int(round(N * dx)))
        double = bool(moveG) and j > 0 and not np.any(coords[j])
        first = corners[j] + double
        if abs(N * dx % 1 - 0.5) > 1e-6:
            ctx.equal('number of points', corners[j + 1] - first, m)
        m = corners[j + 1] - first
        for l in range(m + 1):
            ref = coords[j] + (coords[j + 1] - coords[j]) * l / m
            refx = x[corners[j]] + dx * l / m
            at = first + l
            ctx.close('distance', x[at], refx, rtol=1e-10, atol=1e-10)
            if moveG and not np.any(coords[j]) and l == 0:
                step = (coords[j + 1] - coords[j]) / m
                if m > 1 or np.any(coords[j + 1]):
                    ctx.close('moved Gamma', k[at], moveG * step, rtol=1e-9,
                        atol=1e-13)
            elif moveG and not np.any(coords[j + 1]) and l == m:
                if m > 1 or np.any(coords[j]):
                    step = (coords[j] - coords[j + 1]) / m
                    ctx.close('moved Gamma', k[at], moveG * step, rtol=1e-9,
                        atol=1e-13)
            else:
                ctx.close('on straight line', k[at], ref, rtol=0, atol=1e-12)
    if not moveG:
        ctx.true('no repeated points', len(k) == 1 + sum(np.diff(corners)))
        steps = np.linalg.norm(np.diff(k, axis=0).dot(b), axis=1)
        ctx.close('cumulated distance', np.concatenate([[0], np.cumsum(
            steps)]), x, rtol=1e-9, atol=1e-9)
    ctx.true('monotonic', np.all(np.diff(x) >= -1e-10 * (1
        + abs(x[-1]))))
    if qe:
        card = out[3]
        ctx.true('card', card['ktyp'] == 'crystal_b' and card['nks'] == n)
        ctx.close('card points', card['k_points'][:, :3], k[corners],
            atol=1e-12)
        ctx.close('card weights', card['k_points'][:-1, 3], np.diff(corners),
            atol=0)
        ctx.close('card weights', card['k_points'][-1, 3], 0, atol=0)


# crystal coordinates of labelled points from their standard definition in
# units of the conventional reciprocal cell (fractions of 2 pi/a, 2 pi/b, ...)
SPECIAL = {
    1: dict(M=[0, .5, .5], R=[.5, .5, .5], X=[0, 0, .5]),
    2: dict(X=[0, 1, 0], L=[.5, .5, .5], W=[.5, 1, 0], U=[.25, 1, .25],
        K=[.75, .75, 0]),
    3: dict(H=[1, 0, 0], P=[.5, .5, .5], N=[.5, .5, 0]),
    -3: dict(H=[1, 0, 0], P=[.5, .5, .5], N=[.5, .5, 0]),
    4: HEX,
    6: dict(X=[.5, 0, 0], M=[.5, .5, 0], Z=[0, 0, .5], R=[.5, 0, .5],
        A=[.5, .5, .5]),
    8: dict(X=[.5, 0, 0], Y=[0, .5, 0], Z=[0, 0, .5], S=[.5, .5, 0],
        T=[0, .5, .5], U=[.5, 0, .5], R=[.5, .5, .5]),
    }


def cubic_star(v):
    """All points related by permutations and signs."""
    from itertools import permutations, product
    return {tuple(np.round(np.array(p) * s, 9) + 0.0)
        for p in permutations(v) for s in product((1, -1), repeat=3)}


@check.family(36, 72)
def labels(ctx, i):
    """Coordinates of labelled points in all lattices that have labels."""
    from elphmod import bravais
    ibrav = [1, 2, 3, -3, 4, 6, 7, 8, 9, -9, 12, -12][i % 12]
    rng = ctx.rng
    kw = dict(ibrav=ibrav, a=2.0, b=float(rng.uniform(2.5, 3)), c=float(
        rng.uniform(3.5, 5)), cosab=0.3, cosac=0.2)
    A = bravais.primitives(**kw)
    b = np.linalg.inv(A).T

    def coord(X):
        k, x, corners = bravais.path([X, X], N=1, **kw)
        return k[0] / (2 * np.pi)

    ctx.note(ibrav=ibrav)
    ctx.close('Gamma', coord('G'), np.zeros(3), atol=0)
    names = SPECIAL.get(ibrav) or {7: 'XMZRA', 9: 'YyZTtSR', -9: 'YyZTtSR',
        12: 'BYZDCAE', -12: 'BYZDCAE'}[ibrav]
    for X in names:
        k = coord(X)
        cart = np.dot(k, b)
        if ibrav in (1, 2, 3, -3): # up to cubic operations, lattice vectors
            got = set()
            for m in np.ndindex(3, 3, 3):
                got |= cubic_star(np.dot(k + np.array(m) - 1, b) * 2.0)
            ref = tuple(np.round(np.array(SPECIAL[ibrav][X], float), 9) + 0.0)
            ctx.true('special point', ref in got, '%s %s' % (X, k))
        elif ibrav in SPECIAL:
            ctx.close('special point', k, np.array(SPECIAL[ibrav][X], float),
                atol=1e-9)
        elif ibrav == 7 and X in 'XMZRA':
            # same Cartesian points as in the simple tetragonal lattice
            st = bravais.primitives(ibrav=6, a=2.0, c=kw['c'])
            q = np.array(SPECIAL[6][X]).dot(np.linalg.inv(st).T)
            ctx.close('special point', cart, q, atol=1e-9)
        else: # points of equal name in the lattice of opposite sign agree
            kw2 = dict(kw, ibrav=-ibrav)
            if abs(ibrav) == 12:
                # unique axis c or b: only invariance of the coordinates
                half = np.round(2 * k)
                ctx.close('half reciprocal vector', 2 * k, half, atol=1e-9)
            else:
                b2 = np.linalg.inv(bravais.primitives(**kw2)).T
                k2 = bravais.path([X, X], N=1, **kw2)[0][0] / (2 * np.pi)
                ctx.close('special point', np.dot(k2, b2), cart, atol=1e-9)
    ctx.sig(ibrav, kw)


@check.family(40)
def gmkg(ctx, i):
    """Path G-M-K-G: corners on special points, equidistant, on mesh."""
    from elphmod import bravais
    rng = ctx.rng
    mesh = bool(rng.integers(2))
    N = int(6 * rng.integers(1, 9)) if mesh else int(rng.integers(3, 60))
    angle = int(rng.choice([60, 120]))
    straight = bool(rng.integers(2))
    lift = bool(rng.integers(2))
    ctx.note(N=N, mesh=mesh, angle=angle, straight=straight, lift=lift)
    k, x, corners = bravais.GMKG(N, corner_indices=True, mesh=mesh,
        angle=angle, straight=straight, lift_degen=lift)
    k2, x2 = bravais.GMKG(N, mesh=mesh, angle=angle, straight=straight,
        lift_degen=lift)
    ctx.equal('corner option', np.array_equal(k, k2)
        and np.array_equal(x, x2), True)
    ctx.equal('number of corners', len(corners), 4)
    ctx.true('lengths agree', len(k) == len(x) == corners[-1] + 1
        and corners[0] == 0)
    M = np.array([0, .5])
    K = np.array([1, 1]) / 3 if angle == 60 else np.array([1, 2]) / 3
    k = k / (2 * np.pi)
    G = np.array([[1, .5], [.5, 1]]) if angle == 60 else np.array(
        [[1, -.5], [-.5, 1]])
    norm = lambda d: np.sqrt(np.einsum('...i,ij,...j', d, G, d))
    ctx.close('G', k[0], [0, 0], atol=1e-12)
    ctx.close('M', k[corners[1]], M, atol=1e-9)
    kk = k[corners[2]]
    d = kk - K
    ctx.close('K', d, np.round(d), atol=1e-8)
    if not straight:
        ctx.close('K', kk, K, atol=1e-8)
    ctx.close('end', k[-1], [0, 0], atol=1e-12)
    unit = 2 / np.sqrt(3) # in units of 2 pi / a
    ctx.close('corner distances', x[corners], [0, 1 / np.sqrt(3),
        1 / np.sqrt(3) + 1 / 3, 1 / np.sqrt(3) + 1], atol=1e-9)
    ctx.true('monotonic', np.all(np.diff(x) > 0))
    steps = norm(np.diff(k, axis=0)) * unit
    jump = corners[2] - 1 # end of second segment
    for j, s in enumerate(steps):
        if straight and j == jump:
            continue
        ctx.close('distance', s, x[j + 1] - x[j], rtol=1e-6)
    if mesh:
        ctx.close('on mesh', k * N, np.round(k * N), atol=1e-6)


@check.family(9, 30)
def outline(ctx, i):
    """Brillouin-zone outline: corners equidistant from nearest lattice points"""
    from elphmod import bravais
    angle = ANGLES[i % 3]
    angle0 = float(ctx.rng.choice([0, 30, -45, ctx.rng.uniform(-90, 90)]))
    ctx.note(angle=angle, angle0=angle0)
    pts = bravais.BZ(angle, angle0)
    a = np.array(bravais.translations(angle, angle0))
    b = np.linalg.inv(a).T
    ctx.close('closed', pts[0], pts[-1], atol=1e-12)
    G = np.array([[m, n] for m in range(-2, 3) for n in range(-2, 3)]).dot(b)
    for p in pts:
        d = np.sort(np.linalg.norm(G - p, axis=1))
        m = 4 if angle == 90 else 3
        ctx.close('corner equidistant', d[:m], d[0] * np.ones(m), rtol=1e-9)
        ctx.close('corner belongs to first zone', np.linalg.norm(p), d[0],
            rtol=1e-9)
    ctx.equal('corners', len(pts), 5 if angle == 90 else 7)
    x, y = pts.T
    area = abs(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])) / 2
    ctx.close('area', area, abs(np.linalg.det(b)), rtol=1e-9)
