"""C23: plot data are faithful maps of the mesh data."""

import numpy as np

from vmon.core import Check, Skip

check = Check('C23', 'A case is one image (or set of lines) generated from '
    'random mesh data with random window, resolution, lattice and options; '
    'distinct by data and options; non-trivial for non-constant data.',
    boost=60)

deg = np.pi / 180


def vectors(angle, angle0=0.0):
    """Direct unit vectors with given angle and their duals."""
    a = np.array([[np.cos(angle0 * deg), np.sin(angle0 * deg)],
        [np.cos((angle0 + angle) * deg), np.sin((angle0 + angle) * deg)]])
    return a, np.linalg.inv(a).T


def interpolate(data, x, y, angle):
    """Piecewise (bi)linear interpolation on periodic lattice."""
    n, m = data.shape[:2]
    i, j = int(np.floor(x)), int(np.floor(y))
    s, t = x - i, y - j
    A = data[i % n, j % m]
    B = data[(i + 1) % n, j % m]
    C = data[(i + 1) % n, (j + 1) % m]
    D = data[i % n, (j + 1) % m]
    if angle == 90:
        return ((1 - s) * ((1 - t) * A + t * D) + s * ((1 - t) * B + t * C))
    if angle == 60: # shortest diagonal from B to D
        if s + t < 1:
            return A + s * (B - A) + t * (D - A)
        return C + (1 - s) * (D - C) + (1 - t) * (B - C)
    if s > t: # shortest diagonal from A to C
        return A + s * (B - A) + t * (C - B)
    return A + t * (D - A) + s * (C - D)


def draw(rng, *shape):
    if rng.integers(3):
        return rng.normal(size=shape)
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def window(rng):
    x = rng.uniform(-2, 1, 2)
    w = rng.uniform(0.3, 1.6, 2)
    return x[0], x[0] + w[0], x[1], x[1] + w[1]


def pixels(lo, hi, n):
    return lo + (np.arange(n) + 0.5) * (hi - lo) / n


@check.family(40, 800)
def image_of_mesh(ctx, i):
    import elphmod
    rng = ctx.rng
    nk = int(rng.integers(1, 9))
    angle = int(rng.choice([60, 90, 120]))
    mesh = draw(rng, nk, nk)
    xmin, xmax, ymin, ymax = window(rng)
    res = float(rng.uniform(5, 14))
    kw = {} if angle == 60 and rng.integers(2) else dict(angle=angle)
    ctx.note(nk=nk, angle=angle, res=res)
    ctx.sig(mesh, xmin, ymin)

    kx, ky, image = elphmod.plot.plot(mesh, xmin, xmax, ymin, ymax,
        resolution=res, return_k=True, **kw)

    nx = int(round(res * (xmax - xmin)))
    ny = int(round(res * (ymax - ymin)))
    ctx.equal('shape', image.shape, (ny, nx))
    ctx.close('kx', kx, pixels(xmin, xmax, nx), 1e-12)
    ctx.close('ky', ky, pixels(ymin, ymax, ny)[::-1], 1e-12)
    # reciprocal axes in positive direction have given angle:
    a, b = vectors(180 - angle)
    k = np.array([[a.dot([x, y]) for x in kx] for y in ky])
    ref = np.array([[interpolate(mesh, *(p * nk), angle) for p in row]
        for row in k])
    ctx.close('interpolated', image, ref, 1e-9, scale=abs(mesh).max())
    ctx.seen('nontrivial', nk > 1)

    if rng.integers(2):
        G = rng.integers(-2, 3, 2).dot(b)
        shifted = elphmod.plot.plot(mesh, xmin + G[0], xmax + G[0],
            ymin + G[1], ymax + G[1], resolution=nx / (xmax - xmin)
            if abs(ny - nx / (xmax - xmin) * (ymax - ymin)) < 0.4 else res,
            **kw)
        if shifted.shape == image.shape:
            ctx.close('lattice-translation', shifted, image, 1e-8,
                scale=abs(mesh).max())
    only = elphmod.plot.plot(mesh, xmin, xmax, ymin, ymax, resolution=res,
        broadcast=False, **kw)
    ctx.equal('broadcast', only, image)


@check.family(10, 200)
def image_of_band_limited_function(ctx, i):
    """Fourier interpolation and mesh values."""
    import elphmod
    rng = ctx.rng
    nk = int(rng.integers(5, 10))
    angle = int(rng.choice([60, 90, 120]))
    R = rng.integers(-1, 2, (4, 2))
    t = rng.normal(size=4)

    def f(k1, k2):
        return sum(c * np.cos(2 * np.pi * (r[0] * k1 + r[1] * k2))
            for c, r in zip(t, R))

    k = np.arange(nk) / nk
    mesh = f(*np.meshgrid(k, k, indexing='ij'))
    xmin, xmax, ymin, ymax = window(rng)
    ctx.sig(t, xmin)
    kx, ky, image = elphmod.plot.plot(mesh, xmin, xmax, ymin, ymax,
        resolution=5, angle=angle, return_k=True,
        interpolation=elphmod.bravais.Fourier_interpolation)
    a, _ = vectors(180 - angle)
    X, Y = np.meshgrid(kx, ky)
    ref = f(X * a[0, 0] + Y * a[0, 1], X * a[1, 0] + Y * a[1, 1])
    ctx.close('function', image, ref, 1e-9, scale=abs(t).sum())


@check.family(30, 600)
def image_of_zone(ctx, i):
    import elphmod
    rng = ctx.rng
    nk = int(rng.integers(1, 9))
    angle = int(rng.choice([60, 90, 120]))
    angle0 = float(rng.choice([0, 30, -15, 90])
        if rng.integers(2) else rng.uniform(-180, 180))
    n = int(rng.choice([1, 2, 3, 4, 6, 12]))
    single = n == 1 and bool(rng.integers(2))
    data = draw(rng, nk, nk) if single else draw(rng, n, nk, nk)
    outside = float(rng.normal()) if rng.integers(2) else np.nan
    points = float(rng.uniform(8, 26))
    even = bool(rng.integers(2))
    ctx.note(nk=nk, angle=angle, angle0=angle0, ndata=n, points=points,
        even=even)
    ctx.sig(data, angle0, points)
    kw = dict(points=points, angle=angle, angle0=angle0, even=even)

    kxmax, kymax, kx, ky, image = elphmod.plot.toBZ(data, outside=outside,
        return_k=True, **kw)
    grid = elphmod.plot.toBZ(return_only_k=True, **kw)
    for name, x, y in zip(('kxmax', 'kymax', 'kx', 'ky'), grid,
            (kxmax, kymax, kx, ky)):
        ctx.equal('only-' + name, x, y)
    plain = elphmod.plot.toBZ(data, outside=outside, broadcast=False, **kw)
    ctx.true('same-image', np.array_equal(plain, image, equal_nan=True),
        'return_k or broadcast changes image')

    a, b = vectors(angle, angle0)
    G = np.array([i.dot(b) for i in np.array([[x, y]
        for x in range(-2, 3) for y in range(-2, 3) if (x, y) != (0, 0)])])

    # corners of first Brillouin zone:
    corners = []
    for p in range(len(G)):
        for q in range(p):
            A = np.array([G[p], G[q]])
            if abs(np.linalg.det(A)) < 1e-9:
                continue
            c = np.linalg.solve(A, (A ** 2).sum(1) / 2)
            if np.all(G.dot(c) <= (G ** 2).sum(1) / 2 + 1e-9):
                corners.append(c)
    corners = np.array(corners)
    ctx.close('kxmax', kxmax, abs(corners[:, 0]).max(), 1e-10)
    ctx.close('kymax', kymax, abs(corners[:, 1]).max(), 1e-10)
    nx = int(round(points * kxmax))
    ny = int(round(points * kymax))
    if even:
        nx += nx % 2
        ny += ny % 2
    if min(abs(points * kxmax % 1 - 0.5), abs(points * kymax % 1 - 0.5)) < 1e-9:
        raise Skip
    ctx.equal('shape', image.shape, (ny, nx))
    ctx.close('kx', kx, pixels(-kxmax, kxmax, nx), 1e-10)
    ctx.close('ky', ky, pixels(-kymax, kymax, ny)[::-1], 1e-10)

    data = data.reshape((n, nk, nk))
    ctx.equal('complex', np.iscomplexobj(image), np.iscomplexobj(data))
    inside = 0
    for Y, row in zip(ky, image):
        for X, value in zip(kx, row):
            k = np.array([X, Y])
            margin = ((G ** 2).sum(1) / 2 - G.dot(k)).min()
            if abs(margin) < 1e-9:
                continue
            if margin < 0:
                ctx.true('outside', value == outside
                    or np.isnan(outside) and np.isnan(value),
                    'k=(%g, %g) is outside but not filled' % (X, Y))
                continue
            inside += 1
            sector = ((np.arctan2(Y, X) - angle0 * deg) / (2 * np.pi)
                % 1) * n
            if n > 1 and abs(sector - round(sector)) < 1e-9:
                continue
            d = data[int(sector) % n]
            # documented function is used with its default lattice angle:
            got = [interpolate(d, *(a.dot(k) * nk), x)
                for x in {60, 180 - angle}]
            err = min(abs(g - value) for g in got)
            ctx.true('inside', err <= 1e-9 * abs(data).max(),
                'value %r at k=(%g, %g), expected %r' % (value, X, Y, got))
    ctx.seen('inside', bool(inside))


@check.family(16, 320)
def zone_of_zones(ctx, i):
    import elphmod
    rng = ctx.rng
    nk = int(rng.integers(1, 7))
    nq = int(rng.integers(1, 6))
    angle = int(rng.choice([60, 90, 120]))
    every = [(x, y) for x in range(-nq, nq + 1) for y in range(-nq, nq + 1)]
    nQ = int(rng.integers(1, len(every) + 1))
    q = np.array([every[j] for j in rng.permutation(len(every))[:nQ]])
    mesh = draw(rng, nQ, nk, nk)
    res = float(rng.uniform(8, 18))
    xmin, xmax, ymin, ymax = window(rng) if rng.integers(2) \
        else (-0.8, 0.8, -0.8, 0.8)
    outside = float(rng.normal())
    ctx.note(nk=nk, nq=nq, angle=angle, nQ=nQ)
    ctx.sig(mesh, q)
    noise = rng.uniform(-1e-6, 1e-6, q.shape)

    image, lines = elphmod.plot.double_plot(mesh,
        2 * np.pi * q / nq + noise, nq,
        qxmin=xmin, qxmax=xmax, qymin=ymin, qymax=ymax, resolution=res,
        angle=angle, outside=outside, outlines=True)

    nx = int(round(res * (xmax - xmin)))
    ny = int(round(res * (ymax - ymin)))
    ctx.equal('shape', image.shape, (ny, nx))
    kx = pixels(xmin, xmax, nx)
    ky = pixels(ymin, ymax, ny)[::-1]
    a, b = vectors(180 - angle)
    lookup = {tuple(x): d for x, d in zip(q, mesh)}
    hits = 0
    cloud = np.array([[x, y] for x in range(-2, 3) for y in range(-2, 3)])
    for Y, row in zip(ky, image):
        for X, value in zip(kx, row):
            k = a.dot([X, Y]) * nq
            near = np.floor(k + 0.5).astype(int) + cloud
            d = (((near - k).dot(b)) ** 2).sum(1)
            order = np.argsort(d)
            if d[order[1]] - d[order[0]] < 1e-9:
                continue
            Q = tuple(near[order[0]].tolist())
            if Q in lookup:
                hits += 1
                ctx.close('inside', value,
                    interpolate(lookup[Q], *(k * nk), angle), 1e-8,
                    scale=abs(mesh).max())
            else:
                ctx.equal('outside', value, outside)
    ctx.seen('inside', bool(hits))

    ctx.equal('outlines', len(lines), nQ)
    for Q, line in zip(q, lines):
        ctx.equal('closed', line[0], line[-1])
        ctx.equal('corners', len(line) - 1, 4 if angle == 90 else 6)
        for p in line:
            k = a.dot(p) * nq
            near = np.floor(k + 0.5).astype(int) + cloud
            d = np.sqrt((((near - k).dot(b)) ** 2).sum(1))
            own = np.linalg.norm((Q - k).dot(b))
            ctx.close('corner', own, d.min(), 1e-9)
            ctx.true('corner-neighbors', (d < own + 1e-9).sum()
                == (4 if angle == 90 else 3), 'not a corner')
        ctx.true('distinct-corners', len({tuple(np.round(p, 9))
            for p in line}) == len(line) - 1, 'repeated corner')


@check.family(16, 320)
def color_bar(ctx, i):
    import elphmod
    rng = ctx.rng
    ny, nx = map(int, rng.integers(20, 60, 2))
    image = rng.normal(size=(ny, nx))
    if rng.integers(2):
        image[rng.integers(ny), rng.integers(nx)] = np.nan
    before = image.copy()
    left, bottom = rng.uniform(0, 0.5, 2)
    if rng.integers(4) == 0:
        bottom = 0.0
    width, height = rng.uniform(0.02, 0.4), rng.uniform(0.2, 0.45)
    kw = {}
    if rng.integers(2):
        kw['minimum'] = float(rng.normal() - 3)
    if rng.integers(2):
        kw['maximum'] = float(rng.normal() + 3)
    ctx.note(shape=(ny, nx), left=left, bottom=bottom, width=width,
        height=height, **kw)
    ctx.sig(before)
    elphmod.plot.colorbar(image, left, bottom, width, height, **kw)
    lo = kw.get('minimum', np.nanmin(before))
    hi = kw.get('maximum', np.nanmax(before))
    changed = ~((image == before) | (np.isnan(image) & np.isnan(before)))
    y, x = np.nonzero(changed)
    if not len(y):
        raise Skip
    ctx.true('location', abs(x.min() - left * nx) <= 1
        and abs(x.max() - (left + width) * nx) <= 1
        and abs(y.max() - (1 - bottom) * ny) <= 1
        and abs(y.min() - (1 - bottom - height) * ny) <= 1,
        'bar covers %d..%d, %d..%d' % (x.min(), x.max(), y.min(), y.max()))
    bar = image[y.min():y.max() + 1, x.min():x.max() + 1]
    ctx.close('linear-scale', bar, np.repeat(np.linspace(hi, lo,
        len(bar))[:, None], bar.shape[1], axis=1), 1e-10, scale=hi - lo)


@check.family(16, 320)
def tiles(ctx, i):
    import elphmod
    rng = ctx.rng
    n = int(rng.integers(1, 13))
    ny, nx = map(int, rng.integers(1, 5, 2))
    deep = (3,) if rng.integers(2) else ()
    images = [rng.normal(size=(ny, nx, *deep)) for _ in range(n)]
    columns = int(rng.integers(1, n + 3)) if rng.integers(2) else None
    ctx.note(n=n, columns=columns, shape=images[0].shape)
    ctx.sig(images[0], n, columns)
    image = elphmod.plot.arrange(images, columns)
    rows, cols = image.shape[0] // ny, image.shape[1] // nx
    ctx.equal('shape', image.shape, (rows * ny, cols * nx, *deep))
    ctx.equal('number', rows * cols, n)
    if columns is not None:
        ctx.true('columns', cols == columns or n % columns or columns > n,
            '%d columns instead of %d' % (cols, columns))
        ctx.true('at-least', cols >= min(columns, n), 'fewer columns')
    for j in range(n):
        r, c = divmod(j, cols)
        ctx.equal('tile', image[r * ny:(r + 1) * ny, c * nx:(c + 1) * nx],
            images[j])


@check.family(16, 320)
def rectified(ctx, i):
    import elphmod
    rng = ctx.rng
    ny, nx = map(int, rng.integers(2, 9, 2))
    image = rng.normal(size=(ny, nx))
    angle = int(rng.choice([60, 90, 120]))
    lt, rt, lb, rb = rng.uniform(0, 1, (4, 2))
    if rng.integers(3) == 0:
        # original coordinates; row 0 is the top:
        lt, rt, lb, rb = (0, 1), (1, 1), (0, 0), (1, 0)
    width, height = rng.uniform(0.5, 2, 2)
    ctx.note(shape=(ny, nx), corners=[lt, rt, lb, rb], angle=angle)
    ctx.sig(image, width)
    got = elphmod.plot.rectify(image, width, height, lt, rt, lb, rb,
        angle=angle)
    mx, my = int(round(nx * width)), int(round(ny * height))
    ctx.equal('shape', got.shape, (my, mx))
    size = np.array([nx, ny])
    lt, rt, lb, rb = (np.array(p) * size for p in (lt, rt, lb, rb))
    for r in range(my):
        for c in range(mx):
            u, v = c / mx, r / my
            x, y = ((1 - u) * (1 - v) * lt + u * (1 - v) * rt
                + (1 - u) * v * lb + u * v * rb)
            if min(abs(z - round(z)) for z in (x, y)) < 1e-9:
                x, y = round(x, 9), round(y, 9)
            ctx.close('pixel', got[r, c], interpolate(image, ny - y, x,
                angle), 1e-7, scale=abs(image).max())
    same = elphmod.plot.rectify(image, 1, 1, (0, 1), (1, 1), (0, 0), (1, 0),
        angle=angle)
    ctx.close('identity', same, image, 1e-9, scale=1.0)


class Map:
    """Color map as in StoryLines: positions and function."""

    def __init__(self, x):
        self.x = x
        self.scale = 7.0

    def __call__(self, value):
        x = [y for y in self.x]
        c = self.scale * np.array([value, value ** 2,
            np.interp(value, x, np.arange(len(x)))])

        class Color:
            def RGB(self):
                return c
        return Color()


@check.family(16, 320)
def colored(ctx, i):
    import elphmod
    rng = ctx.rng
    shape = tuple(map(int, rng.integers(1, 7, int(rng.integers(1, 4)))))
    data = rng.normal(size=shape) * 10 ** rng.uniform(-3, 3)
    sign = int(rng.integers(3)) - 1
    if sign: # range starts or ends at zero
        data = sign * abs(data)
    if data.size < 2:
        raise Skip
    kw = {}
    lo, hi = data.min(), data.max()
    if rng.integers(2):
        lo = kw['minimum'] = lo + rng.uniform(-0.5, 0.4) * (hi - lo)
    if rng.integers(2):
        hi = kw['maximum'] = hi + rng.uniform(-0.4, 0.5) * (hi - lo)
    if sign and rng.integers(2):
        if sign > 0:
            lo = kw['minimum'] = 0.0 if rng.integers(2) else 0
        else:
            hi = kw['maximum'] = 0.0 if rng.integers(2) else 0
    mid = lo + rng.uniform(0.1, 0.9) * (hi - lo)
    text = bool(rng.integers(2))
    cmap = Map([0, repr(float(mid)) if text else (mid - lo) / (hi - lo), 1])
    positions = list(cmap.x)
    ctx.note(shape=shape, **kw)
    ctx.sig(data)
    before = data.copy()
    image = elphmod.plot.color(data, cmap, **kw)
    ctx.equal('unchanged-data', data, before)
    ctx.equal('unchanged-colormap', repr(cmap.x), repr(positions))
    x = np.clip((data - lo) / (hi - lo), 0, 1)
    ref = 7 * np.stack([x, x ** 2,
        np.interp(x, [0, (mid - lo) / (hi - lo), 1], [0, 1, 2])], axis=-1)
    ctx.close('colors', image, ref, 1e-9, scale=14.0)


@check.family(24, 480)
def pixel_columns(ctx, i):
    import elphmod
    rng = ctx.rng
    blocks = int(rng.integers(1, 5))
    points = np.cumsum([0, *rng.integers(1, 6, blocks)])
    x = np.cumsum([0, *rng.uniform(0.2, 1.5, blocks)])
    offset = rng.uniform(-3, 3) if rng.integers(2) else 0.0
    ny = int(rng.integers(2, 7))
    width = int(rng.integers(4 * blocks + 2, 60))
    deep = (3,) if rng.integers(2) else ()
    image = rng.normal(size=(ny, points[-1] + 1, *deep))
    height = int(rng.integers(2, 12)) if rng.integers(2) else None
    ctx.note(points=points.tolist(), x=x.tolist(), width=width,
        height=height)
    ctx.sig(image, width)
    new = np.round(x / x[-1] * (width - 1)).astype(int)
    if min(abs(x / x[-1] * (width - 1) % 1 - 0.5)) < 1e-9:
        raise Skip
    if min(np.diff(new)) < 1:
        raise Skip
    got = elphmod.plot.adjust_pixels(image, points.tolist(),
        (x + offset).tolist(), width, height)
    h = ny if height is None else height
    ctx.equal('shape', got.shape, (h, width, *deep))
    where = np.interp(np.arange(width), new, points)
    rows = np.linspace(0, ny - 1, h)
    for r in range(h):
        for c in range(width):
            i0, j0 = min(int(rows[r]), ny - 2), min(int(where[c]),
                points[-1] - 1)
            s, t = rows[r] - i0, where[c] - j0
            ref = ((1 - s) * ((1 - t) * image[i0, j0]
                + t * image[i0, j0 + 1]) + s * ((1 - t) * image[i0 + 1, j0]
                + t * image[i0 + 1, j0 + 1]))
            ctx.close('pixel', got[r, c], ref, 1e-9, scale=abs(image).max())


@check.family(24, 480)
def composition_lines(ctx, i):
    import elphmod
    rng = ctx.rng
    nx = int(rng.integers(2, 9))
    shape = tuple(map(int, rng.integers(1, 4, int(rng.integers(0, 3)))))
    x = np.sort(rng.uniform(0, 5, nx))
    y = rng.normal(size=nx)
    w = rng.uniform(0, 1, (nx, *shape))
    center = bool(rng.integers(4))
    ctx.note(nx=nx, shape=shape, center=center)
    ctx.sig(w, y)
    before = x.copy(), y.copy(), w.copy()
    XY = elphmod.plot.compline(x, y, w, center) if not center \
        else elphmod.plot.compline(x, y, w)
    for name, p, q in zip(('x', 'y', 'composition'), (x, y, w), before):
        ctx.equal('unchanged-' + name, p, q)
    flat = w.reshape((nx, -1))
    nc = flat.shape[1]
    ctx.equal('shape', XY.shape, (nc, 2, 2 * nx + 1))
    base = y - flat.sum(1) / 2 if center else np.zeros(nx)
    for c in range(nc):
        ctx.equal('closed', XY[c, :, 0], XY[c, :, -1])
        lower = base + flat[:, :c].sum(1)
        upper = lower + flat[:, c]
        # polygon runs through all points on lower and upper boundary:
        want = sorted([*zip(x, lower), *zip(x, upper)])
        P = XY[c, :, :-1].T
        ctx.close('points', np.array(sorted(map(tuple, P))),
            np.array(want), 1e-9, scale=5.0) if np.min(np.diff(x)) > 1e-6 \
            and flat[:, c].min() > 1e-6 else None
        # enclosed area is integrated width:
        X, Y = XY[c]
        area = abs(np.sum(X[:-1] * Y[1:] - X[1:] * Y[:-1])) / 2
        ctx.close('area', area, np.trapezoid(flat[:, c], x), 1e-9,
            scale=5.0)
    # consecutive lines can be joined:
    for c in range(nc - 1):
        ctx.close('joined', XY[c, 0, -1], XY[c + 1, 0, 0], 1e-12, scale=5.0)
