"""C21: superconductivity estimates follow the published formulas."""

import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m
from vmon.checks import c20

check = Check('C21', 'A case is one random set of bands, frequencies, and '
    'couplings (or of averages entering the formula for the critical '
    'temperature); distinct by content; non-trivial if the critical '
    'temperature is not zero.', boost=250)

KB = 8.617333262e-5


def formula(l, w, mu, w2=None, correct=False):
    """Equations (2) and (34) of Allen and Dynes."""
    d = l - mu * (1 + 0.62 * l)
    if d < 1e-3:
        return 0.0
    T = w / (1.2 * KB) * np.exp(-1.04 * (1 + l) / d)
    if correct:
        T *= (1 + (l / (2.46 * (1 + 3.8 * mu))) ** 1.5) ** (1 / 3)
        if w2 is not None:
            L = 1.82 * (1 + 6.3 * mu) * w2 / w
            T *= 1 + (w2 / w - 1) * l ** 2 / (l ** 2 + L ** 2)
    return T


@check.family(12)
def temperature(ctx, i):
    """Critical temperature as a function of averages."""
    import elphmod
    rng = ctx.rng
    Tc = elphmod.eliashberg.Tc
    for _ in range(10):
        l = float(rng.choice([10.0 ** rng.uniform(-3, 1), rng.uniform(0, 3)]))
        w = 10.0 ** rng.uniform(-4, -0.5)
        mu = float(rng.choice([0.0, 0.1, rng.uniform(0, 0.3)]))
        w2 = w * rng.uniform(1, 2)
        ctx.close('McMillan', Tc(l, w, mu), formula(l, w, mu), 2e-6, 1e-12)
        ctx.close('strong coupling', Tc(l, w, mu, correct=True), formula(l, w,
            mu, None, True), 2e-6, 1e-12)
        ctx.close('strong coupling and shape', Tc(l, w, mu, w2, correct=True),
            formula(l, w, mu, w2, True), 2e-6, 1e-12)
        ctx.close('no correction', Tc(l, w, mu, w2), Tc(l, w, mu), 1e-15)
        ctx.close('default', Tc(l, w), formula(l, w, 0.1), 2e-6, 1e-12)
        ctx.true('corrections increase temperature', Tc(l, w, mu)
            <= Tc(l, w, mu, correct=True) * (1 + 1e-12)
            <= Tc(l, w, mu, w2, correct=True) * (1 + 1e-11))
        s = rng.uniform(0.1, 10)
        for corr in False, True:
            ctx.close('proportional to frequency', Tc(l, s * w, mu, s * w2,
                corr), s * Tc(l, w, mu, w2, corr), 1e-12, 1e-200)
            up = l * rng.uniform(1, 2)
            ctx.true('monotonic in coupling', Tc(up, w, mu, w2, corr)
                >= Tc(l, w, mu, w2, corr) * (1 - 1e-12))
            ctx.true('Coulomb repulsion', Tc(l, w, mu + rng.uniform(0, 0.2),
                w2, corr) <= Tc(l, w, mu, w2, corr) * (1 + 0.5 * corr))
        ctx.true('nonnegative', Tc(l, w, mu) >= 0)


def images(q1, q2, nq):
    """Equivalent points of triangular lattice (60 degrees)."""
    out = set()
    for _ in range(6):
        q1, q2 = -q2, q1 + q2
        out |= {(q1 % nq, q2 % nq), (q2 % nq, q1 % nq)}
    return out


def irreducible(nq):
    done = set()
    out = []
    for q in itertools.product(range(nq), repeat=2):
        if q not in done:
            star = images(*q, nq)
            done |= star
            out.append((q, len(star)))
    return out


def crossing(x, y):
    """Exact double-delta integrals on triangles: positions and weights."""
    N = len(x)
    out = []
    sx, sy = np.ptp(x), np.ptp(y)
    for t in c20.triangles(N):
        X = np.array([x[r % N, s % N] for r, s in t])
        Y = np.array([y[r % N, s % N] for r, s in t])
        A = np.array([X[1:] - X[0], Y[1:] - Y[0]])
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        if abs(det) < 1e-9 * sx * sy:
            if X.min() * X.max() <= 0 and Y.min() * Y.max() <= 0:
                raise Skip('nearly parallel contours')
            continue
        c = np.linalg.solve(A, [-X[0], -Y[0]])
        c = np.array([1 - c.sum(), *c])
        if abs(c).min() < 1e-6:
            if c.min() > -1e-5:
                raise Skip('intersection at boundary of triangle')
            continue
        if c.min() > 0:
            out.append((t, c, 1 / (abs(det) * N ** 2)))
    return out


def draw(rng, symmetric=False):
    nq = int(rng.integers(1, 5))
    nk = nq * int(rng.integers(1, 3)) if nq > 1 else int(rng.integers(2, 6))
    nk = max(nk, 2)
    nel, nph = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    k = np.arange(nk) * 2 * np.pi / nk
    a, b = np.meshgrid(k, k, indexing='ij')
    e = np.empty((nk, nk, nel))
    for n in range(nel):
        if symmetric:
            e[..., n] = np.cos(a) + np.cos(b) + np.cos(a + b) \
                + rng.normal() * (np.cos(a - b) + np.cos(2 * a + b)
                + np.cos(a + 2 * b)) + rng.uniform(-1, 1)
        else:
            e[..., n] = rng.normal(size=(nk, nk)) + rng.normal()
    q = irreducible(nq)
    nQ = len(q)
    w2 = rng.uniform(1e-4, 1e-2, (nQ, nph))
    if rng.integers(2):
        w2[rng.integers(nQ), rng.integers(nph)] *= -1
    if rng.integers(2):
        w2[0, 0] = 0.0
    g2 = rng.uniform(0, 1e-3, (nQ, nph, nk, nk, nel, nel))
    return nq, nk, nel, nph, e, q, w2, g2


def averages(N0, weights, g2dd, dd, w2, eps):
    """Coupling strength and average frequencies."""
    V = np.array([[w * g / x if x >= eps else 0.0 for g, x in zip(G, X)]
        for w, G, X in zip(weights, g2dd, w2)])
    W = np.maximum(w2, eps)
    if V.sum() <= 0:
        raise Skip('no coupling')
    lamda = N0 * V.sum() / np.dot(weights, dd)
    wlog = np.exp((V * np.log(np.sqrt(W))).sum() / V.sum())
    w2nd = np.sqrt((V * W).sum() / V.sum())
    return lamda, wlog, w2nd


def compare(ctx, got, lamda, wlog, w2nd, mustar, correct, tol, positive=True):
    ctx.equal('number of results', len(got), 4 if correct else 3)
    ctx.close('effective coupling', got[0], lamda, tol)
    ctx.close('average frequency', got[1], wlog, tol)
    ref = formula(lamda, wlog, mustar, w2nd, correct)
    ctx.close('critical temperature', got[2], ref, max(1e-5, 1e3 * tol),
        1e-12)
    if correct:
        ctx.close('second-moment frequency', got[3], w2nd, tol)
        if positive:
            ctx.true('order of averages', got[1] <= got[3] * (1 + 1e-12))


def options(rng):
    out = {}
    if rng.integers(2):
        out['mustar'] = float(rng.uniform(0, 0.2))
    if rng.integers(2):
        out['correct'] = True
    if rng.integers(3) == 0:
        out['eps'] = float(rng.uniform(1e-4, 1e-2))
    return out


@check.family(8)
def broadened(ctx, i):
    """Averages with broadened delta functions."""
    import elphmod
    rng = ctx.rng
    nq, nk, nel, nph, e, q, w2, g2 = draw(rng)
    kT = rng.uniform(0.1, 1.0)
    name = str(rng.choice(['fd', 'gauss', 'mp', 'mv', 'lorentz']))
    opt = options(rng)
    # (Skip draws in which effective densities are nearly zero or negative.)
    x = e / kT
    d = elphmod.occupations.smearing(name).delta(x) / kT
    ctx.note(nq=nq, nk=nk, nel=nel, nph=nph, kT=kT, f=name, options=opt)
    N0 = d.sum() / nk ** 2
    dd = np.zeros(len(q))
    g2dd = np.zeros((len(q), nph))
    for iq, ((q1, q2), _) in enumerate(q):
        for k1, k2 in itertools.product(range(nk), repeat=2):
            K = (k1 + q1 * nk // nq) % nk, (k2 + q2 * nk // nq) % nk
            for n in range(nel):
                for l in range(nel):
                    w = d[k1, k2, n] * d[K[0], K[1], l]
                    dd[iq] += w
                    g2dd[iq] += w * g2[iq, :, k1, k2, l, n]
    weights = np.array([w for _, w in q], dtype=float)
    ctx.equal('weights', int(weights.sum()), nq ** 2)
    if nk % nq:
        raise Skip('meshes do not match')
    if np.dot(weights, dd) < 1e-3 * abs(d).sum() ** 2 or N0 < 1e-3:
        raise Skip('hardly any density')
    if g2dd.min() < 0: # possible for Methfessel-Paxton and cold smearing
        raise Skip('negative averages')
    lamda, wlog, w2nd = averages(N0, weights, g2dd, dd, w2,
        opt.get('eps', 1e-10))
    before = fingerprint((e, w2, g2))
    fun = name if rng.integers(2) else elphmod.occupations.smearing(name)
    got = elphmod.eliashberg.McMillan(nq, e, w2, g2, kT=kT, f=fun, **opt)
    ctx.equal('arguments unchanged', fingerprint((e, w2, g2)), before)
    compare(ctx, got, lamda, wlog, w2nd, opt.get('mustar', 0.0),
        opt.get('correct', False), 1e-10, d.min() >= 0)
    # scaling:
    s = rng.uniform(0.5, 2)
    more = elphmod.eliashberg.McMillan(nq, e, w2, s * g2, kT=kT, f=fun, **opt)
    ctx.close('proportional to coupling', more[0], s * got[0], 1e-11)
    ctx.close('frequency independent of coupling', more[1], got[1], 1e-11)
    opt['eps'] = s * opt.get('eps', 1e-10)
    more = elphmod.eliashberg.McMillan(nq, e, s * w2, g2, kT=kT, f=fun, **opt)
    if (abs(w2 - opt['eps'] / s) > 1e-12).all():
        ctx.close('scaled frequencies', more[1], np.sqrt(s) * got[1], 1e-11)
        ctx.close('scaled frequencies', more[0], got[0] / s, 1e-11)


@check.family(6)
def tetrahedra(ctx, i):
    """Averages with exact delta functions."""
    import elphmod
    rng = ctx.rng
    nq, nk, nel, nph, e, q, w2, g2 = draw(rng)
    opt = options(rng)
    if nk % nq:
        raise Skip('meshes do not match')
    # self-intersections (q = 0, m = n) are no isolated points
    ctx.note(nq=nq, nk=nk, nel=nel, nph=nph, options=opt)
    dd = np.zeros(len(q))
    g2dd = np.zeros((len(q), nph))
    for iq, ((q1, q2), _) in enumerate(q):
        E = np.roll(e, (-q1 * (nk // nq), -q2 * (nk // nq)), (0, 1))
        for n in range(nel):
            for l in range(nel):
                if not (q1 or q2) and n == l:
                    continue
                for t, c, w in crossing(e[..., n], E[..., l]):
                    dd[iq] += w
                    g2dd[iq] += w * sum(x * g2[iq, :, r % nk, s % nk, l, n]
                        for x, (r, s) in zip(c, t))
    N0 = sum(c20.exact(e[..., n], e[..., n], 0.0)[0][0] for n in range(nel))
    weights = np.array([w for _, w in q], dtype=float)
    if dd.sum() <= 0 or N0 < 1e-6 or abs(e).min() < 1e-6:
        raise Skip('no Fermi surface')
    lamda, wlog, w2nd = averages(N0, weights, g2dd, dd, w2,
        opt.get('eps', 1e-10))
    before = fingerprint((e, w2, g2))
    got = elphmod.eliashberg.McMillan(nq, e, w2, g2, tetra=True, **opt)
    ctx.equal('arguments unchanged', fingerprint((e, w2, g2)), before)
    compare(ctx, got, lamda, wlog, w2nd, opt.get('mustar', 0.0),
        opt.get('correct', False), 1e-6)


@check.family(6)
def symmetric(ctx, i):
    """Irreducible wedge and complete mesh."""
    import elphmod
    rng = ctx.rng
    nq, nk, nel, nph, e, q, w2, g2 = draw(rng, symmetric=True)
    if nk % nq:
        raise Skip('meshes do not match')
    kT = rng.uniform(0.2, 1.0)
    # momentum-independent coupling with arbitrary frequencies:
    g2[:] = g2.mean(axis=(2, 3), keepdims=True)
    w2 = abs(w2) + 1e-5
    if rng.integers(2):
        g2 = g2 * 0 + g2[0]
    ctx.note(nq=nq, nk=nk, nel=nel, nph=nph, kT=kT)
    d = elphmod.occupations.fermi_dirac.delta(e / kT) / kT
    V = []
    deno = 0.0
    for iq, (x, _) in enumerate(q):
        for q1, q2 in images(*x, nq):
            D = np.roll(d, (-q1 * (nk // nq), -q2 * (nk // nq)), (0, 1))
            for s in range(nph):
                V.append((np.einsum('abn,abm,abmn->', d, D, g2[iq, s])
                    / w2[iq, s], w2[iq, s]))
            deno += np.einsum('abn,abm->', d, D)
    V = np.array(V)
    lamda = V[:, 0].sum() / deno * d.sum() / nk ** 2
    wlog = np.exp(0.5 * np.dot(V[:, 0], np.log(V[:, 1])) / V[:, 0].sum())
    got = elphmod.eliashberg.McMillan(nq, e, w2, g2, kT=kT)
    ctx.close('effective coupling', got[0], lamda, 1e-10)
    ctx.close('average frequency', got[1], wlog, 1e-10)
    ctx.close('critical temperature', got[2], formula(lamda, wlog, 0.0), 1e-5)
    # same for each equivalent choice of band order:
    order = rng.permutation(nel)
    other = elphmod.eliashberg.McMillan(nq, e[..., order], w2,
        g2[..., order, :][..., order], kT=kT)
    ctx.close('order of bands', other[0], got[0], 1e-11)
    order = rng.permutation(nph)
    other = elphmod.eliashberg.McMillan(nq, e, w2[:, order], g2[:, order],
        kT=kT)
    ctx.close('order of modes', other[1], got[1], 1e-11)
