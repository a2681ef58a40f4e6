"""C04: Fermi level."""

import numpy as np
from scipy import special

from vmon.core import Check

check = Check('C04', 'A case is one drawn spectrum (mesh dimension, bands, '
    'metallic / gapped / degenerate / flat), filling, temperature, smearing '
    'and starting guess; distinct by these values; non-trivial because the '
    'electron count is recomputed independently from the returned level.',
    boost=4)

SCHEMES = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton',
    'lorentz']


def count(name, x):
    """Independent occupations."""
    from vmon.checks.c03 import reference
    return reference(name, x, order=1)[0]


def spectrum(rng):
    nb = int(rng.integers(1, 7))
    nk = tuple(rng.integers(1, 7, rng.integers(0, 4)))
    kind = rng.choice(['random', 'gapped', 'degenerate', 'flat', 'cosine'])
    width = 10 ** rng.uniform(-1, 1.5)
    e = rng.normal(size=(*nk, nb)) * width
    if kind == 'gapped':
        e = e * 0.1 + np.arange(nb) * width * 2
    elif kind == 'degenerate':
        e = np.round(e / width * 2) * width / 2
    elif kind == 'flat':
        e = np.zeros((*nk, nb)) + np.arange(nb) // 2 * width
    elif kind == 'cosine' and nk:
        k = 2 * np.pi * np.arange(nk[0]) / nk[0]
        e = -width * np.cos(k).reshape((-1,) + (1,) * len(nk)) + 0 * e
    e = e + rng.choice([0.0, rng.normal() * 10])
    if rng.random() < 0.8:
        e = np.sort(e, axis=-1)
    return kind, e


def filling(rng, e):
    nb = e.shape[-1]
    if rng.random() < 0.4 and nb > 1:
        return float(rng.integers(1, 2 * nb)) # integer filling
    return float(rng.uniform(0.03, 2 * nb - 0.03))


@check.family(320)
def electron_number(ctx, i):
    """Summed occupations at the returned level equal the electron number."""
    from elphmod import occupations as o
    rng = ctx.rng
    name = SCHEMES[i % len(SCHEMES)]
    kind, e = spectrum(rng)
    n = filling(rng, e)
    width = max(np.ptp(e), 1e-3)
    kT = max(10 ** rng.uniform(-3, 0.7), width / 60)
    tol = rng.choice([1e-5, 1e-5, 1e-8, 1e-3])
    if kind in ('flat', 'degenerate') or n == round(n):
        tol = max(tol, 1e-5) # (convergence is slow within gaps)
    mu0 = None if rng.random() < 0.6 else float(rng.uniform(e.min() - 5,
        e.max() + 5))
    alias = rng.choice(['function', 'name'])
    f = getattr(o, name)
    if alias == 'name':
        from vmon.checks.c03 import ALIASES
        f = str(rng.choice(ALIASES[name]))
    ctx.note(scheme=name, kind=kind, shape=e.shape, n=n, kT=kT, mu0=mu0,
        tol=tol, e=e)
    keep = e.copy()
    kwargs = dict(tol=tol) if tol != 1e-5 else {}
    mu = o.find_Fermi_level(n, e, kT, f, mu0, **kwargs)
    nk = e.size / e.shape[-1]
    N = 2 * count(name, (e - mu) / kT).sum() / nk
    ctx.close('electron number', N, n, atol=tol * 1.01 + 1e-11 * n)
    ctx.equal('energies unchanged', e, keep)
    # same system, shifted and rescaled
    c, s = rng.normal() * 3, 10 ** rng.uniform(-0.5, 0.5)
    mu2 = o.find_Fermi_level(n, (e + c) * s, kT * s, f, None if mu0 is None
        else (mu0 + c) * s, **kwargs)
    N2 = 2 * count(name, (e - (mu2 / s - c)) / kT).sum() / nk
    ctx.close('covariance', N2, n, atol=tol * 1.01 + 1e-9 * n)
    if name in ('fermi_dirac', 'gauss', 'lorentz'):
        more = min(n + 0.02 + rng.random(), 2 * e.shape[-1] - 0.01)
        if more > n + 4 * tol:
            mu3 = o.find_Fermi_level(more, e, kT, f, mu0, **kwargs)
            ctx.true('monotonic', mu3 >= mu, '%g electrons: %g, %g electrons: '
                '%g' % (n, mu, more, mu3))


@check.family(80)
def symmetric_gap(ctx, i):
    """Particle-hole symmetric spectra at half filling: level at the centre."""
    from elphmod import occupations as o
    rng = ctx.rng
    name = ['fermi_dirac', 'gauss', 'methfessel_paxton', 'lorentz'][i % 4]
    nk, nb = int(rng.integers(1, 20)), int(rng.integers(1, 4))
    x = rng.uniform(0.05, 3, (nk, nb))
    c = rng.normal()
    e = np.sort(np.concatenate([c - x, c + x], axis=-1), axis=-1)
    kT = 10 ** rng.uniform(-1.5, 0.5)
    ctx.note(scheme=name, nk=nk, nb=nb, kT=kT)
    f = getattr(o, name)
    mu = o.find_Fermi_level(2 * nb, e, kT, f)
    N = 2 * count(name, (e - mu) / kT).sum() / nk
    ctx.close('electron number', N, 2 * nb, atol=1.01e-5)
    d = 2 * f.delta((e - c) / kT).sum() / kT / nk
    if name in ('fermi_dirac', 'gauss', 'lorentz') and d > 0.1:
        ctx.close('midgap', mu, c, atol=1.1e-4 / min(d, 1))
    # one band in one k point: analytic inverse
    if name == 'fermi_dirac':
        n = float(rng.uniform(0.01, 1.99))
        e1 = np.array([rng.normal()])
        mu = o.find_Fermi_level(n, e1, kT, f, tol=1e-9)
        ctx.close('analytic', mu, e1[0] + kT * special.logit(n / 2),
            atol=1e-6 * kT)
        ctx.sig(n, e1)


@check.family(40)
def simple_iteration(ctx, i):
    """The damped variant fulfils the same electron count."""
    from elphmod import occupations as o
    rng = ctx.rng
    name = ['fermi_dirac', 'gauss', 'lorentz'][i % 3]
    dims = [(int(rng.integers(5, 30)),), tuple(map(int, rng.integers(2, 5,
        2))), tuple(map(int, rng.integers(2, 4, 3)))][rng.integers(3)]
    nb = int(rng.integers(2, 5))
    e = np.sort(rng.uniform(-1, 1, (*dims, nb)), axis=-1)
    keep = e.copy()
    n = float(rng.uniform(0.5, 1.5)) * nb
    kT = rng.uniform(0.1, 0.5)
    mu0 = rng.uniform(-0.5, 0.5) if rng.integers(2) else None
    tol = 10 ** rng.uniform(-6, -3)
    f = (name.replace('_', '-') if rng.integers(2) else getattr(o, name))
    ctx.note(scheme=name, n=n, kT=kT, mu0=mu0, tol=tol, e=e)
    mu = o.find_Fermi_level_simple(n, e, kT, f, mu=mu0, tol=tol, damp=0.1)
    N = 2 * count(name, (e - mu) / kT).sum() / (e.size // nb)
    ctx.close('electron number', N, n, atol=1.01 * tol)
    ctx.equal('energies unchanged', e, keep)


@check.family(30)
def weights_by_mesh(ctx, i):
    """A mesh repeated or reshaped (same k points) gives the same level."""
    from elphmod import occupations as o
    rng = ctx.rng
    name = SCHEMES[i % len(SCHEMES)]
    e = np.sort(rng.normal(size=(4, 6, 3)), axis=-1)
    n = float(rng.uniform(0.5, 5.5))
    kT = rng.uniform(0.02, 0.5)
    ctx.note(scheme=name, n=n, kT=kT, e=e)
    f = getattr(o, name)
    ref = o.find_Fermi_level(n, e, kT, f, tol=1e-9)
    for e2 in (e.reshape((24, 3)), np.tile(e, (2, 1, 1)),
            e[:, ::-1, rng.permutation(3)], np.asfortranarray(e)):
        mu = o.find_Fermi_level(n, e2, kT, f, tol=1e-9)
        N = 2 * count(name, (e - mu) / kT).sum() / 24
        ctx.close('electron number', N, n, atol=2e-9)
        if name in ('fermi_dirac', 'gauss', 'lorentz'):
            d = 2 * f.delta((e - mu) / kT).sum() / kT / 24
            if d > 0.05:
                ctx.close('level', mu, ref, atol=1e-7)
