"""C03: smearing functions."""

import numpy as np
from scipy import special, integrate

from vmon.core import Check

check = Check('C03', 'A case is one smearing scheme (with drawn scheme '
    'parameters) evaluated on one drawn set of arguments; distinct by scheme, '
    'parameters and arguments; non-trivial since every case compares values '
    'with an independent closed form or integral.', boost=10)

SCHEMES = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton',
    'double_fermi_dirac', 'two_fermi_dirac', 'lorentz']
SYMMETRIC = ['fermi_dirac', 'gauss', 'methfessel_paxton', 'double_fermi_dirac',
    'lorentz']


# independent references --------------------------------------------------

def fd(x):
    f = special.expit(-x)
    d = f * special.expit(x)
    return f, d, -d * np.tanh(x / 2), special.entr(f) + special.entr(
        special.expit(x))


def gs(x):
    d = np.exp(-np.minimum(x ** 2, 1e4)) / np.sqrt(np.pi)
    return special.erfc(x) / 2, d, -2 * x * d, d / 2


def mv(x):
    # Marzari-Vanderbilt: delta(x) = (2 - sqrt2 x) exp(-(x - 1 / sqrt2)^2) /
    # sqrt pi for positive argument mu - e; here x = e - mu
    z = -x - 1 / np.sqrt(2)
    G = np.exp(-np.minimum(z ** 2, 1e4)) / np.sqrt(np.pi)
    d = (2 + np.sqrt(2) * x) * G
    dp = np.sqrt(2) * G + (2 + np.sqrt(2) * x) * 2 * z * G
    f = special.erfc(-z) / 2 + G / np.sqrt(2)
    s = -z * G / np.sqrt(2)
    return f, d, dp, s


def mp(x, order):
    f, d, dp, s = gs(x)
    f, d, dp = f.copy(), d.copy(), dp.copy()
    xc = np.clip(x, -50, 50)
    for n in range(1, order + 1):
        A = (-1) ** n / (special.factorial(n) * 4.0 ** n * np.sqrt(np.pi))
        g = np.exp(-xc ** 2)
        f += A * special.eval_hermite(2 * n - 1, xc) * g
        d += A * special.eval_hermite(2 * n, xc) * g
        dp -= A * special.eval_hermite(2 * n + 1, xc) * g
    if order == 1: # 1/2 A_N H_2N exp(-x^2) (Methfessel and Paxton, Eq. 19)
        s = 0.5 * -1 / (4 * np.sqrt(np.pi)) * (4 * xc ** 2 - 2) * np.exp(
            -xc ** 2)
    else:
        s = None
    return f, d, dp, s


def reference(name, x, d=None, order=None):
    if name == 'fermi_dirac':
        return fd(x)
    if name == 'gauss':
        return gs(x)
    if name == 'marzari_vanderbilt':
        return mv(x)
    if name == 'methfessel_paxton':
        return mp(x, order)
    if name == 'lorentz':
        return (0.5 - np.arctan(x / np.pi) / np.pi, 1 / (x ** 2 + np.pi ** 2),
            -2 * x / (x ** 2 + np.pi ** 2) ** 2, None)
    if name == 'double_fermi_dirac':
        a, b = fd(x - d), fd(x + d)
        s = (a[3] + b[3] - d * (b[0] - a[0])) / 2
        return tuple((a[i] + b[i]) / 2 for i in range(3)) + (s,)
    if name == 'two_fermi_dirac': # Fermi level at -d (+d) for x < 0 (x >= 0)
        shift = np.where(x < 0, d, -d)
        a = fd(x + shift)
        # entropy S with dS/dx = -x delta on either side of the jump
        return a[:3] + (a[3] - shift * a[0] + np.where(x < 0, d, 0.0),)


def scheme(ctx, name, fixed=False):
    """Select scheme, maybe with unusual parameters; restore afterwards."""
    from elphmod import occupations as o
    f = getattr(o, name)
    par = {}
    if name in ('double_fermi_dirac', 'two_fermi_dirac'):
        par['d'] = 5.0 if fixed or ctx.rng.random() < 0.3 else float(
            ctx.rng.choice([0.0, 0.5, 1.7, 12.0, 60.0, ctx.rng.uniform(0, 30)]))
    if name == 'methfessel_paxton':
        par['order'] = 1 if fixed or ctx.rng.random() < 0.4 else int(
            ctx.rng.integers(0, 6))
    return f, par


class parameters:
    def __init__(self, f, par):
        self.f, self.par = f, par

    def __enter__(self):
        self.old = {k: getattr(self.f, k) for k in self.par}
        for k, v in self.par.items():
            setattr(self.f, k, v)

    def __exit__(self, *ignore):
        for k, v in self.old.items():
            setattr(self.f, k, v)


def arguments(rng):
    kind = rng.integers(5)
    n = int(rng.integers(1, 60))
    if kind == 0:
        x = rng.normal(size=n) * 3
    elif kind == 1:
        x = rng.uniform(-30, 30, n)
    elif kind == 2:
        x = rng.choice([-1, 1], n) * 10 ** rng.uniform(-12, 1, n)
    elif kind == 3:
        x = rng.choice([-1, 1], n) * 10 ** rng.uniform(0, 8, n)
    else:
        x = rng.choice([0.0, 1e-300, 0.5, 1.0, -1.0, 2.0, -0.70710678, 36.0,
            -37.0, 700.0, -700.0, 709.0, -709.0, 710.0, -710.0, 745.0, -745.0,
            800.0, -800.0, 1e4, -1e4, 1e8, -1e8, 5.0, -5.0], n)
    return x


@check.family(240)
def values(ctx, i):
    """Step, delta, delta' and entropy against independent closed forms."""
    name = SCHEMES[i % len(SCHEMES)]
    f, par = scheme(ctx, name)
    x = arguments(ctx.rng)
    shape = ctx.rng.integers(4)
    if shape == 1:
        x = x[:1].reshape(())
    elif shape == 2 and len(x) > 1:
        x = x[:len(x) // 2 * 2].reshape((2, -1, 1))
    elif shape == 3:
        x = x[::2]
    ctx.note(scheme=name, par=par, x=x)
    if name == 'methfessel_paxton':
        x = np.clip(x, -1e5, 1e5)
    keep = np.array(x)
    with parameters(f, par):
        got = f(x), f.delta(x), f.delta_prime(x)
        if hasattr(f, 'entropy') and not (name == 'methfessel_paxton'
                and par['order'] != 1):
            got += f.entropy(x),
        again = f(x)
        scalars = [[g(float(y)) for y in np.ravel(x)[:5]]
            for g in (f, f.delta, f.delta_prime)]
        whole = np.clip(np.rint(np.asarray(x, dtype=float)), -99, 99).astype(int)
        functions = [f, f.delta, f.delta_prime]
        if len(got) == 4:
            functions.append(f.entropy)
        with np.errstate(all='ignore'):
            for g in functions:
                ctx.close('integers', g(whole.copy()), g(whole.astype(float)),
                    atol=1e-12)
                y = int(np.ravel(whole)[0])
                ctx.close('integer', g(y), g(float(y)), atol=1e-12)
    ref = reference(name, np.asarray(x, dtype=float), **par)
    scale = [1, 1, 1, 1 + par.get('d', 0)]
    for what, g, r, s in zip(['step', 'delta', 'delta prime', 'entropy'], got,
            ref, scale):
        tol = 1e-12 if name != 'methfessel_paxton' else 1e-11
        ctx.close(what, g, r, rtol=0, atol=tol * s)
    # relative accuracy in the tails (needed for small occupations)
    if name in ('fermi_dirac', 'gauss', 'lorentz'):
        for what, g, r, lo in zip(['step tail', 'delta tail',
                'delta prime tail'], got, ref, [1e-12, 1e-290, 1e-140]):
            r = np.asarray(r)
            ok = (abs(r) > lo) & (abs(np.asarray(x)) > 1e-3)
            if name == 'fermi_dirac' and what == 'step tail':
                ok = (abs(r) > 1e-290)
            if np.any(ok):
                ctx.close(what, (np.asarray(g)[ok] / r[ok]), np.ones(ok.sum()),
                    atol=1e-9 if what != 'step tail' or name == 'fermi_dirac'
                    else 1e-3)
    ctx.equal('repeatable', np.asarray(again), np.asarray(got[0]))
    for g, r in zip(scalars, ref):
        ctx.close('scalar', np.array([float(y) for y in g]), np.ravel(r)[:5],
            atol=1e-11)
    ctx.equal('argument unchanged', np.asarray(x), keep)


@check.family(56)
def derivative_chain(ctx, i):
    """delta = -f', delta' = delta's derivative, S' = -x delta (differences)."""
    name = SCHEMES[i % len(SCHEMES)]
    f, par = scheme(ctx, name)
    x = np.sort(ctx.rng.uniform(-12, 12, 40))
    if name == 'two_fermi_dirac': # keep away from the jump
        x = x[abs(x) > 0.05]
    ctx.note(scheme=name, par=par)
    h = 1e-3
    c = np.array([1, -8, 0, 8, -1]) / (12 * h)

    def diff(g):
        return sum(w * g(x + k * h) for k, w in zip(range(-2, 3), c) if w)

    with parameters(f, par):
        ctx.close('delta is -df', f.delta(x), -diff(f), atol=1e-7)
        ctx.close('delta prime is d delta', f.delta_prime(x), diff(f.delta),
            atol=2e-6)
        if hasattr(f, 'entropy') and par.get('order', 1) == 1:
            ctx.close('entropy', diff(f.entropy), -x * f.delta(x),
                atol=1e-6 * (1 + par.get('d', 0)))


@check.family(28)
def sum_rules(ctx, i):
    """Limits, complementarity, normalization of delta, monotonicity."""
    name = SCHEMES[i % len(SCHEMES)]
    f, par = scheme(ctx, name)
    ctx.note(scheme=name, par=par)
    x = np.concatenate([ctx.rng.normal(size=50) * 5,
        ctx.rng.uniform(-600, 600, 50)])
    with parameters(f, par):
        if name in SYMMETRIC:
            ctx.close('complementary', f(-x) + f(x), np.ones_like(x),
                atol=1e-12)
            ctx.close('even', f.delta(-x), f.delta(x), atol=1e-12)
            ctx.close('odd', f.delta_prime(-x), -f.delta_prime(x), atol=1e-12)
        big = 1e8
        ctx.close('limits', [f(-big), f(big), f.delta(big), f.delta(-big)],
            [1, 0, 0, 0], atol=1e-7)
        L = 200.0
        grid = np.linspace(-L, L, 400001)
        tail = (f(-L) - f(L)) if name == 'lorentz' else 1.0
        norm = np.sum((f.delta(grid)[1:] + f.delta(grid)[:-1]) / 2) * (
            grid[1] - grid[0])
        if name == 'two_fermi_dirac': # remaining weight is the jump at zero
            jump = float(f(np.array(-1e-300)) - f(np.array(1e-300)))
            norm += jump
        ctx.close('normalized', norm, tail, atol=2e-6)
        if name in ('fermi_dirac', 'gauss', 'lorentz', 'double_fermi_dirac'):
            y = np.sort(x)
            ctx.true('monotonic', np.all(np.diff(f(y)) <= 1e-15))
            ctx.true('positive', np.all(f.delta(y) >= 0))
        if hasattr(f, 'entropy') and par.get('order', 1) == 1:
            ctx.close('entropy vanishes', [f.entropy(-big), f.entropy(big)],
                [0, 0], atol=1e-6)
        else:
            ctx.seen('entropy undefined')


ALIASES = dict(gauss=['gaussian', 'gauss'],
    methfessel_paxton=['methfessel-paxton', 'm-p', 'mp'],
    marzari_vanderbilt=['marzari-vanderbilt', 'cold', 'm-v', 'mv'],
    fermi_dirac=['fermi-dirac', 'f-d', 'fd'],
    lorentz=['lorentzian', 'lorentz'],
    heaviside=['heaviside'])


@check.family(2, 2)
def names(ctx, i):
    """Every documented name (any letter case) selects its scheme."""
    from elphmod import occupations as o
    x = np.linspace(-3, 3, 13)
    for name, aliases in ALIASES.items():
        for alias in aliases:
            for variant in (alias, alias.upper(), alias.capitalize()):
                g = o.smearing(variant)
                ctx.true('name known', g is not None, variant)
                ctx.close('name', g(x), getattr(o, name)(x), atol=1e-14)
                ctx.sig(variant)
    ctx.close('default', o.smearing()(x), o.gauss(x), atol=1e-14)
    ctx.close('ignored arguments', o.smearing(smearing='fd', ibrav=4, a=1.0)(x),
        o.fermi_dirac(x), atol=1e-14)
    own = lambda x: x
    ctx.true('pass-through', o.smearing(own) is own)


@check.family(12)
def step(ctx, i):
    """Zero-width step, Bose-Einstein and Matsubara representations."""
    from elphmod import occupations as o
    rng = ctx.rng
    x = rng.normal(size=30) * 10 ** rng.uniform(-6, 3)
    x[rng.integers(30)] = 0.0
    keep = x.copy()
    ctx.close('heaviside', o.heaviside(x), np.where(x < 0, 1.0,
        np.where(x > 0, 0.0, 0.5)), atol=0)
    d = o.heaviside.delta(x)
    ctx.true('heaviside delta', np.all(d[x != 0] == 0)
        and np.all(np.isposinf(d[x == 0])))
    d = o.heaviside.delta_prime(x)
    ctx.true('heaviside delta prime', np.all(d[x != 0] == 0)
        and np.all(np.isinf(d[x == 0])))
    ctx.close('heaviside entropy', o.heaviside.entropy(x), 0 * x, atol=0)
    whole = rng.integers(-2, 3, rng.integers(1, 4, rng.integers(3)))
    for g in o.heaviside, o.heaviside.delta, o.heaviside.delta_prime, \
            o.heaviside.entropy:
        got = np.asarray(g(whole.copy()), dtype=float)
        ctx.equal('integers', got, np.asarray(g(whole.astype(float))))
        z = int(rng.integers(-1, 2))
        ctx.equal('integer', float(g(z)), float(g(float(z))))
    y = 10 ** rng.uniform(-6, 6, 40)
    keepy = y.copy()
    ctx.close('bose-einstein', o.bose_einstein(y) * np.where(y < 700,
        np.expm1(np.minimum(y, 700)), 0), np.where(y < 700, 1.0, 0.0),
        atol=1e-8)
    y2 = y[y > 1e-2]
    if len(y2):
        ctx.close('bose-einstein reflection', o.bose_einstein(-y2)
            + o.bose_einstein(y2), -np.ones_like(y2), atol=1e-9)
    z = rng.uniform(-8, 8, 7)
    nm = int(rng.integers(2000, 6000))
    tail = 60 / (np.pi ** 2 * nm)
    f = o.fermi_dirac_matsubara
    ctx.close('Matsubara step', f(z, nmats=nm), fd(z)[0], atol=tail)
    ctx.close('Matsubara delta', f.delta(z, nmats=nm), fd(z)[1], atol=tail / 5)
    ctx.close('Matsubara delta prime', f.delta_prime(z, nmats=nm), fd(z)[2],
        atol=1e-5)
    ctx.close('Matsubara scalar', f(0.7), fd(0.7)[0], atol=1e-3, shape=False)
    # complex arguments (analytic continuation off the Fermi level)
    c = rng.normal(size=9) * 3 + 1j * rng.uniform(-2, 2, 9)
    ctx.close('complex step', o.fermi_dirac(c), 1 / (np.exp(c) + 1),
        rtol=1e-10)
    ctx.close('complex Bose-Einstein', o.bose_einstein(c), 1 / (np.exp(c) - 1),
        rtol=1e-10)
    ctx.close('complex delta', o.fermi_dirac.delta(c), np.exp(c) / (np.exp(c)
        + 1) ** 2, rtol=1e-10)
    ctx.close('complex delta prime', o.fermi_dirac.delta_prime(c), np.exp(c)
        * (1 - np.exp(c)) / (np.exp(c) + 1) ** 3, rtol=1e-10)
    ctx.equal('argument unchanged', x, keep)
    ctx.equal('argument unchanged', y, keepy)
