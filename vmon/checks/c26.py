"""C26: output of external programs is read completely and exactly."""

import os

import numpy as np

from vmon.core import Check, Skip
from vmon import models as m
from vmon.checks import c07, c21

check = Check('C26', 'A case is one random output file in the layout of the '
    'external program, written digit by digit here and read by the package; '
    'distinct by content; non-trivial if it holds several values.', boost=60)

Ry = 13.605693122990
SPECIES = ['H', 'C', 'Ta', 'S', 'Se', 'Fe2', 'W1']


def noise(rng):
    """Lines that have nothing to do with the data."""
    return ''.join(str(rng.choice(['\n', '     Writing output data file\n',
        '     total cpu time spent up to now is        1.2 secs\n',
        '     convergence has been achieved in  12 iterations\n'])) for _ in
        range(int(rng.integers(4))))


def numbers(rng, shape, digits=4, scale=20.0):
    """Values that can be printed exactly."""
    return np.round(rng.normal(scale=scale / 3, size=shape), digits)


def columns(values, fmt, per):
    """Fixed number of values per line."""
    out = ''
    for i in range(0, len(values), per):
        out += ''.join(fmt % x for x in values[i:i + per]) + '\n'
    return out


def write(ctx, name, text):
    path = ctx.file(name)
    with open(path, 'w') as f:
        f.write(text)
    return path


@check.family(4)
def plotted_bands(ctx, i):
    """Bands and symmetry points from bands.x."""
    import elphmod
    rng = ctx.rng
    nb, nk = int(rng.integers(1, 7)), int(rng.integers(1, 30))
    x = np.cumsum(np.round(rng.uniform(0, 0.2, nk), 4))
    e = numbers(rng, (nk, nb))
    text = ''
    for n in range(nb):
        for k in range(nk):
            text += '%10.4f%10.4f\n' % (x[k], e[k, n])
        text += '\n'
    path = write(ctx, 'bands.gnu', text)
    if nb * nk < 2:
        raise Skip('single value')
    X, E = elphmod.el.read_bands_plot(path, nb)
    ctx.close('distance', X, x, atol=1e-9)
    ctx.close('energies', E, e, atol=1e-9)
    points = np.sort(np.round(rng.uniform(0, 5, int(rng.integers(6))), 4))
    text = noise(rng)
    for p in points:
        text += ('     high-symmetry point: %7.4f%7.4f%7.4f   x coordinate  '
            '%7.4f\n' % (*rng.uniform(-1, 1, 3), p)) + noise(rng)
    got = elphmod.el.read_symmetry_points(write(ctx, 'bands.out', text))
    ctx.equal('number of symmetry points', len(got), len(points))
    ctx.close('symmetry points', np.array(got), points, atol=1e-9)
    ctx.sig(x, e)


@check.family(8)
def projections(ctx, i):
    """Projected bands from projwfc.x (both formats)."""
    import elphmod
    rng = ctx.rng
    nk, nb, no = (int(rng.integers(1, 6)) for _ in range(3))
    k = numbers(rng, (nk, 3), 9, 1.0)
    e = numbers(rng, (nk, nb), 9, 20.0)
    p = (numbers(rng, (nk, nb, no), 9, 0.7) + 1j * numbers(rng, (nk, nb, no),
        9, 0.7))
    mu = float(numbers(rng, (), 9))
    x = np.append(0.0, np.cumsum(np.linalg.norm(np.diff(k, axis=0), axis=1)))
    old = bool(rng.integers(2))
    opt = dict(from_fermi=bool(rng.integers(2)))
    if old:
        text = '<?xml version="1.0"?>\n<Root>\n  <HEADER>\n'
        for key, v in (('NUMBER_OF_BANDS', nb), ('NUMBER_OF_K-POINTS', nk),
                ('NUMBER_OF_SPIN_COMPONENTS', 1), ('NUMBER_OF_ATOMIC_WFC', no),
                ('FERMI_ENERGY', '%.15E' % mu)):
            text += '    <%s type="integer" size="1">\n %s\n    </%s>\n' % (
                key, v, key)
        text += '  </HEADER>\n  <K-POINTS type="real" size="%d">\n' % nk
        for q in k:
            text += ' %.15E %.15E %.15E\n' % tuple(q)
        text += '  </K-POINTS>\n  <EIGENVALUES>\n'
        for ik in range(nk):
            text += '    <K-POINT.%d>\n      <EIG type="real">\n' % (ik + 1)
            text += columns(e[ik], ' %.15E', 1)
            text += '      </EIG>\n    </K-POINT.%d>\n' % (ik + 1)
        text += '  </EIGENVALUES>\n  <PROJECTIONS>\n'
        for ik in range(nk):
            text += '    <K-POINT.%d>\n' % (ik + 1)
            for a in range(no):
                text += '      <ATMWFC.%d type="complex">\n' % (a + 1)
                for n in range(nb):
                    text += ' %.15E,%.15E\n' % (p[ik, n, a].real, p[ik, n,
                        a].imag)
                text += '      </ATMWFC.%d>\n' % (a + 1)
            text += '    </K-POINT.%d>\n' % (ik + 1)
        text += '  </PROJECTIONS>\n</Root>\n'
        X, K, E, P = elphmod.el.read_atomic_projections_old(write(ctx,
            'proj.xml', text), **opt)
        ref = abs(p) ** 2
    else:
        opt['squared'] = bool(rng.integers(2))
        opt['other'] = opt['squared'] and bool(rng.integers(2))
        text = '<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n'
        text = text.replace('\n<PROJECTIONS>', '') + (' <HEADER NUMBER_OF_'
            'BANDS="%d" NUMBER_OF_K-POINTS="%d" NUMBER_OF_SPIN_COMPONENTS="1"'
            ' NON-COLINEAR_CALCULATION="F" NUMBER_OF_ATOMIC_WFC="%d" NUMBER_'
            'OF_ELECTRONS="9.0" FERMI_ENERGY="%.15E"/>\n' % (nb, nk, no, mu))
        text += '<EIGENSTATES>\n'
        per = int(rng.integers(1, 6))
        for ik in range(nk):
            text += '<K-POINT Weight="0.1">\n' + columns(k[ik], ' %.15E', 3)
            text += '</K-POINT>\n<E>\n' + columns(e[ik], ' %.15E', per)
            text += '</E>\n<PROJS>\n'
            for a in range(no):
                text += '<ATOMIC_WFC index="%d" spin="1">\n' % (a + 1)
                for n in range(nb):
                    text += ' %.15E %.15E\n' % (p[ik, n, a].real, p[ik, n,
                        a].imag)
                text += '</ATOMIC_WFC>\n'
            text += '</PROJS>\n'
        text += '</EIGENSTATES>\n</PROJECTIONS>\n'
        X, K, E, P = elphmod.el.read_atomic_projections(write(ctx, 'proj.xml',
            text), **opt)
        ref = abs(p) ** 2 if opt['squared'] else p
        if opt['other']:
            ref = np.concatenate([ref, 1 - ref.sum(axis=2, keepdims=True)],
                axis=2)
    ctx.note(nk=nk, nb=nb, no=no, old=old, **opt)
    ctx.close('distance', X, x, atol=1e-12)
    ctx.close('k points', K, k, atol=1e-12)
    ctx.close('energies', E, e - mu * opt['from_fermi'], atol=1e-12)
    ctx.close('projections', P, ref, atol=1e-12)
    ctx.sig(k, e, p)


@check.family(6)
def ordered_projections(ctx, i):
    """Disentangling bands by character permutes bands per k point."""
    import elphmod
    rng = ctx.rng
    nk, nb = int(rng.integers(3, 12)), int(rng.integers(2, 5))
    x = np.linspace(0, 1, nk)
    slopes, offsets = rng.uniform(-3, 3, nb), rng.uniform(-1, 1, nb)
    bands = offsets + np.outer(x, slopes)
    char = np.linalg.qr(rng.normal(size=(nb, nb)))[0]
    order = np.argsort(bands, axis=1)
    text = ('<?xml version="1.0" encoding="UTF-8"?>\n <HEADER NUMBER_OF_BANDS'
        '="%d" NUMBER_OF_K-POINTS="%d" NUMBER_OF_ATOMIC_WFC="%d" FERMI_ENERGY'
        '="0.0"/>\n<EIGENSTATES>\n' % (nb, nk, nb))
    for ik in range(nk):
        text += '<K-POINT>\n %.12f 0 0\n</K-POINT>\n<E>\n' % x[ik]
        text += columns(bands[ik, order[ik]], ' %.15f', 3) + '</E>\n<PROJS>\n'
        for a in range(nb):
            text += '<ATOMIC_WFC>\n'
            for n in order[ik]:
                text += ' %.15f %.15f\n' % (char[a, n], 0)
            text += '</ATOMIC_WFC>\n'
        text += '</PROJS>\n'
    X, K, E, P = elphmod.el.read_atomic_projections(write(ctx, 'proj.xml',
        text), order=True)
    text = ('<NUMBER_OF_BANDS type="integer">\n%d\n</NUMBER_OF_BANDS>\n'
        '<NUMBER_OF_K-POINTS type="integer">\n%d\n</NUMBER_OF_K-POINTS>\n'
        '<NUMBER_OF_ATOMIC_WFC type="integer">\n%d\n</NUMBER_OF_ATOMIC_WFC>\n'
        '<FERMI_ENERGY type="real">\n0.0\n</FERMI_ENERGY>\n<K-POINTS >\n'
        % (nb, nk, nb))
    text += ''.join(' %.15E 0.0 0.0\n' % y for y in x) + '</K-POINTS>\n'
    for ik in range(nk):
        text += '<EIG >\n' + columns(bands[ik, order[ik]], ' %.15E', 1)
        text += '</EIG>\n'
    for ik in range(nk):
        for a in range(nb):
            text += '<ATMWFC.%d type="complex">\n' % (a + 1)
            for n in order[ik]:
                text += ' %.15E,%.15E\n' % (0, char[a, n])
            text += '</ATMWFC.%d>\n' % (a + 1)
    old = elphmod.el.read_atomic_projections_old(write(ctx, 'old.xml', text),
        order=True)
    ctx.close('energies in old format', old[2], E, atol=1e-10)
    ctx.close('projections in old format', old[3], P, atol=1e-10)
    # bands follow their character and are sorted by mean energy
    ref = np.argsort(bands.mean(axis=0))
    ctx.close('energies follow character', E, bands[:, ref], atol=1e-10)
    ctx.close('projections follow character', P, np.broadcast_to(abs(char.T[
        ref]) ** 2, P.shape), atol=1e-10)
    ctx.sig(bands)


@check.family(6)
def orbital_names(ctx, i):
    """Names of pseudo-atomic orbitals."""
    import elphmod
    rng = ctx.rng
    labels = [['s'], ['pz', 'px', 'py'], ['dz2', 'dxz', 'dyz', 'dx2-y2',
        'dxy'], ['fz3', 'fxz2', 'fyz2', 'fz(x2-y2)', 'fxyz', 'fx(x2-3y2)',
        'fy(3x2-y2)']]
    soc = rng.integers(4) == 0
    rows, names = [], []
    for a in range(int(rng.integers(1, 7))):
        X = str(rng.choice(['Ta', 'S', 'C', 'Fe', 'W']))
        for n in range(int(rng.integers(1, 4))):
            l = int(rng.integers(4))
            if soc:
                for J in {abs(l - 0.5), l + 0.5}:
                    for M in np.arange(-J, J + 1):
                        rows.append((a + 1, X, n + 1, 'l=%d j=%3.1f m_j=%4.1f'
                            % (l, J, M)))
                        names.append((X, n + 1, 'spdf'[l]))
            else:
                for M in range(2 * l + 1):
                    rows.append((a + 1, X, n + 1, 'l=%d m=%2d' % (l, M + 1)))
                    names.append((X, n + 1, labels[l][M]))
    ref = []
    for j, name in enumerate(names):
        X, n, l = name
        ref.append('%s%s-%d%s' % (X, names[:j].count(name) + 1
            if names.count(name) > 1 else '', n, l))
    text = noise(rng) + '     Atomic states used for projection\n' \
        '     (read from pseudopotential files):\n\n'
    for j, (a, X, n, s) in enumerate(rows):
        text += '     state #%4d: atom %3d (%-3s), wfc %2d (%s)\n' % (j + 1, a,
            X, n, s)
    if rng.integers(2):
        text += '\n k =   0.0 0.0 0.0\n==== e(   1) =   -1.0 eV ==== \n'
    other = bool(rng.integers(2))
    got = elphmod.el.read_projwfc_out(write(ctx, 'projwfc.out', text), other)
    ctx.equal('names', list(got), ref + ['X-x'] * other)
    ctx.sig(text)


@check.family(6)
def selections(ctx, i):
    """Sums of projections onto groups of orbitals."""
    import elphmod
    rng = ctx.rng
    labels = [['s'], ['pz', 'px', 'py'], ['dz2', 'dxz', 'dyz', 'dx2-y2',
        'dxy']]
    parts = [] # element, number of atom, shell, l, rest
    for X in rng.permutation(['S', 'Se', 'C', 'Ca', 'Ta', 'F', 'Fe'])[:int(
            rng.integers(1, 4))]:
        atoms = int(rng.choice([1, 2, 3, 11, 12, 21]))
        shells = [(int(rng.integers(1, 7)), int(rng.integers(3)))
            for _ in range(int(rng.integers(1, 3)))]
        for a in range(atoms):
            for n, l in dict.fromkeys(shells):
                for label in labels[l]:
                    parts.append((str(X), str(a + 1) if atoms > 1 else '',
                        str(n), label[0], label[1:]))
    names = ['%s%s-%s%s%s' % x for x in parts]
    nk, nb = map(int, rng.integers(1, 4, 2))
    p = rng.uniform(size=(nk, nb, len(names)))
    groups, refs = [], []
    for _ in range(int(rng.integers(1, 5))):
        texts, rows = [], set()
        for _ in range(int(rng.integers(1, 3))):
            given = list(parts[rng.integers(len(parts))])
            keep = rng.integers(2, size=5)
            keep[1] &= keep[0]
            keep[4] &= keep[3]
            rest = [given[4]]
            if keep[4] and rng.integers(3) == 0: # curly braces
                rest += [x[1:] for x in labels['spd'.index(given[3])]][
                    :int(rng.integers(3))]
                if not all(rest):
                    rest = rest[:1]
            text = ''.join(given[x] * keep[x] for x in (0, 1))
            tail = ''.join(given[x] * keep[x] for x in (2, 3))
            if keep[4]:
                tail += rest[0] if len(rest) == 1 else '{%s}' % ','.join(rest)
            if tail:
                text += '-' + tail
            if not text:
                text, keep[0] = given[0], 1
            texts.append(text)
            for r in rest:
                given[4] = r
                rows |= {n for n, x in enumerate(parts) if all(not g or not k
                    or g == y for g, k, y in zip(given, keep, x))}
        groups.append(', '.join(texts))
        refs.append(p[..., sorted(rows)].sum(axis=2))
    other = bool(rng.integers(2))
    ctx.note(names=names, groups=groups, other=other)
    ctx.sig(names, groups)
    before = p.copy()
    got = elphmod.el.proj_sum(p, names, *groups, other=other)
    ctx.equal('unchanged', p, before)
    if other:
        refs.append(1 - sum(refs))
    ctx.close('sums of projections', got, np.stack(refs, axis=-1), 1e-12,
        scale=len(names))


def scf(rng, nk=None, nb=None):
    """Output of PWscf and its data."""
    d = dict(nk=nk or int(rng.integers(1, 6)), nb=nb or int(rng.integers(1,
        20)), ne=float(rng.integers(1, 300)), E=float(numbers(rng, (), 8,
        500.0)), kT=round(float(rng.uniform(0.001, 0.05)), 4))
    d['name'] = str(rng.choice(['Fermi-Dirac', 'Gaussian',
        'Methfessel-Paxton', 'Marzari-Vanderbilt']))
    d['k'] = numbers(rng, (d['nk'], 3), 7, 1.0)
    w = rng.uniform(size=d['nk'])
    d['w'] = np.round(2 * w / w.sum(), 7)
    d['e'] = np.sort(numbers(rng, (d['nk'], d['nb']), 4, 6.0), axis=1)
    d['mu'] = float(numbers(rng, (), 4, 2.0))
    d['kind'] = int(rng.integers(4))
    text = '     number of electrons       = %13.2f\n' % d['ne'] + noise(rng)
    text += '     number of Kohn-Sham states=%13d\n' % d['nb'] + noise(rng)
    text += ('     number of k points=%6d  %s smearing, width (Ry)=%8.4f\n'
        % (d['nk'], d['name'], d['kT'])).replace('Methfessel-Paxton smearing',
        'Methfessel-Paxton smearing')
    text += '                       cart. coord. in units 2pi/alat\n'
    for n in range(d['nk']):
        text += '        k(%5d) = (%12.7f%12.7f%12.7f), wk =%12.7f\n' % (n + 1,
            *d['k'][n], d['w'][n])
    text += noise(rng)
    if rng.integers(3) == 0:
        text += '!!   not the total energy\n'.replace('!!', ' !')
    text += '\n     End of self-consistent calculation\n'
    for n in range(d['nk']):
        text += '\n          k =%7.4f%7.4f%7.4f (  1000 PWs)   bands (ev):\n\n' \
            % tuple(d['k'][n])
        text += columns(d['e'][n], '%10.4f', 8).replace('\n', '\n')
    text += '\n'
    if d['kind'] == 0:
        text += ('     highest occupied, lowest unoccupied level (ev): %10.4f'
            '%10.4f\n' % (d['mu'] - 0.5, d['mu'] + 0.5))
    elif d['kind'] == 1:
        text += '     highest occupied level (ev): %10.4f\n' % d['mu']
    else:
        text += '     the Fermi energy is %9.4f ev\n' % d['mu']
    text += '\n!    total energy              = %16.8f Ry\n' % d['E']
    text += noise(rng)
    return text, d


@check.family(12)
def self_consistent(ctx, i):
    """Energies and Fermi level from PWscf output."""
    import elphmod
    rng = ctx.rng
    text, d = scf(rng)
    path = write(ctx, 'scf.out', text)
    ctx.note(**{k: d[k] for k in ('nk', 'nb', 'kind', 'name')})
    e, Ne, E = elphmod.el.read_pwo(path)
    mu = d['mu']
    if d['kind'] == 1: # only highest occupied level known
        ref = [d['e'], d['e'] - mu]
        ctx.true('energies', e is not None and min(abs(e - x).max() for x in
            ref) < 1e-9, 'got %s' % e)
    else:
        ctx.close('energies', e, d['e'] - mu, atol=1e-9)
    ctx.equal('number of electrons', Ne, d['ne'])
    ctx.close('total energy', E, d['E'] * Ry, rtol=1e-8)
    got = elphmod.el.read_Fermi_level(path)
    if d['kind'] == 0:
        # documented for metals and highest occupied level only
        pass
    else:
        ctx.close('Fermi level', got, mu, atol=1e-9)
    nothing = write(ctx, 'empty.out', noise(rng))
    ctx.true('no Fermi level', elphmod.el.read_Fermi_level(nothing) is None)
    e, Ne, E = elphmod.el.read_pwo(nothing)
    ctx.true('nothing', e is None and Ne is None and E is None, '%s %s %s'
        % (e, Ne, E))
    ctx.sig(text)


@check.family(10)
def band_energies(ctx, i):
    """Occupations and band-energy sums from PWscf output."""
    import elphmod
    rng = ctx.rng
    text, d = scf(rng)
    while d['kind'] == 0:
        text, d = scf(rng)
    path = write(ctx, 'scf.out', text)
    f = elphmod.occupations.smearing(d['name'])
    e, k, o, name, mu, kT = elphmod.el.read_eps_nk_from_qe_pwo(path)
    ctx.close('energies', e, d['e'], atol=1e-9)
    ctx.close('k points and weights', k, np.c_[d['k'], d['w']], atol=1e-9)
    ctx.equal('smearing', name, d['name'])
    ctx.close('chemical potential', mu, d['mu'], atol=1e-9)
    ctx.close('temperature', kT, d['kT'] * Ry, rtol=1e-7)
    occ = f((d['e'] - d['mu']) / (d['kT'] * Ry))
    ctx.close('occupations', o, occ, atol=1e-5)
    scale = 1 + abs(d['e']).sum()
    subsets = [None]
    if rng.integers(2):
        subsets.append([int(n) for n in rng.permutation(d['nb'])[:int(
            rng.integers(1, d['nb'] + 1))]])
    if rng.integers(3) == 0:
        subsets.append([])
    for subset in subsets:
        s = slice(None) if subset is None else subset
        w = d['w'][:, None]
        ctx.close('band energy', elphmod.el.eband(path, subset), (w * d['e']
            * occ)[:, s].sum() / Ry, atol=1e-5 * scale)
        x = (d['e'] - d['mu']) / (d['kT'] * Ry)
        ctx.close('entropy', elphmod.el.demet_from_qe_pwo(path, subset), -(w
            * d['kT'] * f.entropy(x))[:, s].sum(), atol=1e-5)
    ctx.sig(text)


@check.family(4)
def energy_contributions(ctx, i):
    import elphmod
    rng = ctx.rng
    parts = dict([('sum bands', 'sum bands                 '),
        ('one-electron', 'one-electron contribution '),
        ('hartree', 'hartree contribution      '),
        ('xc', 'xc contribution           '),
        ('ewald', 'ewald contribution        '),
        ('smearing', 'smearing contrib. (-TS)   ')])
    text, ref = scf(rng)[0].split('!')[0].replace(' !', ''), {}
    E = float(numbers(rng, (), 8, 500.0))
    text += '!    total energy              =%17.8f Ry\n' % E
    ref['total'] = E
    text += '     estimated scf accuracy    <       0.00000001 Ry\n'
    if rng.integers(2):
        text += '\n     The total energy is the sum of the following terms:\n'
    for key, label in parts.items():
        if rng.integers(4):
            v = float(numbers(rng, (), 8, 500.0))
            if rng.integers(5) == 0:
                v *= 1e4
            text += '     %s=%17.8f Ry\n' % (label, v)
            ref[key] = round(v, 8)
    text += noise(rng)
    got = elphmod.el.read_energy_contributions_scf_out(write(ctx, 'scf.out',
        text))
    ctx.equal('contributions', sorted(got), sorted(ref))
    for key in ref:
        ctx.close('values', float(got[key]), ref[key], atol=2e-8)
    ctx.sig(text)


@check.family(4)
def wannier_energies(ctx, i):
    import elphmod
    rng = ctx.rng
    nb, nk = int(rng.integers(1, 8)), int(rng.integers(1, 20))
    e = numbers(rng, (nb, nk), 9)
    text = ''.join('%5d%5d%18.12f\n' % (n + 1, k + 1, e[n, k])
        for k in range(nk) for n in range(nb))
    write(ctx, 'x.eig', text)
    got = elphmod.el.read_wannier90_eig_file(ctx.file('x'), nb, nk)
    ctx.close('energies', got, e, atol=1e-11)
    # decay of Hamiltonian
    R, H = np.sort(abs(numbers(rng, nk, 7))), abs(numbers(rng, nk, 9, 1.0))
    text = '  ### Spatial decay of Hamiltonian in Wannier basis\n\n'
    text += ''.join('%15.10f%24.15E\n' % x for x in zip(R, H))
    r, h = elphmod.el.read_decayH(write(ctx, 'decay.H', text))
    ctx.close('distances', r, R, atol=1e-9)
    ctx.close('matrix elements', h, H, atol=1e-12)
    ctx.sig(e)


@check.family(8)
def charge_density(ctx, i):
    """Real-space density from pp.x and total charge."""
    import elphmod
    rng = ctx.rng
    ibrav = int(rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 14]))
    celldm = [round(float(rng.uniform(3, 12)), 6), 0, 0, 0, 0, 0]
    b, c, cosine = (round(float(x), 6) for x in rng.uniform(0.5, 1.5, 3))
    cosine -= 1.0
    if ibrav in (8, 9, 10, 12, 14):
        celldm[1] = b
    if ibrav in (4, 6, 7, 8, 9, 10, 12, 14):
        celldm[2] = c
    if ibrav == 12:
        celldm[3] = cosine
    if ibrav == 14:
        celldm[3:] = [0.1, 0.2, -0.3]
    a, b, c = celldm[0], celldm[0] * celldm[1], celldm[0] * celldm[2]
    V = {1: a ** 3, 2: a ** 3 / 4, 3: a ** 3 / 2, 4: a * a * c * np.sqrt(0.75),
        6: a * a * c, 7: a * a * c / 2, 8: a * b * c, 9: a * b * c / 2,
        10: a * b * c / 4, 12: a * b * c * np.sqrt(1 - cosine ** 2),
        14: a * b * c * np.sqrt(1 - 0.01 - 0.04 - 0.09 + 2 * 0.1 * 0.2 * -0.3)
        }[ibrav]
    n = [int(x) for x in rng.integers(1, 7, 3)]
    nat, ntyp = int(rng.integers(1, 7)), int(rng.integers(1, 3))
    rho = np.array([float('%17.9E' % x) for x in abs(rng.normal(size=np.prod(
        n)))])
    text = '\n' + '%8d' * 8 % (*n, *n, nat, ntyp) + '\n'
    text += '%6d' % ibrav + '%16.8f' * 6 % tuple(celldm) + '\n'
    text += '%20.10f%20.10f%20.10f%6d\n' % (100.0, 4.0, 25.0, 0)
    for t in range(ntyp):
        text += '%4d   %-2s   %5.2f\n' % (t + 1, 'XY'[t], 3.0)
    for t in range(nat):
        text += '%4d   %15.9f%15.9f%15.9f   %2d\n' % (t + 1, *rng.uniform(
            size=3), 1)
    text += columns(rho, '%17.9E', 5)
    got, charge = elphmod.el.read_pp_density(write(ctx, 'rho', text))
    ctx.note(ibrav=ibrav, n=n)
    ctx.close('density', got, rho, rtol=1e-12)
    ctx.close('total charge', charge, rho.sum() / rho.size * V, rtol=1e-6)
    ctx.sig(rho, ibrav)


def records(*items):
    """Fortran sequential unformatted file."""
    out = b''
    for item in items:
        body = b''.join(np.asarray(x, dtype=t).tobytes() for x, t in item)
        n = np.int32(len(body)).tobytes()
        out += n + body + n
    return out


@check.family(8)
def plane_waves(ctx, i):
    """Density and wave functions in reciprocal space."""
    import elphmod
    rng = ctx.rng
    ibrav = int(rng.choice([1, 2, 4, 6, 8]))
    a, b, c = rng.uniform(2, 6, 3)
    if ibrav in (1, 2):
        b = c = a
    elif ibrav in (4, 6):
        b = a
    A = {1: np.eye(3), 2: np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]) / 2,
        4: np.array([[1, 0, 0], [-0.5, np.sqrt(0.75), 0], [0, 0, c / a]]),
        6: np.diag([1, 1, c / a]), 8: np.diag([1, b / a, c / a])}[ibrav]
    B = np.linalg.inv(A).T
    a0 = 0.529177210903
    n = int(rng.integers(1, 40))
    mill = rng.integers(-5, 6, (n, 3))
    rho = rng.normal(size=n) + 1j * rng.normal(size=n)
    path = ctx.file('charge-density.dat')
    b123 = [(x, float) for x in B * 2 * np.pi / (a / a0)]
    with open(path, 'wb') as f:
        f.write(records([(0, np.int32), (n, np.int32), (1, np.int32)], b123,
            [(mill, np.int32)], [(rho, complex)]))
    got, G, count, V, hkl = elphmod.el.read_rhoG_density(path, ibrav, a, b, c)
    ctx.equal('number of vectors', int(count), n)
    ctx.equal('density', got, rho)
    ctx.equal('Miller indices', np.array(hkl), mill)
    ctx.close('reciprocal vectors', G, mill.dot(B), 1e-9, scale=5)
    ctx.close('volume', V, abs(np.linalg.det(A)) * (a / a0) ** 3, 1e-6)
    nb, npol = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    psi = rng.normal(size=(nb, npol * n)) + 1j * rng.normal(size=(nb, npol
        * n))
    k = rng.uniform(-1, 1, 3)
    with open(path, 'wb') as f:
        f.write(records([(1, np.int32), (k, float), (1, np.int32), (0,
            np.int32), (1.0, float)], [(n + 3, np.int32), (n, np.int32), (npol,
            np.int32), (nb, np.int32)], b123, [(mill, np.int32)],
            *[[(x, complex)] for x in psi]))
    evc, count, xk, kG, G, hkl = elphmod.el.read_wfc(path, ibrav, a, b, c)
    ctx.equal('wave function', evc, psi)
    ctx.equal('number of plane waves', int(count), n)
    ctx.equal('Miller indices of plane waves', np.array(hkl), mill)
    K = k * (a / a0) / (2 * np.pi)
    ctx.close('k point', xk, K, 1e-7, scale=1)
    ctx.close('vectors of plane waves', G, mill.dot(B), 1e-9, scale=5)
    ctx.close('k plus G', kG, K + mill.dot(B), 1e-7, scale=5)
    ctx.sig(rho, psi)


def invariant(rng, shape, nk, nq=None, dtype=float):
    """Functions with the full symmetry of the triangular lattice."""
    out = np.empty((nk, nk, *shape), dtype=dtype)
    for (k1, k2), size in c21.irreducible(nk):
        x = numbers(rng, shape, 6)
        if dtype is complex:
            x = x + 1j * numbers(rng, shape, 6)
        for K in c21.images(k1, k2, nk):
            out[K] = x
    return out


@check.family(8)
def coupling_files(ctx, i):
    """Coupling on k meshes from modified PHonon code."""
    import elphmod
    rng = ctx.rng
    nQ, nm, nb = (int(rng.integers(1, 4)) for _ in range(3))
    nk = int(rng.integers(1, 7))
    below, above = int(rng.integers(3)), int(rng.integers(2))
    phase, wedge = bool(rng.integers(2)), bool(rng.integers(2))
    dtype = complex if phase else float
    nB = below + nb + above
    full = np.array([invariant(rng, (nm, nB, nB), nk, dtype=dtype)
        for _ in range(nQ)])
    Q = [int(x) for x in rng.permutation(9)[:nQ] + 1]
    listed = bool(rng.integers(2))
    if not listed:
        Q = list(range(1, nQ + 1))
    for iq in range(nQ):
        points = [(int(k1), int(k2)) for k1, k2 in np.ndindex(nk, nk)]
        if wedge:
            points = []
            for k, n in c21.irreducible(nk):
                star = sorted(c21.images(*k, nk))
                points.append(star[int(rng.integers(len(star)))])
        text = '# k1 k2 jbnd ibnd nu g\n'
        rows = [(k, jb, ib, nu) for k in points for jb in range(nB)
            for ib in range(nB) for nu in range(nm)]
        if rng.integers(2):
            rows = [rows[j] for j in rng.permutation(len(rows))]
        for k, jb, ib, nu in rows:
            g = full[iq][k][nu, ib, jb]
            text += '%4d%4d' % (k[0] + 1, k[1] + 1)
            if rng.integers(2):
                text += ' 0.0 0.0' # ignored columns
            text += '%4d%4d%4d' % (jb + 1, ib + 1, nu + 1)
            text += ' %.8f %.8f\n' % (g.real, g.imag) if phase \
                else ' %.8f\n' % g
        write(ctx, 'elph%d.dat' % Q[iq], text)
    squeeze = bool(rng.integers(2))
    opt = dict(offset=below, squeeze=squeeze, phase=phase)
    if listed:
        opt['Q'] = np.array(Q)
    got = elphmod.elph.coupling(ctx.file('elph%d.dat'), nQ, nm, nk, nb, **opt)
    ref = full[..., below:below + nb, below:below + nb].transpose(0, 3, 1, 2,
        4, 5)
    if squeeze and nb == 1:
        ref = ref[..., 0, 0]
    ctx.note(nQ=nQ, nm=nm, nb=nb, nk=nk, below=below, above=above,
        phase=phase, wedge=wedge)
    ctx.close('coupling', got, ref, atol=1e-9)
    ctx.sig(full)


@check.family(4)
def coupling_of_wedge(ctx, i):
    """Coupling on complete meshes from files for irreducible q points."""
    import elphmod
    rng = ctx.rng
    nq = int(rng.integers(1, 5))
    nk = nq * int(rng.integers(1, 3 if nq < 3 else 2))
    nm, nb = map(int, rng.integers(1, 3, 2))
    T, A = rng.integers(-2, 3, (3, 4)), rng.normal(size=(3, nm, nb, nb))
    q1, q2, k1, k2 = np.meshgrid(*[np.arange(n) for n in (nq, nq, nk, nk)],
        indexing='ij')
    full = 0
    for g in c07.group(60):
        q = np.tensordot(g, [q1, q2], 1) / nq
        k = np.tensordot(g, [k1, k2], 1) / nk
        for t, x in zip(T, A):
            full = full + np.cos(2 * np.pi * (t[0] * q[0] + t[1] * q[1] + t[2]
                * k[0] + t[3] * k[1]))[..., None, None, None] * x
    irr = sorted(elphmod.bravais.irreducibles(nq))
    for n, q in enumerate(irr):
        text = ''
        for x in np.ndindex(nk, nk):
            for y in np.ndindex(nm, nb, nb):
                text += '%4d%4d%4d%4d%4d %.12f\n' % (x[0] + 1, x[1] + 1, y[2]
                    + 1, y[1] + 1, y[0] + 1, full[(*q, *x, *y)])
        write(ctx, 'g%d' % (n + 1), text)
    ctx.note(nq=nq, nk=nk, nm=nm, nb=nb)
    squeeze = bool(rng.integers(2))
    got = elphmod.elph.coupling(ctx.file('g%d'), len(irr), nm, nk, nb,
        completion=False, complete_k=True, nq=nq, squeeze=squeeze)
    ref = full.transpose(0, 1, 4, 2, 3, 5, 6)
    if squeeze and nb == 1:
        ref = ref[..., 0, 0]
    ctx.close('coupling', got, ref, atol=1e-10, scale=10.0)
    ctx.sig(full)


@check.family(8)
def printed_coupling(ctx, i):
    """Coupling printed by EPW with frequencies."""
    import elphmod
    rng = ctx.rng
    nq, nm, nb = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(
        rng.integers(1, 3))
    nk = nq * int(rng.integers(1, 3))
    fine = int(rng.integers(1, 3)) # more k points than needed
    mode = str(rng.choice(['plain', 'epf', 'defpot']))
    points = [(a, b) for a in range(nq) for b in range(nq)]
    kept = [points[j] for j in rng.permutation(len(points))[:int(rng.integers(
        1, len(points) + 1))]]
    fq = int(rng.integers(1, 4)) # more q points than needed
    between = [(a / fq, b / fq) for a in range(nq * fq) for b in range(nq * fq)
        if a % fq or b % fq]
    points += [between[j] for j in rng.permutation(len(between))[:3]]
    order = [points[j] for j in rng.permutation(len(points))]
    w = {q: abs(numbers(rng, nm, 5, 30.0)) for q in points}
    kmesh = [(a, b) for a in range(nk * fine) for b in range(nk * fine)]
    g = {(q, k): numbers(rng, (nb, nb, nm), 9) for q in points for k in kmesh}
    h = {x: numbers(rng, (nb, nb, nm), 9) for x in g}
    folded = bool(rng.integers(2)) # coordinates from -1 to 1
    if folded:
        kmesh = [kmesh[j] for j in rng.permutation(len(kmesh))]
    text = noise(rng)
    for iq, q in enumerate(order):
        text += '     iq = %7d coord.: %11.7f%11.7f%11.7f\n' % (iq + 1,
            *(np.array(q) / nq - rng.integers(2, size=2)), 0)
        for ik, k in enumerate(kmesh):
            text += '     ik = %7d coord.: %11.7f%11.7f%11.7f\n' % (ik + 1,
                *(np.array(k) / (nk * fine) - folded * rng.integers(2,
                size=2)), 0)
            text += '     ibnd     jbnd     imode   enk[eV]    enk+q[eV]  ' \
                'omega(q)[meV]   |g|[meV]\n' + '-' * 78 + '\n'
            for jb in range(nb):
                for ib in range(nb):
                    for nu in range(nm):
                        text += '%9d%9d%9d%12.4f%12.4f' % (ib + 1, jb + 1, nu
                            + 1, *rng.uniform(-5, 5, 2))
                        text += '%20.10f%20.10E\n' % ((h[q, k] if mode
                            == 'epf' else np.broadcast_to(w[q], (nb, nb, nm)))
                            [ib, jb, nu], g[q, k][ib, jb, nu])
            text += '-' * 78 + '\n'
    text += noise(rng)
    path = write(ctx, 'epw.out', text)
    squeeze = bool(rng.integers(2))
    got = elphmod.elph.read_EPW_output(path, kept, nq, nm, nk, nb,
        squeeze=squeeze, epf=mode == 'epf', defpot=mode == 'defpot')
    ref = np.empty((len(kept), nm, nk, nk, nb, nb), dtype=complex)
    for j, q in enumerate(kept):
        for k1 in range(nk):
            for k2 in range(nk):
                x = q, (k1 * fine, k2 * fine)
                v = g[x] * 1e-3
                if mode == 'epf':
                    v = (h[x] + 1j * g[x]) * 1e-3 ** 1.5
                elif mode == 'defpot':
                    v = g[x] * np.sqrt(2 * w[q]) * 1e-3 ** 1.5
                ref[j, :, k1, k2] = np.moveaxis(v, 2, 0)
    if squeeze and nb == 1:
        ref = ref[..., 0, 0]
    ctx.note(nq=nq, nm=nm, nb=nb, nk=nk, fine=fine, fq=fq, mode=mode)
    ctx.close('coupling', got, ref if mode == 'epf' else ref.real, 1e-9,
        scale=abs(ref).max())
    if mode != 'epf':
        W, G = elphmod.elph.read_prtgkk(path, len(points), nm, len(kmesh), nb)
        ctx.close('frequencies', W, np.array([w[q] for q in order]), atol=1e-9)
        ctx.close('plain list', G, np.array([[np.moveaxis(g[q, k], 2, 0) for k
            in kmesh] for q in order]).transpose(0, 2, 1, 3, 4), atol=1e-8)
    L = float(numbers(rng, (), 6))
    text = noise(rng) + '     L   %.6f\n' % L + noise(rng)
    ctx.equal('range-separation parameter', elphmod.elph.read_L(write(ctx,
        'L', text)), L)
    ctx.true('no parameter', elphmod.elph.read_L(write(ctx, 'no', noise(rng)))
        is None)
    ctx.sig(text, ref)


@check.family(4)
def poscar(ctx, i):
    """Crystal structure from VASP."""
    import elphmod
    rng = ctx.rng
    scale = float(rng.choice([1.0, round(float(rng.uniform(0.5, 4)), 4)]))
    t = numbers(rng, (3, 3), 9)
    names = [str(x) for x in rng.permutation(SPECIES)[:int(rng.integers(1,
        4))]]
    count = [int(x) for x in rng.integers(1, 5, len(names))]
    span = float(rng.choice([0, 0, 1]))
    r = {X: rng.uniform(-span, 1 + span, (n, 3)).round(9) for X, n in zip(names,
        count)}
    text = 'some title\n  %.10f\n' % scale
    for x in t:
        text += '  %15.9f %15.9f %15.9f\n' % tuple(x)
    text += '  '.join(names) + '\n' + '  '.join(map(str, count)) + '\n'
    flags = bool(rng.integers(2))
    text += flags * 'Selective dynamics\n' + 'Direct\n'
    for X in names:
        for x in r[X]:
            text += '%14.9f%14.9f%14.9f' % tuple(x) + str(rng.choice([
                '  T T T', '  F F T', '']) if flags else '') + '\n'
    if rng.integers(2): # velocities
        text += '\n' + '  0.0  0.0  0.0\n' * sum(count)
    *T, atoms = elphmod.bravais.readPOSCAR(write(ctx, 'POSCAR', text))
    ctx.close('lattice', np.array(T), scale * t, 1e-12)
    ctx.equal('species', list(atoms), names)
    for X in names:
        ctx.close('positions', atoms[X], r[X], 1e-12)
    ctx.note(scale=scale)
    ctx.sig(t)


@check.family(3)
def prepare_epw(ctx, i):
    """Files of PHonon calculation arrive where EPW looks for them."""
    import elphmod
    rng = ctx.rng
    top = ctx.file('work%d' % i)
    prefix = str(rng.choice(['pwscf', 'TaS2', 'a.b']))
    n = int(rng.integers(1, 13))
    ext = str(rng.choice(['', '.xml']))
    content = {}

    def put(path, mark):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(mark)

    out = '%s/out' % top
    put('%s/_ph0/%s.phsave/patterns.1.xml' % (out, prefix), 'patterns')
    content['%s.phsave/patterns.1.xml' % prefix] = 'patterns'
    paw = bool(rng.integers(2))
    for q in range(1, n + 1):
        put('%s/dyn%d%s' % (top, q, ext), 'dyn %d' % q)
        content['%s.dyn_q%d%s' % (prefix, q, ext)] = 'dyn %d' % q
        folder = '%s/_ph0' % out + ('/%s.q_%d' % (prefix, q) if q > 1 else '')
        for suffix in ['dvscf'] + ['dvscf_paw'] * paw:
            put('%s/%s.%s1' % (folder, prefix, suffix), '%s %d' % (suffix, q))
            content['%s.%s_q%d' % (prefix, suffix, q)] = '%s %d' % (suffix, q)
    put('%s/dyn0' % top, 'mesh')
    elphmod.elph.ph2epw('%s/dyn%s' % (top, ext if rng.integers(2) else ''),
        out, '%s/save' % top)
    got = {}
    for folder, _, files in os.walk('%s/save' % top):
        for name in files:
            path = os.path.join(folder, name)
            got[os.path.relpath(path, '%s/save' % top)] = open(path).read()
    ctx.equal('copied files', got, content)
    ctx.note(n=n, prefix=prefix, ext=ext, paw=paw)
    ctx.sig(n, prefix, ext, paw)


@check.family(1)
def quantum_espresso(ctx, i):
    """Interpolation with stand-ins for external programs."""
    import elphmod
    rng = ctx.rng
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), n=4, rmax=1,
        divide_mass=False)
    folder = ctx.file('qe%d' % i)
    os.makedirs(folder)
    nq = int(rng.integers(1, 4))
    points = [(a, b) for a in range(nq) for b in range(nq)]
    kept = [points[0]] + [points[j + 1] for j in rng.permutation(len(points)
        - 1)[:int(rng.integers(0, 3))]]
    q = [tuple(2 * np.pi * np.array(x) / nq) for x in kept]
    size = ph.size
    D = []
    for x in q:
        A = rng.normal(size=(size, size)) + 1j * rng.normal(size=(size, size))
        D.append(A + A.conj().T if any(x) else (A + A.conj().T).real + 0j)
    D = np.array(D)
    divide = bool(rng.integers(2))
    given = D.copy()
    if divide:
        M = np.repeat(ph.M, 3)
        given /= np.sqrt(np.outer(M, M))
    phid = rng.normal(size=(ph.nat, ph.nat, nq, nq, 1, 3, 3))
    elphmod.ph.write_flfrc(folder + '/ready.ifc', phid, ph.M, ph.a, ph.r,
        ph.atom_order)
    elphmod.ph.write_flfrc(folder + '/template', (np.zeros((1, 3)), np.zeros(
        (1, size, size), dtype=complex)), ph.M, ph.a, ph.r, ph.atom_order)
    for name, code in (('q2qstar.x', 'echo "$1 $2" >> %s/log\n' % folder),
            ('q2r.x', 'cat > %s/stdin\ncp %s/ready.ifc %s/out.ifc\n' % ((
            folder,) * 3))):
        with open('%s/%s' % (folder, name), 'w') as f:
            f.write('#!/bin/sh\n' + code)
        os.chmod('%s/%s' % (folder, name), 0o755)
    dyn = folder + '/dyn'
    keep = given.copy()
    opt = {x: True for x in ('apply_asr', 'apply_asr_simple', 'apply_rsr',
        'clean') if rng.integers(4) == 0}
    start = bool(rng.integers(4))
    if not start:
        opt['write_fildyn0'] = False
        if opt.get('clean'): # (removes it nevertheless)
            open(dyn + '0', 'w').close()
    ph2 = elphmod.ph.interpolate_dynamical_matrices(given, q, nq, folder
        + '/template', dyn, folder + '/out.ifc', divide_mass=divide,
        qe_prefix=folder + '/', **opt)
    ctx.equal('argument unchanged', given, keep)
    left = sorted(x for x in os.listdir(folder) if x.startswith(('dyn',
        'out')))
    ctx.equal('files left', left, [] if opt.get('clean') else sorted([*('dyn%d'
        % (x + (not start)) for x in range(len(q) + start)), 'out.ifc']))
    if start and not opt.get('clean'):
        n3, q3 = elphmod.ph.read_q(dyn + '0')
        ctx.equal('mesh in file', tuple(n3), (nq, nq, 1))
        # (file is meant for layers with in-plane wave vectors)
        ctx.close('q points in file', np.array(q3)[:, :2], np.array(q).dot(
            np.linalg.inv(ph.a).T[:2])[:, :2], 1e-6, 1e-6)
    for iq in range(len(q) * (not opt.get('clean'))):
        (Q, got), *rest = elphmod.ph.read_flfrc('%s%d' % (dyn, iq + 1))
        ctx.close('dynamical matrix', got[0], D[iq], atol=1e-8)
        ctx.close('q point', ph.a.dot(Q[0]), [*q[iq], 0], atol=1e-6)
    ctx.equal('programs', sorted(open(folder + '/log').read().split()),
        sorted(['%s%d' % (dyn, iq + 1) for iq in range(len(q))] * 2))
    stdin = open(folder + '/stdin').read()
    ctx.true('input of second program', dyn in stdin and folder + '/out.ifc'
        in stdin, stdin)
    ref = elphmod.ph.Model(folder + '/ready.ifc', **{x: True for x in opt
        if x.startswith('apply')})
    ctx.note(**opt)
    k = m.kpoint(rng)
    ctx.close('model', ph2.D(*k), ref.D(*k), 1e-12)
    ctx.sig(D)
