"""C19: input files of external codes survive a write/read round trip."""

import collections
import itertools

import numpy as np

from vmon.core import Check, Skip, fingerprint
from vmon import models as m

check = Check('C19', 'A case is one random parameter dictionary or text layout '
    'written, read, and rewritten; distinct by content; non-trivial if it '
    'holds several parameters of different type.', boost=300)

SPECIES = ['H', 'C', 'Ta', 'Ta1', 'S', 'Se', 'Fe2', 'W', 'Nb_up']
TEXT = ('abcdefghijklmnopqrstuvwxyzABCDEFTUV0123456789 ./_-+*,;:=!()&$%#@<>[]'
    '{}|~^?')


def word(rng, quotes=True):
    """String as used for titles, prefixes, folders, ..."""
    s = ''.join(rng.choice(list(TEXT), int(rng.integers(1, 25))))
    if rng.integers(2):
        s = str(rng.choice(['./', '../work/x', 'TaS2', 'a = b', 'it is 1/2 !',
            'x.save/', 'dyn', 't', 'F', 'true', '1.0', '12', '!', '/', '&end',
            'A/B & C', '1d-3', 'title = here', '(1)', "'"[:0] + 'k_points']))
    if quotes and rng.integers(4) == 0:
        q = str(rng.choice(["'", '"']))
        x = int(rng.integers(len(s) + 1))
        s = s[:x] + q + s[x:]
    return s


def number(rng, kind=None):
    kind = int(rng.integers(5)) if kind is None else kind
    if kind == 0:
        return int(rng.integers(-9, 1000))
    if kind == 1:
        return bool(rng.integers(2))
    if kind == 2:
        return float(rng.normal() * 10.0 ** rng.integers(-20, 20))
    if kind == 3:
        return float(rng.integers(-99, 99))
    return word(rng)


def wrap(rng, value):
    """Same value as a NumPy scalar."""
    if isinstance(value, (bool, int, float)) and rng.integers(4) == 0:
        return np.array(value)[()]
    return value


def pick(rng, options):
    """Random values for random subset of options."""
    out = {}
    keys = list(options)
    rng.shuffle(keys)
    for key in keys:
        if rng.integers(2):
            out[key] = options[key](rng)
    return out


def INT(rng):
    return int(rng.integers(-3, 200))


def FLOAT(rng):
    return number(rng, int(rng.integers(2, 4)))


def BOOL(rng):
    return bool(rng.integers(2))


def STR(rng):
    return word(rng)


def LIST(item):
    """One value per species or band, not all of which must be set."""
    def draw(rng):
        if rng.integers(3) == 0:
            return item(rng)
        n = int(rng.integers(2, 6))
        x = [item(rng) if rng.integers(4) else None for _ in range(n)]
        x[-1] = item(rng)
        return x
    return draw


def flatten(value):
    """Normal form for the comparison of parameters including their type."""
    if isinstance(value, dict):
        return {k: flatten(v) for k, v in value.items()}
    if isinstance(value, np.generic):
        value = value.item()
    if isinstance(value, (list, tuple)):
        return [flatten(v) for v in value]
    return type(value).__name__, value


def trip(ctx, struct, write, read, arrays={}, expected=None, suffix='in'):
    """Write, read, compare, and write again."""
    rng = ctx.rng
    ctx.note(struct=repr(struct)[:2000])
    ctx.sig(repr(sorted(struct, key=str)), len(repr(struct)))
    before = fingerprint(struct)
    name = ctx.file('first.' + suffix)
    items = list(struct.items())
    rng.shuffle(items)
    write(name, dict(items))
    ctx.equal('parameters unchanged', fingerprint(struct), before)
    got = read(name)
    expected = dict(struct if expected is None else expected)
    ctx.equal('keys', sorted(got), sorted(expected))
    for key, ref in expected.items():
        if key in arrays:
            ctx.close('array ' + key, np.array(got[key], dtype=float),
                np.array(ref, dtype=float), 1e-15, arrays[key])
        else:
            ctx.equal('parameter ' + key, flatten(got[key]), flatten(ref))
    again = ctx.file('second.' + suffix)
    write(again, got)
    with open(name) as one, open(again) as two:
        ctx.equal('same file', two.read(), one.read())
    other = read(again)
    ctx.equal('same parameters', fingerprint(other), fingerprint(got))
    return got


CONTROL = dict(title=STR, prefix=STR, outdir=STR, pseudo_dir=STR, tprnfor=BOOL,
    tstress=BOOL, nstep=INT, forc_conv_thr=FLOAT)
SYSTEM = dict(ibrav=INT, a=FLOAT, b=FLOAT, c=FLOAT, cosbc=FLOAT, cosac=FLOAT,
    cosab=FLOAT, ecutwfc=FLOAT, ecutrho=FLOAT, nbnd=INT, occupations=STR,
    smearing=STR, degauss=FLOAT, nosym=BOOL, noinv=BOOL, tot_charge=FLOAT,
    assume_isolated=STR, nspin=INT, noncolin=BOOL, lspinorb=BOOL,
    tot_magnetization=FLOAT, starting_magnetization=LIST(FLOAT),
    space_group=INT, uniqueb=BOOL, origin_choice=INT, rhombohedral=BOOL)
ELECTRONS = dict(electron_maxstep=INT, conv_thr=FLOAT, diagonalization=STR,
    diago_full_acc=BOOL, mixing_beta=FLOAT, startingpot=STR, startingwfc=STR,
    scf_must_converge=BOOL)
IONS = dict(ion_dynamics=STR, upscale=FLOAT)
CELL = dict(cell_dynamics=STR, cell_dofree=STR, press=FLOAT,
    press_conv_thr=FLOAT)


@check.family(12)
def pwscf(ctx, i):
    """Input files of pw.x."""
    import elphmod
    rng = ctx.rng
    struct = {**pick(rng, CONTROL), **pick(rng, SYSTEM),
        **pick(rng, ELECTRONS)}
    if rng.integers(4):
        calc = str(rng.choice(['scf', 'nscf', 'bands', 'relax', 'md',
            'vc-relax', 'vc-md']))
        struct['calculation'] = calc
        if calc in {'relax', 'md', 'vc-relax', 'vc-md'}:
            struct.update(pick(rng, IONS))
        if calc in {'vc-relax', 'vc-md'}:
            struct.update(pick(rng, CELL))
    expected = {}
    if rng.integers(3):
        celldm = [float(rng.uniform(0.1, 40)) if rng.integers(3) else
            [0.0, None, 0][rng.integers(3)] for _ in range(rng.integers(1, 7))]
        struct['celldm'] = celldm
        kept = [x or None for x in celldm]
        while kept and kept[-1] is None:
            kept.pop()
        expected['celldm'] = kept
    ntyp = int(rng.integers(1, 5))
    nat = int(rng.integers(1, 12))
    species = [str(x) for x in rng.permutation(SPECIES)[:ntyp]]
    struct.update(ntyp=ntyp, nat=nat, at_species=species,
        mass=[float('%.10g' % x) for x in rng.uniform(1, 250, ntyp)],
        pp=['%s.%s-hgh.UPF' % (x, rng.integers(99)) for x in species],
        at=[species[x] for x in rng.integers(ntyp, size=nat)])
    struct['coords'] = str(rng.choice(['alat', 'bohr', 'angstrom', 'crystal',
        'crystal_sg']))
    arrays = dict(mass=1e-9)
    if struct['coords'] == 'crystal_sg':
        struct['r'] = [str(x) for x in rng.choice(['1a', '2b', '3c', '12f'],
            nat)]
    else:
        struct['r'] = rng.uniform(-20, 20, (nat, 3))
        arrays['r'] = 0.51e-9
    if rng.integers(5):
        ktyp = str(rng.choice(['automatic', 'gamma', 'tpiba', 'crystal',
            'tpiba_b', 'crystal_b', 'tpiba_c', 'crystal_c']))
        struct['ktyp'] = ktyp
        if ktyp == 'automatic':
            struct['k_points'] = [int(x) for x in (*rng.integers(1, 100, 3),
                *rng.integers(2, size=3))]
        elif ktyp != 'gamma':
            struct['nks'] = int(rng.integers(1, 20))
            k = rng.uniform(-2, 2, (struct['nks'], 4))
            k[:, 3] = rng.integers(0, 60, len(k)) if rng.integers(2) \
                else rng.uniform(0, 1, len(k))
            struct['k_points'] = k
            arrays['k_points'] = 0.51e-9
    if rng.integers(2):
        struct['r_cell'] = rng.uniform(-30, 30, (3, 3))
        struct['cell_units'] = str(rng.choice(['bohr', 'angstrom', 'alat']))
        arrays['r_cell'] = 0.51e-9
    for key in struct:
        struct[key] = wrap(rng, struct[key])
    expected = {**struct, **expected}
    if not expected.get('celldm', True):
        del expected['celldm']
    trip(ctx, struct, elphmod.bravais.write_pwi, elphmod.bravais.read_pwi,
        arrays, expected, 'pwi')


@check.family(4)
def layout(ctx, i):
    """Same PWscf input in different layouts."""
    import elphmod
    rng = ctx.rng
    ntyp = int(rng.integers(1, 4))
    nat = int(rng.integers(1, 6))
    species = [str(x) for x in rng.permutation(SPECIES)[:ntyp]]
    struct = dict(ibrav=0, ntyp=ntyp, nat=nat, prefix='x',
        calculation='vc-relax', press=0.5, upscale=20.0, at_species=species,
        mass=[float('%.5g' % x) for x in rng.uniform(1, 250, ntyp)],
        pp=['%s.UPF' % x for x in species],
        at=[species[x] for x in rng.integers(ntyp, size=nat)],
        coords='crystal', r=rng.uniform(-1, 1, (nat, 3)).round(9),
        ktyp='automatic', k_points=[1, 2, 3, 0, 1, 0],
        r_cell=rng.uniform(-9, 9, (3, 3)).round(9), cell_units='angstrom')
    name = ctx.file('a.pwi')
    elphmod.bravais.write_pwi(name, struct)
    with open(name) as text:
        lines = text.read().split('\n')
    heads = [n for n, x in enumerate(lines) if x[:8] in ('ATOMIC_S',
        'ATOMIC_P', 'K_POINTS', 'CELL_PAR')]
    blocks = [lines[x:y] for x, y in zip(heads, [*heads[1:], None])]
    rng.shuffle(blocks)
    style = rng.integers(2, size=5)
    out = list(lines[:heads[0]])
    for block in blocks:
        block = [x for x in block if x.strip()]
        head = block[0].split()
        if style[0]:
            head[0] = head[0].lower() if rng.integers(2) else head[0].title()
        if style[1] and len(head) > 1 and head[0][0] in 'Aa':
            head[1] = str(rng.choice(['{%s}', '(%s)', '{ %s }'][0:1])) % \
                head[1]
        out += [''] * int(rng.integers(3)) + [' ' * int(rng.integers(3))
            + '  '.join(head)]
        out += [' ' * int(rng.integers(4)) + x.replace(' ', ' ' * int(
            rng.integers(1, 4))) + ' ' * int(rng.integers(3))
            for x in block[1:]]
    other = ctx.file('b.pwi')
    with open(other, 'w') as text:
        text.write('\n'.join(out) + '\n' * int(rng.integers(3)))
    ctx.note(text='\n'.join(out))
    a = elphmod.bravais.read_pwi(name)
    b = elphmod.bravais.read_pwi(other)
    ctx.equal('same parameters', sorted(a), sorted(b))
    for key in a:
        ctx.equal('same ' + key, fingerprint(b[key]), fingerprint(a[key]))
    for key in struct:
        ctx.true('complete', key in a)


@check.family(4)
def structure(ctx, i):
    """Crystal structure of mass-spring model."""
    import elphmod
    rng = ctx.rng
    ph = m.phonon(rng, divide_mass=bool(rng.integers(2)), rmax=1, n=2,
        nat=int(rng.integers(1, 8)))
    name = ctx.file('x.pwi')
    before = fingerprint(ph)
    more = dict(ecutwfc=float(rng.uniform(10, 90)), prefix=word(rng),
        ktyp='automatic', k_points=[int(x) for x in rng.integers(1, 9, 6)])
    ph.to_pwi(name, **more)
    ctx.equal('model unchanged', fingerprint(ph), before)
    pw = elphmod.bravais.read_pwi(name)
    ctx.note(nat=ph.nat, atoms=list(ph.atom_order))
    for key in more:
        ctx.equal('parameter ' + key, flatten(pw[key]), flatten(more[key]))
    ctx.equal('number of atoms', pw['nat'], ph.nat)
    ctx.equal('atoms', pw['at'], list(ph.atom_order))
    ctx.equal('species', sorted(pw['at_species']), sorted(set(ph.atom_order)))
    mass = dict(zip(pw['at_species'], pw['mass']))
    first = [ph.M[list(ph.atom_order).index(X)] for X in ph.atom_order]
    ctx.close('masses', np.array([mass[X] for X in ph.atom_order])
        * elphmod.misc.uRy, np.array(first), 1e-10)
    alat = np.linalg.norm(ph.a[0])
    units = dict(alat=alat, bohr=1.0, angstrom=1 / elphmod.misc.a0)
    cell = np.array(pw['r_cell']) * units[pw['cell_units']]
    ctx.close('lattice', cell, ph.a, 1e-8, 1e-9 * alat)
    r = pw['r'].dot(cell) if pw['coords'] == 'crystal' \
        else pw['r'] * units[pw['coords']]
    ctx.close('positions', r, ph.r, 1e-8, 5e-9 * abs(ph.a).sum())


@check.family(10)
def wannier90(ctx, i):
    """Input files of wannier90.x."""
    import elphmod
    rng = ctx.rng
    struct = pick(rng, dict(num_bands=INT, num_wann=INT, dis_win_min=FLOAT,
        dis_win_max=FLOAT, dis_froz_min=FLOAT, dis_froz_max=FLOAT,
        write_hr=BOOL, bands_plot=BOOL, wannier_plot=BOOL, dis_num_iter=INT,
        num_iter=INT, search_shells=INT))
    arrays = {}
    if rng.integers(2):
        struct['proj'] = {str(x): str(rng.choice(['s', 'p', 'd', 'dz2;dxz',
            'l=2,mr=1,4,5', 'sp3:z=0,0,1', 'pz']))
            for x in rng.choice(['Ta', 'S', 'C1', 'f=0.3,0.4,0.5', 'W',
            'c=1.0,-2.0,0.5'], int(rng.integers(1, 5)))}
    if rng.integers(2):
        struct['kpoint_path'] = ['G 0.0 0.0 0.0 M 0.5 %.5f 0.0'
            % rng.normal() for _ in range(int(rng.integers(1, 5)))]
    if rng.integers(2):
        struct['unit_cell'] = rng.uniform(-20, 20, (3, 3))
        arrays['unit_cell'] = 0.51e-9
    if rng.integers(2):
        nat = int(rng.integers(1, 8))
        struct['atoms_coords'] = str(rng.choice(['frac', 'cart']))
        struct['at'] = [SPECIES[x] for x in rng.integers(len(SPECIES),
            size=nat)]
        struct['atoms'] = rng.uniform(-20, 20, (nat, 3))
        arrays['atoms'] = 0.51e-9
    if rng.integers(2):
        struct['mp_grid'] = rng.integers(1, 4, 3)
        if rng.integers(2):
            struct['mp_grid'] = [int(x) for x in struct['mp_grid']]
        arrays['mp_grid'] = 0.0
        if rng.integers(2):
            struct['kpoints'] = rng.uniform(-1, 1,
                (int(np.prod(struct['mp_grid'])), 4))
            arrays['kpoints'] = 0.51e-9
    for key in struct:
        struct[key] = wrap(rng, struct[key])
    name = []
    got = trip(ctx, struct, elphmod.bravais.write_win,
        elphmod.bravais.read_win, arrays, suffix='win')
    # all separators are equivalent:
    with open(ctx.file('first.win')) as text:
        lines = text.read().split('\n')
    out = []
    inside = False
    for line in lines:
        if line.startswith('begin'):
            inside = True
        if not inside and line.strip():
            key, value = line.replace(':', '=').split('=')
            line = '%s%s%s%s' % (key.strip().upper() if rng.integers(3) == 0
                else key.strip(), rng.choice([' ', '=', ' = ', ':', ' : ',
                '\t', '= ']), value.strip(), rng.choice(['', ' ', '  ']))
        elif inside:
            line = ' ' * int(rng.integers(2) * (not line.startswith('end')
                )) + line + ' ' * int(rng.integers(2))
        if line.strip().startswith('end'):
            inside = False
        out.append(line)
        if not inside and rng.integers(3) == 0:
            out.append(str(rng.choice(['', '! comment', '  '])))
    with open(ctx.file('third.win'), 'w') as text:
        text.write('\n'.join(out))
    other = elphmod.bravais.read_win(ctx.file('third.win'))
    for key in got:
        ctx.true('found ' + key, key in other)
        ctx.equal('same ' + key, fingerprint(other[key]),
            fingerprint(got[key]))


@check.family(4)
def phonons(ctx, i):
    """Input files of ph.x and q2r.x."""
    import elphmod
    rng = ctx.rng
    struct = pick(rng, dict(prefix=STR, outdir=STR, fildyn=STR, fildvscf=STR,
        ldisp=BOOL, nq1=INT, nq2=INT, nq3=INT, tr2_ph=FLOAT,
        alpha_mix=LIST(FLOAT), cdfpt=BOOL, subspace=STR,
        cdfpt_bnd=LIST(INT), cdfpt_orb=LIST(INT)))
    for key in struct:
        struct[key] = wrap(rng, struct[key])
    trip(ctx, struct, elphmod.bravais.write_ph, elphmod.bravais.read_ph)
    struct = pick(rng, dict(fildyn=STR, flfrc=STR, zasr=STR))
    trip(ctx, struct, elphmod.bravais.write_q2r, elphmod.bravais.read_q2r)


@check.family(6)
def matdyn(ctx, i):
    """Input files of matdyn.x."""
    import elphmod
    rng = ctx.rng
    struct = pick(rng, dict(flfrc=STR, flfrq=STR, fldos=STR, fleig=STR,
        flvec=STR, asr=STR, loto_2d=BOOL, q_in_band_form=BOOL,
        q_in_cryst_coord=BOOL))
    if rng.integers(3):
        struct['nq'] = int(rng.integers(1, 15))
        struct['q'] = rng.uniform(-3, 3, (struct['nq'], int(rng.integers(3,
            5))))
        if struct['q'].shape[1] == 4:
            struct['q'][:, 3] = rng.integers(0, 50, struct['nq'])
    trip(ctx, struct, elphmod.bravais.write_matdyn,
        elphmod.bravais.read_matdyn, dict(q=0.51e-9))


@check.family(6)
def epw(ctx, i):
    """Input files of epw.x."""
    import elphmod
    rng = ctx.rng
    struct = pick(rng, dict(prefix=STR, outdir=STR, dvscf_dir=STR,
        wannierize=BOOL, elph=BOOL, epbwrite=BOOL, epwwrite=BOOL, epbread=BOOL,
        epwread=BOOL, use_ws=BOOL, nbndsub=INT, bands_skipped=STR,
        dis_win_min=FLOAT, dis_win_max=FLOAT, dis_froz_min=FLOAT,
        dis_froz_max=FLOAT, num_iter=INT, nk1=INT, nk2=INT, nk3=INT, nq1=INT,
        nq2=INT, nq3=INT, nkf1=INT, nkf2=INT, nkf3=INT, nqf1=INT, nqf2=INT,
        nqf3=INT))
    for key in 'proj', 'wdata':
        if rng.integers(2):
            struct[key] = [word(rng) if rng.integers(4) else None
                for _ in range(int(rng.integers(1, 15)))]
            struct[key][-1] = word(rng)
    trip(ctx, struct, elphmod.bravais.write_epw, elphmod.bravais.read_epw)


def literal(rng, value):
    """Random Fortran representation of value."""
    if isinstance(value, bool):
        return str(rng.choice([['.false.', 'F', '.F.', 'false', '.FALSE.',
            'f', '.f.'], ['.true.', 'T', '.T.', 'true', '.TRUE.', 't', '.t.']]
            [value]))
    if isinstance(value, int):
        return ('+' if value >= 0 and rng.integers(4) == 0 else '') \
            + str(value)
    if isinstance(value, float):
        s = str(rng.choice(['%.17g', '%.16e', '%.16E'])) % value
        if '.' not in s and 'e' not in s and 'E' not in s:
            s += str(rng.choice(['.', '.0', '.d0', 'd0', 'E0', '.0D+00']))
        elif 'e' in s or 'E' in s:
            s = s.replace('e', 'E').replace('E', str(rng.choice(list('eEdD'))))
        else:
            s += str(rng.choice(['', 'd0', 'D0', 'e0', 'E+00', 'D-0']))
        return s
    quotes = [q for q in '\'"' if q not in value]
    q = str(rng.choice(quotes))
    return q + value + q


def case(rng, text):
    return ''.join(c.upper() if rng.integers(2) else c for c in text) \
        if rng.integers(2) else text


COMMENTS = ['! a comment', '!', '! a = 1, b = 2', "! it's /", '! "',
    '! &input', '! / &x y = 1 /']


def random_namelists(rng, names, keys):
    """Text of namelists in random layout and the parameters they hold."""
    def gap(force=True):
        s = ''
        while force and not s.strip(' \t') and not s or rng.integers(4) == 0:
            s += str(rng.choice([' ', '\n', '\t', '  ', '\n\n', ' ' + str(
                rng.choice(COMMENTS)) + '\n']))
        return s

    def blank():
        return ' ' * int(rng.integers(3))

    data = {}
    text = ''
    for name in names:
        data[name] = {}
        text += '&' + case(rng, name) + gap()
        for key in rng.permutation(keys)[:int(rng.integers(0, 8))]:
            key = str(key)
            kind = int(rng.integers(5))
            n = int(rng.choice([1, 1, 1, 2, 3, 6]))
            values = [number(rng, kind) for _ in range(n)]
            form = int(rng.integers(4))
            first = 1
            if form == 0 and n > 1: # elementwise, random order, with gaps
                for x in range(n - 1):
                    if rng.integers(4) == 0:
                        values[x] = None
                parts = []
                for x in rng.permutation(n):
                    if values[x] is not None:
                        parts.append('%s%s(%s%d%s)%s=%s%s' % (case(rng, key),
                            blank(), blank(), x + 1, blank(), blank(), blank(),
                            literal(rng, values[x])))
                for part in parts:
                    text += part + str(rng.choice([',', ' , ', ';', ' ', '\n',
                        ',\n'])) + gap(False)
            else:
                if form == 1:
                    first = int(rng.integers(1, 4))
                    head = '%s%s(%s%d%s)' % (case(rng, key), blank(), blank(),
                        first, blank())
                else:
                    head = case(rng, key)
                text += head + gap(False) + '=' + gap(False)
                for value in values:
                    text += literal(rng, value) + str(rng.choice([',', ' , ',
                        ' ', '\n', ',\n', '\t', ' ! comment = 1 /\n'])) \
                        + gap(False)
                values = [None] * (first - 1) + values
            data[name][key] = values if len(values) > 1 else values[0]
        text += str(rng.choice(['/', ' /', '\n/']))
        if name != names[-1]:
            text += str(rng.choice(['\n', '\n\n', '\n! comment\n']))
    return text, data


@check.family(16)
def namelists(ctx, i):
    """Namelists in random layout."""
    import elphmod
    rng = ctx.rng
    keys = ['prefix', 'ecutwfc', 'a', 'b', 'c', 'celldm', 'nat', 't', 'f',
        'd1', 'e_2', 'proj', 'true', 'outdir', 'nq1', 'hubbard_u']
    names = [str(x) for x in rng.permutation(['input', 'control', 'system',
        'ions', 'inputph', 'x_1'])[:int(rng.integers(1, 4))]]
    text, data = random_namelists(rng, names, keys)
    text = str(rng.choice(['', '\n', 'title line\n', '! comment\n'])) + text
    text += str(rng.choice(['\n', '\n\n', '\n0.0 0.0 0.0\n',
        '\nATOMIC_SPECIES\nC 12.0 C.upf\n', '\n! comment\n']))
    ctx.note(text=text)
    ctx.sig(text[:200])
    name = ctx.file('x.in')
    with open(name, 'w') as out:
        out.write(text)
    got = elphmod.misc.read_namelists(name)
    ctx.equal('namelists', sorted(got), sorted(data))
    for name in names:
        ctx.equal('keys', sorted(got[name]), sorted(data[name]))
        for key in data[name]:
            ctx.equal('value', flatten(got[name][key]),
                flatten(data[name][key]))
    merged = {}
    for name in names:
        merged.update(data[name])
    got = elphmod.misc.read_input_data(ctx.file('x.in'))
    ctx.equal('all namelists', flatten(got), flatten(merged))


@check.family(6)
def matdyn_layout(ctx, i):
    """Input files of matdyn.x in random layout."""
    import elphmod
    rng = ctx.rng
    text, data = random_namelists(rng, ['input'], ['flfrc', 'flfrq', 'fldos',
        'asr', 'loto_2d', 'q_in_band_form', 'amass'])
    text = str(rng.choice(['', '\n', '! comment\n', '! a/b\n'])) + text
    text += str(rng.choice(['\n', '\n\n', ' \n']))
    expected = dict(data['input'])
    if rng.integers(3):
        nq = expected['nq'] = int(rng.integers(1, 15))
        q = rng.uniform(-3, 3, (nq, int(rng.integers(3, 5))))
        if q.shape[1] == 4:
            q[:, 3] = rng.integers(0, 50, nq)
        text += '%s%d\n' % (' ' * int(rng.integers(3)), nq)
        for x in q:
            text += '%.12f %.12f %.12f' % tuple(x[:3])
            text += ' %d' % x[3] if len(x) == 4 else ''
            text += str(rng.choice(['', '', ' ', ' ! X', ' ! a/b']
                if len(x) == 4 else ['', ' '])) + '\n'
    ctx.note(text=text)
    ctx.sig(text[:200])
    name = ctx.file('matdyn.in')
    with open(name, 'w') as out:
        out.write(text)
    got = elphmod.bravais.read_matdyn(name)
    if 'nq' in expected:
        ctx.close('q points', np.array(got.pop('q')), q, 0, 0.51e-12)
    ctx.equal('parameters', flatten(got), flatten(expected))


def expression(rng, depth, sd, od, cd):
    """Random bracket expression together with its expansion."""
    text = []
    result = []
    for _ in range(int(rng.integers(1, 4))):
        pieces = []
        options = ['']
        for _ in range(int(rng.integers(0, 4))):
            if depth and rng.integers(2):
                t, r = expression(rng, depth - 1, sd, od, cd)
                pieces.append(od + t + cd)
                options = [x + y for x in options for y in r]
            else:
                t = ''.join(rng.choice(list('abcXYZ0189._-+=/'),
                    int(rng.integers(1, 4))))
                pieces.append(t)
                options = [x + t for x in options]
        text.append(' ' * int(rng.integers(3)) + ''.join(pieces)
            + ' ' * int(rng.integers(3)))
        result += options
    return sd.join(text), result


@check.family(16)
def brackets(ctx, i):
    """Brace expansion."""
    import elphmod
    rng = ctx.rng
    sd, od, cd = [(',', '{', '}'), (';', '[', ']'), (',', '(', ')'),
        ('|', '<'[:0] + '{', '}'), ('&', '$', '~')][rng.integers(5)]
    while True:
        text, ref = expression(rng, int(rng.integers(0, 4)), sd, od, cd)
        if len(ref) <= 300:
            break
    ctx.note(text=text, delimiters=(sd, od, cd))
    ctx.sig(text)
    if (sd, od, cd) == (',', '{', '}'):
        got = list(elphmod.misc.split(text))
    else:
        got = list(elphmod.misc.split(text, sd, od, cd))
    ctx.equal('elements', collections.Counter(got), collections.Counter(ref))
    if len(ref) == len(set(ref)) == 1:
        ctx.equal('single element', got, ref)


@check.family(8)
def respack(ctx, i):
    """Matrices in RESPACK format."""
    import elphmod
    rng = ctx.rng
    R = m.vectors(rng, int(rng.integers(1, 9)), int(rng.integers(1, 4)), 2)
    nb = int(rng.integers(1, 5))
    data = rng.normal(size=(len(R), nb, nb)) \
        + 1j * rng.normal(size=(len(R), nb, nb))
    data *= 10.0 ** rng.integers(-3, 3)
    name = ctx.file('dat.h_mat_r')
    ctx.note(nb=nb, R=R)
    with open(name, 'w') as text:
        text.write('# header 1\n# header 2\n# header 3\n')
        for n in range(len(R)):
            text.write('%4d%4d%4d\n' % tuple(R[n]))
            for x in itertools.product(range(nb), repeat=2):
                text.write('%4d%4d%20.12E%20.12E\n' % (x[0] + 1, x[1] + 1,
                    data[n][x].real, data[n][x].imag))
            text.write('\n')
    S, got = elphmod.misc.read_dat_mat(name)
    ctx.equal('lattice vectors', S, R)
    ctx.close('matrix elements', got, data, 1e-12)
