"""C24: calculations leave their inputs alone and are repeatable."""

import os

import numpy as np

from vmon import models as m
from vmon import pure
from vmon.core import Check, Skip, Violation
from vmon.checks import (c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13,
    c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c25, c26)

check = Check('C24', 'A case is one program; distinct by the random input. '
    'Programs of other checks run here for their sequences of calls only, '
    'their own oracles are switched off.')
check.watch = pure

for other in (c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15,
        c16, c17, c18, c19, c20, c21, c22, c23, c25, c26):
    check.replay(other.check, 4, "constants")


class Pool:
    """Models that are derived from each other and changed in place."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.items = [] # (kind, model)
        self.arrays = [] # (what, result)

    def add(self, kind, x):
        self.items.append((kind, x))
        if len(self.items) > 14:
            del self.items[int(self.rng.integers(5, len(self.items)))]

    def pick(self, *kinds):
        some = [x for kind, x in self.items if kind in kinds]
        return some[int(self.rng.integers(len(some)))] if some else None

    def got(self, what, *results):
        for x in results:
            if isinstance(x, (tuple, list)):
                self.got(what, *x)
            elif isinstance(x, np.ndarray) and x.size and x.dtype.kind \
                    in 'fc' and x.flags.writeable:
                self.arrays.append((what, x))


def small(rng):
    N = [1, 1, 1]
    N[int(rng.integers(3))] = int(rng.integers(1, 3))
    return N


def electrons(pool, el):
    """Something to be done with tight-binding model."""
    import elphmod
    rng, ctx = pool.rng, pool.ctx
    k = m.kpoint(rng)
    op = int(rng.integers(15))
    if op == 0 and el.size < 10:
        pool.add('el', el.supercell(*small(rng)))
    elif op == 1 and len(el.cells) > 1:
        pool.add('el', el.unit_cell())
    elif op == 2:
        el.standardize(eps=float(rng.choice([0.0, 1e-3])),
            symmetrize=bool(rng.integers(2)))
    elif op == 3:
        el.symmetrize()
    elif op == 4:
        el.order_orbitals(*rng.permutation(el.size))
    elif op == 5:
        el.shift_orbitals(slice(0, int(rng.integers(el.size + 1))),
            tuple(map(int, rng.integers(-1, 2, 3))))
    elif op == 6:
        pool.got('H', el.H(*k))
    elif op == 7:
        pool.got('v', el.v(*k)) if hasattr(el, 'a') else None
        el.t(*el.R[rng.integers(len(el.R))]) # (view of the data)
    elif op == 8:
        el.to_hrdat(ctx.file('el%d' % rng.integers(3)))
    elif op == 9 and os.path.exists(ctx.file('el0_hr.dat')):
        pool.add('el', elphmod.el.Model(ctx.file('el0'), rydberg=bool(
            rng.integers(2)), divide_ndegen=bool(rng.integers(2))))
    elif op == 10:
        pool.got('dispersion', elphmod.dispersion.dispersion(el.H,
            rng.uniform(-4, 4, (3, 3)), order=bool(rng.integers(2)),
            vectors=bool(rng.integers(2))))
    elif op == 11:
        pool.got('full dispersion', elphmod.dispersion.dispersion_full_nosym(
            el.H, 3, vectors=bool(rng.integers(2))))
    elif op == 12:
        nk = tuple(map(int, rng.integers(1, 4, 3)))
        H = elphmod.dispersion.sample(el.H, elphmod.bravais.mesh(*nk))
        new = elphmod.el.Model()
        a = m.lattice(rng)
        r = rng.uniform(size=(el.size, 3)).dot(a)
        elphmod.el.k2r(new, H, a, r)
        pool.got('sampled', H)
        pool.add('el', new)
    elif op == 13:
        pool.got('decay', elphmod.el.decayH(ctx.file('el0'))) \
            if os.path.exists(ctx.file('el0_wsvec.dat')) else None
    else:
        e = elphmod.dispersion.sample(el.H, elphmod.bravais.mesh(2, 2))
        e = np.linalg.eigvalsh(e)
        pool.got('self-energy', elphmod.diagrams.phonon_self_energy(
            [(0.0, 0.0), (np.pi, 0.0)], e, kT=0.3, occupations=str(
            rng.choice(['fd', 'mp', 'gauss', 'mv']))))


def phonons(pool, ph):
    """Something to be done with mass-spring model."""
    import elphmod
    rng, ctx = pool.rng, pool.ctx
    q = m.kpoint(rng)
    op = int(rng.integers(20))
    if op == 0 and ph.nat < 5:
        pool.add('ph', ph.supercell(*small(rng)))
    elif op == 1 and len(ph.cells) > 1 and ph.nat > 1:
        pool.add('ph', ph.unit_cell())
    elif op == 2:
        ph.standardize(eps=float(rng.choice([0.0, 1e-3])),
            symmetrize=bool(rng.integers(2)))
    elif op == 3:
        ph.symmetrize()
    elif op == 4:
        ph.order_atoms(*rng.permutation(ph.nat))
    elif op == 5:
        ph.shift_atoms(slice(0, int(rng.integers(ph.nat + 1))),
            tuple(map(int, rng.integers(-1, 2, 3))))
    elif op == 6:
        pool.got('D', ph.D(*q))
    elif op == 7:
        ph.C(*ph.R[rng.integers(len(ph.R))])
    elif op == 8 and ph.lr:
        pool.got('D_lr', ph.D_lr(*q))
    elif op == 9:
        ph.to_flfrc(ctx.file('ph%d' % rng.integers(2)), 2, 1, 2)
    elif op == 10 and os.path.exists(ctx.file('ph0')):
        pool.add('ph', elphmod.ph.Model(ctx.file('ph0'), divide_mass=bool(
            rng.integers(2)), apply_asr_simple=bool(rng.integers(2)),
            lr=bool(rng.integers(2))))
    elif op == 11:
        ph.to_pwi(ctx.file('pwi'), calculation='scf')
    elif op == 12 and ph.nat < 3:
        elphmod.ph.sum_rule_correction(ph, report=False)
    elif op == 13:
        pool.got('sum', ph.sum_force_constants())
        pool.got('decay', ph.decay())
    elif op == 14:
        pool.got('sample', ph.sample_orig() if hasattr(ph, 'nq') else None)
    elif op == 15:
        D = elphmod.dispersion.sample(ph.D, elphmod.bravais.mesh(2, 1, 2))
        new = elphmod.ph.Model(amass=ph.M, at=ph.a, tau=ph.r,
            atom_order=ph.atom_order, divide_mass=ph.divide_mass,
            epsil=ph.eps, zeu=ph.Z, Q=ph.Q)
        elphmod.ph.q2r(new, D_full=D, nq=(2, 1, 2),
            divide_mass=ph.divide_mass, apply_asr_simple=bool(
            rng.integers(2)))
        pool.got('sampled', D)
        pool.add('ph', new)
    elif op == 16:
        D = elphmod.dispersion.sample(ph.D, elphmod.bravais.mesh(3, 2, 1))
        nq = getattr(ph, 'nq', None)
        elphmod.ph.q2r(ph, D_full=D, nq=(3, 2, 1),
            divide_mass=ph.divide_mass)
        pool.got('sampled', D)
    elif op == 17:
        w2, U = elphmod.dispersion.dispersion(ph.D, rng.uniform(-4, 4, (3,
            3)), vectors=True)
        pool.got('dispersion', w2, U, elphmod.ph.sgnsqrt(w2))
    elif op == 18 and hasattr(ph, 'D0'):
        ph.update_short_range(apply_asr_simple=bool(rng.integers(2)))
    else:
        D = elphmod.dispersion.sample(ph.D, elphmod.bravais.mesh(2, 2))
        w = np.array([0.1, 0.3])
        pool.got('spectrum', elphmod.ph.spectral_function(np.repeat(
            D[..., None], 2, axis=-1), w, 0.05))


def couplings(pool, elph):
    """Something to be done with electron-phonon model."""
    import elphmod
    rng, ctx = pool.rng, pool.ctx
    q, k = m.kpoint(rng), m.kpoint(rng)
    op = int(rng.integers(15))
    if op == 0 and elph.data.size < 3000:
        sc = elph.supercell(*small(rng))
        pool.add('elph', sc)
        pool.add('el', sc.el)
        pool.add('ph', sc.ph)
    elif op == 1:
        elph.standardize(eps=float(rng.choice([0.0, 1e-3])),
            symmetrize=bool(rng.integers(2)))
    elif op == 2:
        elph.symmetrize()
    elif op == 3:
        elph.asr(report=False)
    elif op in (4, 5, 6):
        pool.got('g', elph.g(*q, *k, elbnd=bool(rng.integers(2)),
            phbnd=bool(rng.integers(2)), broadcast=bool(rng.integers(2))))
    elif op == 7:
        elph.gR(*elph.Rg[rng.integers(len(elph.Rg))],
            *elph.Rk[rng.integers(len(elph.Rk))])
    elif op == 8:
        pool.got('g_lr', elph.g_lr(*q)) if elph.ph.lr else None
    elif op in (9, 10):
        nk = (2, 1, 2)
        qs = elphmod.bravais.mesh(*nk, flat=True)
        opt = {}
        if rng.integers(2):
            e, opt['U'] = elphmod.dispersion.dispersion_full_nosym(
                elph.el.H, 2, vectors=True)
            nk, qs = (2, 2), elphmod.bravais.mesh(2, 2, flat=True)
        if rng.integers(2):
            w2, opt['u'] = elphmod.dispersion.dispersion(elph.ph.D, qs,
                vectors=True)
        g = elph.sample(qs, nk, squared=bool(rng.integers(2)), **opt)
        pool.got('sampled', g)
    elif op == 11:
        pool.got('decay', elph.decay_epmate(), elph.decay_epmatp())
    elif op == 12:
        elph.to_epmatwp(ctx.file('elph'))
    elif op == 13:
        nq = nk = (2, 1, 1)
        g = elph.sample(elphmod.bravais.mesh(*nq, flat=True), nk)
        r = rng.uniform(size=(elph.el.size, 3)).dot(elph.ph.a)
        elphmod.elph.q2r(elph, nq, nk, g, r, elph.divide_mass)
        pool.got('sampled', g)
    else:
        new = elphmod.elph.Model(el=elph.el, ph=elph.ph, Rk=elph.Rk,
            Rg=elph.Rg, dk=np.ones((1, 1, len(elph.Rk)), dtype=int),
            dg=np.ones((1, 1, 1, len(elph.Rg)), dtype=int),
            divide_mass=elph.divide_mass)
        new.data[...] = elph.data
        pool.add('elph', new)


def interactions(pool, elel):
    """Something to be done with interaction model."""
    import elphmod
    rng, ctx = pool.rng, pool.ctx
    op = int(rng.integers(6))
    if op == 0 and elel.size < 10:
        pool.add('elel', elel.supercell(*small(rng)))
    elif op == 1:
        elel.standardize(eps=float(rng.choice([0.0, 1e-3])))
    elif op == 2:
        pool.got('W', elel.W(*m.kpoint(rng)))
    elif op == 3:
        elel.WR(*elel.R[rng.integers(len(elel.R))])
    elif op == 4:
        elel.to_Wmat(ctx.file('W%d' % rng.integers(2)))
    elif os.path.exists(ctx.file('W0')):
        pool.add('elel', elphmod.elel.Model(Wmat=ctx.file('W0')))


KINDS = dict(el=electrons, ph=phonons, elph=couplings, elel=interactions)


@check.family(80)
def histories(ctx, i):
    """Random sequences of operations on models derived from each other."""
    rng = ctx.rng
    pure.monitor.limit = 60
    pool = Pool(ctx)
    ph = m.phonon(rng, nat=int(rng.integers(1, 3)), n=3, rmax=1,
        polar=rng.integers(3) == 0, asr=bool(rng.integers(2)),
        divide_mass=bool(rng.integers(2)))
    el = m.electrons(rng, size=int(rng.integers(1, 3)), n=3, rmax=1)
    if rng.integers(2):
        el.rydberg = True
    elph = m.coupling(rng, el, ph, n=3, divide_mass=ph.divide_mass)
    if ph.lr:
        pool.items += [('el', el), ('ph', ph)]
    else:
        pool.items += [('elph', elph), ('el', el), ('ph', ph)]
    pool.items += [('elel', m.coulomb(rng, n=3)), ('ph', m.phonon(rng, nat=2,
        n=3, rmax=1))]
    monitor = pure.monitor
    monitor.kept += [(x, 'model ' + kind) for kind, x in pool.items]
    steps = []
    for step in range(int(rng.integers(6, 25))):
        kind, x = pool.items[int(rng.integers(len(pool.items)))]
        try:
            KINDS[kind](pool, x)
        except (Violation, Skip):
            raise
        except (Exception, SystemExit) as e: # (judged by other checks)
            ctx.seen('refused operations')
            steps.append('%s:%s' % (kind, type(e).__name__))
            continue
        steps.append(kind)
        if pool.arrays and rng.integers(3) == 0:
            # the user overwrites a result
            what, array = pool.arrays.pop(int(rng.integers(len(
                pool.arrays))))
            before = [pure.mark(x) for kind, x in pool.items]
            array[...] = 1e3
            monitor.kept = [(x, w) for x, w in monitor.kept
                if not pure.shares(x, array)]
            for (kind, x), mark in zip(pool.items, before):
                ctx.true('results are independent of models', pure.mark(x)
                    == mark, 'overwriting result of %s changes model (%s)'
                    % (what, kind))
    ctx.note(steps=' '.join(steps))
