#!/usr/bin/env python3
"""Write /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

prop('C01', 'Results do not depend on the number of MPI processes or shared memory',
'For the same input, every parallelized calculation (dispersions, sampling, supercell mapping, Fourier transforms, self-energies and other diagrams, densities of states, plots, reading and writing of model files, molecular-dynamics driver) yields the result of the serial run up to floating-point rounding, whatever the number of processes, nodes and the shared-memory and broadcast options. '
'Every process that is promised the result gets the same complete result as soon as the call returns, and no run deadlocks or leaves processes with unfilled data.',
['schedules', 'configurations', 'inputs'],
'All process counts (fewer, equal and more processes than work items), node layouts, shared_memory/broadcast options, orders and delays in which processes reach collective operations, and inputs.',
'Tests run with 1 and 2 processes on one node with default options and the natural timing, and compare only within one run; they never compare process counts, shared-memory variants, multi-node layouts or delayed ranks.',
['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/elph.py', 'elphmod/diagrams.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/bravais.py', 'elphmod/dos.py', 'elphmod/plot.py', 'elphmod/md.py', 'elphmod/misc.py'],
[('contiguous work distribution + Gatherv/Allgatherv', 'elphmod/MPI.py:distribute'), ('node/images communicators and shared arrays', 'elphmod/MPI.py:shm_split, shared_array'), ('two-level q/k distribution', 'elphmod/elph.py:sample')],
['return values and shared arrays on every rank'])

prop('C02', 'Work distribution and shared data: nothing lost, duplicated or stale',
'Splitting any number of work items among any number of chunks assigns each item to exactly one process, in order and balanced to within one item, and splitting the processes into groups places each process in exactly one row and one column. '
'Arrays shared within nodes hold, after the documented fill-and-broadcast sequence, the same values on every process and are one memory per node, whereas arrays that are not shared are private. '
'Data loaded from or buffered in files arrives bit-identically (value, shape and type) on every process; absent files and buffers give the documented empty result.',
['inputs', 'schedules', 'configurations'],
'All work sizes and chunk/process counts including zero work and more processes than work, all shapes, native numeric data types, and orders in memory, node layouts.',
'No test calls these primitives; the suite uses them only with two processes on one node.',
['elphmod/MPI.py'],
[('distribute/matrix', 'elphmod/MPI.py'), ('shared_array/SharedArray', 'elphmod/MPI.py'), ('load/Buffer', 'elphmod/MPI.py')],
['sizes, bounds, array contents and communicator ranks on every process'])

prop('C03', 'Smearing functions: step, delta, its derivative and entropy are consistent',
'For every supported smearing, the step function falls from one to zero with f(-x)+f(x)=1 where the scheme is symmetric, its broadened delta is minus its derivative and integrates to one, the delta derivative is the derivative of the delta, and the generalized entropy is the one whose energy derivative is minus energy times the delta (so that the occupation is the derivative of the grand potential). '
'Values stay finite however far from the Fermi level (apart from the zero-width step), and scalars and arrays of any shape give the same element-wise results without changing the argument. '
'All documented smearing names (including the Quantum ESPRESSO aliases) select the scheme they denote.',
['inputs'],
'All real arguments (tiny, huge, signed), array shapes, smearing schemes and aliases.',
'The tests compare derivatives on one fixed grid and never probe tails, extreme arguments, aliases, entropies or integrals.',
['elphmod/occupations.py'],
[('smearing functions with delta/delta_prime/entropy attributes', 'elphmod/occupations.py'), ('name lookup', 'elphmod/occupations.py:smearing')],
['function values'])

prop('C04', 'The Fermi level reproduces the requested number of electrons',
'For any energies, temperature, smearing and feasible number of electrons, the determined chemical potential makes the summed spin-degenerate occupations equal the requested number of electrons per k point within the stated tolerance, regardless of the starting guess. '
'It moves rigidly with a constant energy shift, scales with a common scaling of energies and temperature, and never decreases when electrons are added.',
['inputs'],
'All spectra (metallic, gapped, degenerate, any mesh dimension), fillings, temperatures, smearings and initial guesses.',
'No test checks the electron count; the driver tests use one filling of one model.',
['elphmod/occupations.py'],
[('Newton/bisection iteration', 'elphmod/occupations.py:find_Fermi_level')],
['returned chemical potential'])

prop('C05', 'Bravais lattices have the documented geometry and dual reciprocals',
'For every Bravais-lattice index and admissible cell parameters, the generated primitive vectors have the documented lengths, angles and cell volume, whether parameters are given as lengths/cosines or as a list of cell dimensions in any supported unit, and the caller\'s parameters are left unchanged. '
'Reciprocal vectors are dual to the direct ones in two and three dimensions, the cell volume is the absolute triple product, rotations preserve lengths and compose, and conversion between crystal and Cartesian coordinates is an exact inverse pair for any number of points. '
'Uniform meshes and k-point lists enumerate each point once in C order with equal weights.',
['inputs'],
'All lattice indices, cell parameters, orientations, dimensions and array shapes.',
'The only lattice test compares one Wigner-Seitz routine; no test covers cell construction or conversions.',
['elphmod/bravais.py'],
[('primitives, translations, reciprocals, volume, rotate, mesh, kpoints', 'elphmod/bravais.py')],
['returned vectors and input arguments after the call'])

prop('C06', 'Supercell bookkeeping maps lattice vectors one-to-one',
'For any integer supercell matrix of nonzero determinant (skewed, left-handed, or given as scalars and vectors), the list of unit cells contains exactly as many inequivalent cells as the absolute determinant, including the home cell. '
'Every lattice vector is decomposed uniquely into a supercell lattice vector and the index of a listed cell, so that recombining both gives back the original vector and translations by supercell vectors change only the former.',
['inputs'],
'All integer supercell matrices and lattice vectors.',
'Tests use the diagonal 2x2 supercell only.',
['elphmod/bravais.py'],
[('supercell, to_supercell', 'elphmod/bravais.py')],
['returned cell lists and decompositions'])

prop('C07', 'Irreducible k points and symmetry images cover the mesh exactly once',
'For square and hexagonal meshes of any size, the symmetry images of a k point contain it, lie on the mesh, have equal distance from the zone centre, and form disjoint classes with one irreducible representative each that together cover the mesh. '
'Completing data from the irreducible wedge or from the nonmissing entries reproduces any symmetric function everywhere, the symmetries found for a data set are exactly those it has, and the symmetry-exploiting full dispersion equals the plain one for symmetric models. '
'Mapping mesh points to the Brillouin zone yields equivalent points of minimal length.',
['inputs'],
'All mesh sizes, both lattice types and angles, all symmetric functions and points.',
'One test compares one dispersion on one mesh.',
['elphmod/bravais.py', 'elphmod/dispersion.py'],
[('images, irreducibles, symmetries, complete, complete_k, to_Voronoi', 'elphmod/bravais.py'), ('dispersion_full', 'elphmod/dispersion.py')],
['returned sets and completed arrays'])

prop('C08', 'Interpolation and k paths reproduce the data they are built from',
'Linear interpolation on triangulated meshes and Fourier interpolation return the input data at mesh points for any mesh, lattice angle, choice of axes and period, are periodic, and are exact for (piecewise) linear and band-limited functions, respectively; resizing to the same shape is the identity and to a multiple keeps the original points. '
'Stacking and k-path generation give paths through all requested corners with strictly consistent cumulated distances, corner indices, point counts and special-point coordinates in any lattice.',
['inputs'],
'All mesh shapes (even, odd, anisotropic), angles, periods, extra data axes, complex data, paths.',
'No test covers interpolation or paths.',
['elphmod/bravais.py'],
[('linear_interpolation, resize, Fourier_interpolation, stack, path, GMKG, BZ', 'elphmod/bravais.py')],
['interpolated values and path arrays'])

prop('C09', 'Wigner-Seitz mapping preserves mesh data and picks shortest distances',
'For any mesh, lattice and pair of sites, the lattice vectors selected for each mesh entry are exactly the periodic images of minimal site-to-site distance, weighted by one over their number. '
'The real-space model built from them therefore reproduces the original matrices at every point of the mesh, is real-space Hermitian when the input is, and the weights of the files read for Wannier models agree.',
['inputs'],
'All mesh sizes, two- and three-dimensional lattices (skewed, anisotropic), site positions inside and outside the cell, degenerate boundary cases.',
'One test compares two implementations for one hexagonal lattice.',
['elphmod/bravais.py'],
[('wigner, wigner_2d, short_range_model', 'elphmod/bravais.py')],
['returned lattice vectors, degeneracies and data'])

prop('C10', 'Tight-binding models: Hamiltonian, velocity and bookkeeping are exact',
'The Hamiltonian of a tight-binding model is the Fourier sum of its hopping data: Hermitian, periodic in each crystal coordinate, reproducing the matrices it was interpolated from in the chosen energy units, and its velocity is the k derivative. '
'Looking up single hoppings, standardizing (with any tolerance), symmetrizing, reordering orbitals and moving orbitals to other cells change the representation but keep the spectrum, the documented element mapping and the Hermiticity.',
['inputs', 'histories'],
'All hopping data (sparse, repeated or unsorted lattice vectors, 1D-3D), k points, energy units, and sequences of representation changes.',
'Tests use one two-band graphene model with one shift and one permutation.',
['elphmod/el.py'],
[('Model.H, v, t, standardize, symmetrize, order_orbitals, shift_orbitals', 'elphmod/el.py'), ('k2r', 'elphmod/el.py')],
['H(k), v(k), t(R), R, data'])

prop('C11', 'Electronic supercells fold the spectrum and unfold back',
'Mapping a tight-binding model onto any supercell (skewed, left-handed, nested) gives a model whose spectrum at each supercell k point is the union of the primitive spectra at the k points that fold onto it, in dense and sparse form alike, and mapping back onto the unit cell recovers the original Hamiltonian including its units. '
'Unfolding weights are nonnegative, add up to the number of states, and single out the states of the primitive cell.',
['inputs', 'histories'],
'All models, supercell matrices, k points, sequences of supercell and unit-cell mappings.',
'Tests use a diagonal 2x2 supercell of one model on one mesh.',
['elphmod/el.py', 'elphmod/dispersion.py'],
[('Model.supercell, unit_cell', 'elphmod/el.py'), ('unfolding_weights', 'elphmod/dispersion.py')],
['H(k), Hs, R, data, cells'])

prop('C12', 'Mass-spring models: Fourier sum, sum rules and units are exact',
'The dynamical matrix of a lattice-dynamics model is the Fourier sum of its force constants: Hermitian, periodic, reproducing the dynamical matrices it was interpolated from (complete or symmetry-reduced meshes), with or without division by masses. '
'After imposing the acoustic (and rotational) sum rules the respective sums vanish, rigid translations cost no energy, the permutation symmetry of force constants is kept, and force constants that already satisfy the rules are not changed. '
'Long-range dipole and quadrupole terms are split off and restored without changing the dynamical matrices on the original mesh and vanish for neutral insulator data without charges.',
['inputs', 'histories'],
'All force-constant data, masses, atom positions, lattices, meshes, effective charges, dielectric tensors, quadrupoles and orders of operations.',
'Tests use one graphene model without charges on one mesh.',
['elphmod/ph.py'],
[('Model.D, C, q2r, asr, sum_rule_correction, zasr', 'elphmod/ph.py'), ('prepare_long_range, generate_long_range, update_short_range', 'elphmod/ph.py')],
['D(q), C(R), data, Z, eps'])

prop('C13', 'Phonon supercells and cell changes keep the vibrational spectrum',
'Mapping a lattice-dynamics model onto any supercell (skewed, left-handed, nested) gives the union of the folded primitive spectra with correctly repeated masses, labels and positions and transformed lattice vectors, in dense and sparse form alike, and mapping back recovers the primitive model. '
'Reordering atoms, moving atoms to other cells, standardizing and symmetrizing keep the spectrum and move masses, labels, positions and charges along consistently, without altering any other model.',
['inputs', 'histories'],
'All models, supercell matrices, q points, permutations, shifts, and sequences of such operations.',
'Tests use a diagonal 2x2 supercell of one model on one mesh.',
['elphmod/ph.py'],
[('Model.supercell, unit_cell, order_atoms, shift_atoms, standardize', 'elphmod/ph.py')],
['D(q), a, r, M, atom_order, R, data'])

prop('C14', 'Electron-phonon models: coupling is an exact, symmetric Fourier sum',
'The coupling of an electron-phonon model is the double Fourier sum of its real-space data, periodic in k and q, obeys the Hermitian relation between g(q,k) and g(-q,k+q), and reproduces the couplings it was interpolated from with or without mass division; the value never depends on which points were evaluated or which operations were applied before. '
'Supercell mapping folds the couplings consistently with electrons and phonons (dense and sparse), standardization, symmetrization and the acoustic sum rule have exactly the documented effect on the represented coupling, and long-range terms are split off and restored consistently. '
'Sampling and basis transformation give the same matrix elements as evaluating the model point by point and rotating with the given eigenvectors, squared or not.',
['inputs', 'histories', 'configurations'],
'All coupling data, k and q points and meshes, orders of evaluations and operations, supercells, eigenvectors, options.',
'One test round-trips one graphene model on one mesh; caching, supercells, transformations and sum rules are not covered.',
['elphmod/elph.py'],
[('Model.g with cached q transform', 'elphmod/elph.py:Model.g'), ('sample, transform, q2r', 'elphmod/elph.py'), ('supercell, standardize, asr', 'elphmod/elph.py')],
['g(q,k), gR, data, sampled arrays'],
state=[dict(name='gq cache', meaning='coupling Fourier-transformed in q for the last q point', where='elphmod/elph.py:Model.g')])

prop('C15', 'Electron-electron models and Coulomb transformations are exact',
'The Coulomb matrix of an electron-electron model is the Fourier sum of its data, periodic and reproducing the q mesh it was interpolated from; supercell mapping folds its spectrum and standardizing keeps it. '
'Transforming a Coulomb tensor from the orbital to the band basis gives the matrix elements defined by the eigenvectors (density-density or full), files written and read back agree to the printed precision, and the Hartree energy is the reciprocal-space sum over nonzero vectors.',
['inputs', 'configurations'],
'All interaction data, meshes, supercells, eigenvectors and file options.',
'One test round-trips one graphene interaction on one mesh.',
['elphmod/elel.py'],
[('Model.W, WR, supercell, standardize, to_Wmat', 'elphmod/elel.py'), ('orbital2band, q2r, hartree_energy', 'elphmod/elel.py')],
['W(q), data, band-basis arrays, files'])

prop('C16', 'Diagrams satisfy their defining sums, symmetries and limits',
'Susceptibility, polarization, phonon and electron self-energies, renormalized couplings, third-order and first-order diagrams, double Fermi-surface averages and conductivities equal the defining sums over k points and bands for any mesh dimension, band count, q list and smearing, including degenerate and far-from-Fermi-level states, and stay finite. '
'They are derivatives of the grand potential where documented, Hermitian or symmetric under exchange of the two vertices, invariant under joint lattice translations of the mesh and relabelling of bands, and additive over excluded subspaces. '
'Integrands returned for fluctuation analysis average to the returned totals.',
['inputs', 'configurations'],
'All dispersions, couplings (complex, asymmetric, mode and band counts), q and k meshes in one to three dimensions, smearings, options.',
'Tests compare the first three derivatives at q = 0 for one random displacement.',
['elphmod/diagrams.py'],
[('susceptibility, polarization, phonon_self_energy, triangle, grand_potential, ...', 'elphmod/diagrams.py')],
['returned arrays'])

prop('C17', 'Molecular dynamics: forces and Hessian are derivatives of the energy',
'For any displacement, the driver\'s forces are minus the gradient and its Hessian the second derivative of its free energy at fixed electron number, the unperturbed structure is an equilibrium, and rigid translations neither cost energy nor produce net forces; the electron density adds up to the number of electrons. '
'The dense, sparse, and supercell formulations agree on energies, forces, Hessians and derived superconducting parameters, and saving, loading, writing and reading structures restores the state without changing arrays of the caller.',
['inputs', 'histories', 'configurations'],
'All models, supercells, meshes, temperatures, smearings, fillings, displacements and sequences of driver calls.',
'Tests compare dense and sparse energy and forces for one displacement of one model and one set of superconducting parameters.',
['elphmod/md.py'],
[('Driver.free_energy, jacobian, hessian, diagonalize', 'elphmod/md.py'), ('superconductivity, phonons, electrons, density', 'elphmod/md.py'), ('save, load, to_xyz, from_xyz, to_pwi, i-PI call', 'elphmod/md.py')],
['energies, forces, Hessians, files'])

prop('C18', 'Model files survive a write/read round trip',
'Tight-binding, force-constant (plain text, complete-mesh and reciprocal-space forms), electron-phonon (real-space data), Coulomb, quadrupole, band-structure and volumetric-density files, and displacement-pattern tables, written by the package can be read back into an equal object to the printed precision, including lattice, positions, masses, species, effective charges, dielectric tensor and units. '
'Models rebuilt from the files give the same physics at every wave vector.',
['inputs', 'configurations'],
'All model sizes, lattices, meshes, species names, charges, and options (units, mass division, single bands, old formats).',
'No test writes files except the example-model generator, and none reads them back for other options.',
['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/misc.py'],
[('write_hrdat/read_hrdat, write_bands/read_bands', 'elphmod/el.py'), ('write_flfrc/read_flfrc, quadrupoles, q lists', 'elphmod/ph.py'), ('to_epmatwp, xml files, write_data/read_data', 'elphmod/elph.py'), ('write_xsf/read_xsf, cube', 'elphmod/misc.py')],
['files and objects read back'])

prop('C19', 'Input files of external codes survive a write/read round trip',
'Input parameters for the external electronic-structure programs (self-consistent, Wannier, phonon, Fourier-transform, dispersion and coupling inputs) written by the package and read back give the same parameters, for any number of atoms, species, k points and any documented combination of optional entries, list-valued entries and paths. '
'Fortran namelists and tabular data are parsed independently of white space, letter case of keys, comments, line breaks and quoting, and brace expansions and block splitting yield each documented element once.',
['inputs', 'programs'],
'All parameter dictionaries with documented keys and all layouts of the text files.',
'One test covers brace expansion of one expression; no test reads or writes an input file.',
['elphmod/bravais.py', 'elphmod/misc.py'],
[('read/write_pwi, _win, _ph, _q2r, _matdyn, _epw', 'elphmod/bravais.py'), ('read_namelists, read_input_data, read_dat_mat, split', 'elphmod/misc.py')],
['parsed dictionaries, files'])

prop('C20', 'Densities of states, spectra and Fermi contours are conserved and exact',
'The tetrahedron density of states is nonnegative, vanishes outside the band, integrates to one per band and weights couplings consistently; double-delta weights equal the exact intersections of piecewise linear contours and, like the isolines, are independent of where the periodic mesh starts. '
'Isoline points lie on the requested energy, spectral functions integrate to the number of modes, and projected weights add up to one.',
['inputs'],
'All two-dimensional dispersions on periodic meshes (including degenerate, flat and mesh-aligned ones), energies, couplings and broadening.',
'No test covers densities of states or contours.',
['elphmod/dos.py', 'elphmod/ph.py', 'elphmod/misc.py'],
[('hexDOS, hexa2F, double_delta, isoline', 'elphmod/dos.py'), ('spectral_function, polarization', 'elphmod/ph.py'), ('differential', 'elphmod/misc.py')],
['returned functions and values'])

prop('C21', 'Superconductivity estimates follow the published formulas',
'The effective coupling, logarithmic and second-moment average frequencies equal the symmetry-weighted Fermi-surface averages over the complete mesh, with unstable modes excluded, and the critical temperature is the McMillan or Allen-Dynes expression of these, monotonic in the coupling and proportional to the frequency scale. '
'Broadened and tetrahedron averages use the same band, mode and k-point conventions, and inputs are left unchanged.',
['inputs'],
'All meshes, band and mode counts, couplings, smearings and Coulomb pseudopotentials.',
'No test covers these functions.',
['elphmod/eliashberg.py', 'elphmod/diagrams.py'],
[('Tc, McMillan', 'elphmod/eliashberg.py'), ('double_fermi_surface_average', 'elphmod/diagrams.py')],
['returned values'])

prop('C22', 'Diagonalization returns true, consistently ordered and gauged eigenpairs',
'For any matrix function and list of k points, the returned energies and states are eigenpairs of the matrix at that very k point with orthonormal states; requesting vectors, gauge fixing, rotation to the first Brillouin zone or band ordering changes only phase, representative or order and never the set of eigenvalues. '
'Ordering bands returns a permutation that is applied to energies and states alike and follows continuous bands through crossings, gauge fixing makes the documented component real nonnegative, and results on a line, a mesh or point by point coincide.',
['inputs', 'configurations'],
'All Hermitian matrix functions, k lists and meshes in one to three dimensions, options.',
'One test compares two routines without eigenvectors options for one model.',
['elphmod/dispersion.py'],
[('dispersion, dispersion_full, dispersion_full_nosym, sample, band_order', 'elphmod/dispersion.py')],
['returned eigenvalues, eigenvectors and order'])

prop('C23', 'Plot data are faithful maps of the mesh data',
'Images of functions on the Brillouin zone show at every pixel the interpolated value at that pixel\'s wave vector, inside exactly the documented region and the fill value outside, are invariant under lattice translations, and repeat the data of the zone in which they lie. '
'Tiling, rectifying, colour bars, column adjustment, composition lines and colouring keep the image content and conserve the documented shapes, ranges and total line widths.',
['inputs', 'configurations'],
'All mesh data, lattice angles, windows, resolutions and options.',
'No test covers plotting.',
['elphmod/plot.py'],
[('plot, double_plot, toBZ, colorbar, arrange, rectify, color, adjust_pixels, compline', 'elphmod/plot.py')],
['returned images'])

prop('C24', 'Calculations leave their inputs alone and are repeatable',
'No calculation or file writer changes arrays, lists or dictionaries passed to it or models it was derived from, unless it is documented to work in place, and results never change through later calls (apart from views of single elements of a model). '
'Calling the same operation again with the same arguments gives the same result whatever was called in between.',
['histories', 'inputs'],
'All public functions and model methods, arguments and interleavings of calls.',
'The tests call each function once with fresh arguments.',
['elphmod/bravais.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/diagrams.py', 'elphmod/dispersion.py', 'elphmod/dos.py', 'elphmod/md.py', 'elphmod/occupations.py'],
[('explicit copies', 'all modules')],
['argument and model fingerprints before and after every call'])

prop('C25', 'Reference models and numeric helpers agree with their closed forms',
'The built-in example models of the chain, graphene and transition-metal dichalcogenide give at every wave vector the closed-form Hamiltonian, dynamical matrix, coupling and interaction they are made from, whether created in memory or reloaded from their files and for all unit and mass options. '
'Numeric helpers (integration weights, grouping of close points, vector lookup, parabola extremum, real-space grids, mass division, signed square roots, sum rules) meet their definitions for all arguments.',
['inputs', 'configurations'],
'All wave vectors, unit options, and helper arguments.',
'Tests compare the models on random points with default options only.',
['elphmod/models/chain.py', 'elphmod/models/graphene.py', 'elphmod/models/tas2.py', 'elphmod/misc.py'],
[('create', 'elphmod/models/*.py'), ('differential, group, vector_index, minimum, real_space_grid', 'elphmod/misc.py')],
['model values, helper results'])

prop('C26', 'Output of external programs is read completely and exactly',
'Energies, k points, weights, occupations, projections, orbital names, Fermi levels, total-energy contributions, Wannier energies, decay tables, charge densities and wave functions (text and binary), printed electron-phonon couplings, and crystal structures found in output files of external programs arrive in the documented order, shape, and units, for any number of bands, k points, modes, atoms, and lines and independent of unrelated lines around them. '
'Quantities derived from them (band energy, entropy contribution, total charge, cell volume, reciprocal vectors, path distances, completed meshes) equal their defining formulas, and preparing the input folder of one program from the output of another copies every file to its documented name.',
['inputs', 'configurations'],
'All numbers of bands, k points, q points, modes, atoms, grid points, Bravais lattices, file layouts and options.',
'The tests read few files of a single layout or none at all.',
['elphmod/el.py', 'elphmod/elph.py', 'elphmod/bravais.py', 'elphmod/ph.py'],
[('read_bands_plot, read_symmetry_points, read_atomic_projections, read_projwfc_out, read_Fermi_level, read_pwo, read_wannier90_eig_file, read_eps_nk_from_qe_pwo, eband, demet_from_qe_pwo, read_decayH, read_energy_contributions_scf_out, read_pp_density, read_rhoG_density, read_wfc', 'elphmod/el.py'), ('coupling, read_EPW_output, read_prtgkk, read_L, ph2epw', 'elphmod/elph.py'), ('readPOSCAR', 'elphmod/bravais.py'), ('interpolate_dynamical_matrices', 'elphmod/ph.py')],
['values read from generated files'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
