"""single source of properties.jsonl and MANIFEST.json (python tools/table.py writes both)"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note))


Q = "openms/qmc/"
prop("C01", "QMC integrals represent the molecule's Hamiltonian",
     "The one-body matrix and the factorised two-body tensor that a QMC run builds for a molecule reproduce the molecular Hamiltonian within the requested decomposition threshold, in any orthonormal basis. With photon modes they reproduce the Pauli-Fierz Hamiltonian, including the dipole self-energy of every mode, for one-shot and blocked decompositions alike.",
     ["inputs", "configurations"], "all molecules and geometries, thresholds, basis rotations, numbers of modes and coupling matrices",
     "Tests check a few converged energies of one or two molecules; a wrong integral element, permutation or mode changes results only for other geometries, mode counts or thresholds.",
     [Q + "tools.py", Q + "qmc.py", Q + "afqmc.py", "openms/lib/boson.py"],
     [("factorisation of the two-electron integrals", Q + "tools.py: chols_full, chols_blocked, eri_cholesky..."), ("orthogonal basis and mode terms", Q + "afqmc.py / qmc.py: get_integrals")],
     "generated molecules and random integrals; oracle: dense reconstruction of (pq|rs) and of the one-body matrix from pyscf integrals within the stated threshold")
prop("C02", "Overlaps, Green's functions and force biases of walkers are exact",
     "For every walker the overlap with the trial state, the mixed one-body Green's function and the force bias equal the values obtained from the explicit many-electron wave functions. They transform correctly when the walker's orbitals are mixed or rescaled, and the values of one walker do not depend on the other walkers in the population.",
     ["inputs"], "all trial states (closed and open shell, real or complex) and all walker populations with non-vanishing overlap",
     "Tests use runs started from the trial itself, where overlap one and idempotent density matrices hide index, conjugation and spin mistakes.",
     [Q + "trial.py", Q + "generic_walkers.py", Q + "propagators.py", Q + "estimators.py"],
     [("overlap and Green's function", Q + "trial.py: ovlp_with_walkers, ovlp_with_walkers_gf"), ("force bias", Q + "trial.py: get_vbias / force bias")],
     "random trials and walkers; oracle: dense determinant expansion in Fock space, covariance and independence relations, compiled kernels vs explicit contractions")
prop("C03", "Local energies are exact mixed estimators of the Hamiltonian",
     "The energy measured for every walker equals the exact mixed expectation value of the Hamiltonian between trial and walker, with its one-body, two-body, bosonic and coupling parts reported separately and summed with the walkers' weights. It has zero variance for an exact trial and is unchanged by orbital mixing, walker reordering and weight rescaling.",
     ["inputs", "configurations"], "all Hamiltonians, trials, walker populations, weights, numbers of modes and photon cut-offs",
     "Tests compare two or three run averages at loose statistical precision; an error in one spin, one mode or one exchange block hides in the noise.",
     [Q + "estimators.py", Q + "propagators.py", Q + "trial.py"],
     [("energy estimators", Q + "estimators.py"), ("electron-boson local energy", Q + "propagators.py: PhaselessElecBoson.local_energy")],
     "random integrals, trials and walkers; oracle: dense many-electron (and photon number/displacement) operators; kernels vs explicit contractions")
prop("C04", "The auxiliary-field average of one step is imaginary-time evolution",
     "Averaged over the Gaussian auxiliary fields with its importance weights, one propagation step applied to any walker equals imaginary-time evolution under the Hamiltonian with the trial's mean-field shift removed again, up to the documented second-order time-step error. For commuting Hamiltonians the agreement is exact to the order of the truncated exponential.",
     ["inputs", "configurations"], "all Hamiltonians, walkers, trials, time steps and Taylor orders",
     "A run's energy at one time step cannot separate a wrong prefactor from statistical and time-step error; here the average over fields is computed by exact quadrature.",
     [Q + "propagators.py"],
     [("one-body half steps and Hubbard-Stratonovich factor", Q + "propagators.py: propagate_walkers_onebody / twobody"), ("mean-field shift and shifted one-body matrix", Q + "propagators.py: build")],
     "fields injected on Gauss-Hermite nodes; oracle: dense matrix exponential; convergence order in the time step")
prop("C05", "A phaseless step updates every walker exactly as documented",
     "One step gives every walker the phaseless weight: multiplied by the exponential of the averaged, bounded hybrid energy relative to the shift and by the non-negative cosine of the overlap's phase, with force biases rescaled to the bound. Weights stay real, finite and non-negative, the step of one walker is independent of the others, and orthogonalisation changes no estimator.",
     ["inputs", "histories", "configurations"], "all walkers, auxiliary fields (including extreme ones), bounds, time steps and sequences of steps and orthogonalisations",
     "Bounds, caps and phase projection act only on rare walkers that short test runs never produce.",
     [Q + "propagators.py", Q + "generic_walkers.py", Q + "trial.py"],
     [("weight update", Q + "propagators.py: update_weight"), ("force-bias bound", Q + "propagators.py: rescale of the force bias"), ("walker orthogonalisation", Q + "generic_walkers.py: orthogonalization")],
     "injected auxiliary fields incl. large ones; oracle: independent per-walker reference implementation of the documented step")
prop("C06", "Population control is unbiased and keeps walkers consistent",
     "Resampling keeps the number of walkers and the total weight, and gives every walker an expected number of copies proportional to its weight, for every available scheme; pair branching merges the lightest with the heaviest walker until those left are within the weight bounds. A copied walker carries all of its data (orbitals, overlap, energies, boson state), copies share no storage, and no history of steps and resampling breaks this.",
     ["inputs", "histories", "schedules"], "all weight distributions (incl. zero and extreme weights), random numbers, schemes and histories of resampling and propagation",
     "Bias is a property of the distribution over random numbers; aliasing and stale data show only after several resamplings.",
     [Q + "population_control.py", Q + "generic_walkers.py", Q + "afqmc.py"],
     [("pair branching / comb", Q + "population_control.py"), ("walker buffers", Q + "generic_walkers.py")],
     "generated weights; oracle: integration over the uniform variate on a grid, tagged walkers, weight/number conservation, histories with independent per-walker bookkeeping")
prop("C07", "Runs are reproducible, isolated and equal to the reference algorithm",
     "A run is determined by its inputs and seed: repeating it gives identical energies, no run changes another run or the caller's molecule and options, and its energies equal those of the documented algorithm driven by the same random fields. Energies do not depend on the orthogonal orbital basis, on how often walkers are re-orthogonalised, or on treating a closed shell with one or two spin components, and follow the nuclear repulsion.",
     ["inputs", "histories", "configurations"], "all Hamiltonians, options (steps, blocks, stabilisation, population control), seeds and sequences of runs in one process",
     "Tests run each configuration once in a fresh object and compare to a stored number.",
     [Q + "afqmc.py", Q + "qmc.py", Q + "propagators.py", Q + "generic_walkers.py"],
     [("main loop", Q + "afqmc.py: kernel"), ("options handling", Q + "qmc.py: __init__")],
     "generated systems and options; oracle: complete reference run with injected fields, repetition, metamorphic relations")
M = "openms/mqed/"
prop("C08", "Coupled electron-photon walkers evolve as the product scheme prescribes",
     "One step of a coupled electron-photon population gives every walker exactly the electron orbitals, photon amplitudes, overlap and weight that the documented split of the Pauli-Fierz evolution prescribes for its auxiliary fields. Without coupling the electrons behave as in the bare run and the photons stay in the vacuum, the energies do not depend on the sign of the couplings or the order of the modes, and normalising a photon state keeps its direction and phase.",
     ["inputs", "histories", "configurations"], "all couplings, numbers of modes and photon cut-offs, walkers with complex amplitudes, auxiliary fields and step sequences",
     "Tests run one molecule with one mode and compare an average; amplitude phases and multi-mode mix-ups do not reach it.",
     [Q + "propagators.py", Q + "generic_walkers.py", Q + "trial.py"],
     [("electron-boson step", Q + "propagators.py: PhaselessElecBoson"), ("boson walkers", Q + "generic_walkers.py: BosonicWalker, ElecBosonWalkers"), ("bilinear decomposition", Q + "tools.py: bilinear_decomposition")],
     "random walkers, injected fields, plain reference step; metamorphic limits (zero coupling, sign, mode order)")
prop("C09", "Error analysis of energy series follows its statistical definitions",
     "For every finite series of energies the autocorrelation function, the integrated autocorrelation time, the outlier filter, the block averages and their standard errors are those of the textbook definitions. Means and errors follow a change of origin or unit of the energies, and no finite series - constant, anticorrelated or short - makes the analysis fail.",
     ["inputs"], "all finite real or complex series of any length, correlation, spread and outlier content",
     "Error bars are the part of a Monte Carlo result nobody can check by eye, and short test runs only exercise one kind of series.",
     [Q + "tools.py", Q + "qmc.py"],
     [("autocorrelation and blocking", Q + "tools.py: autocorr_func, get_autocorr_time, remove_outliers, analysis_autocorr"), ("tail average", Q + "tools.py: get_mean_std")],
     "generated series (white, correlated, constant, heavy-tailed); oracle: direct sums; affine covariance")
prop("C10", "Photon trial states are the oscillator states they name",
     "Coherent photon trial states have the Fock amplitudes of the displaced vacuum for every real or complex displacement and any number of modes, and their overlaps follow. The oscillator trial functions report the gradient, Laplacian and local energy of the function they represent, in position and momentum space, and an undisplaced oscillator has zero-variance energy.",
     ["inputs"], "all masses, frequencies, displacements, numbers of modes and evaluation points",
     "Tests use real, small displacements of one mode only.",
     [Q + "trial_boson.py", Q + "trial.py"],
     [("oscillator trial functions", Q + "trial_boson.py: TrialQ, TrialP"), ("coherent states", Q + "trial_boson.py: coherent_state_coeff, TrivialFock")],
     "generated parameters; oracle: matrix exponential of the displacement, finite differences of the function's logarithm")
prop("C24", "Integral files round-trip",
     "Reading a standard integral file recovers exactly the one- and two-electron integrals, with all their permutational symmetries, and the core energy from which the file was written.",
     ["inputs"], "all symmetric integral sets, dense or sparse, and molecules",
     "A missing permutation is invisible for the sparse or highly symmetric files tests use.",
     [Q + "tools.py"], [("integral file reader", Q + "tools.py: read_fcidump")],
     "files written by pyscf for generated integrals; round trip")
prop("C11", "Cavity Hartree-Fock minimises the Pauli-Fierz energy",
     "The energy that cavity Hartree-Fock assigns to any closed-shell determinant is the Pauli-Fierz expectation value of that determinant with its photon state: one-, two-electron, dipole coupling and dipole self-energy of every mode, in coherent-state, fixed-displacement and photon-number representations. A converged calculation returns orthonormal orbitals that are stationary under every orbital rotation, its energy is the energy of those orbitals, and direct, level-shifted and in-core runs agree.",
     ["inputs", "configurations"], "all molecules, densities, numbers of modes, couplings, photon cut-offs and solver options",
     "Tests compare a handful of converged energies; a term that is wrong away from the tested symmetry, origin or number of modes goes unseen.",
     [M + "qedhf.py", "openms/lib/boson.py", "openms/lib/scipy_helper.py"],
     [("mean-field matrix and energy", M + "qedhf.py: get_hcore, get_veff, get_fock, energy_tot"), ("photon states", "openms/lib/boson.py: Photon, Boson")],
     "generated molecules and densities; oracle: Pauli-Fierz expectation from bare pyscf integrals; random orbital rotations")
prop("C12", "Cavity energies respect the symmetries and limits of the theory",
     "The cavity Hartree-Fock energy is unchanged when molecule and polarisations are rotated, reflected or translated together, when modes are reordered or their polarisation reversed, when the unit of input changes, and when two parallel modes are merged; it equals the bare energy without coupling. In coherent states it is independent of frequency and origin, and energies in finite photon-number spaces fall monotonically towards it; the caller's inputs are never changed.",
     ["inputs", "configurations"], "all molecules, rotations, shifts, mode sets, couplings and photon cut-offs",
     "These are relations between pairs of calculations, while a test looks at one calculation at a time.",
     [M + "qedhf.py", "openms/lib/boson.py"],
     [("mode vectors, coupling and frequencies", "openms/lib/boson.py: Boson.__init__, Photon"), ("dipole terms", "openms/lib/boson.py: get_dipole_ao, get_quadrupole_ao, get_gmat_ao")],
     "metamorphic relations between generated pairs of calculations")
prop("C13", "Photon operators and densities are consistent",
     "Displacement-operator elements, their derivatives and the photon Hamiltonian of one or several modes, with or without squeezing, equal the matrix elements of the corresponding ladder-operator expressions. Photon densities and occupations, and the electron-photon density in the photon-number basis, are those of the photon state of the mean field, normalised and positive.",
     ["inputs", "configurations"], "all displacements, squeezing parameters, cut-offs, numbers of modes and determinants",
     "Only the lowest photon state enters the tests; elements between different photon numbers and the density matrices do not.",
     ["openms/lib/boson.py", M + "qedhf.py", M + "scqedhf.py"],
     [("displacement operators", "openms/lib/boson.py: displacement_matrix, displacement_exp_val, displacement_deriv*"), ("electron-photon density", M + "qedhf.py, scqedhf.py, vtqedhf.py: make_rdm1_org")],
     "generated parameters and determinants; oracle: matrix exponentials of ladder operators, explicit coherent states")
prop("C14", "Strong-coupling mean field: transformed Hamiltonian and exact gradients",
     "The strong-coupling cavity energy of any determinant and any set of displacement parameters is the expectation value of the unitarily displaced Pauli-Fierz Hamiltonian, from full integrals and from their Cholesky factors alike. Every reported gradient - with respect to displacements, transformation strength and squeezing - and the mean-field matrix are the derivatives of the reported energy.",
     ["inputs", "configurations"], "all molecules, determinants, displacement, strength and squeezing parameters and photon cut-offs",
     "A wrong gradient still lets most test molecules converge, to the same or to a slightly different energy.",
     [M + "scqedhf.py", M + "vtqedhf.py", M + "qedhf.py"],
     [("dressed integrals and energy", M + "scqedhf.py: get_h1e_DO, construct_eri_DO, cholesky_DO, FC_factor"), ("gradients", M + "scqedhf.py: get_eta_gradient; vtqedhf.py: grad_var_params, get_vsq_gradient")],
     "generated states; oracle: dense electron-photon space, finite differences of the reported energy")
prop("C15", "Variational-transformation mean field interpolates and converges consistently",
     "At zero transformation strength the variational-transformation energy is the cavity Hartree-Fock energy, at full strength the strong-coupling one, and in between the energy of the partially displaced Hamiltonian. Converged calculations have vanishing gradients, do not depend on Cholesky versus full integrals, and keep their energy when restarted from their own density and parameters; allowing more photon states never raises the energy of a solution, and its photon state is the ground state of the photon Hamiltonian dressed by the electrons. The accelerated parameters are taken up exactly, and only those chosen for optimisation change.",
     ["inputs", "histories", "configurations"], "all molecules, strengths, sets of optimised parameters, guesses and restarts",
     "Tests compare one converged energy per method; a parameter that is silently kept or overwritten leaves it within tolerance.",
     [M + "vtqedhf.py", M + "scqedhf.py"],
     [("variational parameters", M + "vtqedhf.py: set_var_params, set_params, update_var_params"), ("energy", M + "vtqedhf.py: get_hcore, get_veff; scqedhf.py: FC_factor")],
     "generated calculations; oracle: dense partially transformed Hamiltonian; relations between pairs of calculations")
prop("C16", "Cavity coupled-cluster residuals are the projected similarity transform",
     "The residuals of all amplitudes - electronic singles and doubles, photon amplitudes and coupled electron-photon singles and doubles - are the projections of exp(-T) H exp(T) acting on the reference with no photon, in the plain form and in every optimised rewriting of it, which therefore agree with each other. The amplitudes passed in are left unchanged.",
     ["inputs", "configurations"], "all Hamiltonians about a coherent-state reference, all amplitudes, up to two photon orders; several modes except for second-order coupled doubles",
     "Each residual is a sum of hundreds of contractions of which a missing, doubled or mislabelled one changes the energy of a molecule by little.",
     [M + "qedcc_equations.py", M + "myqedcc_equations.py", M + "myqedcc_equations_opt.py"],
     [("plain residuals", M + "qedcc_equations.py: qedccsd_sn_u2n"), ("rewritten residuals", M + "myqedcc_equations.py, myqedcc_equations_opt.py: new_qedccsd_sn_u2n")],
     "random Hamiltonians and amplitudes; oracle: dense similarity-transformed Hamiltonian in the electron-photon Fock space")
prop("C17", "Cavity FCI contracts and solves the exact Hamiltonian",
     "Applying any part of the electron-boson Hamiltonian to a CI vector - one-electron, two-electron, electron-boson, boson, mode mixing, coherent shift - equals multiplication with the dense Hamiltonian matrix. The solver returns eigenpairs of that Hamiltonian, its integrals for a molecule in a cavity rebuild the Pauli-Fierz Hamiltonian, and its inputs are left unchanged.",
     ["inputs", "configurations"], "all Hamiltonians, spins, numbers of orbitals, modes and boson states",
     "There is no test of the cavity FCI code at all beyond importing it.",
     [M + "qedfci.py"], [("contractions", M + "qedfci.py: contract_1e, contract_2e, contract_ep, contract_pp"), ("solver and integrals", M + "qedfci.py: kernel; openms/lib/boson.py: get_integrals4fci")],
     "random Hamiltonians and vectors; oracle: dense Kronecker-product matrices, diagonalisation")
prop("C18", "Cavity FCI density matrices give the expectation values",
     "The one-electron, two-electron and boson density matrices of a CI vector reproduce its expectation values, contract with the integrals to its energy, and have the right traces and partial traces.",
     ["inputs", "configurations"], "all normalised CI vectors, spins, numbers of orbitals and modes",
     "No test evaluates a density matrix of the cavity FCI solver.",
     [M + "qedfci.py"], [("density matrices", M + "qedfci.py: make_rdm1e, make_rdm12e, make_rdm1p")],
     "random CI vectors; oracle: dense operators")
prop("C19", "Lattice models represent their Hamiltonians",
     "The Hubbard and Hubbard-Holstein models return the hopping, repulsion, electron-phonon and mean-field matrices and molecular-orbital integrals of the stated lattice, open or periodic, at any filling, in restricted, unrestricted and spin-orbital form. The mean-field energy is the expectation value of the determinant, the self-consistent orbitals are stationary, and every named occupied/virtual block is that block of the full tensor.",
     ["inputs", "configurations"], "all chain lengths, fillings, boundary conditions, couplings and orbitals",
     "Model parameters enter through many index blocks, each used by a different caller; none has a test.",
     ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/lib/ov_blocks.py"],
     [("Hubbard chain", "openms/models/hubbard.py: Hubbard1D"), ("Hubbard-Holstein", "openms/models/hh_model.py: HHModel"), ("tensor blocks", "openms/lib/ov_blocks.py: make_two_e_blocks, make_two_e_blocks_full, block_diag")],
     "random lattices and orbitals; oracle: dense lattice Hamiltonian, indexed full tensors")
prop("C20", "Molecular aggregates have the exciton spectrum of their disordered chain",
     "The aggregate Hamiltonian carries the drawn site disorder and the stated couplings, its states and energies are eigenpairs of it, transition dipoles obey their sum rule and the stated ordering, and the absorption of all or selected states is the sum of the stated line shapes over those states.",
     ["inputs"], "all chain lengths, disorder draws, couplings, temperatures and frequency grids",
     "No test covers the aggregate model.",
     ["openms/models/aggregates.py"], [("aggregate", "openms/models/aggregates.py: DMA")],
     "random aggregates with injected random numbers; oracle: dense diagonalisation and Green's function")

prop("C21", "Hyperbolic media have the stated tensor conductivity",
     "The optical conductivity of a hyperbolic medium is, on every axis and at every frequency, the stated sum of the free-carrier term and the interband term with its damping, for plasmon frequencies that are given or follow from carrier density and effective masses. Axes and frequencies do not influence each other, the response is linear in its strengths, and a passive medium absorbs.",
     ["inputs", "configurations"], "all axes, frequency grids, masses, strengths, dampings and interband transitions",
     "No test touches the electromagnetic media.",
     ["openms/maxwell/hyperbolic.py"], [("conductivity", "openms/maxwell/hyperbolic.py: hyperbolicBase")],
     "generated media; oracle: the formula evaluated separately per axis and frequency; metamorphic relations")
prop("C22", "Spins carry the splitting and g-tensors they were given",
     "A spin keeps the zero-field splitting and the g-tensor it was built with: a scalar pair gives the traceless tensor with that axial and rhombic splitting and its level structure, a tensor is used as given, and a scalar, vector or tensor g-factor becomes the corresponding tensor. Two spins share no state and never modify the caller's arrays.",
     ["inputs", "configurations"], "all spin quantum numbers, splittings, orientations and g-factors",
     "No test builds a spin.",
     ["openms/spindy/spin.py"], [("spin", "openms/spindy/spin.py: Spin")],
     "generated spins; oracle: spin matrices and the levels they give")
prop("C23", "Molecular dynamics integrates the equations of motion",
     "One Runge-Kutta step has fourth order, is exact where the method is exact and leaves the initial value alone. Nuclear propagation is velocity Verlet with the proper masses on the force of the chosen electronic state - time-reversible, conserving momentum under internal forces - and kinetic energy, temperature and final geometry follow from the velocities and positions of all molecules, including velocities given at the start.",
     ["inputs", "histories"], "all right-hand sides, step sizes, molecules, initial velocities, force fields and numbers of steps",
     "No test runs a trajectory; a wrong mass, half step or unit shows only in its history.",
     ["openms/qmd/propagator.py", "openms/qmd/bomd.py", "openms/lib/misc.py"],
     [("Runge-Kutta", "openms/qmd/propagator.py: rk4"), ("nuclear propagation and observables", "openms/qmd/bomd.py: BOMD"), ("molecules", "openms/lib/misc.py: Molecule")],
     "generated systems and force fields; oracle: classical tableau, separate velocity Verlet; reversal and conservation")
prop("C25", "Orthogonalisation and block algebra represent their matrices",
     "Pivoted Cholesky orthogonalisation of an overlap matrix reproduces the matrix, finds its rank and returns functions that are orthonormal and span the same space, also for linearly dependent bases. Named occupied/virtual blocks, block-diagonal embeddings, unitary transformations and norms equal the corresponding slices and products of the full tensors.",
     ["inputs"], "all overlap matrices of any rank, and all tensors and block sizes",
     "Tests use well-conditioned overlaps and equal alpha and beta counts, for which wrong pivots and swapped blocks look right.",
     ["openms/lib/mathlib.py", "openms/lib/ov_blocks.py"],
     [("orthogonalisation", "openms/lib/mathlib.py: full_cholesky_decomposition, full_cholesky_orth"), ("blocks", "openms/lib/ov_blocks.py: make_two_e_blocks_full, block_diag")],
     "generated matrices; oracle: rank, Gram matrices, indexed full tensors")
prop("C26", "Variational Monte Carlo estimates energies and gradients correctly",
     "In every iteration the variational Monte Carlo driver hands its optimiser the energy gradient and the metric formed from the covariances of local energies and logarithmic derivatives over the samples, and takes up the parameters it returns. Reported energies and observables are the sample means; for samples in exact proportion to the trial probability the gradient is that of the variational energy, and it vanishes at eigenstates.",
     ["inputs", "histories"], "all real trial states, Hamiltonians, samples and numbers of iterations",
     "No test runs the driver; a covariance without its mean still lowers the energy for a while.",
     [Q + "vmc.py"], [("driver", Q + "vmc.py: VMC")],
     "generated Hamiltonians and log-linear states with recording sampler and optimiser; oracle: sample covariances, exact derivatives")
prop("C27", "The output level never changes a result",
     "Energies, orbitals, densities and variational parameters of every cavity mean-field method, and energies, walkers and weights of quantum Monte Carlo runs with or without photons, are the same for silent and talkative runs. Printing never makes a calculation fail.",
     ["inputs", "configurations"], "all output levels, molecules, couplings - also vanishing on the molecule by symmetry - and methods",
     "Tests run at one output level; a statement that only runs when printing is on can fail or disturb state unseen.",
     [M + "qedhf.py", M + "scqedhf.py", M + "vtqedhf.py", "openms/lib/scipy_helper.py", "openms/lib/logger.py", Q + "qmc.py", Q + "propagators.py"],
     [("reports", "openms/lib/scipy_helper.py: print and report functions"), ("drivers", Q + "qmc.py, " + M + "*.py: verbose branches")],
     "pairs of generated calculations that differ only in the output level")
prop("C28", "Post-Hartree-Fock integrals carry the whole cavity Hamiltonian",
     "For any set of orbitals of a molecule in a cavity, the spin-orbital core, mean-field, two-electron, electron-photon and photon integrals handed to correlated methods are those of the Pauli-Fierz Hamiltonian about its reference, in coherent-state, photon-vacuum and uncoupled form. The reference energy is the expectation value of the determinant, the two-electron integrals are antisymmetric, and no input is modified by building them.",
     ["inputs", "configurations"], "all molecules, closed-shell orbitals, numbers of modes, couplings and reference forms",
     "One correlated energy of one molecule is tested; block, spin and displacement terms that vanish there are not seen.",
     ["openms/lib/boson.py"],
     [("integrals", "openms/lib/boson.py: get_mos, tmat, fock, hf_energy, g_fock, get_I, gint, mfG")],
     "generated molecules and orbitals; oracle: bare integrals over position, dense electron-photon Hamiltonian")

prop("C29", "Runs distributed over several ranks equal the run in one process",
     "A quantum Monte Carlo run whose walkers are distributed over several ranks reports, on every rank, the energies, energy shift and norms of the same run in one process. Every rank holds its share of the walkers, ranks draw independent fields unless told to share one stream, resampling keeps the number of walkers of every rank and the total weight of all ranks, and the ranks always make the same collective calls.",
     ["inputs", "configurations", "histories"], "all numbers of ranks and walkers - also such that ranks hold different numbers - with and without photons, all population control methods",
     "Tests run in one process, where every sum over ranks and every exchange is the identity.",
     ["openms/__mpi__.py", Q + "qmc.py", Q + "propagators.py", Q + "generic_walkers.py", Q + "population_control.py"],
     [("ranks", "openms/__mpi__.py: MPIWrapper"), ("distribution and sums", Q + "qmc.py, generic_walkers.py, propagators.py, population_control.py")],
     "forked ranks joined by a real communicator; oracle: the run of one rank, given the same fields")


F = "openms/lib/fdtd/"
prop("C30", "The time-domain engine advances Maxwell's equations",
     "One step of the time-domain engine is the leapfrog update of the discretised Maxwell equations in every cell: in dielectrics with a permittivity per component, in free-carrier metals with their current, in molecular cells with a given polarisation current, in reflecting cells, and in the absorbing layers with their graded conductivity. Mirror-symmetric, periodic, Bloch-periodic and triangular domains behave as the whole domain they stand for, also on uneven and refined grids; initialisation clears all fields and materials are never changed by propagation.",
     ["inputs", "configurations", "histories"], "all fields, materials, grids, boundary kinds and parities, layer thicknesses and numbers of steps",
     "No test compiles or runs the engine; a wrong coefficient in one component, layer or symmetry branch needs exactly that configuration to show.",
     [F + "timeupdate.c", F + "sigma.c", F + "parameter.c", F + "memory.c"],
     [("field updates", F + "timeupdate.c: coefficient, propagate, propagate_tri, field_initialization"), ("absorbing layers", F + "sigma.c"), ("boundaries and memory", F + "parameter.c: Hz_parity, periodic_boundary; memory.c: memory")],
     "the engine compiled from the working tree on generated domains; oracle: double-precision reference over the unfolded domain")
prop("C31", "Structures are placed on the grid as described",
     "The cells of a time-domain simulation carry the materials of the described structure: positions and cells of refined grids map to each other, every component's permittivity is the average of the overlapping objects over its cell, and every node's free-carrier or molecular parameters are those of the last object that contains it, in the engine's units. This holds for every shape, size, rotation and position, also partly outside the domain.",
     ["inputs", "configurations"], "all grids, refined intervals, shapes, rotations, sizes, positions and orders of objects",
     "No test places an object; a wrong axis, radius or rounding shows only for particular shapes on uneven grids.",
     [F + "parameter.c", F + "input.c", F + "metalobj.c"],
     [("grids", F + "parameter.c: structure_size, lattice_size, non_uniform_grid, non_uniform_z_to_i, non_uniform_i_to_z"), ("dielectrics", F + "input.c: input_object, input_object_Euler_rotation, make_epsilon"), ("metals and molecules", F + "metalobj.c: input_Drude_medium, input_Drude_medium2, input_molecular, make_metal_structure")],
     "generated grids and overlapping objects; oracle: analytic geometry sampled independently, with brackets at surfaces")
prop("C32", "Time-domain sources and monitors act on the right samples",
     "Point, line, plane, beam and external sources add the stated amplitude - Gaussian or exponential envelope, its phase, and its imaginary part for Bloch-periodic domains - to the samples around their position and nowhere else. Monitored fields, energies, Poynting vectors and permittivities at a node are those of the staggered samples of the whole domain, and written planes, points, histories, repeated cells, time averages, energies and fluxes are those values or their properly weighted sums, one entry per call.",
     ["inputs", "configurations", "histories"], "all source kinds, components, signs, times and positions; all monitored quantities, nodes, planes, blocks, grids and boundary kinds",
     "No test runs a source or reads an output file of the engine.",
     [F + "source.c", F + "incoherent.c", F + "output.c", F + "energy.c", F + "metalobj.c"],
     [("sources", F + "source.c: *_dipole_source, *_line_source, *_planewave, Gaussian_beam_*; incoherent.c: Gauss_amp, Lorentz_amp, iGauss_amp, iLorentz_amp"), ("monitors", F + "output.c: grid_value, out_plane, out_point, out_epsilon, out_plane_periodic"), ("energies and fluxes", F + "energy.c")],
     "generated sources and fields; oracle: amplitude formulas, averages of staggered samples and weighted sums in double precision")

prop("C33", "Far-field patterns follow from the fields on a detection plane",
     "The spectra accumulated on a detection plane are the cosine and sine transforms of the fields at its nodes, and the amplitude, phase, plain, trimmed and enlarged maps written from them carry those values at their place, with zeros elsewhere. From four such maps the far field in every direction of the light cone has the polar and azimuthal amplitudes, Cartesian components, total intensity, radiated powers and normalised momentum-space maps of the equivalent surface currents, in any homogeneous medium. A direction map redrawn over the polar angle interpolates it, and the sum over frequencies adds the redrawn maps.",
     ["inputs", "configurations", "histories"], "all fields, planes, frequencies, times, grids, layers, map sizes, refractive indices and light-cone radii",
     "No test accumulates a spectrum, transforms a map or reads a far-field file.",
     [F + "farfield.c", F + "transmap.c", F + "output.c"],
     [("spectra and maps", F + "farfield.c: far_field_param; output.c: print_amp_and_phase, print_real_and_imag, print_real_and_imag_2n_size, make_2n_size"), ("radiation", F + "farfield.c: far_field_FFT"), ("direction maps", F + "transmap.c: transform_farfield, add_farfield")],
     "generated fields and maps; oracle: sums over node averages, an independent Fourier transform and interpolation in double precision")

K = "openms/lib/qmclibs/src/"
prop("C34", "Compiled kernels compute what their Python counterparts do",
     "The compiled library gives the same numbers as the formulas and Python functions it replaces for every shape, real or complex, contiguous or strided input: one-body steps, the Taylor exponential of one operator per walker at every order, overlap matrices and half-rotated Green's functions, exchange and Coulomb energies of closed and open shells, contracted fields, and the displacement matrices of photon states with their average over a photon density matrix. Inputs other than those documented as updated in place stay as they were, and shapes that do not match are refused.",
     ["inputs"], "all shapes, spins, orders, complex and real values, memory layouts, photon states, squeezing and shifts",
     "The library is not built where the tests run, so nothing executes it; and one closed-shell example cannot settle open shells, odd orders or unsymmetric overlaps.",
     [K + "estimators.cpp", K + "linalg.cpp", K + "propagator.cpp", K + "qedhf.cpp", K + "trial.cpp", K + "bindings.cpp"],
     [("energies", K + "estimators.cpp"), ("propagation", K + "propagator.cpp, linalg.cpp"), ("overlaps and Green's functions", K + "trial.cpp"), ("displacement operator", K + "qedhf.cpp")],
     "the sources compiled against plain stand-ins for pybind11, BLAS and GSL; oracle: sums in numpy, matrix exponentials and the Python functions")

prop("C35", "Tiled tensors hold every element in exactly one tile",
     "For every shape and tile shape of rank 2 to 4, whether or not the tiles divide the extents, the tiles of a tiled tensor cover every element exactly once: tile positions are enumerated completely and once, edge tiles are cut to what is left, the tiles a filter names are absent and all others present, with or without an initialiser, which is given each tile's own position. A stored tile is returned unchanged, a store or a change of a returned copy alters no other tile, and a tile's transposition, sum, product with a number and fill equal those of the dense array while the operands stay as they were.",
     ["inputs", "histories"], "all shapes, tile shapes, ranks, precisions, filters, permutations and sequences of stores and reads",
     "The library is not built where the tests run; remainders, oversized tiles and permutations beyond one example decide it.",
     ["openms/lib/tensor++/include/TiledTensor.hpp", "openms/lib/tensor++/include/Tile.hpp"],
     [("partition into tiles", "openms/lib/tensor++/include/TiledTensor.hpp: generate_all_tile_indices, initialize_tile_indices, set_tile, get_tile"), ("tile algebra", "openms/lib/tensor++/include/Tile.hpp")],
     "the headers behind a plain C interface; oracle: a dictionary of dense numpy blocks")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(
        version=1, setup_cmd="cd /verif && /opt/venv/bin/python tools/sanity.py",
        checks=[dict(property=p["id"], quick_cmd=f"cd /verif && ./check.sh {p['id']} quick", thorough_cmd=f"cd /verif && ./check.sh {p['id']} thorough",
                     evidence_file=f"evidence/{p['id']}.json", level="exploration",
                     technique="property-based testing (Hypothesis) against explicit oracles",
                     level_note=p["_note"])
                for p in P],
        not_applicable=NA, notes="see DESIGN.md; known_findings.json lists repaired and recorded defects",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
