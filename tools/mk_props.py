"""Writes properties.jsonl (kept as code so that statements and anchors are reviewed together)."""
import json, os
U = "slowquant/unitary_coupled_cluster/"
Q = "slowquant/qiskit_interface/"
M = "slowquant/molecularintegrals/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


p("P01", "Atomic-orbital integrals are exact",
  "For every molecule and supported basis set, the overlap, kinetic-energy, nuclear-attraction, dipole/multipole and electron-repulsion integrals equal the integrals of the normalised contracted Cartesian Gaussians they stand for, to floating-point accuracy, for every combination of angular momenta and centres and whether or not integral screening is on. They carry the permutation symmetries of the operators, the overlap and kinetic matrices are positive definite, and they transform correctly under translation, rotation and atom relabelling.",
  ["inputs", "configurations"], "every geometry, element/basis combination with s, p, d... shells, every quadruple of shells, every multipole order and origin, screening on and off",
  "The tests compare a handful of fixed molecules with stored reference arrays; an error confined to a particular angular-momentum combination, distance regime or screening condition is not sampled.",
  [M + "electronrepulsion.py", M + "integralfunctions.py", M + "kineticenergy.py", M + "multipole.py", M + "nuclearattraction.py", M + "integralclass.py"],
  [("Hermite expansion coefficients and Coulomb integrals", M + "integralfunctions.py"), ("Cauchy-Schwarz screening", M + "integralclass.py"), ("ERI permutational symmetry fill", M + "electronrepulsion.py")],
  observe=["SlowQuant().integral.*"])

p("P02", "A molecule means the same however it is specified",
  "The molecule built from a coordinate file, from the equivalent inline string, in angstrom or bohr, with any whitespace or atom order is the same: atoms, charges, electron counts, masses, centre of mass, distances, nuclear repulsion and basis functions agree (up to the relabelling implied by the order), and a molecular charge only changes the electron count. Every contracted basis function produced for every shell of the basis set is normalised and the set of functions is exactly the one the basis set defines for each element.",
  ["inputs", "configurations"], "every geometry, element in the basis sets, unit, charge, textual layout and atom order",
  "Tests use a few fixed inputs, mostly one file per molecule, one unit and neutral charge.",
  ["slowquant/molecule/moleculeclass.py", "slowquant/molecule/moleculefunctions.py", "slowquant/molecule/basis_reader.py", "slowquant/molecule/constants.py", "slowquant/SlowQuant.py"],
  [("molecule parser and unit conversion", "slowquant/molecule/moleculeclass.py"), ("basis-set reader", "slowquant/molecule/basis_reader.py"), ("contracted normalisation", "slowquant/molecule/moleculefunctions.py")])

p("P03", "Restricted Hartree-Fock results are self-consistent",
  "Whenever a restricted Hartree-Fock calculation finishes, with or without DIIS and for any thresholds, the reported orbitals are orthonormal, the density is the idempotent density of the lowest orbitals with the right number of electrons, the reported Fock matrix is the one of that density and commutes with it, the orbitals diagonalise it in ascending order, and the reported electronic energy is the energy of that density. A calculation that did not converge says so in its log, a rerun on the same object reproduces the result without altering the integrals, and the result does not depend on the orientation, position or atom order of the molecule.",
  ["inputs", "configurations"], "every closed-shell molecule and geometry, convergence acceleration on or off, thresholds",
  "Tests assert one energy number per fixed molecule; wrong orbitals, densities, or orbital energies that keep the energy within tolerance go unseen.",
  ["slowquant/hartreefock/hartreefock_in_memory.py", "slowquant/hartreefock/hartreefockclass.py", "slowquant/hartreefock/diis.py"],
  [("SCF loop", "slowquant/hartreefock/hartreefock_in_memory.py"), ("DIIS extrapolation", "slowquant/hartreefock/diis.py")])

p("P04", "Unrestricted Hartree-Fock results are self-consistent",
  "Whenever an unrestricted Hartree-Fock calculation finishes, for any molecule and charge, with or without DIIS and for any amount of initial symmetry breaking, the alpha and beta orbitals are orthonormal and diagonalise their own Fock matrices in ascending order, the spin densities are those of the lowest orbitals with the requested electron counts, both reported Fock matrices are those of these densities, the reported electronic energy equals the energy of those densities, and the reported spin contamination and charge and spin densities are those of the determinant. A calculation that did not converge says so in its log, and for closed shells without symmetry breaking it gives the restricted result.",
  ["inputs", "configurations"], "every molecule, geometry, charge and multiplicity, symmetry-broken or not",
  "Tests compare one or two fixed molecules' energies.",
  ["slowquant/hartreefock/unrestricted_hartreefock_in_memory.py", "slowquant/hartreefock/hartreefockclass.py", "slowquant/hartreefock/diis.py"],
  [("UHF loop", "slowquant/hartreefock/unrestricted_hartreefock_in_memory.py")])

p("P05", "Fermionic operator algebra is faithful",
  "Sums, differences, products, scalar multiples, negation, Hermitian conjugates, commutators and double commutators of second-quantised operators represent exactly the corresponding operators on Fock space, whatever the order and number of ladder operators in them, and terms that cancel disappear. Two operators built along different algebraic routes to the same mathematical object are equal term by term, binary operations never modify their operands, and in-place ones modify only their target.",
  ["inputs", "histories"], "every pair of operators with any ladder strings, index ranges and coefficients, and every sequence of algebraic operations",
  "The existing tests never check the algebra directly; energies only exercise number-conserving short strings.",
  [U + "fermionic_operator.py", U + "operators.py"],
  [("extended normal ordering", U + "fermionic_operator.py"), ("operator overloads", U + "fermionic_operator.py"), ("commutators", U + "operators.py")],
  state=[("operators", "normal-ordered string -> coefficient", U + "fermionic_operator.py")])

p("P06", "Hamiltonians and folded operators represent the molecule",
  "For any one- and two-electron integrals and any split into inactive, active and virtual orbitals, the electronic Hamiltonians and one-electron operators offered for the full space, for the active space, and with room for one or two inactive/virtual changes are Hermitian, and have exactly the matrix elements of the true operator between all the states they are meant for. Folding an operator into the active space preserves all its matrix elements between states with doubly occupied inactive and empty virtual orbitals, and elementary excitation operators have their defining matrix elements.",
  ["inputs", "configurations"], "every integral set (including ones with vanishing or tiny entries), every orbital-space partition, every index combination including coinciding indices",
  "Tests look at energies and response values for a few molecules with symmetric integrals; missing or doubled terms that vanish there are invisible.",
  [U + "operators.py", U + "fermionic_operator.py"],
  [("hamiltonian constructors", U + "operators.py"), ("operator folding", U + "fermionic_operator.py:get_folded_operator"), ("spin-adapted and spin-orbital excitation operators", U + "operators.py:G1..G6,G1_sa,G2_sa")])

p("P07", "Determinant spaces are complete and consistently indexed",
  "For every active space and electron count the list of determinants contains each determinant of the right alpha and beta electron numbers exactly once, and index-to-determinant and determinant-to-index are inverse bijections. An extended space contains exactly the determinants reachable from the active space by the requested number of spin-conserving one-electron moves between orbital spaces, with the complete active space first.",
  ["configurations"], "every (inactive, active, virtual) partition, alpha/beta electron count and extension order",
  "Tests run a few CAS sizes with equal alpha and beta electrons and never inspect the spaces.",
  [U + "ci_spaces.py"], [("determinant generators", U + "ci_spaces.py")])

p("P08", "Applying operators to states is exact and schedule independent",
  "Applying any sequence of operators to a state vector, forming the operator's matrix, or taking an expectation value gives exactly the action of those operators, for every operator order in the sequence, every ordered term, with or without folding, in normal and extended determinant spaces. The result is the same for any number of worker threads, for one state or a batch of states, and the input states are never altered.",
  ["inputs", "schedules", "configurations"], "every operator list, determinant space, state, thread count and batch size",
  "Tests run with one thread only, and only with operators that occur in energies and linear response of few molecules.",
  [U + "operator_state_algebra.py"],
  [("serial/threaded kernels", U + "operator_state_algebra.py:apply_operator_*"), ("state propagation", U + "operator_state_algebra.py:propagate_state*"), ("operator matrices", U + "operator_state_algebra.py:build_operator_matrix"), ("expectation values", U + "operator_state_algebra.py:expectation_value*")])

p("P09", "Ansatz unitaries are exact exponentials of their generators",
  "For every ansatz and every set of parameters the prepared state is the reference state acted on by the exponentials of the anti-Hermitian excitation operators, in the documented order; it stays normalised, conserves the number of alpha and beta electrons, and spin-adapted ansätze conserve the total spin. Applying the transformation and then its inverse restores any state, zero parameters give the reference, batches of states are transformed like single ones, and the derivative action agrees with the unitary.",
  ["inputs", "configurations"], "every excitation type and index tuple, parameter value (small, large, multiples of pi), reference state, forward/inverse direction, single or batched states",
  "Tests check optimised energies of a few ansätze, i.e. particular parameter values and index tuples.",
  [U + "operator_state_algebra.py", U + "util.py"],
  [("closed-form exponentials", U + "operator_state_algebra.py:construct_ups_state"), ("inverse and batched variants", U + "operator_state_algebra.py:propagate_unitary*"), ("derivative action", U + "operator_state_algebra.py:get_grad_action*")])

p("P10", "Excitation lists and ansatz layouts are complete",
  "The lists of excitations offered for each rank, with and without spin adaptation or generalisation, contain every distinct spin-conserving excitation of that kind exactly once and none that vanishes identically. Each named ansatz, with any combination of its documented options, consists of exactly the layers and excitations that its definition prescribes, in the same order for state-vector and circuit wave functions, with one parameter per excitation.",
  ["configurations"], "every active space, excitation rank, ansatz name and option combination",
  "Tests run some ansätze for few spaces, and an omitted or repeated excitation often leaves the converged energy within tolerance.",
  [U + "util.py", U + "ups_wavefunction.py", U + "ucc_wavefunction.py"],
  [("excitation iterators", U + "util.py:iterate_*"), ("ansatz builders", U + "util.py:UpsStructure,UccStructure")])

p("P11", "Reduced density matrices are those of the wave function",
  "For every wave function and parameter values the one- to four-electron reduced density matrices equal the defining expectation values in the state, with all their permutation symmetries, traces and contraction (partial trace) relations. Energies, orbital gradients and orbital response blocks computed from density matrices equal those computed from the full-space state, for all inactive/active/virtual index combinations.",
  ["inputs", "configurations"], "every state, active space, orbital partition and index tuple",
  "Tests compare derived scalars for a few optimised, high-symmetry states.",
  [U + "density_matrix.py", U + "ups_wavefunction.py", U + "ucc_wavefunction.py"],
  [("RDM construction with index symmetry", U + "ups_wavefunction.py:rdm1..rdm4"), ("full-space RDM lookup", U + "density_matrix.py:RDM1,RDM2"), ("RDM energy/gradient/Hessian formulas", U + "density_matrix.py")])

p("P12", "State-vector wave functions never report stale quantities",
  "After any sequence of setting parameters, setting orbital rotations, optimising and reading quantities, everything a state-vector wave function object reports (state, energy, density matrices, orbitals, integrals) equals what a freshly built object with the same orbitals and parameters reports. Orbitals stay orthonormal, repeated reads agree, values read earlier and the caller's own inputs are never altered, and wrong-length parameter vectors are rejected.",
  ["histories"], "every interleaving of parameter/orbital updates, optimisations and reads, for single-state and unitary coupled-cluster wave functions",
  "Tests build an object, optimise it once and read; caches are never exercised by other histories.",
  [U + "ups_wavefunction.py", U + "ucc_wavefunction.py"],
  [("cache invalidation in setters", U + "ups_wavefunction.py:thetas,kappa,c_mo"), ("cached state/RDM/energy", U + "ups_wavefunction.py")],
  state=[("_rdm1.._rdm4,_energy_elec,_h_mo,_g_mo", "cached quantities", U + "ups_wavefunction.py")])

p("P13", "Analytic gradients are the derivatives of the energy",
  "For every wave function type, ansatz, parameter values and orbital rotation, the gradient handed to the optimiser equals the derivative of the energy function handed to it with respect to every variable, for parameter-only, orbital-only and joint optimisation, and for state-averaged objectives. In particular it vanishes at the reported optimum and is consistent with the energy reported by the wave function.",
  ["inputs", "configurations"], "every parameter vector, orbital-rotation vector and weighting of states",
  "A wrong gradient component usually still lets the optimiser reach the test's energy within tolerance.",
  [U + "ups_wavefunction.py", U + "ucc_wavefunction.py", U + "sa_ups_wavefunction.py", U + "operator_state_algebra.py", U + "density_matrix.py"],
  [("adjoint-style parameter gradient", U + "ups_wavefunction.py:_calc_gradient_optimization"), ("orbital gradient", U + "density_matrix.py:get_orbital_gradient")])

p("P14", "Optimisation leaves the wave function at the reported optimum",
  "Whichever optimiser and scheme (one-step or two-step, with or without orbital optimisation) is used, from any start, the energy never ends above the starting energy or below the exact ground-state energy of its space, and the object afterwards holds exactly the parameters and orthonormal orbitals whose energy is the reported one. A further optimisation continues from that point, and gradient-based optimisers end at a stationary point.",
  ["inputs", "configurations", "histories"], "every optimiser, start, ansatz, orbital-optimisation flag and repeated optimisation",
  "Tests assert the final energy only, from one start and one run per molecule.",
  [U + "optimizers.py", U + "ups_wavefunction.py", U + "ucc_wavefunction.py"],
  [("run_wf_optimization_1step/2step", U + "ups_wavefunction.py"), ("optimizer wrapper", U + "optimizers.py")])

p("P15", "Coordinate-wise optimisation is exact along each coordinate",
  "For objectives that are trigonometric polynomials of the declared degree in each parameter, the reconstruction used by coordinate-wise optimisation reproduces the objective (and its derivative) exactly everywhere from the sampled values, for single and state-averaged objectives, and every coordinate update moves to the global minimum along that coordinate. The objective therefore never increases from sweep to sweep, and the returned result is the best point found.",
  ["inputs", "configurations"], "every such objective, degree per parameter, dimension and start point",
  "Tests run it on one or two small molecules and look at the final energy.",
  [U + "optimizers.py"], [("RotoSolve", U + "optimizers.py:RotoSolve"), ("Fourier reconstruction", U + "optimizers.py:reconstructed_f")])

p("P16", "State-averaged wave functions treat every state alike and exactly",
  "For every set of orthonormal reference states and any parameters and orbital rotations, the states stay orthonormal, the reported state energies are the eigenvalues of the Hamiltonian in the spanned space, the averaged energy is the plain mean of the individual energies, averaged density matrices are the mean of the states' density matrices, and transition properties and oscillator strengths equal those of the final states. Every reported quantity matches a fresh object after any sequence of updates and optimisations.",
  ["inputs", "histories", "configurations"], "every state set (including multi-determinant states), parameters, orbital rotation, property operator and update history",
  "Tests use two molecules with fixed references and compare a few excitation energies after optimisation.",
  [U + "sa_ups_wavefunction.py"],
  [("subspace diagonalisation", U + "sa_ups_wavefunction.py"), ("averaged RDMs", U + "sa_ups_wavefunction.py:rdm1,rdm2"), ("transition properties", U + "sa_ups_wavefunction.py:get_transition_property")])

p("P17", "Linear-response matrices are the defining expectation values",
  "For every linear-response formulation, excitation manifold, active space and stationary wave function, the Hessian-like and metric-like matrices equal the expectation values of the commutators that define the formulation, including every block between orbital rotations and active-space excitations. They have the required symmetries: A, B and Sigma symmetric and Delta antisymmetric.",
  ["inputs", "configurations"], "every formulation, excitation rank, wave function type, molecule and orbital partition",
  "Tests compare the few lowest excitation energies for a few molecules; blocks that couple weakly or vanish by symmetry are not sampled.",
  [U + "linear_response/" + f for f in ("naive.py", "projected.py", "selfconsistent.py", "statetransfer.py", "allprojected.py", "allselfconsistent.py", "allstatetransfer.py", "projected_statetransfer.py", "lr_baseclass.py")],
  [("matrix construction per formulation", U + "linear_response/")])

p("P18", "Linear-response spectra and intensities are physically exact",
  "The reported excitation energies are the positive eigenvalues, in ascending order, of the response problem, their excitation vectors are normalised solutions of it, and oscillator strengths follow from the transition dipole moments of those solutions independently of orbital phases, origin and molecular orientation. Where the (transformed) excitation operators span the whole space, every formulation reproduces the exact excitation energies and oscillator strengths of the space.",
  ["inputs", "configurations"], "every formulation, molecule, geometry and orientation, orbital sign choice",
  "Tests compare stored spectra of fixed geometries in a fixed orientation.",
  [U + "linear_response/lr_baseclass.py", U + "linear_response/naive.py", U + "integral_manager.py"],
  [("generalised eigenproblem", U + "linear_response/lr_baseclass.py:calc_excitation_energies"), ("transition moments and norms", U + "linear_response/*:get_property_gradient,get_oscillator_strength")])

p("P19", "Circuits prepare the state-vector wave function's state",
  "For every ansatz, fermion-to-qubit mapping and parameter values, the circuit run without noise gives the same expectation value for every operator as the state-vector wave function with the same parameters, up to rounding. This holds for every excitation circuit on every combination of qubits, in both parity and Jordan-Wigner mappings, before and after transpilation to a device.",
  ["inputs", "configurations"], "every ansatz and option, excitation index tuple, mapping, parameter values, observable, transpilation setting",
  "Tests compare few molecules at optimised parameters in minimal active spaces, where most index patterns (and their Jordan-Wigner strings) never occur.",
  [Q + "operators_circuits.py", Q + "util.py", Q + "interface.py", U + "fermionic_operator.py"],
  [("excitation circuits", Q + "operators_circuits.py"), ("ansatz circuits", Q + "util.py"), ("operator mapping", Q + "interface.py:op_to_qbit"), ("alpha-beta reordering", U + "fermionic_operator.py:get_qiskit_form")])

p("P20", "Reusing and grouping measurements never changes results",
  "With stored measurement results switched on, any interleaving of parameter changes, operator evaluations, primitive, shot or mitigation changes and saving/loading of stored results gives the same expectation values as measuring every Pauli string afresh at the current settings. Grouped measurement reads each Pauli string from a basis that really measures it, and each string is counted with its own coefficient exactly once.",
  ["histories", "inputs"], "every sequence of operations on an interface object, every set of Pauli strings",
  "Tests run one evaluation pattern per molecule, with saving on, at fixed parameters.",
  [Q + "interface.py", Q + "util.py"],
  [("Pauli saver", Q + "interface.py"), ("qubit-wise commuting grouping", Q + "util.py:Clique")],
  state=[("saver", "measured distributions per circuit", Q + "interface.py")])

p("P21", "Error mitigation and sampling are unbiased and account for shots",
  "On a noiseless device, readout correction and symmetry post-selection, separately or together and however often toggled, never change expectation values beyond statistics; on a device whose only error is readout noise, readout correction recovers the noiseless value. Sampled expectation values converge to the exact ones with the reported variance, measured distributions are normalised with as many samples as shots were requested, and the shots used are reported.",
  ["inputs", "configurations", "fault_sequences"], "every readout-error model, mitigation flag sequence, mapping, observable and shot number, including more shots than one execution may hold",
  "Tests use fixed seeds and one noise model and compare with stored noisy numbers.",
  [Q + "interface.py", Q + "util.py"],
  [("confusion matrix and its inverse", Q + "interface.py"), ("post-selection", Q + "util.py:postselection"), ("shot splitting", Q + "interface.py")])

p("P22", "Quantum linear response equals its state-vector counterpart",
  "For every formulation offered on circuits, the response matrices, excitation energies, normalised vectors and oscillator strengths obtained without noise equal those of the state-vector formulation for the same wave function, whichever evaluation route (density matrices, full operators, grouping, mapping) is chosen. Choosing to reuse measurements or a different but equivalent option never changes them.",
  ["inputs", "configurations"], "every formulation, molecule, parameter/orbital values, mapping, evaluation option",
  "Tests compare few molecules at their optima.",
  [Q + "linear_response/" + f for f in ("naive.py", "projected.py", "allprojected.py", "selfconsistent.py", "statetransfer.py", "lr_baseclass.py")],
  [("matrix construction per formulation", Q + "linear_response/")])

p("P23", "State-averaged circuits reproduce off-diagonal elements exactly",
  "Without noise, matrix elements of any operator between superposition reference states evolved by the circuit equal those of the state-vector states, for every pair of states, either order, and every device-level option for preparing superpositions. State energies, averaged energies, density matrices and transition properties of state-averaged circuit wave functions equal the state-vector ones after any sequence of updates.",
  ["inputs", "histories", "configurations"], "every pair of configuration state functions, operator, ansatz, mapping, option and history",
  "Tests use two molecules with fixed two- or three-state sets.",
  [Q + "sa_circuit_wavefunction.py", Q + "interface.py", Q + "operators_circuits.py"],
  [("superposition state preparation", Q + "util.py:get_determinant_superposition_reference"), ("polarised expectation values", Q + "interface.py:quantum_expectation_value_csfs")])

p("P24", "Results do not depend on the integral source",
  "A wave function built from this package's own molecule object and one built from the equivalent external-package molecule give the same overlap, one- and two-electron integrals (up to function ordering and normalisation), nuclear energy, active-space energies, gradients, excitation energies and oscillator strengths. Dipole integrals from the two sources describe the same physical property.",
  ["inputs", "configurations"], "every molecule, geometry, charge and basis set both sources support",
  "One test compares the two sources on one molecule.",
  [U + "integral_manager.py", M + "integralclass.py"], [("integral adapter", U + "integral_manager.py")])

p("P25", "Circuit wave functions never report stale or inconsistent values",
  "After any sequence of parameter and orbital updates, optimisations, primitive changes and reads, everything a circuit wave function reports (energy, density matrices, orbitals, integrals) equals, without noise, what a state-vector wave function with the same orbitals and parameters reports. Its parameter-shift gradients are the derivatives of its energy, its optimisation ends at the parameters and orbitals whose energy it reports, and conversion from a state-vector wave function preserves the energy and all density matrices.",
  ["histories", "inputs"], "every interleaving of updates, optimisations and reads; every ansatz and mapping",
  "Tests build, optimise once and read.",
  [Q + "circuit_wavefunction.py", Q + "circuit_wavefunction_from_ups.py", Q + "interface.py"],
  [("setters and caches", Q + "circuit_wavefunction.py"), ("parameter-shift rule", Q + "circuit_wavefunction.py:_calc_gradient_optimization"), ("conversion", Q + "circuit_wavefunction_from_ups.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
