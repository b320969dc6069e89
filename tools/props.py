"""The properties, from which gen.py writes properties.jsonl and MANIFEST.json."""
CORE = "src/python/zquantum/core/"
PROPS = []


def P(id, title, statement, q, why, files, mech, over=("inputs",), note=None, na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=q), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith(("steps", "subtrees")) else CORE + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech]),
        _note=note, _na=na))


P("C01", "Built-in and user-defined gates are the unitaries they document",
  "Every built-in gate, for every value of its parameters, has exactly the matrix its documentation gives, and that matrix is unitary. "
  "Inverting a gate gives the adjoint matrix and inverting twice the gate itself; controlling a gate with k qubits gives the block matrix identity + gate; a user-defined gate evaluates its matrix at exactly the arguments it was called with.",
  "all real parameter values of all built-in gates, all nestings (to depth 2-3) of inversion and control, user-defined gates with all argument values",
  "Tests compare a few fixed angles; a wrong sign or half-angle in one entry, or in one wrapper nesting, can hold at all of them.",
  ["circuits/_builtin_gates.py", "circuits/_matrices.py", "circuits/_gates.py"],
  [("matrix factories", "_matrices.py"), ("MatrixFactoryGate, ControlledGate, Dagger, CustomGateDefinition", "_gates.py")])

P("C02", "Applying a circuit equals multiplying by its documented unitary",
  "An operation acting on a register applies its gate to exactly the listed qubits in the listed order and the identity to all the others, qubit 0 being the most significant. "
  "The unitary of a circuit is the product of its operations in time order, applying the circuit to a state gives the same as multiplying by that unitary, and inverting or controlling a whole circuit inverts or controls its unitary.",
  "all gates with arbitrary real angles, all placements on up to 4 qubits, arbitrary complex states",
  "Tests sample a handful of placements; permutation errors show up only for particular qubit orders, and cancel for symmetric gates.",
  ["circuits/_gates.py", "circuits/_circuit.py", "circuits/_generators.py", "circuits/_operations.py"],
  [("lifting and application of matrices", "_gates.py GateOperation"), ("Circuit.to_unitary, inverse", "_circuit.py"), ("add_controls", "_generators.py")])

P("C03", "Binding parameters substitutes every symbol, everywhere, at once",
  "Binding replaces each free symbol by its value simultaneously in every gate of a circuit, however deeply inverted or controlled, whatever expressions the parameters are, and leaves unmentioned symbols and the original circuit untouched. "
  "The bound circuit has the unitary the original would have at these values, binding in several steps or all at once agree, and the free symbols reported are exactly those left.",
  "all values bound, parameter expressions from a grammar, symbol-to-symbol maps including swaps, all wrapper nestings",
  "Tests bind fixed numbers to one symbol at a time; order dependence between substituted symbols and wrappers that forget to forward binding need particular expression and map combinations.",
  ["circuits/_gates.py", "circuits/_operations.py", "circuits/_circuit.py", "circuits/_wavefunction_operations.py"],
  [("sub_symbols", "_operations.py"), ("bind / replace_params", "_gates.py, _circuit.py")])

P("C04", "Building, joining, splitting and comparing circuits keeps every operation",
  "A circuit keeps its operations in the order given and is as large as declared or as its highest qubit requires; joining two circuits keeps all operations in order and takes the larger size; splitting by a predicate yields consecutive runs that concatenate back to the original. "
  "Equality holds exactly when sizes and operations agree, and layer, per-qubit and ancilla helpers put exactly the gates they document on the qubits they document.",
  "all sequences of up to 3-4 operations over a palette on up to 4 qubits with arbitrary angles, all predicates",
  "Tests use fixed circuits; boundary cases (empty sides, idle qubits, runs of equal flags, nearly equal parameters) are combinatorial.",
  ["circuits/_circuit.py", "circuits/_generators.py", "circuits/_gates.py", "circuits/layouts.py"],
  [("Circuit.__add__, __eq__, _circuit_size_by_operations", "_circuit.py"), ("split_circuit", "circuits"), ("create_layer_of_gates, apply_gate_to_qubits, add_ancilla_register", "_generators.py")])

P("C05", "Saving and loading circuits preserves them",
  "A circuit or circuit set written to a dictionary, JSON or file and read back is equal to the original: same size, operations, qubit order, wrappers, parameters, free symbols, and user-defined gates with the same matrices. "
  "Conflicting gate definitions and wrong schemas are refused instead of loading something else.",
  "all built-in gates and wrappers, arbitrary numeric parameters, expressions over awkward symbol names (clashing with mathematical constants, indexed), user-defined gates plain and wrapped",
  "Round-trip tests list a few circuits; symbol names that clash with the parser, wrapped user-defined gates and generator-consumption bugs need particular combinations.",
  ["circuits/_serde.py", "circuits/_circuit.py", "circuits/_gates.py"],
  [("to_dict / circuit_from_dict", "_serde.py"), ("collect_custom_gate_definitions", "_circuit.py")])

P("C06", "Decomposing a circuit preserves its effect and its size",
  "Applying decomposition rules to a circuit gives a circuit of the same size whose unitary equals the original's up to a global phase, for every gate the rules match, including controlled and inverted ones; operations no rule matches are kept as they were, in place, and rules are applied in the order given.",
  "all angle values of U3 and controlled U3, all placements on up to 3-4 qubits, circuits mixing matched and unmatched operations, custom rules",
  "Tests compare fixed angles; a phase that is global for a gate is relative once it is controlled, and sizes shrink only with idle top qubits.",
  ["decompositions/_decomposition.py", "decompositions/_zquantum_decompositions.py"],
  [("decompose_operations, decompose_circuit", "_decomposition.py"), ("U3GateToRotation", "_zquantum_decompositions.py")])

P("C07", "Time evolution circuits implement the exponentials they stand for",
  "The circuit evolving under a Pauli term for a time t has the unitary exp(-i t c P) up to a global phase, for every term, coefficient and time; evolving under a sum with n Trotter steps is the n-fold product of the terms' evolutions for time t/n in order. "
  "The derivative circuits with their factors give exactly the derivative of an expectation value with respect to time.",
  "all Pauli strings on up to 3 qubits, arbitrary real coefficients and times, 1-3 Trotter steps",
  "Tests use fixed times at which sign and sub-step errors are small or hidden by tolerance.",
  ["evolution.py"],
  [("time_evolution, time_evolution_for_term", "evolution.py"), ("time_evolution_derivatives", "evolution.py")])

P("C08", "Wavefunctions are always valid quantum states",
  "A wavefunction has a power-of-two number of amplitudes whose squared moduli sum to one: anything else is refused on construction, assignment and binding, and a refused operation leaves the state unchanged. "
  "Probabilities are the squared moduli, listed under the documented bitstrings; zero, Dicke and flipped states have exactly the documented amplitudes; equality is a single truth value.",
  "all amplitude values of size 2-4, all assignments by index and slice, all bound values, up to 6 qubits for named states",
  "Tests pick a few vectors; atomicity after a refused assignment and validity at the tolerance boundary hold or fail only for particular values.",
  ["wavefunction.py"],
  [("Wavefunction.__init__, __setitem__, bind, get_outcome_probs", "wavefunction.py"), ("dicke_state, flip_amplitudes", "wavefunction.py")])

P("C09", "Simulators report what the circuit's final state predicts",
  "Running a circuit on a simulator yields the state obtained by applying its operations in order to the initial state, whether or not the simulator handles an operation natively. "
  "Exact expectation values are the real inner products of that state with the operator, exact distributions are its outcome probabilities, sampled measurements are possible outcomes with qubit 0 first and as many as asked for, and a seed makes them reproducible.",
  "all initial states of up to 2-3 qubits, arbitrary angles, all splits between native and non-native operations, all Pauli operators in the bounds, any random draws",
  "Tests run fixed circuits on a mock simulator and compare statistics loosely; segmentation of the circuit and bit-order errors are combinatorial.",
  ["interfaces/backend.py", "symbolic_simulator.py", "measurement.py", "estimation/_estimation.py"],
  [("QuantumSimulator.get_wavefunction, get_exact_expectation_values, get_measurement_outcome_distribution", "interfaces/backend.py"), ("SymbolicSimulator", "symbolic_simulator.py")])

P("C10", "Measurements, counts and samples describe the same outcomes",
  "Bitstrings, counts and the relative-frequency distribution of a set of measurements always agree, whichever they were built from; adding counts accumulates, saving and loading preserves every bitstring and its order. "
  "Samples drawn from a state or a distribution are possible outcomes only, each given its own probability, and exactly as many as requested.",
  "all counts over up to 2-3 bits, all lists of up to 4 bitstrings, all distributions over up to 4 outcomes, any random draws",
  "Tests compare a few fixed lists; empty counts, outcome/probability pairing and bit order need specific inputs.",
  ["measurement.py", "utils.py"],
  [("Measurements", "measurement.py"), ("sample_from_probability_distribution", "utils.py"), ("sample_from_wavefunction", "measurement.py")])

P("C11", "Expectation values from measurements are the sample statistics",
  "The expectation value of each Ising term computed from measurements is its coefficient times the average parity of the measured bits, correlations and covariances are the sample ones with the requested correction, for an operator and for parities alike. "
  "Parities converted to expectation values agree with them, concatenating keeps order and frames, and saving, loading and converting to real loses nothing.",
  "all lists of up to 3-4 bitstrings over up to 3 bits or arbitrary frequencies, all Ising operators of up to 3 terms with arbitrary coefficients, Bessel correction on and off",
  "Tests use fixed samples; weighting of repeated outcomes, the constant term and products of overlapping terms need particular combinations.",
  ["measurement.py"],
  [("Measurements.get_expectation_values, get_expectation_value_from_frequencies, get_parities_from_measurements", "measurement.py"), ("expectation_values_to_real, concatenate_expectation_values", "measurement.py")])

P("C12", "Bit, integer, string and spin-orbital index conversions are bijective",
  "Converting integers to bit lists of a given length and back, bitstrings to tuples and back, and reordering spin orbitals up-then-down or interleaved, are mutually inverse, use the documented endianness and lose nothing; numbers that do not fit are refused.",
  "all integers below 2^8 with all lengths, all bit lists up to length 8, all orbital indices and even register sizes in the bounds",
  "Tests try a few numbers; boundary values (powers of two) and leading zeros are exactly where such code breaks.",
  ["utils.py", "measurement.py", "openfermion/utils/indexing.py"],
  [("dec2bin, bin2dec, bitstring conversions", "utils.py"), ("up_index, down_index, up_then_down", "openfermion/utils/indexing.py")])

P("C13", "Outcome distributions are valid, normalized and survive being saved",
  "A distribution has outcomes of one length with non-negative probabilities and, after normalization, total one with unchanged ratios; anything else is refused. "
  "Tuple, string and integer forms of outcomes denote the same distribution, and saving and loading distributions or lists of them restores every outcome and probability.",
  "all probability values over up to 4 outcomes, subsystems of dimension up to 11, all key forms",
  "Tests list a few dictionaries; multi-digit subsystem outcomes, almost-normalized totals and negative entries hidden among valid ones are rare combinations.",
  ["distribution/_measurement_outcome_distribution.py", "distribution/__init__.py"],
  [("MeasurementOutcomeDistribution.__init__, normalize_measurement_outcome_distribution, is_* predicates, save/load", "distribution/_measurement_outcome_distribution.py")])

P("C14", "Distances between distributions are the documented quantities",
  "Clipped negative log-likelihood sums over the target's outcomes with the measured probability clipped at epsilon, and mean maximum discrepancy is the squared kernel distance with the documented Gaussian (multi-)kernel; "
  "both read the same outcome from both distributions whatever the order in which outcomes are stored, MMD is symmetric, zero for equal distributions and non-negative, and unnormalized or malformed input is refused.",
  "all probability values on up to 4 outcomes each with any overlap and order, all positive epsilon and sigma from listed values",
  "Tests fix two dictionaries in the same order; a mismatch of key order between distributions or a missing outcome only shows for particular supports.",
  ["distribution/clipped_negative_log_likelihood.py", "distribution/mmd.py", "distribution/_measurement_outcome_distribution.py"],
  [("compute_clipped_negative_log_likelihood", "distribution/clipped_negative_log_likelihood.py"), ("compute_mmd, compute_multi_rbf_kernel", "distribution/mmd.py")])

P("C15", "Scaling weights to integer counts keeps total and proportions",
  "Scaling real weights to a given integer total gives non-negative integers that sum to exactly that total, each within one of its exact proportion, and a weightless entry gets none; representing a distribution by measurements gives exactly the requested number of samples.",
  "all positive real weights for up to 4 entries, totals in the bounds, any random choices made by the code",
  "Tests check sums for a few inputs; off-by-one in distributing the remainder depends on how the fractional parts happen to fall.",
  ["utils.py", "measurement.py"],
  [("scale_and_discretize", "utils.py"), ("Measurements.get_measurements_representing_distribution", "measurement.py")])

P("C16", "Estimating a list of tasks gives each task its own answer, in order",
  "Estimators return one result per task in the order of the tasks, each computed from that task's own circuit, operator and number of shots, whether its operator is constant, has several terms or gets no shots; "
  "binding symbols in tasks and splitting them by whether they need measuring are order-preserving and complete.",
  "all lists of up to 3 tasks over all kinds of operator and shot counts, arbitrary coefficients and measurement results",
  "Tests use uniform lists of tasks; order errors only show for mixed lists in particular arrangements.",
  ["estimation/_estimation.py", "interfaces/estimation.py"],
  [("estimate_expectation_values_by_averaging, split_estimation_tasks_to_measure, evaluate_non_measured_estimation_tasks, evaluate_estimation_circuits, group_individually", "estimation/_estimation.py")])

P("C17", "Shot allocation spends the budget in the documented proportions",
  "Uniform allocation gives every task the same number of shots and proportional allocation spends exactly the total, in proportion to each group's standard deviation, within one shot; estimated variances are the ones implied by coefficients and prior expectation values; inconsistent priors are refused.",
  "all coefficients, prior expectation values and totals in the bounds for up to 3 groups of up to 3 terms",
  "Tests compare fixed allocations; constants, empty priors and rounding depend on particular coefficient and budget combinations.",
  ["estimation/_estimation.py", "hamiltonian.py"],
  [("allocate_shots_uniformly, allocate_shots_proportionally", "estimation/_estimation.py"), ("estimate_nmeas_for_frames, compute_group_variances", "hamiltonian.py")])

P("C18", "Grouping terms and rotating to a measurement basis lose nothing",
  "Greedy grouping puts every non-constant term with its coefficient in exactly one group of terms that commute qubit by qubit; task lists are grouped with circuits and shots kept; "
  "rotating a term or a group to its measurement basis leaves an Ising operator and a circuit with the same expectation value in every state.",
  "all sets of up to 3 Pauli terms on up to 3 qubits with arbitrary coefficients, arbitrary states and preparation angles",
  "Tests use particular Hamiltonians; comeasurability of a third term with a merged group and the order of basis rotations need particular triples.",
  ["hamiltonian.py", "estimation/_estimation.py"],
  [("is_comeasureable, group_comeasureable_terms_greedy", "hamiltonian.py"), ("group_greedily, perform_context_selection, get_context_selection_circuit_for_group", "estimation/_estimation.py")])

P("C19", "Pauli operator algebra is matrix algebra",
  "The product of Pauli factors given in any order and form, and sums, differences, products and powers of Pauli and Ising operators, denote exactly the corresponding matrices, with terms kept in canonical form with one factor per qubit; operands are not modified unless the operation is in place.",
  "all products of up to 3-4 factors on up to 3 qubits, all sums of up to 2 terms, arbitrary coefficients, powers up to 3",
  "Tests list some products; one wrong phase in the multiplication table with several factors on one qubit can cancel in them.",
  ["openfermion/ops/operators/qubit_operator.py", "openfermion/ops/operators/ising_operator.py", "openfermion/ops/operators/symbolic_operator.py"],
  [("QubitOperator._simplify", "openfermion/ops/operators/qubit_operator.py"), ("IsingOperator._simplify", "openfermion/ops/operators/ising_operator.py"), ("__imul__, __pow__", "openfermion/ops/operators/symbolic_operator.py")])

P("C20", "Operators form a ring and containers that never alias or lose terms",
  "Sequences of additions, subtractions, multiplications, divisions by scalars or operators, in place or not, give the terms and coefficients of the algebra; cancelled terms vanish, operands keep their value and results share no state with them. "
  "Equality holds exactly when every term agrees within its tolerance; iteration, grouping, accumulation, compression, norms, order and the printed form are those of the same sum of terms.",
  "all operation sequences of length 1-2 on sums of up to 2 terms of all three operator classes, all coefficients (near zero included), any interleaving of iterators",
  "Tests check particular expressions; aliasing, shared iterators, tolerance mixing between terms and mutation during subtraction need particular histories.",
  ["openfermion/ops/operators/symbolic_operator.py", "openfermion/ops/operators/qubit_operator.py", "openfermion/ops/operators/fermion_operator.py", "openfermion/ops/operators/ising_operator.py"],
  [("SymbolicOperator arithmetic, isclose, compress, __iter__, get_operator_groups, accumulate", "openfermion/ops/operators/symbolic_operator.py")],
  over=("inputs", "histories"))

P("C21", "Fermion-to-qubit transforms represent the same operator",
  "Jordan-Wigner and Bravyi-Kitaev transforms of every fermionic operator or Hermitian interaction operator act on (encoded) occupation states exactly as the ladder operators do, on the number of qubits asked for; "
  "the reverse Jordan-Wigner transform inverts the forward one. Too few qubits or operators of the wrong kind are refused and inputs are left alone.",
  "all products of up to 4 ladder operators on up to 3-5 modes, all Hermitian one- and two-body monomials on up to 3-4 modes, all Pauli terms on up to 3 qubits, arbitrary (complex) coefficients",
  "Tests compare a few operators or spectra; the many index cases of the closed-form transforms each have their own signs.",
  ["openfermion/transforms/opconversions/jordan_wigner.py", "openfermion/transforms/opconversions/bravyi_kitaev.py", "openfermion/transforms/opconversions/reverse_jordan_wigner.py", "openfermion/hamiltonians/special_operators.py"],
  [("jordan_wigner, jordan_wigner_one_body, jordan_wigner_two_body", "jordan_wigner.py"), ("bravyi_kitaev, _seeley_richard_love", "bravyi_kitaev.py"), ("reverse_jordan_wigner", "reverse_jordan_wigner.py")])

P("C22", "Interaction operators and polynomial tensors are the operators they stand for",
  "Converting between interaction operators and fermion operators keeps the operator, on the number of modes asked for, and refuses what fits no tensor; arithmetic, equality, element access, iteration, projection, spin-orbital expansion "
  "and basis rotation of polynomial tensors are those of the sums of terms they stand for, with one representative per symmetry class in unique_iter; operands are left alone unless the operation is in place.",
  "all tensors on up to 2-3 modes with arbitrary entries, all number-conserving terms of up to 4 ladder operators in any order, all rotation matrices on 2 orbitals",
  "Tests use a few small molecules' tensors, where symmetry hides index transpositions and missing terms.",
  ["openfermion/ops/representations/polynomial_tensor.py", "openfermion/ops/representations/interaction_operator.py", "openfermion/transforms/opconversions/conversions.py", "openfermion/transforms/repconversions/conversions.py"],
  [("PolynomialTensor, general_basis_change", "openfermion/ops/representations/polynomial_tensor.py"), ("InteractionOperator.unique_iter, projected; get_tensors_from_integrals", "openfermion/ops/representations/interaction_operator.py"), ("get_fermion_operator, get_interaction_operator", "transforms")])

P("C23", "Reordering ladder operators keeps the operator and gives the promised form",
  "Normal ordering and chemist ordering give the same operator in the documented form (unique for normal order) for fermion and interaction operators; the predicates for normal order and two-body number conservation agree with their definitions; "
  "relabelling modes maps every index by the given function and its reverse undoes it. Operators of the wrong kind are refused and inputs left alone.",
  "all products of up to 4-6 ladder operators on up to 3 modes with arbitrary coefficients, all two-body tensors on up to 4-5 modes, several mode maps",
  "Tests reorder a few products; signs and contraction terms depend on the particular interleaving of repeated modes.",
  ["openfermion/transforms/opconversions/term_reordering.py", "openfermion/ops/operators/fermion_operator.py", "openfermion/utils/indexing.py"],
  [("normal_ordered, chemist_ordered, reorder", "openfermion/transforms/opconversions/term_reordering.py"), ("is_normal_ordered, is_two_body_number_conserving", "openfermion/ops/operators/fermion_operator.py")])

P("C24", "Conjugation, hermiticity tests, commutators and counts match the operators",
  "hermitian_conjugated gives the adjoint of every kind of operator, is_hermitian answers yes exactly for operators that equal their adjoint as operators (whatever the order in which they are written, within tolerance), "
  "commutator, anticommutator and double_commutator (with or without its shortcut for hopping terms) are the sums of products they name, and count_qubits and is_identity describe the terms; operands are left alone and other kinds refused.",
  "all sums of terms of up to 3-4 ladder operators or Paulis on 2-3 qubits with arbitrary complex coefficients, all complex tensors and matrices on 2-3 modes, any single deviation from hermiticity",
  "Tests use symmetric or already ordered examples; wrong index transpositions and sign cases only differ on asymmetric ones.",
  ["openfermion/utils/operator_utils.py", "openfermion/utils/commutators.py"],
  [("hermitian_conjugated, is_hermitian, count_qubits, is_identity", "openfermion/utils/operator_utils.py"), ("commutator, anticommutator, double_commutator", "openfermion/utils/commutators.py")])

P("C25", "Freezing orbitals and active spaces keep the operator's matrix elements",
  "Freezing orbitals as occupied or empty leaves an operator on the remaining orbitals with exactly the matrix elements the original has between states with those occupations; active-space integrals plus core constant, "
  "the molecular and the reduced Hamiltonian agree with the full Hamiltonian on the states they describe, with one pair of spin orbitals per active orbital; pruning renumbers without gaps and inputs are left alone.",
  "all products of up to 3-4 ladder operators and all frozen occupations on 2-3 modes, all integrals (with particle-exchange symmetry) and active spaces of 2-3 orbitals, arbitrary coefficients",
  "Tests freeze single orbitals in a few terms; signs depend on which orbitals and how many operators lie beyond them.",
  ["openfermion/transforms/repconversions/operator_tapering.py", "openfermion/ops/representations/interaction_operator.py", "openfermion/chem/molecular_data.py", "openfermion/chem/reduced_hamiltonian.py", "openfermion/zapata_utils/_utils.py"],
  [("freeze_orbitals, prune_unused_indices", "openfermion/transforms/repconversions/operator_tapering.py"), ("get_active_space_integrals", "openfermion/ops/representations/interaction_operator.py"), ("get_molecular_hamiltonian, spinorb_from_spatial, get_j, get_k, get_antisym", "openfermion/chem/molecular_data.py"), ("make_reduced_hamiltonian", "openfermion/chem/reduced_hamiltonian.py"), ("remove_inactive_orbitals", "openfermion/zapata_utils/_utils.py")])

P("C26", "Sparse matrices and expectation values are those of the operator",
  "Sparse matrices of qubit, fermion and interaction operators (on any sufficient number of qubits), their restrictions to particle-number, spin and excitation sectors, basis and density matrices, inner products and "
  "expectation values in pure and mixed states are entry by entry what the operators and states define; too few qubits and operators outside the sector's symmetry are refused.",
  "all terms of up to 3 ladder operators or Paulis on up to 3 modes with arbitrary complex coefficients, all references and excitation levels on up to 4 modes, all complex states and matrices on up to 2 qubits",
  "Tests compare spectra or a few matrices; the coordinate bookkeeping and sector ordering go wrong only for particular terms and references.",
  ["openfermion/linalg/sparse_tools.py"],
  [("get_sparse_operator, qubit_operator_sparse, jordan_wigner_sparse, expectation", "openfermion/linalg/sparse_tools.py"), ("get_number_preserving_sparse_operator, jw_number_restrict_operator", "openfermion/linalg/sparse_tools.py")])
P("C27", "Hubbard Hamiltonians have exactly the terms of their lattice",
  "fermi_hubbard yields, for every grid, boundary condition and set of couplings, one hopping term per neighbouring pair and spin, one repulsion per site (spinful) or pair (spinless), the chemical potential and magnetic field of each spin orbital, "
  "and the particle-hole shifts of (n-1/2) forms; hopping there and back are conjugates of each other for complex amplitudes; the number and interaction operators it is built from scale with their coefficient.",
  "all grids up to 4x3, 5x2, 2x5 (thorough 5x3, 4x4), every boundary, spin and particle-hole option, all couplings in an interval of the reals",
  "Tests list the terms of a 2x2 grid; double counted or missing edges occur for widths of one or two and for particular boundaries.",
  ["openfermion/hamiltonians/hubbard.py", "openfermion/hamiltonians/general_hubbard.py", "openfermion/hamiltonians/special_operators.py"],
  [("fermi_hubbard", "openfermion/hamiltonians/hubbard.py"), ("number_operator, interaction_operator", "openfermion/hamiltonians/general_hubbard.py"), ("number_operator", "openfermion/hamiltonians/special_operators.py")])
P("C28", "Operators survive being written and read",
  "Qubit and Ising operators, interaction operators and density matrices, and operators of save_operator come back from dictionaries, JSON files (by name or handle), sets, plain text and binary files with the same class, terms, coefficients, shapes "
  "and order; zero and tiny operators do not come back as something else, existing files are only overwritten on request, unsupported operators are refused, saving does not modify what is saved, and operator strings have exactly the coefficients they state.",
  "operators of up to 2 terms (thorough 3) with arbitrary integer, real, imaginary, complex and tiny coefficients, all tensors on up to 2 modes, every format, all combinations of coefficient spellings",
  "Tests round-trip a few operators; sign conventions of printed complex numbers, zero operators and vanishing parts are the cases they leave out.",
  ["openfermion/zapata_utils/_io.py", "openfermion/utils/operator_utils.py", "openfermion/ops/operators/symbolic_operator.py"],
  [("convert_*_to_dict, convert_dict_to_*, save_*, load_*, get_pauli_strings", "openfermion/zapata_utils/_io.py"), ("save_operator, load_operator", "openfermion/utils/operator_utils.py"), ("SymbolicOperator.__str__, _long_string_init", "openfermion/ops/operators/symbolic_operator.py")])
P("C29", "Gradients and cost functions compute what they are composed of",
  "Finite difference gradients are the symmetric differences of the function at the given point and step, at every point, whatever the function; cost functions built from an ansatz or from substituted estimation tasks evaluate, at every parameter vector, "
  "the sum over tasks of the expectation values of the bound circuits after preprocessors, fixed parameters and noise are applied in their order, with the shots of the tasks and the gradient of the same function; exact ones equal the analytic value.",
  "quadratics and opaque functions of up to 3 variables, all points and steps; cost functions of up to 2 parameters (thorough 3) with every combination of options, all angles, coefficients, fixed parameters, scripted noise",
  "Tests compare one ansatz at a few points; a term that is dropped, a parameter bound out of order or an option applied twice shows for some points and options only.",
  ["gradients.py", "cost_function.py", "estimation/_estimation.py"],
  [("finite_differences_gradient", "gradients.py"), ("get_ground_state_cost_function, sum_expectation_values, fix_parameters, create_cost_function, substitution_based_estimation_tasks_factory, dynamic_ansatz_estimation_tasks_factory, expectation_value_estimation_tasks_to_cost_function, add_normal_noise", "cost_function.py")])
P("C30", "Recorders and augmentations keep history without changing results",
  "A recorded function returns what the function returns, its history lists exactly the calls that the save condition selects, in order, with the parameters, values and artifacts of each call (forced artifacts always, others when the call is saved), separately for the gradient; "
  "recorders expose the function's attributes, copies keep both histories, raising calls are not recorded; augmented functions apply every augmentation once, in order, to the function and the gradient it is meant for; optimizers keep the history of each function they are given when asked to.",
  "up to 4 calls (thorough 5) of functions with and without gradient and artifacts, arbitrary values, parameters, save conditions and artifact flags; every_nth for all call numbers up to 1000; up to 2+2 augmentations",
  "Tests exercise fixed sequences of a few calls; a history depends on the interleaving of calls, conditions, artifacts and gradients.",
  ["history/recorder.py", "history/save_conditions.py", "cost_function_augmentations.py", "interfaces/functions.py", "interfaces/optimizer.py"],
  [("SimpleRecorder, ArtifactCollection, recorder, *WithGradient, *StoringArtifacts", "history/recorder.py"), ("always, never, every_nth", "history/save_conditions.py"), ("augment, FunctionLogger", "cost_function_augmentations.py"), ("CallableWithGradient, CallableStoringArtifacts, has_store_artifact_param, function_with_gradient", "interfaces/functions.py"), ("Optimizer.minimize, construct_history_info, optimization_result", "interfaces/optimizer.py")])
P("C31", "Ansatz circuits follow their attributes, parameters bind in natural order",
  "After any sequence of attribute changes and circuit look-ups an ansatz presents the circuit of its current attributes, generated again only when one of them changed; executable circuits bind the i-th parameter to the i-th symbol in natural order, "
  "wrong numbers of parameters are refused, symbol maps and combined parameter vectors keep every value with its own symbol, and the natural orderings are total orders that compare digits as numbers.",
  "all sequences of up to 2 (thorough 3) changes and looks with arbitrary integers, ansatzes of up to 3 layers with up to 2 symbol families, all angles, names with numbers up to 100",
  "Tests use few layers; theta_10 sorting before theta_2, and stale caches after particular sequences, need other inputs.",
  ["interfaces/ansatz.py", "interfaces/ansatz_utils.py", "circuits/symbolic/_sorting.py", "utils.py"],
  [("Ansatz", "interfaces/ansatz.py"), ("DynamicProperty, ansatz_property, invalidates_parametrized_circuit, combine_ansatz_params", "interfaces/ansatz_utils.py"), ("natural_key, natural_key_revlex", "circuits/symbolic"), ("create_symbols_map", "utils.py")])
P("C34", "Translated expressions mean the same",
  "Turning a sympy expression into the library's expression tree and translating the tree into a dialect keeps its value: translating back to sympy or to a numeric dialect gives, for all values of the symbols, the value of the original expression; "
  "differences, quotients, powers and roots are recognised as such, every symbol, number and call goes through the dialect, tuples are translated element by element and unsupported expressions and functions are refused.",
  "all expressions of a palette (every unary and binary function of leaves, nestings of two, thorough three) for all positive values of the symbols",
  "Tests compare a list of expressions with expected trees; argument order in differences and quotients with several factors or signs decides the value.",
  ["circuits/symbolic/expressions.py", "circuits/symbolic/sympy_expressions.py", "circuits/symbolic/translations.py"],
  [("reduction, ExpressionDialect", "circuits/symbolic/expressions.py"), ("expression_from_sympy, is_multiplication_by_reciprocal, is_addition_of_negation", "circuits/symbolic/sympy_expressions.py"), ("translate_expression", "circuits/symbolic/translations.py")])
P("C32", "Backends count what they run and trackers record all of it",
  "A backend runs a set of circuits in order with the number of samples of each circuit, refuses to sample less than once, and counts exactly the circuits run and the jobs used (with batches: the number of batches needed); distributions are the frequencies of what was measured, "
  "exact ones the probabilities. A measurement tracking backend returns exactly what the wrapped backend returns and keeps every request of the experiment, in order, in memory and in its file.",
  "sequences of up to 3 requests of every kind, any sample numbers up to 1000, all batch sizes up to 40, every outcome of a palette",
  "Tests make one or two requests; counters and records depend on histories, batch boundaries and mixtures of request kinds.",
  ["interfaces/backend.py", "trackers.py", "symbolic_simulator.py", "measurement.py"],
  [("QuantumBackend, QuantumSimulator", "interfaces/backend.py"), ("MeasurementTrackingBackend", "trackers.py"), ("SymbolicSimulator", "symbolic_simulator.py"), ("Measurements.get_counts, get_distribution", "measurement.py")], over=("inputs", "histories"))
P("C33", "Circuit layouts use every connection and no qubit twice",
  "The layers built for chains and for sycamore grids connect exactly the neighbouring qubits of the register, no layer uses a qubit twice, every connection is used exactly once by the layers (once by each of the two sycamore patterns) and listed once; undefined layer types are refused; "
  "layers, connectivities and orderings come back from dictionaries and files with the same groups in the same order.",
  "chains of up to 12 (thorough 24) and grids of up to 4x4, 1x9 (thorough 5x5, 4x6) qubits, all pairs of qubits; files with arbitrary qubit numbers and groups of up to 3",
  "Tests compare two or three dimensions with fixed lists; boundary rows and columns of other dimensions differ.",
  ["circuits/layouts.py"],
  [("build_circuit_layers_and_connectivity, CircuitLayers, CircuitConnectivity, save_*, load_*", "circuits/layouts.py")])
P("C35", "The next version is the next minor release",
  "Every version text that starts with a major and a minor number is read as those numbers, patch number and suffix and is printed as it was read; the next version is major.(minor+1).0 without suffix, which is what the release action prints; other texts are refused.",
  "numbers of up to 3 digits (thorough 4), suffixes of up to 4 (thorough 6) arbitrary characters, all printable texts of up to 5 (thorough 6) characters",
  "Tests read three versions; carries such as 9 to 10, missing parts and unusual suffixes are other texts.",
  ["subtrees/z_quantum_actions/bin/get_next_version.py"],
  [("parse_version_str, Semver, main", "subtrees/z_quantum_actions/bin/get_next_version.py")])
P("C36", "Arrays, estimates, results and histories survive being stored",
  "Arrays of any shape (complex ones stay complex), wavefunctions, value estimates, lists, dictionaries, measurement estimates, optimization results with histories and artifacts, and distributions come back from dictionaries, texts and files (by name, path or handle), at any place of a structure, with the same class, shape, "
  "numbers and precision; saving does not modify what is saved, dictionaries of numbers that are no distributions stay dictionaries; estimates are equal exactly if value and precision are; noise models and objects created from specs get all the arguments of the specs and of the call, each one once.",
  "all values of arrays of up to 4 entries and 3 dimensions, of estimates with and without precision, of lists, histories of up to 2 entries with every kind of value and artifact, all ways to split up to 4 arguments",
  "Tests round-trip a few objects; vanishing imaginary parts, missing precisions, keys that look like outcomes and nested structures are left out.",
  ["serialization.py", "utils.py"],
  [("OrquestraEncoder, OrquestraDecoder, preprocess, save_*, load_*, ensure_open", "serialization.py"), ("convert_array_to_dict, convert_dict_to_array, ValueEstimate, save_*, load_*, create_object, load_from_specs", "utils.py")])
P("C37", "Density matrices and coupled cluster generators are those of the state",
  "Energies and expectation values computed from the one and two particle density matrices of a state are the state's own, for every interaction operator and every Pauli string that conserves particle number; observables of more particles are refused; density matrices obtained from expectation values of Pauli strings, "
  "from ground states and for determinants are those of the state. Coupled cluster generators contain exactly the excitations with their amplitudes minus their conjugates, and amplitudes are packed, converted and counted consistently.",
  "all normalised states of any particle number on up to 2 modes (3 for strings, thorough 3), all operators; all amplitudes of up to 6 spin orbitals (thorough 8); all numbers of orbitals and electrons for counts",
  "Tests use one molecule with real wavefunctions; index order and signs of the four-index tensor show only for other states.",
  ["openfermion/ops/representations/interaction_rdm.py", "openfermion/measurements/get_interaction_rdm.py", "openfermion/circuits/unitary_cc.py", "openfermion/zapata_utils/_utils.py"],
  [("InteractionRDM.expectation, get_qubit_expectations", "openfermion/ops/representations/interaction_rdm.py"), ("get_interaction_rdm", "openfermion/measurements/get_interaction_rdm.py"), ("uccsd_generator, uccsd_singlet_*", "openfermion/circuits/unitary_cc.py"), ("get_ground_state_rdm_from_qubit_op, hf_rdm", "openfermion/zapata_utils/_utils.py")])
P("C38", "Operator utilities keep the operator",
  "Expanding a matrix in Pauli strings, or labels with coefficients, gives the operator with that matrix; random operators have the number of distinct terms, the locality and coefficient range asked for; evaluating operators adds coefficient times expectation value of every term in order; "
  "reversing qubits maps i to n-1-i (twice: the original) and agrees with expectation values of reversed states; type changes keep all terms; number operators count particles relative to the offset; splitting off the diagonal gives a diagonal and an off-diagonal part that add up; polynomial tensors and term circuits are those of the operator.",
  "all matrices of 1 qubit and any entry of 2 qubits (thorough two entries, 3 qubits), all labels, strings, states and coefficients on up to 3 qubits or modes, all outcomes of the random draws",
  "Tests check single examples; bit order, repeated indices and missing terms differ for others.",
  ["openfermion/zapata_utils/_utils.py", "openfermion/hamiltonians/special_operators.py"],
  [("get_qubitop_from_matrix, generate_random_qubitop, evaluate_qubit_operator(_list), reverse_qubit_order, get_expectation_value, change_operator_type, get_fermion_number_operator, get_diagonal_component, get_polynomial_tensor, create_circuits_from_qubit_operator", "openfermion/zapata_utils/_utils.py"), ("number_operator", "openfermion/hamiltonians/special_operators.py")])
P("C39", "Matrix comparisons accept exactly identities, unitaries and equality up to phase",
  "A matrix is accepted as identity or as unitary if its defect is within the tolerance and refused if any entry is off by more; two unitaries compare equal if they differ by a global phase and different if they differ by a relative phase, a permutation or a rotation; matrices that are not square or not unitary are refused.",
  "products of arbitrary phases and rotations in up to 3 (thorough 4) dimensions, all perturbations beyond the tolerance, three tolerances",
  "Tests compare a few Pauli matrices; a missing conjugate or a phase taken from the wrong entry agrees for real or symmetric ones.",
  ["utils.py"], [("is_identity, is_unitary, compare_unitary", "utils.py")])
P("C40", "Generated graphs have the structure, weights and seeds asked for",
  "Every generator returns a graph of its kind on nodes 0 to n-1 whose edge weights are the values of the sampler, one each in order of the edges (one if no sampler is given); random edges and weights depend on the seed only when one is given; samplers draw from their range; specs select generator, weights and seed; "
  "graphs compare equal exactly if nodes and edges are the same (known finding: a graph equals all graphs that extend it), and come back from files with nodes, edges and weights.",
  "graphs of up to 12 nodes of every kind, all weights, probabilities and draws, pairs of graphs of up to 3 nodes",
  "Tests generate a few graphs with fixed seeds; seed 0, graphs that extend each other and the pairing of edges and weights are left out.",
  ["graph.py"], [("generate_*, *_sampler, _weight_graph_edges, compare_graphs, save_graph, load_graph, generate_graph_node_dict", "graph.py")])
P("C41", "Workflow steps write what the library computes",
  "Every step accepts files and, where its signature allows, the objects themselves, computes what the library function of its name computes on them with the options and defaults given, writes the result to its documented file so that the matching loader returns it, and leaves its arguments alone. Backends are built from specs with noise model and connectivity, asked "
  "for the given circuits and numbers of samples, in order; optimization steps evaluate the cost of the bound circuit through all preprocessors in order and save optimum, parameters and history.",
  "operators of up to 4 modes or qubits with any coefficients, circuits of up to 4 qubits with any angles, up to 2 circuits, operators, layers and evaluations, all choices of files, objects and options, any draws and measured outcomes",
  "No test covers the steps at all: they are run by workflows.",
  ["steps/operators.py", "steps/circuit.py", "steps/evaluation.py", "steps/measure.py", "steps/optimize.py", "steps/graph.py", "steps/transforms.py", "steps/utils.py", "hamiltonian.py", "openfermion/zapata_utils/_utils.py"],
  [("all steps", "steps/operators.py"), ("all steps", "steps/circuit.py"), ("all steps but jw_get_ground_state_at_particle_number", "steps/evaluation.py"), ("all steps", "steps/measure.py"), ("all steps", "steps/optimize.py"), ("all steps", "steps/graph.py"), ("transform_interaction_operator", "steps/transforms.py"), ("generate_random_list_of_integers", "steps/utils.py"), ("get_expectation_values_from_rdms*, estimate_nmeas_for_frames", "hamiltonian.py")])
P("C42", "Random instances are as asked for and follow the seed; estimator contracts accept and refuse rightly",
  "Random states are normalised and of the size asked for; random operators have the kind, number of terms, qubits and letters asked for; random circuits have the number of gates and valid, different qubits; random matrices and interaction operators have the symmetries that Hermiticity, real orbitals and spin demand. "
  "A seed, zero included, decides the result; without one the generator is not reseeded. Each estimator contract accepts exactly the estimators with one result per task, in order, that depend on coefficients and constant terms.",
  "all draws; 1 to 3 (thorough 4) qubits or orbitals, up to 2 gates and terms; estimators with arbitrary values",
  "These helpers and contracts decide what other packages' tests can find; a wrong symmetry, an ignored seed or a contract that accepts everything stays silent.",
  ["testing/_initialize.py", "circuits/_testing.py", "openfermion/testing/testing_utils.py", "openfermion/testing/random.py", "interfaces/estimator_contract.py"],
  [("create_random_wavefunction, create_random_qubitop, create_random_isingop", "testing/_initialize.py"), ("create_random_circuit", "circuits/_testing.py"), ("random_antisymmetric_matrix, random_hermitian_matrix, random_interaction_operator, random_qubit_operator", "openfermion/testing/testing_utils.py"),
   ("random_interaction_operator_term", "openfermion/testing/random.py"), ("ESTIMATOR_CONTRACTS", "interfaces/estimator_contract.py")])
P("C43", "Molecules are named, counted and stored as they are",
  "Molecules get name, file, atoms by number, protons and electrons from geometry, basis, charge, multiplicity and description; geometry files are read atom by atom. A saved molecule is loaded with the same geometry, description, results and nothing else; saving a loaded molecule keeps every result not changed since, whether looked at or not; "
  "results are read from the file when asked for; density matrices are those of the method asked for; active spaces given by numbers of electrons and orbitals fill the lowest orbitals.",
  "all values of positions, integrals, amplitudes and energies of up to 2 atoms and 2 (thorough 3) orbitals, 18 elements, multiplicities 0 to 13, charges from -2 to 2, every kind of results present or missing",
  "Tests load a few stored molecules and save one; molecules with few results, resaving and lazily loaded fields that nobody looked at are left out.",
  ["openfermion/chem/molecular_data.py"], [("MolecularData, name_molecule, geometry_from_file, load_molecular_hamiltonian, bohr_to_angstroms, angstroms_to_bohr", "openfermion/chem/molecular_data.py")])
P("C44", "Compatibility layers, mock objects and test helpers do what they document",
  "A function made compatible with an old type gets every old object among its arguments, and in the containers to be considered, translated once and in place, everything else as given; failing translations lead to the fallback with the original arguments or to an error, errors of the function itself propagate, warnings are given for old objects only. "
  "Wrapped modules keep their attributes and warn of deprecated ones; example functions, their gradients and artifacts are the documented ones; mock optimizers report the function where they say, evaluate in order, count and keep histories on request and leave the initial parameters alone; the mock ansatz has its documented layers; the equality tester accepts exactly proper equivalence classes with consistent hashes.",
  "up to 2 (thorough 3) arguments of 8 kinds, every failing translation, all numbers; up to 3 parameters, 3 iterations, 3 layers and qubits; up to 4 (thorough 5) items with any keys and hashes",
  "Tests call each of these with one or two arguments; an object deep in a container, a failing translation or a mutated argument appear for some shapes only.",
  ["wip/compatibility_tools.py", "openfermion/_compat.py", "history/example_functions.py", "interfaces/mock_objects.py", "openfermion/testing/testing_utils.py"],
  [("compatible_with_old_type", "wip/compatibility_tools.py"), ("wrap_module", "openfermion/_compat.py"), ("function_1 to function_6", "history/example_functions.py"), ("MockOptimizer, MockNestedOptimizer, MockAnsatz", "interfaces/mock_objects.py"), ("EqualsTester", "openfermion/testing/testing_utils.py")])
