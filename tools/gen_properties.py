#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
U = "stoqcompiler/unitary/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "A unitary is a faithful, phase-balanced, private copy of its matrix",
     "Building a unitary of dimension d from a matrix either fails or gives an operation whose d-by-d matrix is unitary to numerical precision, has determinant 1, and equals the supplied matrix up to one global phase (real or imaginary parts below 1e-12 in magnitude may be zeroed first). A matrix of another shape, or one that is not unitary within numpy's default tolerance, is always rejected; omitting the matrix gives the identity. The array passed in is never modified and never shared with the result.",
     ["inputs"], "every dimension d >= 1 and every d-by-d complex, real or integer array, unitary or not",
     "Tests build a dozen fixed 1- to 3-qubit matrices and one random one; the claim is over every matrix of every dimension, including nearly singular phases, entries near the 1e-12 cut-off and arrays that must be refused.",
     [U + "unitary.py"], [("Unitary.__init__: astype copy, clean-up, unitarity assertion, determinant balancing", U + "unitary.py:35-88"), ("Unitary.identity / Unitary.random", U + "unitary.py:90-119")],
     ["Unitary.get_matrix()", "Unitary.get_dimension()", "exception from the constructor"], [("matrix", "the balanced matrix", U + "unitary.py:88")])

prop("C02", "Inverse, product and tensor give the mathematically right operator",
     "For any unitaries A and B, the inverse of A is its conjugate transpose, left-multiplying A by B is BA, right-multiplying A by B is AB, and the tensor product of A with B is the Kronecker product with A as the most significant factor, each up to a global phase. Multiplying unitaries of different dimensions is rejected. Inversion keeps the name, parameters and qubits and toggles the inverse marker, so inverting twice restores the operation and its display; no operation changes an operand.",
     ["inputs"], "every pair of unitaries of every dimension, with any name, parameters, inverse marker and qubit list",
     "Tests check Pauli products and one random inverse; order mistakes that vanish on commuting or self-inverse operands, and lost metadata, are invisible to them.",
     [U + "unitary.py"], [("inverse, tensor, left_multiply, right_multiply", U + "unitary.py:251-357")],
     ["get_matrix()", "get_display_name()", "get_parameter_value()"])

prop("C03", "Distance and closeness measure overlap exactly and ignore phase",
     "For any two unitaries A and B of dimension d, the distance is 1 - |tr(A^dagger B)|/d: it lies between 0 and 1 (to rounding), is symmetric, does not depend on either one's global phase, and is 0 exactly when they agree up to phase; comparing different dimensions is rejected. Closeness with threshold t holds exactly when the distance is at most 1 - t, and without a threshold exactly when the distance is zero within numpy's default absolute tolerance. A plain matrix may stand in for the second unitary with the same result.",
     ["inputs"], "every pair of unitaries (or matrices) of every dimension and every threshold in [0, 1]",
     "Tests evaluate closeness for a handful of pairs at thresholds 0, 0.999 and none; the formula, symmetry and threshold boundary range over all pairs and thresholds.",
     [U + "unitary.py"], [("distance_from", U + "unitary.py:304-327"), ("close_to", U + "unitary.py:278-302")],
     ["Unitary.distance_from()", "Unitary.close_to()"])

prop("C04", "Every library gate equals its definition at every angle",
     "For every real angle, Rx, Ry and Rz are exp(-i theta P/2) for the matching Pauli P, R(theta, phi) is exp(-i theta (cos(phi) X + sin(phi) Y)/2), XX(theta) is exp(-i theta X(x)X) and GMS on n qubits is the product of XX(theta) over all pairs of qubits; H, T, X, Y, Z, CNOT, CCNOT and the phase-flip QECC gate equal their standard matrices; all up to a global phase. Each gate carries its own name, and each angle is recorded unchanged under its parameter symbol as an angle.",
     ["inputs"], "all real angles (any sign and magnitude) and, for GMS, every qubit count",
     "Tests compare a few gates at a few multiples of pi/8 and only check that fourth powers or squares give the identity; a sign or factor wrong at other angles passes.",
     [U + "unitary_definitions.py"], [("rx, ry, rphi, rz, h, t, sigmax, sigmay, sigmaz, cnot, ccnot, qecc_phase_flip, xx, gms", U + "unitary_definitions.py:16-254")],
     ["get_matrix()", "get_operation_name()", "get_parameter_value()"])

prop("C05", "Parameterized unitaries evaluate, record and bound their parameters",
     "Evaluating a parameterized unitary gives its matrix function at exactly the given values in declared order, with each value recorded under its parameter's name together with its angle flag; if any value lies outside its parameter's closed range, or a value is missing or extra, it is rejected. A random parameter value always lies in the range, and the whole range can be drawn. The built-in families (xy and xyz rotation, XX, GMS, time evolution) equal the corresponding fixed gate, the z-y-z Euler rotation Rz(alpha) Ry(beta) Rz(gamma), or exp(i H t), at every value; time evolution requires a Hermitian matrix.",
     ["inputs"], "every parameter list, every in-range and out-of-range value vector, every Hermitian matrix and time",
     "Tests use zero angles, one GMS angle and one Pauli Hamiltonian; per-parameter bounds, ordering and flags over arbitrary parameter lists are not exercised.",
     [U + "parameterized_unitary.py", U + "parameterized_unitary_parameter.py", U + "parameterized_unitary_definitions.py", U + "unitary_definitions.py"],
     [("ParameterizedUnitary.as_unitary", U + "parameterized_unitary.py:80-108"), ("is_valid, random_value", U + "parameterized_unitary_parameter.py:55-82"), ("rotation_xy, rotation_xyz, xx, gms, time_evolution", U + "parameterized_unitary_definitions.py"), ("UnitaryDefinitions.time_evolution", U + "unitary_definitions.py:257-289")],
     ["as_unitary()", "get_parameter_value()", "random_value()", "is_valid()"])

prop("C06", "An entry acts on exactly its qubits, in order, and trivially elsewhere",
     "For every operation on k qubits, every list of k distinct qubits and every n-qubit system containing them, the entry's full-system operator applies the operation to those qubits in the listed order (qubit 0 is the most significant) and the identity to all others, up to a global phase. The answer is the same however often, in whatever order and for however many system sizes it is requested, and it carries the operation's name, parameters, inverse marker and the qubit list. A system too small to contain the qubits is rejected.",
     ["inputs", "histories"], "every k, every ordered list of distinct qubits, every n, and every history of requests on one entry",
     "Tests only place a CNOT on [0,1] and [1,0]; for three or more listed qubits an ordering and its inverse differ, and none of those is tested.",
     [U + "unitary_sequence_entry.py", U + "unitary.py"], [("get_permute_matrix", U + "unitary_sequence_entry.py:55-131"), ("get_full_unitary and its per-size cache", U + "unitary_sequence_entry.py:133-169")],
     ["UnitarySequenceEntry.get_full_unitary()"], [("full_unitary_by_dimension", "cache of computed full-system operators", U + "unitary_sequence_entry.py:37")])

prop("C07", "A sequence's product always matches its current entries",
     "After any history of constructing, appending or removing at either end, undoing, combining, inverting and asking for the product, a sequence's product equals, up to a global phase, the product of its current entries' full-system operators with the first entry rightmost. Asking for the product, length, entries or text output never changes the sequence or a later answer.",
     ["histories"], "every finite history of public operations, interleaved with product requests at any points, with or without saving undo",
     "The product is kept incrementally in a cache; tests run three short histories of Pauli gates, which hide order and inverse mistakes and never mix unsaved changes with undo.",
     [U + "unitary_sequence.py"], [("append_first/append_last/remove_first/remove_last update of the cached product", U + "unitary_sequence.py:143-239"), ("product", U + "unitary_sequence.py:257-276"), ("undo, _save_undo_state", U + "unitary_sequence.py:132-141, 241-255")],
     ["UnitarySequence.product()", "get_sequence_entries()"],
     [("sequence_product", "cached product or none", U + "unitary_sequence.py"), ("previous_sequence_product", "product of the undo state or none", U + "unitary_sequence.py")])

prop("C08", "Edits touch one end only and undo restores the saved state",
     "Appending first or last adds exactly the given entry at that end, removing first or last drops exactly the entry at that end, and removing from an empty sequence does nothing; all other entries keep their order and content. Undo restores the entries and product that held just before the most recent change that saved an undo state; it fails, changing nothing, if there was no such change or it has already been undone.",
     ["histories"], "every finite history of appends, removals (saving undo or not) and undos",
     "Tests undo after one append and one removal only; multi-change undo (the layered compiler relies on it), no-op removals and repeated undo need arbitrary histories.",
     [U + "unitary_sequence.py"], [("append_first, append_last, remove_first, remove_last, undo, _save_undo_state", U + "unitary_sequence.py:132-255")],
     ["get_sequence_entries()", "get_length()", "undo()", "product()"],
     [("previous_entries", "saved entries or none", U + "unitary_sequence.py")])

prop("C09", "Combine concatenates, inverse reverses and inverts, nothing is shared",
     "Combining sequences of equal dimension gives exactly their entries in order, and its product is the later products times the earlier ones; sequences of different dimension, or none, are rejected. The inverse has every entry inverted on the same qubits in reverse order, so the sequence followed by its inverse is the identity up to phase, even when one entry occurs several times. A list of entries passed in or handed out, and the source of a combination or inversion, are independent of the sequence: changing the one never changes the other.",
     ["inputs", "histories"], "every finite list of sequences, with repeated entries, and every later change to source or result",
     "Tests combine two and invert one two-entry sequence; aliasing between source and result, and repeated entries, only show under later modification or particular sharing.",
     [U + "unitary_sequence.py"], [("UnitarySequence.__init__ deep copy", U + "unitary_sequence.py:25-47"), ("combine", U + "unitary_sequence.py:49-84"), ("inverse", U + "unitary_sequence.py:278-292"), ("get_sequence_entries deep copy", U + "unitary_sequence.py:122-130")],
     ["get_sequence_entries()", "product()", "inverse()", "combine()"])

prop("C10", "Malformed entries, primitives and sequences are refused intact",
     "An entry, or an allowed-qubit list of a primitive, is accepted exactly when its qubits are distinct, non-negative, at least one, and as many as the operation acts on. A sequence accepts exactly the entries whose qubits all lie inside its system, both at construction and when appending; a refused append leaves the sequence, its product and its undo state unchanged. The compiler and the verification generators accept only primitives no larger than the system, and the generators only non-negative lengths and thresholds between 0 and 1.",
     ["inputs"], "every qubit list, operation size, system size, primitive list, length and threshold",
     "Only one rejection (a CNOT in a one-qubit system) is tested; the accept/reject boundary ranges over all lists and sizes.",
     [U + "unitary_sequence_entry.py", U + "unitary_primitive.py", U + "unitary_sequence.py", "stoqcompiler/compiler/compiler.py", "stoqcompiler/verification/verification.py"],
     [("UnitarySequenceEntry.__init__", U + "unitary_sequence_entry.py:22-37"), ("UnitaryPrimitive.__init__", U + "unitary_primitive.py:22-44"), ("_assert_is_entry_valid", U + "unitary_sequence.py:86-98"), ("Compiler.__init__", "stoqcompiler/compiler/compiler.py:44-72"), ("generate_* argument checks", "stoqcompiler/verification/verification.py:60-70, 140-153")],
     ["exceptions from constructors and append methods", "sequence state after a refused append"])

prop("C11", "Random gates and layers respect primitives, parameters and qubits",
     "Every randomly generated entry is one of the given primitives that can be applied somewhere, with parameter values inside their ranges, on one of that primitive's allowed qubit lists or, if unrestricted, on distinct qubits of the system; each usable primitive is chosen with its given probability renormalised over the usable ones (uniformly if none is given), and each allowed list or ordered choice of qubits is equally likely. A random layer contains exactly the requested number of gates from each primitive, in random order. The primitives passed in are not modified.",
     ["inputs", "configurations"], "every primitive set, probability vector, restriction list, system size and random outcome",
     "Tests never check which primitive or qubits a random gate used; a wrong restriction, lost primitive or skewed choice only shows over all configurations and draws.",
     ["stoqcompiler/compiler/compiler.py", U + "parameterized_unitary_parameter.py"], [("create_random_sequence_entry", "stoqcompiler/compiler/compiler.py:197-260"), ("create_random_layer", "stoqcompiler/compiler/compiler.py:297-332")],
     ["Compiler.create_random_sequence_entry()", "Compiler.create_random_layer()"])

prop("C12", "Compilation stops only when close or out of steps, with a true cost trace",
     "Compilation (plain or layered) returns only when the compiled sequence's product is within the threshold of the target (numerically equal if no threshold is given) or after exactly the maximum number of steps, and stops at the first step at which it is within the threshold. The cost trace has exactly one entry per step, each the distance of the sequence after that step from the target, so its last entry is the returned sequence's distance. The target and the primitives are never modified and every gate returned comes from the compiler's primitives under their qubit restrictions.",
     ["inputs", "histories"], "every target, primitive set, threshold, step limit and sequence of random outcomes",
     "Tests run five compilations that all reach the threshold and never look at the trace's values, at the step limit or at rejected steps.",
     ["stoqcompiler/compiler/compiler.py"], [("compile, compile_layered", "stoqcompiler/compiler/compiler.py:74-155"), ("_compile, _compile_layered main loops", "stoqcompiler/compiler/compiler.py:157-195, 268-300")],
     ["CompilerResult.compiled_sequence", "CompilerResult.cost_by_step"])

prop("C13", "Each compiler step is one Metropolis move at one end of the sequence",
     "Each compilation step either leaves the sequence unchanged or adds or removes exactly one gate (one whole layer in layered mode) at one end, everything else staying as it was. A step proposes adding with the configured append probability, split evenly between the two ends, and removing otherwise, also split evenly. A proposal that does not increase the cost is always kept, and one that increases it by D is kept with probability exp(-beta D), where beta rises by the annealing rate each step up to its maximum.",
     ["inputs", "histories"], "every current sequence, proposal, target, append probability, annealing rate, step number and random outcome",
     "Tests only look at final results of successful runs; a biased proposal, a wrong acceptance rule or an incomplete rollback still converges on easy targets.",
     ["stoqcompiler/compiler/compiler.py", "stoqcompiler/compiler/compiler_action.py"], [("_make_random_change, _make_random_change_layered, _accept_proposed_change", "stoqcompiler/compiler/compiler.py:334-415"), ("CompilerAction", "stoqcompiler/compiler/compiler_action.py")],
     ["compiled sequences and cost traces for successive step limits under one random seed"], [("beta", "current annealing parameter", "stoqcompiler/compiler/compiler.py:69")])

prop("C14", "Layered compilation only ever contains whole layers",
     "A layered compilation returns a sequence made of whole layers: its length is a multiple of the layer size, and every consecutive block of that size contains exactly the requested number of gates from each requested primitive. This holds at every step limit, including after rejected additions and removals.",
     ["inputs", "histories"], "every assignment of counts to primitives, target, threshold, step limit and random outcome",
     "The tests check only that one final length is divisible by the layer size; block contents and partial layers left by rejected or interrupted steps are not examined.",
     ["stoqcompiler/compiler/compiler.py"], [("_make_random_change_layered with undo saved on the first change only", "stoqcompiler/compiler/compiler.py:362-402"), ("create_random_layer", "stoqcompiler/compiler/compiler.py:302-332")],
     ["CompilerResult.compiled_sequence"])

prop("C15", "RAV and XEB sequences have the promised shape and invert themselves",
     "A RAV sequence begins with exactly the requested number of random gates (or layers), followed by a compiled inverse so that the whole product is within the threshold of the identity unless the compilation used up its step limit; its cost trace ends at the distance of the whole product from the identity. With threshold 0 or step limit 0 it is exactly the random part with an empty trace, and an XEB sequence is exactly the requested number of random layers. All gates come from the given primitives, and layered variants consist of whole layers.",
     ["inputs", "configurations"], "every primitive set, length or layer count, threshold, step limit and random outcome",
     "Tests generate one easy sequence per variant at threshold 0.5; step-limit exhaustion, restrictions, probabilities and block contents are not covered.",
     ["stoqcompiler/verification/verification.py"], [("generate_rav_sequence", "stoqcompiler/verification/verification.py:16-101"), ("generate_layered_rav_sequence", "stoqcompiler/verification/verification.py:103-185"), ("generate_xeb_sequence", "stoqcompiler/verification/verification.py:187-206")],
     ["CompilerResult of each generator"])

prop("C16", "Hamiltonian terms decompose exactly and sum into time evolution",
     "Every non-zero Hermitian matrix is accepted as a term and equals its coefficient times its normalized matrix, where the coefficient is its largest singular value (real and positive) and the normalized matrix is Hermitian with largest singular value 1; a non-square or non-Hermitian matrix is rejected. A Hamiltonian accepts exactly non-empty lists of terms of one dimension and is unaffected by later changes to the list; its time-evolution operator for any time t is exp(i t times the sum of all its terms), up to a global phase.",
     ["inputs"], "every Hermitian matrix (any sign, scale, dtype), every list of terms and every real time",
     "Tests use one matrix and compare evolution at proportional times only, so a missing term, wrong sign or lost coefficient can cancel out.",
     ["stoqcompiler/hamiltonian/hamiltonian_term.py", "stoqcompiler/hamiltonian/hamiltonian.py", U + "unitary_definitions.py"], [("HamiltonianTerm.__init__", "stoqcompiler/hamiltonian/hamiltonian_term.py:15-44"), ("Hamiltonian.__init__, get_time_evolution_operator", "stoqcompiler/hamiltonian/hamiltonian.py:30-81"), ("UnitaryDefinitions.time_evolution", U + "unitary_definitions.py:257-289")],
     ["HamiltonianTerm getters", "Hamiltonian.get_time_evolution_operator()"])

prop("C17", "Ideal, Trotter and QDRIFT sequences follow their definitions",
     "The ideal sequence for time t and N steps has N entries, each exp(i H t/N), so its product is the exact evolution. A Trotter sequence has N steps, each containing exp(i H_j t/N) for every term H_j exactly once, in term order unless randomized. A QDRIFT sequence has N entries, each exp(i L t h_j/N) with h_j the normalized matrix of a term drawn with probability proportional to its coefficient and L the sum of all coefficients; every entry acts on all qubits.",
     ["inputs", "configurations"], "every Hamiltonian, time, step count and random outcome",
     "Tests compare products at one time for loose thresholds (0.95); a missing term in some step, wrong step time or wrong sampling weights can stay within that.",
     ["stoqcompiler/hamiltonian/hamiltonian.py"], [("get_ideal_sequence", "stoqcompiler/hamiltonian/hamiltonian.py:83-112"), ("get_trotter_sequence", "stoqcompiler/hamiltonian/hamiltonian.py:114-154"), ("get_qdrift_sequence", "stoqcompiler/hamiltonian/hamiltonian.py:156-195")],
     ["get_sequence_entries()", "product()"])

prop("C18", "Hamiltonian STOQ and RAV compilation use only allowed term evolutions",
     "Compiling a Hamiltonian's time evolution gives a sequence, all of whose entries are evolutions for a time in [-max_t_step, max_t_step] under a single term, or under the sum of any non-empty subset of terms if simultaneous terms are allowed (each such subset being available), on all qubits; its product is within the threshold of the exact evolution unless 10000 steps were used. A Hamiltonian RAV sequence starts with such steps whose absolute times first add up to at least the requested time, followed by a compiled inverse, so that the whole product is within the threshold of the identity unless 10000 steps were used.",
     ["inputs", "configurations"], "every Hamiltonian, time, maximum step, threshold, setting of simultaneous terms and random outcome",
     "Tests compile one two-term single-qubit Hamiltonian and look only at the final overlap, never at which evolutions were used or at larger term sets.",
     ["stoqcompiler/hamiltonian/hamiltonian.py"], [("compile_stoq_sequence", "stoqcompiler/hamiltonian/hamiltonian.py:197-251"), ("_get_unitary_primitives, _get_term_subsets", "stoqcompiler/hamiltonian/hamiltonian.py:253-294"), ("compile_rav_sequence", "stoqcompiler/hamiltonian/hamiltonian.py:296-343")],
     ["CompilerResult of both methods"])

prop("C19", "Text output lists every gate, in order, with its parameters and qubits",
     "The QASM-like, JAQAL-like and display outputs of a sequence consist of one header line followed by exactly one line per entry, in sequence order. Each line names the entry's operation, all of its parameters in order (rounded to 7 places, or 3 and 4 in the display; angles as multiples of pi in QASM and the display), and its qubits as plain integers in listed order; a lone operation without a qubit list names all its qubits in QASM and JAQAL. The display marks exactly the inverted operations with a dagger, including inside sequences.",
     ["inputs"], "every sequence of entries with any names, parameter dictionaries, qubit lists and inverse markers",
     "Tests compare one parameterless gate literally and otherwise only check that output is non-empty.",
     [U + "unitary.py", U + "unitary_sequence.py", U + "unitary_sequence_entry.py"], [("Unitary.get_jaqal / get_qasm / get_display_name", U + "unitary.py:130-213"), ("UnitarySequence.get_jaqal / get_qasm / get_display_output", U + "unitary_sequence.py:294-331")],
     ["get_qasm()", "get_jaqal()", "get_display_name()", "get_display_output()"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].replace("e.g.", "").count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
