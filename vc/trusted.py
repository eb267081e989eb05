"""What the proofs rest on."""
TRUSTED = [
    "the semantics of Python used by vc/interp.py (subset; anything else is reported out of reach); annotations and docstrings are dropped",
    "contracts of numpy, scipy, math, random, itertools, functools, copy and abc functions (vc/lib.py, vc/lib2.py); itertools.combinations of symbolic size is an opaque table of index tuples",
    "the array back end (vc/arrays.py): numpy integer arrays as functions of their indices, float quotients of integers as exact quotients, an injection of a finite set into itself is a bijection, counting of marked positions (its induction steps are obligations)",
    "a 0/1 matrix P that moves digit q_j of a row index to digit j of the column index, and the other digits one to one, satisfies: P (A x 1) P^T is A applied to the listed qubits in order (definition of that operation)",
    "rules of matrix algebra used as rewrites (vc/mat.py, vc/engine.py): adjoint, product, Kronecker and trace identities, exp(iX) of Hermitian X is unitary, exp laws for one generator, embedding into a register is a *-homomorphism, P(A x 1)P^T acts on the qubits of P",
    "the loop rules of vc/loops.py (closed forms read off one generic iteration; counted while loops)",
    "facts instantiated for 2^k, log2, min/max, and: k distinct qubits 0..m-1 are at most m (pigeonhole)",
    "z3",
]
ASSUMPTIONS = [
    "machine floating point is treated as exact real and complex arithmetic; tolerances are those written in the code; np.isclose(x, 0) is |x| <= 1e-8",
    "setting real or imaginary parts below 1e-12 to zero is treated as no change of a matrix",
    "integers are unbounded",
    "user-supplied callables (parameterized matrix functions) are deterministic and do not mutate their arguments",
    "parameter names of one parameterized unitary are distinct; a dictionary is built from distinct keys",
    "a generator's elements do not depend on writes made between its creation and its use (generators that would see such writes are out of reach)",
    "given probabilities are non-negative, sum to 1 and have a positive total on the usable primitives; counts, step limits and the annealing rate are non-negative; append_probability lies in [0, 1]",
    "Hamiltonian units: the dimension is 2^n with n >= 1",
    "compiler units: primitives have dimension 2^k with 1 <= k and at most the system's, and are evaluable inside their parameter ranges",
]
ALSO = {q: ["Seq.observers"] for q in ("UnitarySequence.get_length", "UnitarySequence.get_dimension", "UnitarySequence.get_sequence_entries",
                                       "UnitarySequence.get_qasm", "UnitarySequence.get_jaqal", "UnitarySequence.get_display_output")}
ALSO["Compiler.compile"] = ["Compile.uniform.exact", "Compile.uniform.threshold", "Compile.weighted.exact", "Compile.weighted.threshold"]
ALSO["Compiler.compile_layered"] = ["Compile.layered.exact", "Compile.layered.threshold", "Compile.layered.empty.exact", "Compile.layered.empty.threshold"]
ASSUMED = {}
BOUNDED = {}
