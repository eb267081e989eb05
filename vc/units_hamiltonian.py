"""Units for Hamiltonian terms, Hamiltonians and the sequences they define."""
from .lib2 import sum_content
from .sequences import *
from .spec import *
from .units import *


def hermitian_matrix(h, name, d, dt="complex"):
    return MVal(M.Mat.of(M.FAtom(h.const(name, MS), d, d, {"hermitian"})), dt, "arg")


@unit("Term.init", "HamiltonianTerm.__init__", ["C16"])
def _(h):
    cx, it = h.cx, h.it
    kind = h.choose("matrix", 3)
    dt = ["complex", "float", "int"][h.choose("type", 3)]
    d = h.int("d", 1)
    if kind == 0:
        m = hermitian_matrix(h, "m", d, dt)
        r = h.new("HamiltonianTerm", m)
        zero = zreal(L.sigma_max(it, m.mat)) == 0
        if r.kind == "raise":
            h.req("accepts every Hermitian matrix other than zero", zero)
            return
        if cx.decide(zero):
            return
        h.cover("accepted " + dt)
        smax = L.sigma_max(it, m.mat)
        h.req("dimension", lambda: h.same(h.call(r.value, "get_dimension").value, d))
        h.req("the matrix is the given one", lambda: h.same(h.mat(h.call(r.value, "get_matrix").value), m.mat))
        h.req("the coefficient is the largest singular value", lambda: h.same(h.call(r.value, "get_coefficient").value, smax))
        h.req("the coefficient is positive", lambda: zreal(h.call(r.value, "get_coefficient").value) > 0)
        n = h.mat(h.call(r.value, "get_normalized_matrix").value)
        h.req("coefficient times normalized matrix is the matrix", lambda: h.same(L.scale(it, n, h.call(r.value, "get_coefficient").value), m.mat))
        h.req("the normalized matrix has largest singular value 1", lambda: h.same(L.sigma_max(it, n), 1))
        h.req("the normalized matrix is Hermitian", lambda: h.same(n.dagger(), n))
        return
    rows, cols = h.int("rows", 0), h.int("cols", 0)
    m = MVal(M.Mat.of(M.FAtom(h.const("m", MS), rows, cols)), dt, "arg")
    if kind == 1:
        cx.assume(rows != cols)
        r = h.new("HamiltonianTerm", m)
        h.req("refuses a matrix that is not square", r.kind == "raise")
        return
    cx.assume(z3.And(rows == cols, rows >= 1))
    cx.assume(z3.Not(h.spec.predicate(it, "hermitian", m.mat)))
    r = h.new("HamiltonianTerm", m)
    h.req("refuses a matrix that is not Hermitian", r.kind == "raise")


# ---------------------------------------------------------------- Hamiltonians
def term_matrix(t):
    """A term's matrix: coefficient times normalized matrix."""
    d = Tdim(t)
    return M.Mat(d, d, [(X.of(Tco(t)), (), (M.FAtom(Tnm(t), d, d, {"hermitian"}),))])


def total(h, n, at, d):
    """The sum of all terms."""
    s = tab(n, lambda i: term_matrix(at(i)))
    s = Sl(Tab(s.tab.var, M.Mat(d, d, [(c, e, tuple(M.FAtom(f.term, d, d, f.props) for f in w)) for c, e, w in s.tab.template.terms])), s.lo, s.hi)
    return M.Mat.of(M.FSum(s, d, d))


@unit("Hamiltonian.init", "Hamiltonian.__init__", ["C16"])
def _(h):
    cx, it = h.cx, h.it
    n, d = h.int("n", 0), h.int("d", 1)
    at = fn("a.term", I, U)
    tc = h.spec.cls("HamiltonianTerm")
    content = (tab(n, lambda i: Ent(at(i), tc, "arg")),)
    odd = h.choose("list", 3)
    if odd == 1:
        content = content + (El(h.ent("UnitarySequenceEntry", "other")),)
    elif odd == 2:
        content = (El(h.ent("Unitary", "other")),) + content
    lst = cx.new(ListC(content, "list", "arg"))
    r = h.new("Hamiltonian", lst)
    if odd:
        h.req("refuses a list with anything else in it", r.kind == "raise")
        return
    i = cx.fresh_index()
    good = z3.And(n >= 1, zbool(cx.qatom(i, 0, n, Tdim(at(i)) == Tdim(at(z3.IntVal(0))))))
    if r.kind == "raise":
        h.req("accepts every non-empty list of terms of one dimension", z3.Not(good))
        return
    h.req("refuses an empty list and terms of different dimensions", good)
    h.cover("accepted")
    d = Tdim(at(z3.IntVal(0)))
    h.req("dimension", lambda: h.same(h.call(r.value, "get_dimension").value, d))
    cx.heap[lst.id] = ListC((El(h.ent("HamiltonianTerm", "later")),), "list", "arg")
    t = h.real("t")
    e = h.call(r.value, "get_time_evolution_operator", t)
    h.req("later changes to the list do not matter", lambda: h.up_to_phase(h.umat(e.value), M.Mat.of(M.FExpI(total(h, n, at, d).scale(X.of(t))))))


def system(h):
    """An arbitrary Hamiltonian on some number of qubits."""
    H_ = h.ent("Hamiltonian", "H")
    n = h.int("qubits", 0)
    D = h.cx.pow2(n)
    h.cx.assume(Hdim(H_.term) == D)
    return H_, n, D, total(h, Hn(H_.term), lambda i: Ht(H_.term, i), Hdim(H_.term))


@unit("Hamiltonian.evolution", "Hamiltonian.get_time_evolution_operator", ["C16"])
def _(h):
    H_, n, D, tot = system(h)
    t = h.real("t")
    r = h.call(H_, "get_time_evolution_operator", t)
    h.req("does not fail", r.kind == "ok")
    h.req("is exp(i t H)", lambda: h.up_to_phase(h.umat(r.value), M.Mat.of(M.FExpI(tot.scale(X.of(t))))))


@unit("Hamiltonian.size", "Hamiltonian.get_qubit_count", ["C16", "C17"])
def _(h):
    H_, n, D, tot = system(h)
    h.req("dimension", lambda: h.same(h.call(H_, "get_dimension").value, D))
    h.req("number of qubits", lambda: h.same(h.call(H_, "get_qubit_count").value, n))


# ---------------------------------------------------------------- the sequences a Hamiltonian defines
def acting(h, content):
    """What a list of entries does: each entry's operation, up to its phase, and its qubits."""
    it, sp = h.it, h.spec

    def one(e):
        f = sp.fields_of(it, e)
        m = sp.settled(it, sp.unitary_mat(it, f["unitary"]))
        return (MVal(M.Mat(m.rows, m.cols, m.terms, True), "complex"), LVal(tuple(h.cx.freeze(x) for x in h.cx.norm_content(L.content_of(it, f["apply_to"])))))
    return entry_list(h, L.map_content(it, h.cx.norm_content(content), one))


def entry_list(h, content):
    return LVal(tuple(h.cx.freeze(x) for x in content))


def evolution(m, t):
    """exp(i t m), up to phase."""
    return M.Mat(m.rows, m.cols, M.Mat.of(M.FExpI(m.scale(X.of(t)))).terms, True)


def everywhere(n):
    return LVal((tab(n, lambda i: i),))


def result_entries(h, r):
    return h.call(r.value, "get_sequence_entries").value


@unit("Hamiltonian.ideal", "Hamiltonian.get_ideal_sequence", ["C17"])
def _(h):
    cx, it = h.cx, h.it
    H_, n, D, tot = system(h)
    cx.assume(n >= 1)
    t, N = h.real("t"), h.int("steps", 1)
    r = h.call(H_, "get_ideal_sequence", t, N)
    h.req("does not fail", r.kind == "ok")
    h.req("dimension of the system", lambda: h.same(h.call(r.value, "get_dimension").value, D))
    h.req("as many entries as steps", lambda: h.same(h.call(r.value, "get_length").value, N))
    one = (MVal(evolution(tot, t / z3.ToReal(N))), everywhere(n))
    h.req("every entry is exp(i t H / N) on all qubits", lambda: h.same(acting(h, L.content_of(it, result_entries(h, r))), LVal((tab(N, lambda i: one),))))
    h.req("the product is exp(i t H)", lambda: h.up_to_phase(h.umat(h.call(r.value, "product").value), evolution(tot, t)))


@unit("Hamiltonian.trotter", "Hamiltonian.get_trotter_sequence", ["C17"])
def _(h):
    cx, it = h.cx, h.it
    H_, n, D, tot = system(h)
    cx.assume(n >= 1)
    t, N = h.real("t"), h.int("steps", 1)
    r = h.call(H_, "get_trotter_sequence", t, N)
    h.req("does not fail", r.kind == "ok")
    h.req("dimension of the system", lambda: h.same(h.call(r.value, "get_dimension").value, D))
    term = lambda j: (MVal(evolution(term_matrix(Ht(H_.term, j)), t / z3.ToReal(N))), everywhere(n))
    step = LVal((tab(Hn(H_.term), term),))
    h.req("every step is exp(i t H_j / N) for every term in order, on all qubits",
          lambda: h.same(acting(h, L.content_of(it, result_entries(h, r))), LVal((Sl(Tab(cx.fresh_index(), step), 0, N, False, None, True),))))


def in_any_order(h, content):
    """The list with every rearranged part put back in its original order."""
    out = []
    for c in h.cx.norm_content(content):
        if isinstance(c, Shuf):
            out += in_any_order(h, c.content)
        elif isinstance(c, Sl) and isinstance(c.tab.template, LVal):
            t = c.tab.template
            out.append(Sl(Tab(c.tab.var, LVal(tuple(h.cx.freeze(x) for x in in_any_order(h, t.content)), t.kind, t.tag), c.tab.facts), c.lo, c.hi, c.rev, c.cond, c.flat))
        else:
            out.append(c)
    return out


@unit("Hamiltonian.random trotter", "Hamiltonian.get_trotter_sequence", ["C17"])
def _(h):
    cx, it = h.cx, h.it
    H_, n, D, tot = system(h)
    cx.assume(n >= 1)
    t, N = h.real("t"), h.int("steps", 1)
    r = h.call(H_, "get_trotter_sequence", t, N, True)
    h.req("does not fail", r.kind == "ok")
    h.req("dimension of the system", lambda: h.same(h.call(r.value, "get_dimension").value, D))
    term = lambda j: (MVal(evolution(term_matrix(Ht(H_.term, j)), t / z3.ToReal(N))), everywhere(n))
    step = LVal((tab(Hn(H_.term), term),))
    h.req("every step is exp(i t H_j / N) for every term once, on all qubits",
          lambda: h.same(acting(h, in_any_order(h, L.content_of(it, result_entries(h, r)))), LVal((Sl(Tab(cx.fresh_index(), step), 0, N, False, None, True),))))


@unit("Hamiltonian.qdrift", "Hamiltonian.get_qdrift_sequence", ["C17"])
def _(h):
    cx, it = h.cx, h.it
    H_, n, D, tot = system(h)
    cx.assume(n >= 1)
    t, N = h.real("t"), h.int("steps", 1)
    r = h.call(H_, "get_qdrift_sequence", t, N)
    h.req("does not fail", r.kind == "ok")
    h.req("dimension of the system", lambda: h.same(h.call(r.value, "get_dimension").value, D))
    draws = cx.draws
    if len(draws) != 1 or draws[0][0] != "each" or len(draws[0][2]) != 1 or draws[0][2][0][0] != "choice" or draws[0][1][4] is not None:
        raise Unsupported(f"random draws of an unknown pattern: {[d[0] for d in draws]}")
    k, lo, hi, rev, _ = draws[0][1]
    _, (pop, weights), J = draws[0][2][0]
    h.req("one draw per repetition", z3.simplify(zint(hi) - zint(lo)) == N)
    content = cx.norm_content(pop.content)
    if len(content) != 1 or not isinstance(content[0], Sl) or content[0].cond is not None or content[0].flat or mentions(pop, {k.decl().name()}) or mentions(weights, {k.decl().name()}):
        raise Unsupported("draw from a list of an unknown shape")
    of_terms = isinstance(content[0].tab.template, Ent)
    drawn = lambda j: cx.tab_at(content[0].tab, j) if of_terms else Ent(Ht(H_.term, zint(j)), h.spec.cls("HamiltonianTerm"), "arg")
    h.req("drawn from all terms", lambda: h.same(LVal(tuple(cx.freeze(x) for x in L.map_content(it, content, lambda x: x if of_terms else drawn(x)))), LVal((tab(Hn(H_.term), lambda i: Ent(Ht(H_.term, i), h.spec.cls("HamiltonianTerm"), "arg")),))), definite=False)
    coefs = (tab(Hn(H_.term), lambda i: Tco(Ht(H_.term, i))),)
    lam = sum_content(it, coefs, 0)
    if weights is None:
        weights = LVal((tab(Hn(H_.term), lambda i: 1 / z3.ToReal(Hn(H_.term))),))
    h.req("every term is drawn with probability proportional to its coefficient",
          lambda: h.same(LVal(weights.content), LVal(tuple(cx.freeze(x) for x in L.map_content(it, coefs, lambda x: L.arith(it, "/", x, lam))))))
    at = lambda j: z3.substitute(zint(J), (k, z3.simplify(zint(lo) + j if not rev else zint(hi) - 1 - j, som=True)))

    def step(j):
        t = drawn(at(j)).term
        d = Tdim(t)
        return (MVal(evolution(M.Mat.of(M.FAtom(Tnm(t), d, d, {"hermitian"})), L.arith(it, "/", L.arith(it, "*", zreal(lam), t0), N))), everywhere(n))
    t0 = t
    h.req("every entry is exp(i L t h_j / N) of the drawn term, on all qubits",
          lambda: h.same(acting(h, L.content_of(it, result_entries(h, r))), LVal((tab(N, step),))), definite=of_terms)


# ---------------------------------------------------------------- compiled evolutions
def described(h, prims, t, x):
    """What every primitive is: its operation at parameter value t, whether x is a valid value of each parameter, and where it may be applied."""
    cx, it = h.cx, h.it

    def one(p):
        u = it.call(it.getattr(p, "get_unitary"), [], {})
        ps = L.map_content(it, cx.norm_content(L.content_of(it, it.call(it.getattr(u, "get_parameters"), [], {}))),
                           lambda q: L.truth(it, it.call(it.getattr(q, "is_valid"), [x], {})))
        m = h.umat(it.call(it.getattr(u, "as_unitary"), [L.mk_list(it, (El(t),))], {}))
        at = it.call(it.getattr(p, "get_allowed_apply_to"), [], {})
        at = None if at is None else entry_list(h, L.map_content(it, cx.norm_content(L.content_of(it, at)), lambda q: entry_list(h, cx.norm_content(L.content_of(it, q)))))
        return (MVal(M.Mat(m.rows, m.cols, m.terms, True), "complex"), entry_list(h, ps), at)
    return entry_list(h, L.map_content(it, cx.norm_content(prims.content), one))


def the_compilation(h):
    ds = [d for d in h.cx.draws if d[0].startswith("compile")]
    if len(ds) != 1 or ds[0][0] != "compile":
        raise Unsupported(f"compilations: {[d[0] for d in h.cx.draws]}")
    return ds[0]


def single_terms(h, H_, n, t, s, x):
    term = lambda j: (MVal(evolution(term_matrix(Ht(H_.term, j)), t)), LVal((El(z3.And(x >= -s, x <= s)),)), LVal((El(everywhere(n)),)))
    return LVal((tab(Hn(H_.term), term),))


def combinations_of(h, H_, k):
    (c,) = L.content_of(h.it, L.lookup("itertools.combinations").fn(h.it, [LVal((tab(Hn(H_.term), lambda i: i),)), k], {}))
    return c


def sum_of(h, H_, c):
    """The sum of the terms with the indices of the list c."""
    d = Hdim(H_.term)
    terms = L.map_content(h.it, (Sl(c.tab, c.lo, c.hi, c.rev),), lambda j: term_matrix(Ht(H_.term, zint(j))))
    return M.Mat.of(M.FSum(h.cx.freeze(terms[0]), d, d))


def subset_sum(h, H_, k, m):
    """The sum of the terms of the m-th combination of k terms."""
    c = combinations_of(h, H_, k)
    return sum_of(h, H_, L.content_of(h.it, h.cx.tab_at(c.tab, m))[0])


def subsets(h, H_, n, t, s, x):
    """Every non-empty subset of the terms once: for each size, all combinations of that many terms."""
    cx, it = h.cx, h.it
    N = Hn(H_.term)

    def one(c):
        return (MVal(evolution(sum_of(h, H_, c), t)), LVal((El(z3.And(x >= -s, x <= s)),)), LVal((El(everywhere(n)),)))
    k = cx.fresh_index()
    cx.ax(z3.And(k >= 1, k <= N))
    inner = LVal(tuple(cx.freeze(y) for y in L.map_content(it, (combinations_of(h, H_, k),), lambda q: one(L.content_of(it, q)[0]))))
    return LVal((Sl(Tab(k, inner), 1, N + 1, False, None, True),))


def stoq(simultaneous):
    def unit_(h):
        cx, it = h.cx, h.it
        H_, n, D, tot = system(h)
        cx.assume(n >= 1)
        time, s, threshold = h.real("time"), h.real("max_t_step"), h.real("threshold")
        cx.assume(z3.And(s >= 0, threshold >= 0, threshold <= 1))
        r = h.call(H_, "compile_stoq_sequence", time, s, threshold, simultaneous)
        h.req("does not fail", r.kind == "ok", "" if r.kind == "ok" else f"{r.exc.kind} {r.exc.detail}")
        if r.kind != "ok":
            return
        (d, prims, probs, p, _), c = the_compilation(h)[1:]
        h.req("compiles for the system", lambda: h.same(d, D))
        h.req("the target is the exact evolution", lambda: h.up_to_phase(h.umat(c.target), evolution(tot, time)))
        h.req("to the given threshold", lambda: h.same(c.threshold, threshold))
        h.req("within 10000 steps", lambda: h.same(c.limit, 10000))
        t, x = h.real("t"), h.real("x")
        cx.assume(z3.And(t >= -s, t <= s))
        if simultaneous:
            h.req("primitives: evolutions under every subset of the terms, up to max_t_step either way, on all qubits", lambda: h.same(described(h, prims, t, x), subsets(h, H_, n, t, s, x)))
        else:
            h.req("primitives: evolutions under single terms, up to max_t_step either way, on all qubits", lambda: h.same(described(h, prims, t, x), single_terms(h, H_, n, t, s, x)))
        h.req("every term equally likely", probs is None, definite=False)
        q = it.getattr(r.value, "compiled_sequence")
        from .sequences import entries
        h.req("returns the compiled sequence", lambda: h.same(entry_list(h, entries(it, q)), entry_list(h, cx.norm_content(c.content))))
        h.req("returns the compilation's trace", lambda: h.same(entry_list(h, cx.norm_content(L.content_of(it, it.getattr(r.value, "cost_by_step")))), entry_list(h, c.trace)))
    return unit_


unit("Hamiltonian.stoq.single", "Hamiltonian.compile_stoq_sequence", ["C18"])(stoq(False))
unit("Hamiltonian.stoq.subsets", "Hamiltonian.compile_stoq_sequence", ["C18"])(stoq(True))
