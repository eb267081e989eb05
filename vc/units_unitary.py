"""Units for stoqcompiler.unitary: parameters, unitaries, gates, parameterized unitaries."""
from .units import *


# ---------------------------------------------------------------- ParameterizedUnitaryParameter
@unit("Param.init", "ParameterizedUnitaryParameter.__init__", ["C05"])
def _(h):
    lo, hi = h.real("min"), h.real("max")
    ang = h.const("angle", B)
    nm = Str(["t", SName(h.const("pname", NAME))])
    p = h.new("ParameterizedUnitaryParameter", nm, lo, hi, ang)
    if p.kind == "raise":
        h.req("refuses only an empty range", lo > hi)
        return
    h.cover("accepted")
    h.req("accepts only a range", hi >= lo)
    h.req("name", lambda: h.same(h.call(p.value, "get_parameter_name").value, nm))
    h.req("angle flag", lambda: h.same(h.call(p.value, "get_is_angle").value, ang))
    x = h.real("x")
    v = h.call(p.value, "is_valid", x)
    h.req("valid does not fail", v.kind == "ok")
    h.req("valid exactly inside the closed range", lambda: zbool(L.truth(h.it, v.value)) == z3.And(x >= lo, x <= hi))


@unit("Param.random", "ParameterizedUnitaryParameter.random_value", ["C05", "C11"])
def _(h):
    p = h.ent("ParameterizedUnitaryParameter", "p")
    r = h.call(p, "random_value")
    h.req("does not fail", r.kind == "ok")
    lo, hi = Rmin(p.term), Rmax(p.term)
    v = zreal(r.value)
    h.req("inside the closed range", z3.And(v >= lo, v <= hi))
    us = [d[2] for d in h.cx.draws if d[0] == "u01"]
    if len(us) != 1 or len(h.cx.draws) != 1:
        raise Unsupported("random value drawn in another way")
    # every interior point is hit by exactly one u, with constant density
    h.req("every value can be drawn", lambda: z3.Implies(z3.And(lo < hi), z3.Or(v == lo + us[0] * (hi - lo), v == hi - us[0] * (hi - lo))))


# ---------------------------------------------------------------- Unitary
def dets_to_one(h, m):
    """det(m) = 1 for a single-term matrix whose scalar is a power of the determinant of its own word."""
    cx = h.cx
    s, d, w = m.terms[0]
    if not m.single() or len(w) > 1:
        raise Unsupported("determinant of a product")
    if "det1" in m.word[0].props if w and hasattr(m.word[0], "props") else False:
        pass
    D = m.rows
    if not w:
        return not d and s == X.of(1) or _raise("determinant of a scalar matrix")
    dd = M.dets_mul(tuple((f, e * X.of(D if isinstance(D, int) else z3.ToReal(D))) for f, e in d), ((w[0], X.of(1)),))
    if s != X.of(1):
        if not d and isinstance(D, int):
            return cx.zero_x(L.det(h.it, M.Mat.of(w[0])).s * (s ** D) - X.of(1)) if False else _raise("scaled matrix")
        raise Unsupported("determinant of a scaled matrix")
    return all(cx.zero_x(e) for _, e in dd)


def _raise(msg):
    raise Unsupported(msg)


@unit("Unitary.init", "Unitary.__init__", ["C01"])
def _(h):
    cx = h.cx
    cx.inline.add("Unitary.__init__")
    d = h.int("d")
    r, c = h.int("rows", 0), h.int("cols", 0)
    kind = h.choose("matrix", 4)
    name = name_of(h.const("name", NAME))
    dt = ["complex", "float", "int", None][kind]
    given = None if dt is None else MVal(M.Mat.of(M.FAtom(h.const("m", MS), r, c)), dt, "arg")
    n, at = h.int("n", 0), h.int("k", 0)
    pd = DVal((tab(n, lambda i: (name_of(fn("a.pn", I, NAME)(i)), (fn("a.pv", I, R)(i), fn("a.pa", I, B)(i)))),), "arg")
    qs = LVal((tab(at, lambda i: fn("a.q", I, I)(i)),), "list", "arg")
    inv = h.const("inv", B)
    kw = {"matrix": given, "operation_name": name, "parameter_dict": pd, "is_inverse": inv, "apply_to": qs}
    plain = False
    if kind == 0:
        plain = h.choose("optional arguments", 2) == 1
    if plain:
        kw = {"matrix": given}
    body = h.new("Unitary", d, **kw)
    b = dict(kw)
    b["dimension"] = d
    if plain:
        b.update(operation_name=None, parameter_dict=None, is_inverse=False, apply_to=LVal((), "list"))
    spec = h.spec_run("Unitary.__init__", b)
    if body.kind == "raise":
        h.req("accepts every unitary of the right shape", spec.kind == "raise")
        return
    h.req("refuses other shapes and matrices that are not unitary", spec.kind == "ok")
    if spec.kind == "raise":
        return
    h.cover(f"accepted {dt}")
    m = h.umat(body.value)
    h.req("matrix equals the input up to phase", lambda: h.up_to_phase(m, h.umat(spec.value)))
    h.req("determinant 1", lambda: dets_to_one(h, m))
    h.req("dimension", lambda: h.same(h.call(body.value, "get_dimension").value, d))
    h.req("get_matrix is the matrix", lambda: h.same(h.mat(h.call(body.value, "get_matrix").value), m))
    if dt is not None:
        fz = cx.freeze(h.role(body.value, "matrix"))
        h.req("private copy of the matrix", lambda: isinstance(fz, MVal) and isinstance(fz.tag, tuple))
    for role in ("operation_name", "parameter_dict", "is_inverse", "apply_to"):
        h.req(role.replace("_", " "), lambda role=role: h.same(h.role(body.value, role), h.role(spec.value, role)))


@unit("Unitary.identity", "Unitary.identity", ["C01", "C02"])
def _(h):
    d = h.int("d")
    r = h.static("Unitary", "identity", d)
    if r.kind == "raise":
        h.req("accepts every dimension", d < 1)
        return
    h.req("matrix is the identity", lambda: h.up_to_phase(h.umat(r.value), M.Mat.identity(d)))


@unit("Unitary.inverse", "Unitary.inverse", ["C02", "C19"])
def _(h):
    u = h.ent("Unitary", "u")
    before = h.attrs(u)
    r = h.call(u, "inverse")
    h.req("does not fail", r.kind == "ok")
    h.req("conjugate transpose", lambda: h.up_to_phase(h.umat(r.value), h.umat(u).dagger()))
    for role in ("operation_name", "parameter_dict", "apply_to"):
        h.req("keeps the " + role.replace("_", " "), lambda role=role: h.same(h.role(r.value, role), h.role(u, role)))
    h.req("toggles the marker", lambda: h.same(h.role(r.value, "is_inverse"), z3.Not(Uinv(u.term))))
    rr = h.call(r.value, "inverse")
    h.req("inverting twice does not fail", rr.kind == "ok")
    h.req("inverting twice restores the matrix", lambda: h.up_to_phase(h.umat(rr.value), h.umat(u)))
    h.req("inverting twice restores the marker", lambda: h.same(h.role(rr.value, "is_inverse"), Uinv(u.term)))
    h.req("the operand is unchanged", lambda: h.same_attrs(u, before))


def same_dim(h, u, v, r):
    """Refusal exactly for different dimensions."""
    if r.kind == "raise":
        h.req("refuses only different dimensions", Udim(u.term) != Udim(v.term))
        return False
    h.req("refuses different dimensions", Udim(u.term) == Udim(v.term))
    return h.cx.entails(Udim(u.term) == Udim(v.term))


def product_unit(side):
    @unit(f"Unitary.{side}_multiply", f"Unitary.{side}_multiply", ["C02"])
    def _(h):
        u, v = h.ent("Unitary", "u"), h.ent("Unitary", "v")
        bu, bv = h.attrs(u), h.attrs(v)
        r = h.call(u, f"{side}_multiply", v)
        if not same_dim(h, u, v, r):
            return
        h.cover("accepted")
        a, b = (h.umat(v), h.umat(u)) if side == "left" else (h.umat(u), h.umat(v))
        h.req("matrix product", lambda: h.up_to_phase(h.umat(r.value), a.times(b)))
        h.req("the operands are unchanged", lambda: h.same_attrs(u, bu) and h.same_attrs(v, bv))


product_unit("left")
product_unit("right")


@unit("Unitary.tensor", "Unitary.tensor", ["C02"])
def _(h):
    u, v = h.ent("Unitary", "u"), h.ent("Unitary", "v")
    bu, bv = h.attrs(u), h.attrs(v)
    r = h.call(u, "tensor", v)
    h.req("does not fail", r.kind == "ok")
    h.req("Kronecker product", lambda: h.up_to_phase(h.umat(r.value), L.kron(h.umat(u), h.umat(v))))
    h.req("the operands are unchanged", lambda: h.same_attrs(u, bu) and h.same_attrs(v, bv))


def overlap(h, A, Bm):
    """1 - |tr(A^dagger B)| / d"""
    it = h.it
    t = L.abs_trace(it, A.dagger().times(Bm))
    return L.arith(it, "-", 1, L.arith(it, "/", t, A.rows))


def other(h, u, v):
    """The second operand: a unitary or a plain matrix."""
    if h.choose("operand", 2) == 0:
        return v, h.umat(v), Udim(v.term)
    r, c = h.int("rows", 0), h.int("cols", 0)
    m = M.Mat.of(M.FAtom(h.const("m", MS), r, c))
    return MVal(m, "complex", "arg"), m, z3.If(r == c, r, z3.IntVal(-1))


@unit("Unitary.distance_from", "Unitary.distance_from", ["C03"])
def _(h):
    u, v = h.ent("Unitary", "u"), h.ent("Unitary", "v")
    w, mw, dw = other(h, u, v)
    bu, bv = h.attrs(u), h.attrs(v)
    r = h.call(u, "distance_from", w)
    if r.kind == "raise":
        h.req("refuses only different dimensions", dw != Udim(u.term))
        return
    h.req("refuses different dimensions", dw == Udim(u.term))
    h.cover("accepted")
    h.req("is 1 - |tr(A^dagger B)|/d", lambda: h.same(h.cx.freeze(r.value), overlap(h, h.umat(u), mw)))
    h.req("the operands are unchanged", lambda: h.same_attrs(u, bu) and h.same_attrs(v, bv))
    if isinstance(w, Ent):
        s = h.call(v, "distance_from", u)
        h.req("symmetric", lambda: s.kind == "ok" and h.same(h.cx.freeze(s.value), h.cx.freeze(r.value)))


@unit("Unitary.close_to", "Unitary.close_to", ["C03"])
def _(h):
    u, v = h.ent("Unitary", "u"), h.ent("Unitary", "v")
    w, mw, dw = other(h, u, v)
    none = h.choose("threshold", 2)
    t = h.real("t")
    r = h.call(u, "close_to", w, *([] if none else [t]))
    if r.kind == "raise":
        h.req("refuses only different dimensions", dw != Udim(u.term))
        return
    h.req("refuses different dimensions", dw == Udim(u.term))
    h.cover("accepted")
    it = h.it
    dist = overlap(h, h.umat(u), mw)
    if none:
        want = L.compare_nums(it, "<=", L.absolute(it, dist), Fraction(1, 10 ** 8))
    else:
        want = L.compare_nums(it, "<=", dist, L.arith(it, "-", 1, t))
    h.req("holds exactly within the threshold" if not none else "holds exactly at numerically zero distance",
          lambda: zbool(L.truth(it, r.value)) == zbool(want))


@unit("Unitary.get_parameter_value", "Unitary.get_parameter_value", ["C04", "C05"])
def _(h):
    u = h.ent("Unitary", "u")
    i = h.int("i", 0)
    h.cx.assume(i < Unp(u.term))
    k = name_of(Upn(u.term, i))
    h.cx.add_index(i)
    j = z3.Int("jx")
    r = h.call(u, "get_parameter_value", k)
    h.req("does not fail", r.kind == "ok")
    h.req("value and flag", lambda: h.same(h.cx.freeze(r.value), (Upv(u.term, i), Upa(u.term, i))))


# ---------------------------------------------------------------- text output
def text_unit(method, spec):
    @unit(f"Unitary.{method}", f"Unitary.{method}", ["C19"])
    def _(h):
        u = h.ent("Unitary", "u")
        t, cx = u.term, h.cx
        n = h.int("n", 0)
        cx.assume(Udim(t) == cx.pow2(n))
        before = h.attrs(u)
        r = h.call(u, method)
        h.req("does not fail", r.kind == "ok")
        pd = h.role(u, "parameter_dict")
        params = h.it.call(L.builtin("list"), [h.it.call(h.it.getattr(pd, "items"), [], {})], {})
        want = h.py(spec, h.role(u, "operation_name"), params, h.role(u, "is_inverse"), h.role(u, "apply_to"), n)
        h.req("name, every parameter in order, qubits in order, marker", lambda: h.same(cx.freeze(r.value), cx.freeze(want)))
        h.req("the unitary is unchanged", lambda: h.same_attrs(u, before))
        h.cover("path")


text_unit("get_qasm", "spec_qasm")
text_unit("get_jaqal", "spec_jaqal")
text_unit("get_display_name", "spec_display")


# ---------------------------------------------------------------- gates
def gate_unit(method, spec, name, params, default=None):
    @unit(f"Gate.{method}", f"UnitaryDefinitions.{method}", ["C04"] + (["C05"] if method in ("rphi", "xx") else []))
    def _(h):
        angles = [h.real(p) for _, p in params]
        if default is not None and h.choose("angle", 2):
            r = h.static("UnitaryDefinitions", method)
            angles = [L.low(X.of(alg.PI) * X.of(default))]
        else:
            r = h.static("UnitaryDefinitions", method, *angles)
        h.req("does not fail", r.kind == "ok")
        h.req("matrix", lambda: h.up_to_phase(h.umat(r.value), h.mat(h.py(spec, *angles))))
        h.req("name", lambda: h.same(h.role(r.value, "operation_name"), name))
        pd = h.cx.freeze(h.role(r.value, "parameter_dict"))
        h.req("angles recorded unchanged", lambda: h.same(pd, DVal(tuple(El((sym, (a, True))) for (sym, _), a in zip(params, angles)))))


TH = [("θ", "theta")]
for m, sp, nm, ps in (("rx", "gate_rx", "Rx", TH), ("ry", "gate_ry", "Ry", TH), ("rz", "gate_rz", "Rz", TH), ("rphi", "gate_rphi", "R", TH + [("Φ", "phi")]),
                      ("h", "gate_h", "H", []), ("t", "gate_t", "T", []), ("sigmax", "pauli_x", "X", []), ("sigmay", "pauli_y", "Y", []), ("sigmaz", "pauli_z", "Z", []),
                      ("cnot", "gate_cnot", "CNOT", []), ("ccnot", "gate_ccnot", "CCNOT", []), ("qecc_phase_flip", "gate_qecc", "QECC", [])):
    gate_unit(m, sp, nm, ps)
gate_unit("xx", "gate_xx", "XX", TH, Fraction(1, 4))


def gms_mat(h, n, theta):
    """The product of XX(theta) over all pairs i < j < n on n qubits."""
    cx = h.cx
    D = cx.pow2(n)
    xx = h.mat(h.py("gate_xx", theta))
    i, j = z3.Int("ixgi"), z3.Int("ixgj")
    inner = LVal((Sl(Tab(j, M.Mat.of(M.FEmb(xx, (El(i), El(j)), D), True)), simp_int(i + 1), n),))
    return M.Mat.of(M.FProd(Sl(Tab(i, inner), 0, n, flat=True), D), True)


@unit("Gate.gms", "UnitaryDefinitions.gms", ["C04", "C05"])
def _(h):
    n, th = h.int("n", 1), h.real("theta")
    if h.choose("angle", 2):
        r = h.static("UnitaryDefinitions", "gms", n)
        th = L.low(X.of(alg.PI) * X.of(Fraction(1, 4)))
    else:
        r = h.static("UnitaryDefinitions", "gms", n, th)
    h.req("does not fail", r.kind == "ok")
    h.req("product of XX over all pairs", lambda: h.up_to_phase(h.umat(r.value), gms_mat(h, n, th)))
    h.req("name", lambda: h.same(h.role(r.value, "operation_name"), Str(["GMS", SOf("str", [n])])))
    pd = h.cx.freeze(h.role(r.value, "parameter_dict"))
    h.req("angle recorded unchanged", lambda: h.same(pd, DVal((El(("θ", (th, True))),))))


def hermitian(h, name="h", rows="rows", cols="cols"):
    r, c = h.int(rows, 0), h.int(cols, 0)
    return MVal(M.Mat.of(M.FAtom(h.const(name, MS), r, c)), "complex", "arg"), r, c


@unit("Gate.time_evolution", "UnitaryDefinitions.time_evolution", ["C05", "C16"])
def _(h):
    mv, r, c = hermitian(h)
    t, sfx = h.real("t"), name_of(h.const("suffix", NAME))
    h.cx.assume(z3.And(r >= 1, r == c))
    u = h.static("UnitaryDefinitions", "time_evolution", mv, t, sfx)
    herm = h.spec.predicate(h.it, "hermitian", mv.mat)
    if u.kind == "raise":
        h.req("refuses only matrices that are not Hermitian", z3.Not(herm))
        return
    h.req("refuses matrices that are not Hermitian", herm)
    h.cover("accepted")
    m = h.spec.settled(h.it, mv.mat)
    want = M.Mat.of(M.FExpI(m.scale(X.of(t))), True)
    h.req("is exp(i H t)", lambda: h.up_to_phase(h.umat(u.value), want))
    h.req("name", lambda: h.same(h.role(u.value, "operation_name"), Str(["H", sfx])))
    h.req("time recorded unchanged", lambda: h.same(h.cx.freeze(h.role(u.value, "parameter_dict")), DVal((El(("t", (t, False))),))))
