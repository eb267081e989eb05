"""Units for parameterized unitaries."""
from .units import *
from .contracts import need, refuse
from .units_unitary import gms_mat


def name_list(h, P):
    return h.call(P, "get_parameters").value


@unit("PU.init", "ParameterizedUnitary.__init__", ["C05"])
def _(h):
    d, n = h.int("d"), h.int("n", 0)
    f = Opaque("function", h.const("f", U))
    pc = h.spec.cls("ParameterizedUnitaryParameter")
    ps = LVal((tab(n, lambda i: Ent(fn("a.par", I, U)(i), pc, "arg")),), "list", "arg")
    nm = name_of(h.const("name", NAME))
    r = h.new("ParameterizedUnitary", d, f, ps, nm)
    if r.kind == "raise":
        h.req("accepts every dimension", d < 1)
        return
    h.cover("accepted")
    h.req("refuses dimension zero", d >= 1)
    h.req("dimension", lambda: h.same(h.call(r.value, "get_dimension").value, d))
    h.req("name", lambda: h.same(h.call(r.value, "get_operation_name").value, nm))
    h.req("parameters in order", lambda: h.same(h.call(r.value, "get_parameters").value, ps))


def evaluate(h, t, vals):
    """The specification of evaluating the parameterized unitary t at a list of values."""
    cx, it, n = h.cx, h.it, Pn(t)
    content = cx.norm_content(vals.content)
    need(it, zbool(L.compare_nums(it, "==", cx.length(content), n)), "number of values")
    if content and all(isinstance(c, El) for c in content):
        def val(i):
            v = zreal(content[-1].v)
            for j in range(len(content) - 2, -1, -1):
                v = z3.If(zint(i) == j, zreal(content[j].v), v)
            return v
    elif content:
        if len(content) != 1 or not isinstance(content[0], Sl) or content[0].flat or content[0].cond is not None or content[0].rev or not cx.eqz(content[0].lo, 0):
            raise Unsupported("values of an unknown shape")
        val = lambda i: zreal(cx.tab_at(content[0].tab, i))
    else:
        val = lambda i: z3.RealVal(0)
    i = cx.fresh_index()
    need(it, cx.qatom(i, 0, n, z3.And(val(i) >= Rmin(Ppar(t, i)), val(i) <= Rmax(Ppar(t, i)))), "range")
    mat = h.spec.apply_unknown(it, Opaque("function", Pfun(t)), [], {"*": vals.content})
    pd = DVal((tab(n, lambda i: (name_of(Rname(Ppar(t, i))), (val(i), Rang(Ppar(t, i))))),))
    b = {"dimension": Pdim(t), "matrix": mat, "operation_name": name_of(Pname(t)), "parameter_dict": pd, "is_inverse": False, "apply_to": LVal((), "list")}
    return h.spec.contracts["Unitary.__init__"](it, b)


@unit("PU.as_unitary", "ParameterizedUnitary.as_unitary", ["C05"])
def _(h):
    cx, it = h.cx, h.it
    P = h.ent("ParameterizedUnitary", "P")
    t = P.term
    m = h.int("m", 0)
    val = fn("a.val", I, R)
    kind = ["list", "arr"][h.choose("values", 2)]
    vals = LVal((tab(m, lambda i: val(i)),), kind, "arg")
    n = Pn(t)

    r = h.call(P, "as_unitary", vals)
    s = h.run(lambda: evaluate(h, t, vals))
    if r.kind == "raise":
        h.req("accepts every value inside its closed range", s.kind == "raise")
        return
    h.req("refuses values out of range, missing or extra", s.kind == "ok")
    if s.kind != "ok":
        return
    h.cover("accepted")
    h.req("matrix function at the given values, in order", lambda: h.up_to_phase(h.umat(r.value), h.umat(s.value)))
    for role in ("operation_name", "parameter_dict", "is_inverse", "apply_to"):
        h.req(f"records {role}", lambda role=role: h.same(h.role(r.value, role), h.role(s.value, role)))


def family(method, arg_values, specs, params, name, dim):
    """A built-in family evaluated at arbitrary values."""
    @unit(f"Family.{method}", f"ParameterizedUnitaryDefinitions.{method}", ["C05"])
    def _(h):
        cx, it = h.cx, h.it
        args = arg_values(h)
        P = h.static("ParameterizedUnitaryDefinitions", method, *args)
        h.req("does not fail", P.kind == "ok")
        P = P.value
        h.req("dimension", lambda: h.same(h.call(P, "get_dimension").value, dim(h, args)))
        h.req("name", lambda: h.same(h.call(P, "get_operation_name").value, name(h, args)))
        ps = it.call(L.builtin("list"), [h.call(P, "get_parameters").value], {})
        got = L.content_of(it, ps)
        h.req("number of parameters", len(got) == len(params))
        xs = [h.real(f"x{i}") for i in range(len(params))]
        two_pi = L.low(X.of(alg.PI) * X.of(2))
        for (pn, lo, hi, ang), c in zip(params, got):
            lo, hi = (v(h, args) if callable(v) else v for v in (lo, hi))
            hi = two_pi if isinstance(hi, str) else hi
            h.req(f"parameter {pn}", lambda: h.same(h.call(c.v, "get_parameter_name").value, pn))
            h.req(f"parameter {pn} angle flag", lambda: h.same(h.call(c.v, "get_is_angle").value, ang))
            x = h.real("probe")
            v = h.call(c.v, "is_valid", x)
            h.req(f"parameter {pn} range", lambda: v.kind == "ok" and zbool(L.truth(it, v.value)) == z3.And(x >= zreal(lo), x <= zreal(hi)))
        for (pn, lo, hi, ang), x in zip(params, xs):
            lo, hi = (v(h, args) if callable(v) else v for v in (lo, hi))
            hi = two_pi if isinstance(hi, str) else hi
            cx.assume(z3.And(x >= zreal(lo), x <= zreal(hi)))
        r = h.call(P, "as_unitary", LVal(tuple(El(x) for x in xs), "list", "arg"))
        h.req("can be evaluated inside the range", r.kind == "ok")
        if r.kind != "ok":
            return
        h.cover("evaluated")
        h.req("matrix", lambda: h.up_to_phase(h.umat(r.value), specs(h, args, xs)))
        h.req("values recorded", lambda: h.same(cx.freeze(h.role(r.value, "parameter_dict")),
                                                DVal(tuple(El((pn, (x, ang))) for (pn, _, _, ang), x in zip(params, xs)))))
        h.req("operation name recorded", lambda: h.same(h.role(r.value, "operation_name"), name(h, args)))


ANGLE = lambda n: (n, 0, "2pi", True)
family("rotation_xy", lambda h: [], lambda h, a, x: h.mat(h.py("gate_rphi", *x)), [ANGLE("theta"), ANGLE("phi")], lambda h, a: "Rxy", lambda h, a: 2)
family("rotation_xyz", lambda h: [], lambda h, a, x: h.mat(h.py("gate_xyz", *x)), [ANGLE("alpha"), ANGLE("beta"), ANGLE("gamma")], lambda h, a: "Rxyz", lambda h, a: 2)
family("xx", lambda h: [], lambda h, a, x: h.mat(h.py("gate_xx", *x)), [ANGLE("theta")], lambda h, a: "XX", lambda h, a: 4)
family("gms", lambda h: [h.int("n", 1)], lambda h, a, x: gms_mat(h, a[0], x[0]), [ANGLE("theta")], lambda h, a: Str(["GMS", SOf("str", [a[0]])]), lambda h, a: h.cx.pow2(a[0]))


def herm_args(h):
    d = h.int("d", 1)
    lo, hi = h.real("lo"), h.real("hi")
    h.cx.assume(lo <= hi)
    return [MVal(M.Mat.of(M.FAtom(h.const("h", MS), d, d, {"hermitian"})), "complex", "arg"), lo, hi, name_of(h.const("suffix", NAME))]


family("time_evolution", herm_args, lambda h, a, x: M.Mat.of(M.FExpI(a[0].mat.scale(X.of(x[0]))), True),
       [("t", lambda h, a: a[1], lambda h, a: a[2], False)], lambda h, a: Str(["H", a[3].parts[0]]), lambda h, a: a[0].mat.rows)


@unit("Family.time_evolution.refusals", "ParameterizedUnitaryDefinitions.time_evolution", ["C05"])
def _(h):
    r, c = h.int("rows", 1), h.int("cols", 1)
    h.cx.assume(r == c)
    mv = MVal(M.Mat.of(M.FAtom(h.const("h", MS), r, c)), "complex", "arg")
    lo, hi = h.real("lo"), h.real("hi")
    P = h.static("ParameterizedUnitaryDefinitions", "time_evolution", mv, lo, hi)
    herm = h.spec.predicate(h.it, "hermitian", mv.mat)
    if P.kind == "raise":
        h.req("refuses only matrices that are not Hermitian and empty ranges", z3.Or(z3.Not(herm), lo > hi))
        return
    h.cover("accepted")
    h.req("requires a Hermitian matrix", herm)
