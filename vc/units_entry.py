"""Units for sequence entries and primitives."""
from .units import *
from . import arrays
from .contracts import need, refuse, entry_parts


def qubit_list(h, name, k):
    f = fn("a." + name, I, I)
    return LVal((tab(k, lambda i: f(i)),), "list", "arg"), f


def good_qubits(h, k, f, dim):
    """Distinct, non-negative, at least one, as many as the operation acts on."""
    cx = h.cx
    i = cx.fresh_index()
    nonneg = cx.qatom(i, 0, k, f(i) >= 0)
    distinct = L.distinct(h.it, (tab(k, lambda j: f(j)),)) if hasattr(L, "distinct") else None
    return z3.And(zbool(nonneg), zbool(distinct), k >= 1, dim == cx.pow2(k))


@unit("Entry.init", "UnitarySequenceEntry.__init__", ["C10", "C06"])
def _(h):
    cx = h.cx
    u, k = h.ent("Unitary", "u"), h.int("k", 0)
    if h.choose("qubits given as", 2):
        qs, f = qubit_list(h, "q", k)
        qs = LVal(qs.content, "tuple", "arg")
    else:
        qs, f = qubit_list(h, "q", k)
    cx.inline.add("UnitarySequenceEntry.__init__")
    r = h.new("UnitarySequenceEntry", u, qs)
    cx.inline.discard("UnitarySequenceEntry.__init__")
    good = good_qubits(h, k, f, Udim(u.term))
    if r.kind == "raise":
        h.req("accepts every well-formed qubit list", z3.Not(good))
        return
    h.cover("accepted")
    h.req("refuses repeated, negative, no or too many qubits", good)
    h.req("operation", lambda: h.same(h.field(r.value, "unitary"), u))
    h.req("qubits in listed order", lambda: h.same(LVal(L.content_of(h.it, h.call(r.value, "get_apply_to").value)), LVal(qs.content)))
    h.req("dimension of the operation", lambda: h.same(h.call(r.value, "get_dimension").value, Udim(u.term)))
    at = cx.freeze(h.field(r.value, "apply_to"))
    h.req("private copy of the qubit list", isinstance(at.tag, tuple))


@unit("Primitive.init", "UnitaryPrimitive.__init__", ["C10", "C11"])
def _(h):
    cx, it = h.cx, h.it
    u = h.ent(["Unitary", "ParameterizedUnitary"][h.choose("operation", 2)], "u")
    dim = Udim(u.term) if u.cls.name == "Unitary" else Pdim(u.term)
    if h.choose("restriction", 2):
        r = h.new("UnitaryPrimitive", u)
        h.req("accepts an unrestricted primitive", r.kind == "ok")
        h.req("unrestricted", lambda: h.call(r.value, "get_allowed_apply_to").value is None)
        h.req("operation", lambda: h.same(h.call(r.value, "get_unitary").value, u))
        return
    n = h.int("n", 0)
    K, Q = fn("a.len", I, I), fn("a.qq", I, I, I)
    lists = LVal((tab(n, lambda i: LVal((tab(K(i), lambda j: Q(i, j)),), "list", "arg")),), "list", "arg")
    r = h.new("UnitaryPrimitive", u, lists)
    if cx.decide(dim < 2):
        cx.assume(n >= 1)
        h.req("refuses any list for an operation on no qubit", r.kind == "raise")
        return
    good = zbool(L.truth(it, h.py("spec_good_lists", lists, dim)))
    if r.kind == "raise":
        h.req("accepts every list of well-formed qubit lists", z3.Not(good))
        return
    h.cover("accepted")
    h.req("refuses a malformed qubit list", good)
    h.req("operation", lambda: h.same(h.call(r.value, "get_unitary").value, u))
    h.req("allowed qubit lists in order", lambda: h.same(LVal(L.content_of(it, h.call(r.value, "get_allowed_apply_to").value)), LVal(lists.content)))


def cached_entry(h, e):
    """The arbitrary entry e as an object whose caches hold arbitrary correct answers."""
    it, cx = h.it, h.cx
    tp = h.spec.reveal(it, e)
    tpl = h.spec.templates[(e.cls.qual, "")]
    known = {}

    def inv(it2, c, key):
        if not is_int(key):
            raise Unsupported("key of the cache")
        for el in reversed(c.content):
            b = L.compare_nums(it, "==", el.v[0], key)
            if b is True or (b is not False and cx.decide(b)):
                return True, lambda: el.v[1]
        k = M.key(key)
        if k not in known:
            known[k] = z3.Bool(f"cached{len(known)}")

        def value():
            r = h.run(lambda: h.spec.contracts["UnitarySequenceEntry.get_full_unitary"](it, {"self": e, "system_dimension": key}))
            if r.kind == "raise":
                raise Infeasible()
            return r.value
        return known[k], value
    f = {}
    for k, v in tp.fields.items():
        if isinstance(v, Undef) and isinstance(tpl.fields[k], DVal) and not tpl.fields[k].content:
            f[k] = cx.new(DictC((), "cache", inv))
        else:
            f[k] = v
    return cx.new(ObjC(e.cls, f, "new"))


@unit("Entry.full_unitary", "UnitarySequenceEntry.get_full_unitary", ["C06", "C19"])
def _(h):
    cx, it = h.cx, h.it
    e = h.ent("UnitarySequenceEntry", "e")
    n = h.int("n", 0)
    D = cx.pow2(n)
    o = cached_entry(h, e)
    cx.inline.add("UnitarySequenceEntry.get_full_unitary")
    before = {k: cx.freeze(h.field(o, k)) for k in ("unitary", "apply_to")}
    r = h.call(o, "get_full_unitary", D)
    cx.inline.discard("UnitarySequenceEntry.get_full_unitary")
    s = h.run(lambda: h.spec.contracts["UnitarySequenceEntry.get_full_unitary"](it, {"self": e, "system_dimension": D}))
    if r.kind == "raise":
        h.req("accepts every system that contains the qubits", s.kind == "raise")
        return
    h.req("refuses a system that does not contain the qubits", s.kind == "ok")
    if s.kind != "ok":
        return
    h.cover("accepted")

    def good(what, v):
        h.req(f"{what}: the operation on its qubits in listed order", lambda: h.up_to_phase(h.umat(v), h.umat(s.value)))
        for role in ("operation_name", "parameter_dict", "is_inverse"):
            h.req(f"{what}: carries {role}", lambda role=role: h.same(h.role(v, role), h.role(s.value, role)))
        h.req(f"{what}: carries the qubit list", lambda: h.same(LVal(L.content_of(it, h.role(v, "apply_to"))), LVal(L.content_of(it, h.role(s.value, "apply_to")))))
    good("result", r.value)
    for note in cx.notes:
        if note[0] == "cache":
            h.req("remembered under its own dimension", lambda note=note: zbool(L.compare_nums(it, "==", note[1], D)))
            good("remembered", note[2])
    h.req("the entry is unchanged", lambda: all(h.same(cx.freeze(h.field(o, k)), v) for k, v in before.items()))


@unit("Entry.permute_matrix", "UnitarySequenceEntry.get_permute_matrix", ["C06"])
def _(h):
    r = arrays.permute_matrix(h.world, h.rec, h.cover)
    h.cx.stats.checks += r["calls"]
    h.cx.stats.solver_s += r["solver_s"]
