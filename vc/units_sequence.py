"""Units for UnitarySequence: the class refines the abstract sequence of sequences.py. Every method is run from an arbitrary
constructed sequence and from an arbitrary state of the fields, and compared with its contract."""
from .sequences import *
from .spec import *
from .units import *
from .units import H  # noqa: F401

FIELDS = ("dimension", "sequence_entries", "sequence_product", "previous_entries", "previous_sequence_product")


class Pair:
    """The code's object and the abstract sequence it stands for."""

    def __init__(self, h, obj, spec, definite):
        self.h, self.obj, self.spec, self.definite = h, obj, spec, definite

    def run(self, method, *args, **kw):
        h = self.h
        r = h.call(self.obj, method, *args, **kw)
        f = h.world.member(h.spec.cls("UnitarySequence"), method)
        b = h.it.bind_args(f, [self.spec] + list(args), kw)
        s = h.run(lambda: h.spec.contracts["UnitarySequence." + method](h.it, b))
        return r, s


def concrete(h):
    h.cx.concrete_sequences = True


def arbitrary_entries(h, name, n, tag="arg"):
    s = h.const(name, U)
    ec = h.spec.cls("UnitarySequenceEntry")
    return (tab(n, lambda i: Ent(Se(s, i), ec, tag)),), s


def constructed(h, name="s"):
    """A sequence made by the constructor from arbitrary entries that fit."""
    cx = h.cx
    D = cx.pow2(h.int("n", 0))
    s = h.const(name, U)
    cx.assume(Sdim(s) == D)
    content, _ = arbitrary_entries(h, name, Sn(s))
    concrete(h)
    r = h.new("UnitarySequence", D, LVal(content, "list", "arg"))
    h.req("accepts entries that fit", r.kind == "ok")
    if r.kind != "ok":
        raise Infeasible()
    spec = make(h.it, h.spec.cls("UnitarySequence"), D, content)
    return Pair(h, r.value, spec, True), D


def arbitrary(h):
    """Any state of the fields in which the cached products are right."""
    cx, it = h.cx, h.it
    p, D = constructed(h)
    o = cx.get(p.obj)
    if any(f not in o.fields for f in FIELDS):
        raise Unsupported("fields of UnitarySequence are not the ones the invariant is about")
    f = {k: (v if k in FIELDS else Undef("field outside the invariant")) for k, v in o.fields.items()}
    s, u = h.const("s", U), h.const("saved", U)
    cx.assume(Sdim(u) == D)
    mine, _ = arbitrary_entries(h, "s", Sn(s), "self")
    saved, _ = arbitrary_entries(h, "saved", Sn(u), "saved")
    f["sequence_entries"] = L.mk_list(it, mine)
    cached = h.choose("product known", 2)
    f["sequence_product"] = product_of(h, mine, D) if cached else None
    undo = h.choose("undo state", 3 if cached else 2)
    f["previous_entries"] = L.mk_list(it, saved) if undo else None
    f["previous_sequence_product"] = product_of(h, saved, D) if undo == 2 else None
    cx.put(p.obj, ObjC(o.cls, f, "new"))
    spec = make(it, o.cls, D, mine)
    if undo:
        put(it, spec, undo=LVal(saved, "list", "saved"))
    return Pair(h, p.obj, spec, False), D


def product_of(h, content, D):
    return h.spec.unitary_with(h.it, seq_product(h.it, content, D))


def entry_list(h, content):
    return LVal(tuple(h.cx.freeze(x) for x in content))


def check_state(h, p, what=""):
    """The fields describe the abstract sequence and the cached products are right."""
    cx, it = h.cx, h.it
    f = cx.get(p.obj).fields
    D = dim(it, p.spec)

    def clause(name, fn):
        h.req(f"{what}{name}", fn, definite=p.definite)
    clause("entries", lambda: h.same(entry_list(h, L.content_of(it, f["sequence_entries"])), entry_list(h, entries(it, p.spec))))
    clause("dimension", lambda: h.same(f["dimension"], D))
    if f["sequence_product"] is not None:
        clause("product", lambda: h.up_to_phase(h.umat(f["sequence_product"]), seq_product(it, entries(it, p.spec), D)))
    undo = cx.get(p.spec).fields["%undo"]
    clause("what can be undone", lambda: (f["previous_entries"] is None) == (undo is None))
    if undo is None:
        clause("no product without entries to restore", f["previous_sequence_product"] is None)
        return
    if f["previous_entries"] is not None:
        clause("entries to restore", lambda: h.same(entry_list(h, L.content_of(it, f["previous_entries"])), entry_list(h, undo.content)))
    pp = f["previous_sequence_product"]
    if pp is not None:
        clause("product to restore", lambda: h.up_to_phase(h.umat(pp), seq_product(it, undo.content, D)))
        clause("no saved product while the product is unknown", f["sequence_product"] is not None)
    shared = set(cells(h, f["sequence_entries"])) & set(cells(h, f["previous_entries"]))
    clause("saved state is separate", not shared)


def cells(h, v):
    """Identities of the mutable cells reachable from a value."""
    return [t for t in tags_of(h.cx.freeze(v)) if t not in ("arg", "default", "module", "new") and not (isinstance(t, tuple) and t[0] == "copy")]


def entry_cells(h, o):
    """Cells reachable from a sequence other than through a product it remembers (unitaries are immutable values)."""
    f = h.cx.freeze(o).fields
    return [t for k, v in f.items() if "product" not in k for t in cells(h, v)]


def check_views(h, p, what=""):
    """What a caller can see of the sequence."""
    h.req(f"{what}entries", lambda: h.same(entry_list(h, L.content_of(h.it, h.call(p.obj, "get_sequence_entries").value)), entry_list(h, entries(h.it, p.spec))))
    h.req(f"{what}length", lambda: h.same(h.call(p.obj, "get_length").value, h.cx.length(entries(h.it, p.spec))))
    h.req(f"{what}product", lambda: h.up_to_phase(h.umat(h.call(p.obj, "product").value), seq_product(h.it, entries(h.it, p.spec), dim(h.it, p.spec))))


CHANGES = ("append_first", "append_last", "remove_first", "remove_last", "undo")


def change(h, p, m, tag=""):
    """One change, applied to both. -> did it take place"""
    kw, args = {}, []
    if m != "undo":
        c = h.choose(f"save{tag}", 3)
        if c:
            kw["save_undo"] = c == 2
    if m.startswith("append"):
        args = [h.ent("UnitarySequenceEntry", "e" + tag)]
    r, s = p.run(m, *args, **kw)
    if s.kind == "raise":
        h.req("refuses what does not fit" if m != "undo" else "refuses when there is nothing to undo", r.kind == "raise", definite=p.definite)
    else:
        h.req("takes place", r.kind == "ok", definite=p.definite)
    if r.kind != s.kind:
        raise Infeasible()
    return r.kind == "ok"


for _m in CHANGES:
    @unit(f"Seq.{_m}", f"UnitarySequence.{_m}", ["C07", "C08"] + (["C10"] if _m.startswith("append") else []))
    def _(h, m=_m):
        p, D = arbitrary(h)
        took = change(h, p, m)
        h.cover(m)
        check_state(h, p, "" if took else "refused: ")


@unit("Seq.history", "UnitarySequence", ["C07", "C08", "C10"])
def _(h):
    p, D = constructed(h)
    check = h.choose("query first", 2)
    if check:
        check_views(h, p, "new: ")
    m1 = CHANGES[h.choose("first change", 4)]
    kw = {}
    args = [h.ent("UnitarySequenceEntry", "e")] if m1.startswith("append") else []
    if m1.startswith("append") and h.choose("something to undo", 2):
        first = ("append_last", h.ent("UnitarySequenceEntry", "e0")) if m1 == "append_first" else ("remove_first",)
        r, s = p.run(*first)
        if r.kind != "ok" or s.kind != "ok":
            return
    r, s = p.run(m1, *args)
    h.req(f"{m1}: same outcome", r.kind == s.kind)
    if r.kind != s.kind:
        return
    if r.kind == "raise":
        m1 += " refused"
    check_views(h, p, f"{m1}: ")
    if h.choose("undo", 2):
        r, s = p.run("undo")
        h.req(f"{m1}, undo: same outcome", r.kind == s.kind)
        if r.kind == s.kind:
            check_views(h, p, f"{m1}, undo: ")
            r, s = p.run("undo")
            h.req(f"{m1}, undo, undo: same outcome", r.kind == s.kind)


for _m in CHANGES[:4]:
    @unit(f"Seq.two changes.{_m}", "UnitarySequence", ["C07", "C08"])
    def _(h, m1=_m):
        """Two changes in a row, the product known or not before and between them, then undone."""
        p, D = constructed(h)
        ask = h.choose("product asked for", 3)
        if ask == 1:
            p.run("product")
        args = [h.ent("UnitarySequenceEntry", "e0")] if m1.startswith("append") else []
        r, s = p.run(m1, *args)
        if r.kind != "ok" or s.kind != "ok":
            return
        if ask == 2:
            p.run("product")
        m2 = CHANGES[h.choose("second change", 4)]
        kw = {"save_undo": False} if h.choose("second unsaved", 2) else {}
        args = [h.ent("UnitarySequenceEntry", "e")] if m2.startswith("append") else []
        r, s = p.run(m2, *args, **kw)
        if r.kind != s.kind or r.kind != "ok":
            return
        check_views(h, p, f"{m2}: ")
        r, s = p.run("undo")
        h.req("undo: same outcome", r.kind == s.kind)
        if r.kind == s.kind:
            check_views(h, p, "undo: ")


@unit("Seq.product", "UnitarySequence.product", ["C07"])
def _(h):
    p, D = arbitrary(h)
    r, s = p.run("product")
    h.req("does not fail", r.kind == "ok", definite=False)
    h.req("the product of the entries, first rightmost", lambda: h.up_to_phase(h.umat(r.value), h.umat(s.value)), definite=False)
    check_state(h, p)


@unit("Seq.observers", "UnitarySequence.get_length", ["C07", "C09", "C19"])
def _(h):
    p, D = constructed(h) if h.choose("state", 2) else arbitrary(h)
    before = {k: h.cx.freeze(v) for k, v in h.cx.get(p.obj).fields.items()}
    which = ("get_length", "get_dimension", "get_sequence_entries", "get_qasm", "get_jaqal", "get_display_output")[h.choose("which", 6)]
    r, s = p.run(which)
    h.req(f"{which}: does not fail", r.kind == "ok", definite=p.definite)
    h.cover(which)
    h.req(f"{which}: answer", lambda: h.same(strip(h, r.value), strip(h, s.value)), definite=p.definite)
    if not p.definite:
        h.req(f"{which}: changes nothing", lambda: all(same_or_undef(h, h.cx.get(p.obj).fields[k], v) for k, v in before.items()), definite=False)
    if which == "get_sequence_entries":
        h.req(f"{which}: the list handed out is independent", not set(cells(h, r.value)) & set(cells(h, p.obj)) and not {"self", "saved"} & set(tags_of(h.cx.freeze(r.value))), definite=p.definite)
    if p.definite:
        check_views(h, p, "afterwards: ")
    else:
        check_state(h, p)


def strip(h, v):
    return v


def same_or_undef(h, v, w):
    v = h.cx.freeze(v)
    if isinstance(v, Undef) or isinstance(w, Undef):
        return isinstance(v, Undef) and isinstance(w, Undef)
    if isinstance(v, OVal) and isinstance(w, OVal):
        return v.cls.qual == w.cls.qual and all(same_or_undef(h, v.fields[k], w.fields[k]) for k in w.fields)
    return h.same(v, w)


def view(h, e):
    """What an entry is: operation matrix up to phase, name, parameters, marker, qubits."""
    f = h.spec.fields_of(h.it, e)
    u = f["unitary"]
    m = h.umat(u)
    return (M.Mat(m.rows, m.cols, m.terms, True), h.role(u, "operation_name"), h.cx.freeze(h.role(u, "parameter_dict")), h.role(u, "is_inverse"),
            LVal(tuple(h.cx.freeze(x) for x in h.cx.norm_content(L.content_of(h.it, f["apply_to"])))))


def inverse_view(h, e):
    """The view of the inverse of an entry."""
    m, name, params, inv, q = view(h, e)
    d = m.dagger()
    return (M.Mat(d.rows, d.cols, d.terms, True), name, params, L.not_(inv), q)


def views(h, content, fn=view):
    return LVal(L.map_content(h.it, h.cx.norm_content(content), lambda e: fn(h, e)))


@unit("Seq.inverse", "UnitarySequence.inverse", ["C07", "C09"])
def _(h):
    cx, it = h.cx, h.it
    if h.choose("state", 2):
        p, D = arbitrary(h)
    else:
        p, D = constructed(h)
    before = {k: cx.freeze(v) for k, v in cx.get(p.obj).fields.items()}
    r = h.call(p.obj, "inverse")
    h.req("does not fail", r.kind == "ok", definite=p.definite)
    if r.kind != "ok":
        return
    q = r.value
    old = entries(it, p.spec)
    h.req("dimension", lambda: h.same(h.call(q, "get_dimension").value, D), definite=p.definite)
    new = L.content_of(it, h.call(q, "get_sequence_entries").value)
    h.req("every entry inverted, in reverse order, on the same qubits", lambda: h.same(views(h, new), views(h, L.rev_content(it, old), inverse_view)), definite=p.definite)
    pm = lambda: seq_product(it, old, D)
    h.req("product is the inverse of the product", lambda: h.up_to_phase(h.umat(h.call(q, "product").value), pm().dagger()), definite=p.definite)
    h.req("nothing to undo", lambda: h.call(q, "undo").kind == "raise", definite=p.definite)
    h.req("shares nothing with its source", not set(entry_cells(h, q)) & set(entry_cells(h, p.obj)) and not {"self", "saved", "arg"} & set(tags_of(cx.freeze(L.mk_list(it, new)))), definite=p.definite)
    after = {k: cx.freeze(v) for k, v in cx.get(p.obj).fields.items()}
    if p.definite:
        check_views(h, p, "source: ")
    else:
        check_state(h, p, "source: ")


@unit("Seq.inverse_product", "UnitarySequence.inverse", ["C09"])
def _(h):
    """The product of the inverse, computed from its entries, times the product of the sequence is the identity."""
    cx, it = h.cx, h.it
    p, D = constructed(h)
    q = h.call(p.obj, "inverse").value
    r = h.static("UnitarySequence", "combine", p.obj, q)
    h.req("combination accepted", r.kind == "ok")
    if r.kind == "ok":
        h.req("sequence followed by its inverse is the identity", lambda: h.up_to_phase(h.umat(h.call(r.value, "product").value), M.Mat.identity(D)))


@unit("Seq.combine", "UnitarySequence.combine", ["C07", "C09", "C10"])
def _(h):
    cx, it = h.cx, h.it
    sc = h.spec.cls("UnitarySequence")
    k = h.int("k", 0)
    S = fn("a.seqs", I, U)
    seqs = (tab(k, lambda i: Ent(S(i), sc, "arg")),)
    concrete(h)
    d0 = Sdim(S(0))
    i = cx.fresh_index()
    nn = h.int("n", 0)
    cx.assume(z3.Implies(k > 0, d0 == cx.pow2(nn)))
    same_dim = zbool(cx.qatom(i, 0, k, Sdim(S(i)) == d0))
    r = h.run(lambda: it.call(it.getattr(sc, "combine"), [], {"*": seqs}))
    if r.kind == "raise":
        h.req("accepts one or more sequences of one dimension", z3.Not(z3.And(k >= 1, same_dim)))
        return
    h.req("refuses none, or different dimensions", z3.And(k >= 1, same_dim))
    h.cover("accepted")
    cx.concrete_sequences = False
    s = h.run(lambda: h.spec.contracts["UnitarySequence.combine"](it, {"sequences": LVal(seqs, "tuple", "arg")}))
    h.req("contract applies", s.kind == "ok")
    q = r.value
    new = L.content_of(it, h.call(q, "get_sequence_entries").value)
    h.req("exactly their entries in order", lambda: h.same(entry_list(h, new), entry_list(h, entries(it, s.value))))
    h.req("dimension", lambda: h.same(h.call(q, "get_dimension").value, dim(it, s.value)))
    h.req("later products times earlier ones", lambda: h.up_to_phase(h.umat(h.call(q, "product").value), seq_product(it, entries(it, s.value), dim(it, s.value))))
    h.req("shares nothing with its sources", "arg" not in tags_of(cx.freeze(h.field(q, "sequence_entries"))), definite=False)
    h.req("nothing to undo", lambda: h.call(q, "undo").kind == "raise")


@unit("Seq.init", "UnitarySequence.__init__", ["C09", "C10"])
def _(h):
    cx, it = h.cx, h.it
    n, k = h.int("n", 0), h.int("k", 0)
    D = cx.pow2(n)
    what = h.choose("entries", 4)
    concrete(h)
    if what == 0:
        r = h.new("UnitarySequence", D)
        h.req("without entries: accepted", r.kind == "ok")
        h.req("without entries: empty", lambda: h.same(h.call(r.value, "get_length").value, 0))
        h.req("without entries: identity", lambda: h.up_to_phase(h.umat(h.call(r.value, "product").value), M.Mat.identity(D)))
        e = h.ent("UnitarySequenceEntry", "e")
        h.call(r.value, "append_last", e)
        r2 = h.new("UnitarySequence", D)
        h.req("without entries: each starts empty", lambda: h.same(h.call(r2.value, "get_length").value, 0))
        return
    if what == 1:
        bad = [None, 0, h.ent("Unitary", "u")][h.choose("not a list", 3)]
        r = h.new("UnitarySequence", D, bad)
        h.req("refuses what is not a list", r.kind == "raise")
        return
    if what == 2:
        e = h.ent("UnitarySequenceEntry", "e")
        bad = [None, h.ent("Unitary", "u")][h.choose("not an entry", 2)]
        lst = (El(e), El(bad)) if h.choose("place", 2) else (El(bad),)
        r = h.new("UnitarySequence", D, LVal(lst, "list", "arg"))
        h.req("refuses what is not an entry", r.kind == "raise")
        return
    E_ = fn("a.entries", I, U)
    ec = h.spec.cls("UnitarySequenceEntry")
    content = (tab(k, lambda i: Ent(E_(i), ec, "arg")),)
    kind = ("list", "arr")[h.choose("given as", 2)]
    r = h.new("UnitarySequence", D, LVal(content, kind, "arg"))
    good = zbool(all_fit(it, content, D))
    if r.kind == "raise":
        h.req("accepts every list of entries whose qubits lie inside", z3.Not(good))
        return
    h.req("refuses an entry outside the system", good)
    h.cover("accepted")
    h.req("entries in order", lambda: h.same(entry_list(h, L.content_of(it, h.call(r.value, "get_sequence_entries").value)), entry_list(h, content)))
    h.req("keeps its own entries", "arg" not in tags_of(cx.freeze(r.value)))
    h.req("nothing to undo", lambda: h.call(r.value, "undo").kind == "raise")

