"""Contracts of UnitarySequence: an abstract sequence is its dimension, its list of entries and what undo would restore."""
import z3

from . import lib as L, lib2, mat as M
from .alg import X
from .contracts import known, need, qubit_facts, refuse
from .engine import FrameWrite, PyRaise, Unsupported
from .values import *


def install(spec):
    c = {"__init__": init, "combine": combine, "get_dimension": lambda it, b: dim(it, b["self"]), "get_length": lambda it, b: it.cx.length(entries(it, b["self"])),
         "get_sequence_entries": lambda it, b: L.deepcopy(it, LVal(tuple(it.cx.freeze(x) for x in entries(it, b["self"])))),
         "append_first": lambda it, b: append(it, b, True), "append_last": lambda it, b: append(it, b, False),
         "remove_first": lambda it, b: remove(it, b, True), "remove_last": lambda it, b: remove(it, b, False),
         "undo": undo, "product": product, "inverse": inverse,
         "get_qasm": lambda it, b: text(it, b, "get_qasm", "# QASM generated from UnitarySequence.get_qasm()\n"),
         "get_jaqal": lambda it, b: text(it, b, "get_jaqal", "// JAQAL generated from UnitarySequence.get_jaqal()\n"),
         "get_display_output": lambda it, b: text(it, b, "get_display_name", "# Generated from UnitarySequence.get_display_output()\n")}
    spec.contracts.update({"UnitarySequence." + k: f for k, f in c.items()})


# ---------------------------------------------------------------- the abstract state
def dim(it, s):
    if isinstance(s, Ent):
        from .spec import Sdim
        return Sdim(s.term)
    return fields(it, s)["%dim"]


def fields(it, s):
    c = it.cx.get(s) if isinstance(s, Ref) else s
    if not isinstance(c, (ObjC, OVal)) or "%entries" not in c.fields:
        raise Unsupported("sequence in an unknown state")
    return c.fields


def entries(it, s):
    if isinstance(s, Ent):
        from .spec import Se, Sn, tab
        ec = it.world.spec.cls("UnitarySequenceEntry")
        return (tab(Sn(s.term), lambda i: Ent(Se(s.term, i), ec, s.tag)),)
    return it.cx.norm_content(L.content_of(it, fields(it, s)["%entries"]))


def make(it, cls, d, content):
    cx = it.cx
    return cx.new(ObjC(cls, {"%dim": d, "%entries": L.mk_list(it, content), "%undo": None}, "new"))


def is_entry(it, e):
    b = L.isinst(it, e, it.world.spec.cls("UnitarySequenceEntry"))
    if not isinstance(b, bool):
        raise Unsupported("class of an entry")
    return b


def fits(it, e, D):
    """The qubits and the operation of an entry fit in a system of dimension D."""
    sp = it.world.spec
    f = sp.fields_of(it, e)
    _, k, mx = qubit_facts(it, f["apply_to"])
    return L.and_(L.compare_nums(it, "<=", sp.unitary_mat(it, f["unitary"]).rows, D),
                  L.compare_nums(it, "<=", L.arith(it, "**", 2, L.arith(it, "+", mx, 1)), D))


def all_fit(it, content, D):
    def one(e):
        return is_entry(it, e) and fits(it, e, D)
    return L.all_content(it, it.cx.norm_content(L.map_content(it, content, one)))


def embedded(it, e, D):
    """The matrix of an entry on a system of dimension D."""
    cx, sp = it.cx, it.world.spec
    f = sp.fields_of(it, e)
    content = cx.norm_content(L.content_of(it, f["apply_to"]))
    m = sp.unitary_mat(it, f["unitary"])
    return M.Mat(D, D, [(X.of(1), (), M.simplify((M.FEmb(m, tuple(cx.freeze(c) for c in content), D),)))], True)


def seq_product(it, content, D):
    """The product of the entries, the first entry rightmost."""
    cx = it.cx
    r = M.Mat.identity(D)
    for c in L.map_content(it, cx.norm_content(content), lambda e: embedded(it, e, D)):
        if isinstance(c, El):
            m = c.v
        elif isinstance(c, Sl):
            m = M.Mat(D, D, [(X.of(1), (), M.simplify((M.FProd(c, D),)))], True)
        else:
            raise Unsupported("product of a shuffled list")
        r = m.times(r)
    return M.Mat(D, D, [(s, d, tuple(cx.reduce_word(list(w)))) for s, d, w in r.terms], True)


def writable(it, s):
    if not isinstance(s, Ref):
        raise FrameWrite("change of a sequence that belongs to the caller")
    c = it.cx.get(s)
    if c.tag != "new" and not str(c.tag).startswith("own"):
        raise FrameWrite("change of a sequence that belongs to the caller")
    return c


def put(it, s, **kw):
    c = it.cx.get(s)
    f = dict(c.fields)
    for k, v in kw.items():
        f["%" + k] = v
    it.cx.put(s, ObjC(c.cls, f, c.tag))


# ---------------------------------------------------------------- contracts
def init(it, b):
    cx = it.cx
    d, e = known(b["dimension"]), known(b.get("sequence_entries", ()))
    if not (is_int(d) or is_real(d)):
        raise Unsupported("dimension is not a number")
    if not (L.is_seq(it, e) and L.kind_of(it, e) in ("list", "arr")):
        refuse("entries")
    content = cx.norm_content(L.content_of(it, e))
    need(it, all_fit(it, content, d), "entry does not fit")
    return make(it, it.world.spec.cls("UnitarySequence"), d, cx.get(L.deepcopy(it, LVal(tuple(cx.freeze(x) for x in content)))).content)


def combine(it, b):
    cx, sp = it.cx, it.world.spec
    content = cx.norm_content(L.content_of(it, b["sequences"]))
    cls = sp.cls("UnitarySequence")
    need(it, L.compare_nums(it, ">", cx.length(content), 0), "no sequence")

    def is_sequence(s):
        r = L.isinst(it, s, cls)
        if not isinstance(r, bool):
            raise Unsupported("class of a sequence")
        return r
    need(it, L.all_content(it, L.map_content(it, content, is_sequence)))
    first, _ = L.take_first(it, content)
    d = dim(it, first)
    need(it, L.all_content(it, L.map_content(it, content, lambda s: L.compare_nums(it, "==", dim(it, s), d))))
    out = ()
    tag = ("copy", cx.n("copy"))
    for c in content:
        if isinstance(c, El):
            out += tuple(cx.get(L.deepcopy(it, LVal(tuple(cx.freeze(x) for x in entries(it, c.v))))).content)
        elif isinstance(c, Sl) and not c.flat and c.cond is None:
            k = cx.fresh_index()
            v = cx.generic(c, k, lambda s: LVal(tuple(cx.freeze(x) for x in entries(it, s))))
            out += (Sl(Tab(k, map_tags(v, lambda _: tag), [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]), c.lo, c.hi, c.rev, None, True),)
        else:
            raise Unsupported("combination of this list of sequences")
    return make(it, cls, d, out)


def append(it, b, first):
    cx = it.cx
    s, e = b["self"], b["sequence_entry"]
    c = writable(it, s)
    d = dim(it, s)
    if not is_entry(it, e):
        refuse("not an entry")
    need(it, fits(it, e, d), "entry does not fit")
    remember(it, s, b["save_undo"])
    lst = c.fields["%entries"]
    old = cx.get(lst).content
    cx.put(lst, ListC((El(e),) + old if first else old + (El(e),), "list"))


def remember(it, s, save):
    if save is not False and it.truth(save):
        put(it, s, undo=LVal(tuple(it.cx.freeze(x) for x in entries(it, s)), "list", "undo"))


def remove(it, b, first):
    cx = it.cx
    s = b["self"]
    c = writable(it, s)
    n = cx.length(entries(it, s))
    t = L.compare_nums(it, ">", n, 0)
    if t is False or (t is not True and not cx.decide(t)):
        lib2.refresh_traces(it)
        return
    remember(it, s, b["save_undo"])
    L.list_pop(it, c.fields["%entries"], 0 if first else -1)


def undo(it, b):
    s = b["self"]
    c = writable(it, s)
    u = c.fields["%undo"]
    if u is None:
        refuse("can't undo")
    if isinstance(u, Undef):
        raise Unsupported(f"what undo restores: {u.why}")
    it.cx.put(c.fields["%entries"], ListC(u.content, "list"))
    put(it, s, undo=None)


def product(it, b):
    d = dim(it, b["self"])
    if it.cx.multiplied is not None:
        it.cx.multiplied.append(LVal(tuple(it.cx.freeze(x) for x in entries(it, b["self"]))))
    return it.world.spec.unitary_with(it, seq_product(it, entries(it, b["self"]), d), Undef("name of a product"))


def inverse(it, b):
    cx, sp = it.cx, it.world.spec
    s = b["self"]
    d = dim(it, s)
    content = L.map_content(it, L.rev_content(it, entries(it, s)), lambda e: inverse_entry(it, e))
    return make(it, sp.cls("UnitarySequence"), d, content)


def inverse_entry(it, e):
    cx, sp = it.cx, it.world.spec
    f = sp.fields_of(it, e)
    u = it.call(it.getattr(f["unitary"], "inverse"), [], {})
    r = it.instantiate(sp.cls("UnitarySequenceEntry"), [u, L.mk_list(it, L.content_of(it, f["apply_to"]))], {})
    return cx.freeze(r)


def text(it, b, method, header):
    s = b["self"]
    d = dim(it, s)

    def line(e):
        u = it.world.spec.contracts["UnitarySequenceEntry.get_full_unitary"](it, {"self": e, "system_dimension": d})
        return it.call(it.getattr(u, method), [], {})
    return L.mk_str([header, L.join(it, "\n", L.map_content(it, entries(it, s), line))])
