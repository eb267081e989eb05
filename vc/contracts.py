"""Contracts used at call sites (and as the specification against which the callee's own body is verified)."""
from fractions import Fraction

import z3

from . import alg, lib as L, mat as M
from .alg import X
from .engine import FrameWrite, Infeasible, PyRaise, Unsupported, pow2 as POW2
from .values import *


def install(spec):
    spec.contracts.update({
        "Unitary.__init__": unitary_init,
        "UnitarySequenceEntry.__init__": entry_init,
        "Compiler.create_random_sequence_entry": random_entry,
        "Compiler.create_random_layer": random_layer,
        "Compiler.__init__": compiler_init,
        "Compiler.compile": compile_plain,
        "Compiler.compile_layered": compile_layered,
        "UnitarySequenceEntry.get_permute_matrix": permute_matrix,
        "UnitarySequenceEntry.get_full_unitary": full_unitary,
    })


def refuse(why=""):
    raise PyRaise("AssertionError", why)


def need(it, b, why=""):
    """Continue where b holds, refuse where it does not."""
    if b is True:
        return
    if b is False or not it.cx.decide(b):
        refuse(why)


def known(v):
    if isinstance(v, Undef):
        raise Unsupported(f"value not specified: {v.why}")
    return v


# ---------------------------------------------------------------- Unitary
def unitary_init(it, b):
    cx, sp = it.cx, it.world.spec
    d, m = known(b["dimension"]), known(b.get("matrix"))
    name, params, inv, at = b.get("operation_name"), b.get("parameter_dict"), b.get("is_inverse", False), b.get("apply_to")
    if not is_int(d) and not is_real(d):
        raise Unsupported("dimension is not a number")
    need(it, L.compare_nums(it, ">", d, 0), "dimension")
    if m is None:
        mat = M.Mat.identity(d)
    else:
        if not L.is_mat(it, m):
            refuse("matrix")
        mat = sp.settled(it, L.mat_of(it, m))
    if name is None:
        name = "U"
    if not isinstance(name, (str, Str, Undef)):
        refuse("name")
    if params is None:
        params = cx.new(DictC(()))
    elif not L.is_dict(it, params) and not isinstance(params, Undef):
        refuse("parameters")
    if not is_bool(inv) and not isinstance(inv, Undef):
        refuse("is_inverse")
    if not (L.is_seq(it, at) and L.kind_of(it, at) == "list") and not isinstance(at, Undef):
        refuse("apply_to")
    need(it, L.and_(L.compare_nums(it, "==", mat.rows, d), L.compare_nums(it, "==", mat.cols, d)), "shape")
    r = accept_unitary(it, mat)
    return sp.make_unitary(it, M.Mat(d, d, r.terms, True), name, params, inv, at)


def accept_unitary(it, m):
    """The matrix, known to be unitary, or a refusal."""
    cx, sp = it.cx, it.world.spec
    m = M.Mat(m.rows, m.cols, [(s, d, tuple(cx.reduce_word(list(w)))) for s, d, w in m.terms], m.phase)
    if "unitary" in m.props():
        return m.strip()
    ex = sp.explicit(m)
    if ex is not None:
        if "unitary" in ex.props:
            return M.Mat.of(ex, True)
        p = ex.times(ex.flip(True, True)[0])
        ident = M.FExpl(ex.n, ex.n, [X.of(int(i == j)) for i in range(ex.n) for j in range(ex.n)])
        need(it, sp.expl_close(it, p, ident, Fraction(1, 10 ** 5), Fraction(1, 10 ** 8)), "not unitary")
        raise Unsupported("an explicit matrix that is unitary only within tolerance")
    if not m.single() or m.terms[0][1]:
        # a sum or a matrix scaled by an unknown factor: accepted or refused, nothing more is known of it
        need(it, sp.predicate(it, "unitary", m), "not unitary")
        return M.Mat(m.rows, m.cols, m.terms, True)
    s, d, w = m.terms[0]
    need(it, sp.is_unitary(it, (low_real(s * s.conj()), tuple(w))), "not unitary")
    return sp.settled(it, m).strip()


def low_real(x):
    return x


# ---------------------------------------------------------------- entries
def entry_init(it, b):
    """Contract of UnitarySequenceEntry(): distinct, non-negative qubits, at least one and as many as the operation acts on."""
    cx, sp = it.cx, it.world.spec
    u, at = b["unitary"], b["apply_to"]
    cls = sp.cls("UnitarySequenceEntry")
    fu = cx.get(u) if isinstance(u, Ref) else u
    if not isinstance(fu, (Ent, OVal, ObjC)) or fu.cls.name != "Unitary" or not L.is_seq(it, at):
        return NotImplemented
    content = cx.norm_content(L.content_of(it, at))
    plain = []
    L.map_content(it, content, lambda q: plain.append(is_int(q) and not isinstance(q, NpInt)))
    layout = sp.entry_layout(it)
    if not all(plain) or layout is None:
        return NotImplemented
    k = cx.length(content)
    good = L.and_(L.compare_nums(it, ">=", k, 1), L.compare_nums(it, "==", sp.unitary_mat(it, u).rows, L.arith(it, "**", 2, k)))
    need(it, L.and_(L.and_(good, L.all_content(it, L.map_content(it, content, lambda q: L.compare_nums(it, ">=", q, 0)))), L.distinct(it, content)), "entry")
    f = {}
    for name, (kind, v) in layout.items():
        f[name] = u if kind == "unitary" else L.mk_list(it, content) if kind == "qubits" else L.deepcopy(it, v)
    return cx.new(ObjC(cls, f, "new"))


def entry_parts(it, e):
    sp = it.world.spec
    f = sp.fields_of(it, e)
    return f["unitary"], f["apply_to"]


def qubit_facts(it, apply_to):
    cx = it.cx
    content = cx.norm_content(L.content_of(it, apply_to))
    k = cx.length(content)
    mx = L.minmax(it, "max", [L.mk_list(it, content)], {})
    return content, k, mx


def permute_matrix(it, b):
    """Contract of get_permute_matrix: the permutation that takes the first tensor factors to the listed qubits."""
    cx = it.cx
    e, D = b["self"], b["system_dimension"]
    u, at = entry_parts(it, e)
    content, k, mx = qubit_facts(it, at)
    need(it, L.compare_nums(it, ">=", D, it.world.spec.unitary_mat(it, u).rows))
    need(it, L.compare_nums(it, ">=", D, L.arith(it, "**", 2, L.arith(it, "+", mx, 1))))
    return cx.new(ArrC(M.Mat.of(M.FPerm(tuple(cx.freeze(c) for c in content), D)), "sparse"))


def full_unitary(it, b):
    cx, sp = it.cx, it.world.spec
    e, D = b["self"], b["system_dimension"]
    u, at = entry_parts(it, e)
    content, k, mx = qubit_facts(it, at)
    m = sp.unitary_mat(it, u)
    need(it, L.compare_nums(it, ">=", D, m.rows))
    need(it, L.compare_nums(it, ">=", D, L.arith(it, "**", 2, L.arith(it, "+", mx, 1))))
    mat = M.Mat(D, D, [(X.of(1), (), M.simplify((M.FEmb(m, tuple(cx.freeze(c) for c in content), D),)))], True)
    lay = sp.unitary_layout()
    f = sp.fields_of(it, u)
    return sp.make_unitary(it, mat, f[lay["operation_name"]], f[lay["parameter_dict"]], f[lay["is_inverse"]], L.mk_list(it, content))


# ---------------------------------------------------------------- random gates
def random_entry(it, b):
    """Contract of create_random_sequence_entry: some entry, drawn as the units Random.entry.* say. Stated for primitives
    that can be applied somewhere, evaluate to unitary matrices and are restricted to qubits of the system."""
    from .spec import Eu, Udim, fits
    cx, sp = it.cx, it.world.spec
    d = b["dimension"]
    prims = LVal(tuple(cx.freeze(x) for x in cx.norm_content(L.content_of(it, b["unitary_primitives"]))), "list")
    p = b.get("probabilities")
    probs = None if p is None else LVal(tuple(cx.freeze(x) for x in cx.norm_content(L.content_of(it, p))), "list")
    nonempty = L.nonempty(it, prims.content)
    if nonempty is False or (nonempty is not True and not cx.decide(nonempty)):
        raise PyRaise("ValueError", "no primitive")
    e = cx.fresh("entry", U)
    cx.law(e, z3.And(fits(cx, e, zint(d)), Udim(Eu(e)) <= zint(d)))
    cx.register(e)
    r = Ent(e, sp.cls("UnitarySequenceEntry"), "new")
    cx.draws.append(("entry", (d, prims, probs), r))
    return r


def random_layer(it, b):
    """Contract of create_random_layer: as many gates as the counts say, drawn as the units Random.layer and Random.entry.*
    say. Stated for primitives that can be applied somewhere and evaluate to unitary matrices of the system."""
    from .lib2 import sum_content
    from .spec import Eu, Udim, fits
    cx, sp = it.cx, it.world.spec
    d, counts = b["dimension"], b["unitary_primitive_counts"]
    if not L.is_dict(it, counts):
        raise Unsupported("counts of a layer")
    counts = cx.freeze(counts)
    n = layer_length(it, counts)
    k = cx.fresh_index()
    cx.loops.append(k)
    e = cx.fresh("gate", U)
    cx.loops.pop()
    cx.law(e, z3.Implies(z3.And(k >= 0, k < zint(n)), z3.And(fits(cx, e, zint(d)), Udim(Eu(e)) <= zint(d))))
    r = Sl(Tab(k, Ent(e, sp.cls("UnitarySequenceEntry"), "new")), 0, n)
    cx.draws.append(("layer", (d, counts), LVal((r,), "list")))
    return cx.new(ListC((r,), "list"))


def layer_length(it, counts):
    from .lib2 import sum_content
    return sum_content(it, L.map_content(it, counts.content, lambda kv: kv[1]), 0)


# ---------------------------------------------------------------- compilation
def frozen_list(it, v):
    return LVal(tuple(it.cx.freeze(x) for x in it.cx.norm_content(L.content_of(it, v))), "list")


def compiler_init(it, b):
    """Contract of Compiler(): a compiler is what it was given; only primitives no larger than the system."""
    cx, sp = it.cx, it.world.spec
    d, prims, probs = known(b["dimension"]), known(b["unitary_primitives"]), b["unitary_primitive_probabilities"]
    need(it, L.compare_nums(it, ">", d, 0), "dimension")
    if not (L.is_seq(it, prims) and L.kind_of(it, prims) in ("list", "arr")):
        refuse("primitives")
    content = cx.norm_content(L.content_of(it, prims))
    cls = sp.cls("UnitaryPrimitive")

    def good(v):
        r = L.isinst(it, v, cls)
        if not isinstance(r, bool):
            raise Unsupported("class of a primitive")
        if not r:
            return False
        u = it.call(it.getattr(v, "get_unitary"), [], {})
        return L.compare_nums(it, "<=", it.call(it.getattr(u, "get_dimension"), [], {}), d)
    need(it, L.all_content(it, cx.norm_content(L.map_content(it, content, good))), "primitives")
    f = {"%dim": d, "%prims": frozen_list(it, prims), "%probs": None if probs is None else frozen_list(it, probs),
         "%append": b["append_probability"], "%rate": b["annealing_rate"]}
    return cx.new(ObjC(sp.cls("Compiler"), f, "new"))


def compile_plain(it, b):
    """Contract of compile, as the units Compile.uniform.* and Compile.weighted.* say it: some sequence of gates generated from
    the compiler's primitives, close to the target unless the steps are used up, and a trace that ends with its distance."""
    from .spec import Se, Sn, tab
    c = it.cx.get(b["self"]).fields
    n = L.nonempty(it, c["%prims"].content)
    need(it, n if isinstance(n, bool) else n, "no primitives")
    ec = it.world.spec.cls("UnitarySequenceEntry")
    return compiled(it, b, "compile", None, lambda s: (tab(Sn(s), lambda i: Ent(Se(s, i), ec, "new")),))


def compile_layered(it, b):
    """Contract of compile_layered, as the units Compile.layered.* say it: as compile, but made of whole layers."""
    if not L.is_dict(it, b["unitary_primitive_counts"]):
        refuse("counts")
    counts = it.cx.freeze(b["unitary_primitive_counts"])
    d = it.cx.get(b["self"]).fields["%dim"]
    return compiled(it, b, "compile layered", counts, lambda s: blocks(it, s, d, layer_length(it, counts)))


def blocks(it, s, d, n):
    """Arbitrarily many blocks of n gates each."""
    from .spec import Be, Eu, Sn, Udim, fits
    cx, ec = it.cx, it.world.spec.cls("UnitarySequenceEntry")
    i, j = cx.fresh_index(), cx.fresh_index()
    e = Be(s, i, j)
    cx.law(e, z3.Implies(z3.And(i >= 0, i < Sn(s), j >= 0, j < zint(n)), z3.And(fits(cx, e, zint(d)), Udim(Eu(e)) <= zint(d))))
    return (Sl(Tab(i, LVal((Sl(Tab(j, Ent(e, ec, "new")), 0, n),))), 0, Sn(s), False, None, True),)


class Compiled:
    """What is known of one compilation."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def compiled(it, b, kind, counts, content):
    from . import sequences as Q
    from .spec import Sdim, Udim, tab
    cx, sp = it.cx, it.world.spec
    c = cx.get(b["self"]).fields
    D = c["%dim"]
    target, threshold, limit = known(b["target_unitary"]), b["threshold"], known(b["max_step_count"])
    o = cx.get(target) if isinstance(target, Ref) else target
    if not (isinstance(o, (Ent, OVal, ObjC)) and o.cls.name == "Unitary"):
        refuse("target")
    if not cx.eqz(sp.unitary_mat(it, target).rows, D):
        raise Unsupported("target of another dimension")
    if not cx.entails(zbool(L.compare_nums(it, ">=", limit, 0))):
        raise Unsupported("a negative number of steps")
    if cx.loops:
        raise Unsupported("compilation inside a loop")
    s, m = cx.fresh("compiled", U), cx.fresh("steps", I)
    cx.ax(Sdim(s) == zint(D))
    cx.ax(z3.And(m >= 0, m <= zint(limit)))
    items = content(s)
    q = Q.make(it, sp.cls("UnitarySequence"), D, items)
    f = z3.Function(f"trace!{s}", I, R)
    trace = tab(m, lambda i: f(i))
    r = it.instantiate(sp.cls("CompilerResult"), [q, cx.new(ListC((trace,), "list")), cx.fresh("elapsed", R)], {})
    cx.draws.append((kind, (D, c["%prims"], c["%probs"], c["%append"], counts),
                     Compiled(target=target, threshold=threshold, limit=limit, content=items, trace=(trace,), steps=m, last=lambda: f(m - 1))))
    return r
