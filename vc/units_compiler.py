"""Units for the compiler: random gates and layers, one step, and the whole compilation."""
from .lib2 import sum_content
from .sequences import *
from .spec import *
from .units import *
from .units_hamiltonian import in_any_order


def ent_v(h, t):
    return Ent(t, h.spec.cls("UnitaryPrimitive"), "arg")


def primitives(h, D, name="prims"):
    """An arbitrary list of primitives whose operations fit in a system of dimension D (a power of two) and have a power of
    two, at least 2, as dimension."""
    cx = h.cx
    n, at = h.int("n_" + name, 0), fn("a." + name, I, U)
    i = cx.fresh_index()
    d = vdim(at(i))
    cx.assume(cx.qatom(i, 0, n, z3.And(d >= 2, d <= D, d == cx.pow2(cx.ilog2(d)))))
    return n, at, LVal((tab(n, lambda i: ent_v(h, at(i))),), "list", "arg")


def usable(v):
    return z3.Or(Vnone(v), Vn(v) > 0)


def random_entry(given, all_usable=None):
    def unit_(h):
        cx, it = h.cx, h.it
        N = h.int("N", 1)
        D = cx.pow2(N)
        n, at, prims = primitives(h, D)
        w = fn("a.w", I, R)
        args = [D, prims]
        if given:
            weights = (tab(n, lambda i: w(i)),)
            i = cx.fresh_index()
            cx.assume(cx.qatom(i, 0, n, w(i) >= 0))
            cx.assume(zreal(sum_content(it, weights, 0)) == 1)
            args.append(LVal(weights, "list", "arg"))
        i = cx.fresh_index()
        none = cx.qatom(i, 0, n, z3.Not(usable(at(i))))
        every = cx.qatom(i, 0, n, usable(at(i)))
        chosen = Sl(Tab(i, w(i)), 0, n, False, usable(at(i)))
        if all_usable is not None:
            cx.assume(every if all_usable else z3.Not(every))
        if given:
            cx.assume(z3.Implies(z3.Not(none), zreal(sum_content(it, (chosen,), 0)) > 0))
        cx.inline.add("Compiler.create_random_sequence_entry")
        r = h.static("Compiler", "create_random_sequence_entry", *args)
        cx.inline.discard("Compiler.create_random_sequence_entry")
        if r.kind == "raise":
            evaluated = r.exc.detail in ("shape", "not unitary") and any(d[0] in ("choice", "each") for d in cx.draws)
            if not evaluated:
                h.req("fails only when no primitive is usable", none)
            else:
                v = primitive_draw(h, given, n, at, w, every)
                h.req("refuses only an evaluated matrix", Vpu(v))
            return
        h.cover("returned")
        h.req("needs a usable primitive", z3.Not(none))
        v = primitive_draw(h, given, n, at, w, every)
        f = h.spec.fields_of(it, r.value)
        u = f["unitary"]
        fixed = cx.entails(z3.Not(Vpu(v)))
        if fixed:
            h.req("the operation of the chosen primitive", lambda: isinstance(u, Ent) and h.same(u, Ent(Vu(v), h.spec.cls("Unitary"), "arg")))
        else:
            vals = L.map_content(it, cx.freeze(h.role(u, "parameter_dict")).content, lambda kv: kv[1][0])
            P = Ent(Vu(v), h.spec.cls("ParameterizedUnitary"), "arg")
            s = h.run(lambda: as_unitary(h, P, LVal(tuple(cx.freeze(c) for c in vals), "list", "arg")))
            h.req("parameter values inside their ranges", s.kind == "ok")
            if s.kind == "ok":
                h.req("the chosen operation at the recorded values", lambda: h.up_to_phase(h.umat(u), h.umat(s.value)))
                for role in ("operation_name", "parameter_dict", "is_inverse", "apply_to"):
                    h.req(f"the chosen operation: {role}", lambda role=role: h.same(h.role(u, role), h.role(s.value, role)))
        qubit_draw(h, v, N, L.content_of(it, f["apply_to"]))
    return unit_


def primitive_draw(h, given, n, at, w, every):
    """Checks how the primitive is drawn. -> the drawn primitive"""
    cx, it = h.cx, h.it
    d = cx.draws[0]
    if d[0] != "choice":
        raise Unsupported(f"random draws of an unknown pattern: {[x[0] for x in cx.draws]}")
    pop, weights = d[1]
    content = cx.norm_content(pop.content)
    if len(content) != 1 or not isinstance(content[0], Sl) or content[0].flat:
        raise Unsupported("draw from a list of an unknown shape")
    c = content[0]
    if not isinstance(c.tab.template, Ent):
        raise Unsupported("draw of something other than a primitive")
    v = cx.tab_at(c.tab, d[2]).term
    i = cx.fresh_index()
    e = cx.tab_at(c.tab, i).term
    cond = z3.BoolVal(True) if c.cond is None else z3.substitute(c.cond, (c.tab.var, i))
    h.req("drawn from all usable primitives and no others", lambda: cx.eqz(c.lo, 0) and cx.eqz(c.hi, n) and cx.entails(cx.qatom(i, 0, n, z3.And(cond == usable(at(i)), e == at(i)))), definite=False)
    if not given:
        h.req("uniform over the usable primitives", weights is None, definite=False)
        return v
    if weights is None:
        raise Unsupported("no probabilities")
    wc = cx.norm_content(weights.content)
    if len(wc) != 1 or not isinstance(wc[0], Sl) or wc[0].flat:
        raise Unsupported("probabilities of an unknown shape")
    wc = wc[0]
    wcond = z3.BoolVal(True) if wc.cond is None else z3.substitute(wc.cond, (wc.tab.var, i))
    share = L.arith(it, "/", w(i), sum_content(it, (Sl(Tab(i, w(i)), 0, n, False, usable(at(i))),), 0))
    h.req("with their given probabilities, renormalised", lambda: cx.eqz(wc.lo, 0) and cx.eqz(wc.hi, n) and
          cx.entails(cx.qatom(i, 0, n, z3.And(wcond == cond, z3.Implies(cond, zreal(cx.tab_at(wc.tab, i)) == z3.If(every, w(i), zreal(share)))))), definite=False)
    return v


def as_unitary(h, P, vals):
    from .units_param import evaluate
    return evaluate(h, P.term, vals)


def qubit_draw(h, v, N, got):
    """Checks how the qubits are drawn and that the entry acts on them."""
    cx, it = h.cx, h.it
    d = [x for x in cx.draws[1:] if x[0] not in ("each", "u01")]
    got = LVal(tuple(cx.freeze(x) for x in cx.norm_content(got)))
    if len(d) != 1:
        raise Unsupported(f"random draws of an unknown pattern: {[x[0] for x in cx.draws]}")
    d = d[0]
    if cx.entails(z3.Not(Vnone(v))):
        if d[0] != "choice" or d[1][1] is not None:
            raise Unsupported("draw of the allowed qubit list")
        content = cx.norm_content(d[1][0].content)
        ok = len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat and content[0].cond is None
        if not ok:
            raise Unsupported("draw of the allowed qubit list")
        h.req("every allowed qubit list is equally likely", lambda: cx.eqz(content[0].lo, 0) and cx.eqz(content[0].hi, Vn(v)), definite=False)
        h.req("acts on the drawn allowed qubit list", lambda: h.same(got, LVal((tab(Vk(v, d[2]), lambda j: Vq(v, d[2], j)),))))
        return
    k = cx.ilog2(vdim(v))
    if d[0] != "sample":
        raise Unsupported("draw of the qubits")
    pop, m = d[1]
    f = z3.Function(f"samp!{d[2].args[0]}", I, I)
    h.req("any qubits of the system, equally likely", lambda: h.same(LVal(pop.content), LVal((tab(N, lambda i: i),))) and cx.eqz(m, k), definite=False)
    h.req("acts on the drawn qubits", lambda: h.same(got, LVal((tab(k, lambda j: f(j)),))))


unit("Random.entry.uniform", "Compiler.create_random_sequence_entry", ["C11"])(random_entry(False))
unit("Random.entry.weighted", "Compiler.create_random_sequence_entry", ["C11"])(random_entry(True, True))
unit("Random.entry.renormalised", "Compiler.create_random_sequence_entry", ["C11"])(random_entry(True, False))


def counts_dict(h, name="counts"):
    """An arbitrary assignment of counts to primitives. -> number of primitives, primitive i, count i, dictionary"""
    n, at, c = h.int("n_" + name, 0), fn("a." + name, I, U), fn("a.count_" + name, I, I)
    i = h.cx.fresh_index()
    h.cx.assume(h.cx.qatom(i, 0, n, c(i) >= 0))
    return n, at, c, DVal((tab(n, lambda i: (ent_v(h, at(i)), c(i))),), "arg")


@unit("Random.layer", "Compiler.create_random_layer", ["C11", "C14", "C15"])
def _(h):
    cx, it = h.cx, h.it
    N = h.int("N", 1)
    D = cx.pow2(N)
    n, at, c, counts = counts_dict(h)
    cx.inline.add("Compiler.create_random_layer")
    r = h.static("Compiler", "create_random_layer", D, counts)
    cx.inline.discard("Compiler.create_random_layer")
    h.req("does not fail", r.kind == "ok")
    if r.kind != "ok":
        return
    content = cx.norm_content(L.content_of(it, r.value))
    if len(content) != 1 or not isinstance(content[0], Shuf):
        h.req("in random order", lambda: cx.entails(zbool(L.not_(L.nonempty(it, content)))) or unknown("a layer that is not shuffled"))
    inner = in_any_order(h, content)
    same = lambda i: LVal((tab(c(i), lambda j: origin_value(D, LVal((El(ent_v(h, at(i))),)), None)),))
    want = LVal((Sl(Tab(cx.fresh_index(), None), 0, n, False, None, True),))
    k = cx.fresh_index()
    want = LVal((Sl(Tab(k, same(k)), 0, n, False, None, True),))
    draws = list(cx.draws)
    h.req("exactly the requested number of gates of each primitive", lambda: h.same(LVal(tuple(cx.freeze(x) for x in L.map_content(it, inner, lambda e: origin(h, e, draws)))), want))
    h.req("every gate is drawn by itself", lambda: separate(h, inner), definite=False)
    h.req("only generated gates", lambda: all(d[0] in ("each", "shuffle", "entry") for d in cx.draws), definite=False)


def unknown(what):
    raise Unsupported(what)


def origin_value(d, prims, probs):
    return (d, prims, probs)


def origin(h, e, draws=None):
    """The arguments of the call that generated the entry."""
    if isinstance(e, Ref):
        e = h.cx.freeze(e)
    if not isinstance(e, Ent):
        raise Unsupported("entry that was not generated")

    def find(ds):
        for d in ds:
            if d[0] == "each":
                r = find(d[2])
                if r is not None:
                    return r
            elif d[0] == "entry" and d[2].term.decl().eq(e.term.decl()):
                pairs = [(a, b) for a, b in zip(d[2].term.children(), e.term.children()) if not a.eq(b)]
                return subst(tuple(d[1]), pairs)
    r = find(h.cx.draws if draws is None else draws)
    if r is None:
        raise Unsupported("entry that was not generated")
    return r


def separate(h, content):
    """Are the entries at different places of the list different draws?"""
    out = True
    names = []
    for c in h.cx.norm_content(content):
        bound, facts = [], []
        while isinstance(c, Sl):
            bound.append(c.tab.var)
            if isinstance(c.tab.template, LVal):
                if len(c.tab.template.content) != 1:
                    raise Unsupported("shape of the layer")
                c = c.tab.template.content[0]
            else:
                c = El(c.tab.template)
        if not isinstance(c, El) or not isinstance(c.v, Ent):
            raise Unsupported("shape of the layer")
        names.append(c.v.term.decl().name())
        args = c.v.term.children()
        other = [z3.Int(f"other{i}") for i in range(len(bound))]
        twin = [z3.substitute(a, *zip(bound, other)) for a in args]
        same_draw = z3.And([a == b for a, b in zip(args, twin)] or [z3.BoolVal(True)])
        out = out and h.cx.entails(z3.Implies(same_draw, z3.And([a == b for a, b in zip(bound, other)] or [z3.BoolVal(True)])))
    return out and len(set(names)) == len(names)


@unit("Compiler.init", "Compiler.__init__", ["C10"])
def _(h):
    cx, it = h.cx, h.it
    D = h.int("D")
    n, at = h.int("n_prims", 0), fn("a.prims", I, U)
    items = [tab(n, lambda i: ent_v(h, at(i)))]
    odd = h.choose("something else in the list", 2)
    if odd:
        items.append(El(h.ent("Unitary", "u")))
    cx.inline.add("Compiler.__init__")
    r = h.new("Compiler", D, LVal(tuple(items), "list", "arg"))
    cx.inline.discard("Compiler.__init__")
    i = cx.fresh_index()
    small = cx.qatom(i, 0, n, vdim(at(i)) <= D)
    if r.kind == "raise":
        h.req("accepts every list of primitives no larger than the system", True if odd else z3.Not(z3.And(D >= 1, zbool(small))))
        return
    h.cover("accepted")
    h.req("refuses anything that is not a primitive", not odd)
    h.req("refuses primitives larger than the system", small)
    h.req("refuses dimension zero", D >= 1)
