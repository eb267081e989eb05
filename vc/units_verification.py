"""Units for the verification generators."""
from .sequences import *
from .spec import *
from .units import *
from .interp import Break, Continue, Return
from .loops import changed, read, write
from .units_hamiltonian import described, evolution, everywhere, single_terms, subset_sum, subsets, system, term_matrix
from .units_compiler import counts_dict, ent_v, origin, primitives, separate


def entry_list(h, content):
    return LVal(tuple(h.cx.freeze(x) for x in h.cx.norm_content(content)))


def compilations(h, ds=None):
    return [d for d in (h.cx.draws if ds is None else ds) if d[0].startswith("compile")]


def split_result(h, r, kind):
    """The entries of the result before the compiled ones, the compilation (None if there was none)."""
    cx, it = h.cx, h.it
    q = it.getattr(r.value, "compiled_sequence")
    content = cx.norm_content(entries(it, q))
    cs = compilations(h)
    if not cs:
        return q, content, None
    if len(cs) != 1 or cs[0][0] != kind:
        raise Unsupported(f"compilations: {[c[0] for c in cs]}")
    return q, content, cs[0]


def whole_rest(h, content, c):
    """content without the compiled entries at its end; None if it does not end with them."""
    cx = h.cx
    want = cx.norm_content(c.content)
    n = len(want)
    if n and not cx.same(entry_list(h, content[-n:]), entry_list(h, want)):
        return None
    return content[:-n] if n else content


def dagger_of(h, content, D):
    return seq_product(h.it, content, D).dagger()


def check_result(h, r, kind, D, threshold, limit, args, random_part):
    """Everything that is the same for all variants."""
    cx, it = h.cx, h.it
    q, content, d = split_result(h, r, kind)
    tr = cx.norm_content(L.content_of(it, it.getattr(r.value, "cost_by_step")))
    skip = L.or_(L.compare_nums(it, "==", threshold, 0), L.compare_nums(it, "==", limit, 0))
    h.req("dimension of the system", lambda: h.same(dim(it, q), D))
    if d is None:
        h.cover("random part only")
        h.req("compiles the inverse unless threshold or step limit is 0", skip)
        h.req("the trace of a random part is empty", lambda: not tr or not cx.decide(zint(cx.length(tr)) > 0))
        random_part(content)
        return
    h.cover("with inverse")
    h.req("threshold 0 or step limit 0 gives the random part only", L.not_(skip))
    c = d[2]
    rest = whole_rest(h, content, c)
    h.req("ends with the compiled inverse", rest is not None)
    if rest is None:
        return
    random_part(rest)
    dd, prims, probs, p, counts = d[1]
    h.req("the inverse is compiled for the system", lambda: h.same(dd, D))
    h.req("from the given primitives", lambda: h.same(prims, args["prims"]))
    h.req("with the given probabilities", lambda: h.same(LVal((El(probs),)), LVal((El(args["probs"]),))))
    h.req("with the given append probability", lambda: h.same(LVal((El(p),)), LVal((El(args["p"]),))))
    if kind == "compile layered":
        h.req("with the given counts", lambda: h.same(counts, args["counts"]))
    check_inverse(h, q, tr, rest, c, D, threshold, limit)


def check_inverse(h, q, tr, rest, c, D, threshold, limit):
    """The compilation inverts the random part, and the result is what that means."""
    cx, it = h.cx, h.it
    h.req("the target is the inverse of the random part", lambda: h.up_to_phase(h.umat(c.target), dagger_of(h, rest, D)))
    h.req("compiled to the given threshold", lambda: h.same(c.threshold, threshold))
    h.req("within the given number of steps", lambda: h.same(c.limit, limit))
    h.req("the trace is the compilation's", lambda: h.same(entry_list(h, tr), entry_list(h, c.trace)))
    # what compile promises of its own result, about the whole sequence
    ident = h.new("Unitary", D).value
    compiled = sequence_unitary(h, c.content, D)
    close = L.truth(it, it.call(it.getattr(compiled, "close_to"), [c.target, c.threshold], {}))
    cx.assume(z3.Or(zbool(close), zint(c.steps) == zint(c.limit)))
    whole = it.call(it.getattr(q, "product"), [], {})
    h.req("close to the identity unless the steps are used up", lambda: L.or_(L.truth(it, it.call(it.getattr(whole, "close_to"), [ident, threshold], {})), L.compare_nums(it, "==", cx.length(tr), limit)))
    cx.assume(z3.Implies(c.steps > 0, zreal(L.to_num(it.call(it.getattr(c.target, "distance_from"), [compiled], {}))) == c.last()))
    if not cx.decide(zint(cx.length(tr)) > 0):
        return
    h.req("the trace ends at the distance from the identity", lambda: L.compare_nums(it, "==", L.item_at(it, tr, -1), it.call(it.getattr(whole, "distance_from"), [ident], {})))


def sequence_unitary(h, content, D):
    return h.spec.unitary_with(h.it, seq_product(h.it, content, D), Undef("name of a product"))


def rav(given):
    def unit_(h):
        cx, it = h.cx, h.it
        N = h.int("N", 1)
        D = cx.pow2(N)
        n, at, prims = primitives(h, D)
        cx.assume(n >= 1)
        probs = None
        if given:
            w = fn("a.w", I, R)
            probs = LVal((tab(n, lambda i: w(i)),), "list", "arg")
        length, limit = h.int("length", 0), h.int("max_steps", 0)
        threshold, p = h.real("threshold"), h.real("p")
        cx.assume(z3.And(threshold >= 0, threshold <= 1, p >= 0, p <= 1))
        r = h.static("Verification", "generate_rav_sequence", D, prims, length, threshold, p, probs, limit)
        h.req("does not fail", r.kind == "ok")
        if r.kind != "ok":
            return

        def random_part(content):
            h.req("begins with the requested number of gates", lambda: cx.eqz(cx.length(content), length))
            draws = list(cx.draws)
            want = (D, LVal(prims.content, "list"), None if probs is None else LVal(probs.content, "list"))
            h.req("random gates from the given primitives with their probabilities", lambda: h.same(entry_list(h, L.map_content(it, content, lambda e: origin(h, e, draws))), LVal((tab(length, lambda i: want),))))
            h.req("every gate is drawn by itself", lambda: separate(h, content), definite=False)
        check_result(h, r, "compile", D, threshold, limit, {"prims": LVal(prims.content, "list"), "probs": None if probs is None else LVal(probs.content, "list"), "p": p}, random_part)
    return unit_


unit("RAV.uniform", "Verification.generate_rav_sequence", ["C15"])(rav(False))
unit("RAV.weighted", "Verification.generate_rav_sequence", ["C15"])(rav(True))


def layers(h, content, D, counts, k):
    """Is the content exactly k layers, each drawn by itself?"""
    cx, it = h.cx, h.it
    want, count = (), 0
    for d in cx.draws:
        if d[0] == "layer":
            (dd, cc), got, n, part = d[1], d[2], 1, d[2].content
        elif d[0] == "each" and d[1][4] is None and len(d[2]) == 1 and d[2][0][0] == "layer":
            v, lo, hi, rev, _ = d[1]
            (dd, cc), got, n = d[2][0][1], d[2][0][2], z3.simplify(zint(hi) - zint(lo))
            part = (Sl(Tab(v, LVal(got.content)), lo, hi, rev, None, True),)
        elif d[0] == "compile layered":
            continue
        else:
            raise Unsupported(f"random draws of an unknown pattern: {[d[0] for d in cx.draws]}")
        h.req("layers with the given counts", lambda: h.same(LVal((El(dd), El(cc))), LVal((El(D), El(counts)))))
        want, count = want + part, L.arith(it, "+", count, n)
    h.req("the requested number of layers", lambda: cx.eqz(count, k))
    h.req("begins with exactly these layers", lambda: h.same(entry_list(h, not_empty(h, content)), entry_list(h, not_empty(h, want))))


def not_empty(h, content):
    """The list without its empty parts."""
    def empty(c):
        if not isinstance(c, Sl):
            return False
        if h.cx.entails(zint(c.hi) <= zint(c.lo)):
            return True
        return c.flat and isinstance(c.tab.template, LVal) and all(empty(x) for x in c.tab.template.content)
    return tuple(c for c in h.cx.norm_content(content) if not empty(c))


@unit("RAV.layered", "Verification.generate_layered_rav_sequence", ["C15"])
def _(h):
    cx, it = h.cx, h.it
    N = h.int("N", 1)
    D = cx.pow2(N)
    n, at, c, counts = counts_dict(h)
    i = cx.fresh_index()
    cx.assume(cx.qatom(i, 0, n, vdim(at(i)) <= D))
    k, limit = h.int("layers", 0), h.int("max_steps", 0)
    threshold, p = h.real("threshold"), h.real("p")
    cx.assume(z3.And(threshold >= 0, threshold <= 1, p >= 0, p <= 1))
    r = h.static("Verification", "generate_layered_rav_sequence", D, counts, k, threshold, p, limit)
    h.req("does not fail", r.kind == "ok")
    if r.kind != "ok":
        return
    plain = DVal(counts.content, "arg")
    keys = LVal((tab(n, lambda i: ent_v(h, at(i))),), "list")
    check_result(h, r, "compile layered", D, threshold, limit, {"prims": keys, "probs": None, "p": p, "counts": plain}, lambda content: layers(h, content, D, plain, k))


@unit("XEB", "Verification.generate_xeb_sequence", ["C15"])
def _(h):
    cx, it = h.cx, h.it
    N = h.int("N", 1)
    D = cx.pow2(N)
    n, at, c, counts = counts_dict(h)
    i = cx.fresh_index()
    cx.assume(cx.qatom(i, 0, n, vdim(at(i)) <= D))
    k = h.int("layers", 0)
    r = h.static("Verification", "generate_xeb_sequence", D, counts, k)
    h.req("does not fail", r.kind == "ok")
    if r.kind != "ok":
        return
    h.req("nothing is compiled", not compilations(h))
    q = it.getattr(r.value, "compiled_sequence")
    h.req("dimension of the system", lambda: h.same(dim(it, q), D))
    tr = cx.norm_content(L.content_of(it, it.getattr(r.value, "cost_by_step")))
    h.req("the trace is empty", lambda: not tr or not cx.decide(zint(cx.length(tr)) > 0))
    layers(h, entries(it, q), D, DVal(counts.content, "arg"), k)


# ---------------------------------------------------------------- refusals
def refusal(layered):
    def unit_(h):
        cx, it = h.cx, h.it
        D = h.int("D", 1)
        n, at = h.int("n_prims", 1), fn("a.prims", I, U)
        odd = h.choose("something else among the primitives", 2)
        k, limit = h.int("length"), h.int("max_steps", 0)
        threshold = h.real("threshold")
        i = cx.fresh_index()
        small = cx.qatom(i, 0, n, vdim(at(i)) <= D)
        good = z3.And(small, k >= 0, threshold >= 0, threshold <= 1)
        cx.assume(z3.Not(good) if not odd else z3.BoolVal(True))
        if layered:
            c = fn("a.count", I, I)
            items = [tab(n, lambda i: (ent_v(h, at(i)), c(i)))]
            if odd:
                items.append(El((h.ent("Unitary", "u"), h.int("count", 0))))
            r = h.static("Verification", "generate_layered_rav_sequence", D, DVal(tuple(items), "arg"), k, threshold, Fraction(1, 2), limit)
        else:
            items = [tab(n, lambda i: ent_v(h, at(i)))]
            if odd:
                items.append(El(h.ent("Unitary", "u")))
            r = h.static("Verification", "generate_rav_sequence", D, LVal(tuple(items), "list", "arg"), k, threshold, Fraction(1, 2), None, limit)
        h.req("refuses anything that is not a primitive" if odd else "refuses primitives larger than the system, negative lengths and thresholds outside 0 to 1", r.kind == "raise")
    return unit_


unit("RAV.refusals", "Verification.generate_rav_sequence", ["C10"])(refusal(False))
unit("RAV.layered.refusals", "Verification.generate_layered_rav_sequence", ["C10"])(refusal(True))


# ---------------------------------------------------------------- verification of a Hamiltonian
class Steps:
    """The while rule for the random part: before an iteration the sequence holds arbitrary entries whose times add up to an
    arbitrary total; one iteration adds one evolution and its time, and the loop is left exactly when the total is enough."""

    def __init__(self, h, time, s, step, prims):
        self.h, self.cx, self.it = h, h.cx, h.it
        self.time, self.s, self.step_of, self.prims = time, s, step, prims
        self.seen = 0
        self.left = False

    def content(self):
        c = read(self.cx, self.cx.heap, self.entries)
        return self.cx.norm_content(c.content)

    def __call__(self, it, st, env):
        h, cx = self.h, self.cx
        self.seen += 1
        if self.seen > 1:
            raise Unsupported("more than one loop")
        self.saved = dict(cx.heap)
        locs = self.discover(st, env)
        start = self.havoc(locs)
        before = self.frozen()
        T = z3.Real("total")
        draws, cx.draws = cx.draws, []
        try:
            if it.truth(it.ev(st.test, env)):
                try:
                    it.block(st.body, env)
                except Continue:
                    pass
                h.cover("step")
                h.req("no step once the times add up to the requested time", lambda: T < self.time)
                t, e = self.added(before)
                h.req("a step lasts at most max_t_step", lambda: z3.And(t >= -self.s, t <= self.s))
                self.check_step(t, e)
                for loc, k in locs.items():
                    if isinstance(k, int):
                        h.req("the total grows by the duration of the step", lambda: self.grows(start, loc, k, t), definite=False)
                raise Infeasible()
            it.block(st.orelse, env)
        except Break:
            pass
        except PyRaise as e:
            h.req("no step fails", False, f"{e.kind} {e.detail}")
            raise Infeasible()
        h.cover("stops")
        self.left = True
        h.req("stops only when the times add up to the requested time", lambda: T >= self.time)
        h.req("leaves without a further change", lambda: not cx.draws and cx.same(self.frozen(), before))
        cx.draws = draws
        return True

    def frozen(self):
        return entry_list(self.h, self.content())

    def grows(self, start, loc, k, t):
        it = self.it
        d = L.arith(it, "-", L.to_num(read(self.cx, self.cx.heap, loc)), L.to_num(read(self.cx, start, loc)))
        return L.compare_nums(it, "==", d, L.arith(it, "*", k, z3.If(t >= 0, t, -t)))

    def added(self, before):
        """The time and the entry that the step has added at the end."""
        cx, it = self.cx, self.it
        after = self.frozen().content
        n = len(before.content)
        if len(after) != n + 1 or not isinstance(after[n], El) or not cx.same(LVal(after[:n]), LVal(before.content)):
            raise Unsupported("a step that does not add one entry at the end")
        e = after[n].v
        u = self.h.spec.fields_of(it, e)["unitary"]
        ps = cx.norm_content(L.dict_content(it, self.h.role(u, "parameter_dict")))
        if len(ps) != 1 or not isinstance(ps[0], El):
            raise Unsupported("parameters of a step")
        return zreal(L.to_num(ps[0].v[1][0])), e

    def check_step(self, t, e):
        h, cx, it = self.h, self.cx, self.it
        ds = [d for d in cx.draws if d[0] != "u01"]
        if len(ds) != 1 or ds[0][0] != "choice":
            raise Unsupported(f"random draws of an unknown pattern: {[d[0] for d in cx.draws]}")
        pop, weights = ds[0][1]
        x = z3.Real("x")
        h.req("steps are drawn from the term evolutions", lambda: h.same(described(h, LVal(pop.content), t, x), self.prims(t, x)), definite=False)
        h.req("all equally likely", weights is None, definite=False)
        f = h.spec.fields_of(it, e)
        m, qs = self.step_of(ds[0][2], t)
        h.req("a step is the drawn evolution for its time", lambda: h.up_to_phase(h.umat(f["unitary"]), m))
        h.req("a step acts on all qubits", lambda: h.same(entry_list(h, L.content_of(it, f["apply_to"])), qs))

    def havoc(self, locs):
        cx = self.cx
        s, T = z3.Const("S", U), z3.Real("total")
        ec = self.h.spec.cls("UnitarySequenceEntry")
        cx.ax(Sdim(s) == zint(self.D()))
        cx.ax(T >= 0)
        for loc, k in locs.items():
            if k == "entries":
                c = read(cx, cx.heap, loc)
                write(cx, loc, ListC((tab(Sn(s), lambda i: Ent(Se(s, i), ec, "new")),), c.kind, c.tag))
            elif k == "any":
                write(cx, loc, Undef("from an earlier step"))
            elif k == "number":
                v = read(cx, self.saved, loc)
                write(cx, loc, z3.Int(f"before {loc[2]}") if is_int(v) else z3.Real(f"before {loc[2]}"))
            else:
                write(cx, loc, L.arith(self.it, "+", L.to_num(read(cx, self.saved, loc)), L.arith(self.it, "*", k, T)))
        return dict(cx.heap)

    def D(self):
        return self.dim

    def discover(self, st, env):
        """The places the loop changes."""
        cx, it = self.cx, self.it
        locs = {}
        for _ in range(12):
            saved, nid, draws = dict(cx.heap), cx.next_id, cx.draws
            start = self.havoc(locs)
            before = self.frozen() if "entries" in locs.values() else None
            wrong = []

            def iteration():
                if not it.truth(it.ev(st.test, env)):
                    raise Infeasible()
                try:
                    it.block(st.body, env)
                except Continue:
                    pass
                except (Break, Return):
                    return None
                t = self.added(before)[0] if before is not None else None
                return [loc for loc, k in locs.items() if isinstance(k, int) and t is not None and not cx.entails(zbool(self.grows(start, loc, k, t)))]
            paths = cx.sub(iteration, [])
            cx.heap, cx.next_id, cx.draws = saved, max(nid, cx.next_id), draws
            new = {}
            for p in paths:
                if p.status != "ok":
                    continue
                for loc in p.value or ():
                    new[loc] = {1: -1, -1: "number"}[locs[loc]]
                for loc in changed(start, p.heap):
                    if loc[1] in saved and loc not in locs:
                        new[loc] = self.kind(saved, loc)
            if not new:
                if list(locs.values()).count("entries") != 1:
                    raise Unsupported("no list of entries grows in the loop")
                return locs
            locs.update(new)
        raise Unsupported("what the loop keeps unchanged is not found")

    def kind(self, heap, loc):
        v = read(self.cx, heap, loc)
        if loc[0] == "cell":
            if isinstance(v, ListC) and not v.content:
                self.entries = loc
                return "entries"
            raise Unsupported("the loop changes an object")
        return 1 if is_num(v) and not is_bool(v) and not isinstance(v, Undef) else "any"


def hamiltonian_rav(simultaneous):
    def unit_(h):
        cx, it = h.cx, h.it
        H_, n, D, tot = system(h)
        cx.assume(n >= 1)
        time, s, threshold = h.real("time"), h.real("max_t_step"), h.real("threshold")
        cx.assume(z3.And(s >= 0, threshold >= 0, threshold <= 1))
        if simultaneous:
            prims = lambda t, x: subsets(h, H_, n, t, s, x)

            def step(J, t):
                if not isinstance(J, tuple):
                    raise Unsupported("draw from a list of an unknown shape")
                return evolution(subset_sum(h, H_, *J), t), everywhere(n)
        else:
            prims = lambda t, x: single_terms(h, H_, n, t, s, x)

            def step(J, t):
                if isinstance(J, tuple):
                    raise Unsupported("draw from a list of an unknown shape")
                return evolution(term_matrix(Ht(H_.term, J)), t), everywhere(n)
        rule = Steps(h, time, s, step, prims)
        rule.dim = D
        cx.while_handler = rule
        r = h.call(H_, "compile_rav_sequence", time, s, threshold, simultaneous)
        cx.while_handler = None
        h.req("does not fail", r.kind == "ok", "" if r.kind == "ok" else f"{r.exc.kind} {r.exc.detail}")
        if r.kind != "ok":
            return
        if not rule.left:
            raise Unsupported("no loop found")
        q, content, d = split_result(h, r, "compile")
        tr = cx.norm_content(L.content_of(it, it.getattr(r.value, "cost_by_step")))
        h.req("dimension of the system", lambda: h.same(dim(it, q), D))
        h.req("compiles the inverse", d is not None)
        if d is None:
            return
        c = d[2]
        rest = whole_rest(h, content, c)
        h.req("ends with the compiled inverse", rest is not None)
        if rest is None:
            return
        h.req("begins with the random steps", lambda: h.same(entry_list(h, rest), rule.frozen()))
        t, x = h.real("t"), h.real("x")
        cx.assume(z3.And(t >= -s, t <= s))
        h.req("the inverse is compiled for the system", lambda: h.same(d[1][0], D))
        h.req("from the term evolutions", lambda: h.same(described(h, d[1][1], t, x), prims(t, x)))
        check_inverse(h, q, tr, rest, c, dim(it, q), threshold, 10000)
    return unit_


unit("Hamiltonian.rav.single", "Hamiltonian.compile_rav_sequence", ["C18"])(hamiltonian_rav(False))
unit("Hamiltonian.rav.subsets", "Hamiltonian.compile_rav_sequence", ["C18"])(hamiltonian_rav(True))
