"""The contracts. A contract is a function of the actual arguments that either raises the promised exception or returns
the promised result; at a call site it stands for the callee, and units.py verifies every body against the same function.
Arbitrary objects are terms of sort U whose attributes are uninterpreted functions; `facts` are the object invariants
their constructors establish (verified as postconditions of those constructors)."""
from fractions import Fraction

import z3

from . import alg, lib as L, mat as M
from .alg import X
from .engine import FrameWrite, Infeasible, PyRaise, Unsupported, explore, Stats, pow2 as POW2
from .mat import MS
from .values import *

F = {}


def fn(name, *sorts):
    if name not in F:
        F[name] = z3.Function(name, *sorts)
    return F[name]


# unitary
Udim, Umat, Uname, Unp = fn("U.dim", U, I), fn("U.mat", U, MS), fn("U.name", U, NAME), fn("U.np", U, I)
Upn, Upv, Upa, Uinv = fn("U.pname", U, I, NAME), fn("U.pval", U, I, R), fn("U.pangle", U, I, B), fn("U.inv", U, B)
Unq, Uq = fn("U.nq", U, I), fn("U.q", U, I, I)
# parameter
Rname, Rmin, Rmax, Rang = fn("R.name", U, NAME), fn("R.min", U, R), fn("R.max", U, R), fn("R.angle", U, B)
# parameterized unitary
Pdim, Pname, Pn, Ppar, Pfun = fn("P.dim", U, I), fn("P.name", U, NAME), fn("P.n", U, I), fn("P.par", U, I, U), fn("P.fun", U, U)
# entry
Eu, En, Eq = fn("E.u", U, U), fn("E.n", U, I), fn("E.q", U, I, I)
# primitive
Vu, Vpu, Vnone, Vn, Vk, Vq = fn("V.u", U, U), fn("V.parameterized", U, B), fn("V.unrestricted", U, B), fn("V.n", U, I), fn("V.len", U, I, I), fn("V.q", U, I, I, I)
# Hamiltonian term, Hamiltonian
Tdim, Tmat, Tco, Tnm = fn("T.dim", U, I), fn("T.mat", U, MS), fn("T.coef", U, R), fn("T.norm", U, MS)
Hdim, Hn, Ht = fn("H.dim", U, I), fn("H.n", U, I), fn("H.term", U, I, U)
# sequence
Be = fn("block.entry", U, I, I, U)
Sdim, Sn, Se = fn("S.dim", U, I), fn("S.n", U, I), fn("S.entry", U, I, U)

ANY = Undef("not specified by the contract")


def dimu(t):
    return Udim(t)


class Facts:
    """Instances of the object invariants for the terms that occur in formulas."""

    def __init__(self):
        self.by = {"U.dim": lambda cx, t: [t >= 1],
                   "U.np": lambda cx, t: [t >= 0],
                   "U.nq": lambda cx, t: [t >= 0],
                   "R.min": lambda cx, t: [t <= Rmax(t.arg(0))],
                   "R.max": lambda cx, t: [Rmin(t.arg(0)) <= t],
                   "P.dim": lambda cx, t: [t >= 1],
                   "P.n": lambda cx, t: [t >= 0],
                   "E.n": lambda cx, t: [t >= 1, Udim(Eu(t.arg(0))) == POW2(t), t <= MAXQ(t.arg(0)) + 1],
                   "E.u": lambda cx, t: [Udim(t) == POW2(En(t.arg(0)))],
                   "E.q": self.eq,
                   "V.n": lambda cx, t: [t >= 0],
                   "V.len": lambda cx, t: [z3.Implies(self.vrange(t), z3.And(t >= 1, vdim(t.arg(0)) == POW2(t)))],
                   "V.q": self.vq,
                   "T.dim": lambda cx, t: [t >= 1],
                   "T.coef": lambda cx, t: [t > 0],
                   "H.n": lambda cx, t: [t >= 1],
                   "H.dim": lambda cx, t: [t >= 1],
                   "H.term": lambda cx, t: [z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < Hn(t.arg(0))), Tdim(t) == Hdim(t.arg(0)))],
                   "S.n": lambda cx, t: [t >= 0],
                   "S.entry": lambda cx, t: [z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < Sn(t.arg(0))), fits(cx, t, Sdim(t.arg(0))))],
                   "maxq": self.maxq}

    def vrange(self, t):
        return z3.And(z3.Not(Vnone(t.arg(0))), t.arg(1) >= 0, t.arg(1) < Vn(t.arg(0)))

    def eq(self, cx, t):
        e, i = t.arg(0), t.arg(1)
        ok = z3.And(i >= 0, i < En(e))
        out = [z3.Implies(ok, z3.And(t >= 0, t <= MAXQ(e)))]
        for s in cx.fact_terms["E.q"]:
            if s.arg(0).eq(e) and not s.eq(t):
                j = s.arg(1)
                out.append(z3.Implies(z3.And(ok, j >= 0, j < En(e), i != j), s != t))
        return out

    def vq(self, cx, t):
        v, i, j = t.arg(0), t.arg(1), t.arg(2)
        ok = z3.And(z3.Not(Vnone(v)), i >= 0, i < Vn(v), j >= 0, j < Vk(v, i))
        out = [z3.Implies(ok, t >= 0)]
        for s in cx.fact_terms["V.q"]:
            if s.arg(0).eq(v) and s.arg(1).eq(i) and not s.eq(t):
                k = s.arg(2)
                out.append(z3.Implies(z3.And(ok, k >= 0, k < Vk(v, i), j != k), s != t))
        return out

    def maxq(self, cx, t):
        e = t.arg(0)
        w = MAXW(e)
        return [t >= 0, w >= 0, w < En(e), Eq(e, w) == t]

    def __call__(self, cx, t):
        nm = t.decl().name()
        f = self.by.get(nm)
        if f is None:
            return
        seen = cx.fact_terms.setdefault(nm, [])
        if any(t.eq(s) for s in seen):
            return
        out = f(cx, t)
        seen.append(t)
        for g in out:
            cx.ax(g)
            cx.register(g)


MAXQ, MAXW = fn("maxq", U, I), fn("maxw", U, I)


def vdim(v):
    return z3.If(Vpu(v), Pdim(Vu(v)), Udim(Vu(v)))


def fits(cx, e, d):
    """Every qubit of the entry lies inside the system of dimension d."""
    return POW2(MAXQ(e) + 1) <= d


# ---------------------------------------------------------------- generic values
def tab(n, f):
    k = z3.Int("ixg%s" % next(_ids))
    return Sl(Tab(k, f(k)), 0, n)


def _counter():
    n = 0
    while True:
        n += 1
        yield f"{n}z"


_ids = _counter()


def name_of(t):
    return Str([SName(t)])


def unitary_args(t, tag):
    d = Udim(t)
    return {"dimension": d,
            "matrix": MVal(M.Mat.of(M.FAtom(Umat(t), d, d, {"unitary"})), "complex", tag),
            "operation_name": name_of(Uname(t)),
            "parameter_dict": DVal((tab(Unp(t), lambda i: (name_of(Upn(t, i)), (Upv(t, i), Upa(t, i)))),), tag),
            "is_inverse": Uinv(t),
            "apply_to": LVal((tab(Unq(t), lambda i: Uq(t, i)),), "list", tag)}


def param_args(t, tag):
    return {"parameter_name": name_of(Rname(t)), "min_value": Rmin(t), "max_value": Rmax(t), "is_angle": Rang(t)}


def punitary_args(world, t, tag):
    pc = world.classes["ParameterizedUnitaryParameter"]
    return {"dimension": Pdim(t), "parameterized_matrix": Opaque("function", Pfun(t)),
            "parameters": LVal((tab(Pn(t), lambda i: Ent(Ppar(t, i), pc, tag)),), "list", tag), "operation_name": name_of(Pname(t))}


class Spec:
    def __init__(self, world):
        self.world = world
        world.spec = self
        world.used = set()        # functions whose bodies were verified in place
        world.assumed = set()     # functions whose contracts were used at calls
        self.facts = Facts()
        self.templates = {}
        self.seen_outcomes = {}
        self.contracts = {}
        self.layout = None
        from . import contracts, sequences, spectext
        contracts.install(self)
        sequences.install(self)
        spectext.install(world)

    # ------------------------------------------------------------ arbitrary objects
    def cls(self, name):
        c = self.world.classes.get(name)
        if c is None:
            raise Unsupported(f"class {name} not found")
        return c

    def template(self, cls, variant, args, given=None):
        """Fields of an arbitrary object of the class: its own constructor run on arbitrary arguments."""
        key = (cls.qual, variant)
        if key not in self.templates:
            from .interp import Interp
            out = []
            t = z3.Const("self!", U)

            def h(cx):
                it = Interp(cx)
                cx.inline.add(cls.qual + ".__init__")
                try:
                    if given:
                        given(it, t)
                    r = it.instantiate(cls, [], args(t))
                except PyRaise as e:
                    cx.refused = e
                    raise Infeasible()
                self.outcome(out, cx.freeze(r))
            for _ in explore(self.world, h, Stats(), 50):
                pass
            if len(out) != 1:
                raise Unsupported(f"the constructor of {cls.name} has {len(out)} outcomes on arbitrary valid arguments")
            self.templates[key] = out[0]
        return self.templates[key]

    def outcome(self, out, r):
        """Paths that end with the same fields count once."""
        k = repr({f: (type(v).__name__, v.dtype, M.key(v.mat)) if isinstance(v, MVal) else M.key(v) for f, v in sorted(r.fields.items())})
        if k not in [x for x, _ in self.seen_outcomes.get(id(out), [])]:
            self.seen_outcomes.setdefault(id(out), []).append((k, out))
            out.append(r)

    def reveal(self, it, e):
        cx = it.cx
        k = (e.cls.qual, e.term.get_id(), e.tag)
        if k in cx.revealed:
            return cx.revealed[k][1]
        t, w = e.term, self.world
        nm = e.cls.name
        post = None
        if nm == "Unitary":
            tpl, variant = (lambda s: unitary_args(s, "arg")), ""
            post = self.unitary_fields
        elif nm == "ParameterizedUnitaryParameter":
            tpl, variant = (lambda s: param_args(s, "arg")), ""
        elif nm == "ParameterizedUnitary":
            tpl, variant = (lambda s: punitary_args(w, s, "arg")), ""
        elif nm == "UnitarySequenceEntry":
            uc = self.cls("Unitary")
            tpl, variant = (lambda s: {"unitary": Ent(Eu(s), uc, "arg"), "apply_to": LVal((tab(En(s), lambda i: Eq(s, i)),), "list", "arg")}), ""
            post = self.entry_fields
        elif nm == "UnitaryPrimitive":
            pu = cx.decide(Vpu(t))
            none = cx.decide(Vnone(t))
            uc = self.cls("ParameterizedUnitary" if pu else "Unitary")
            variant = f"{pu}{none}"
            tpl = lambda s: {"unitary": Ent(Vu(s), uc, "arg"), "allowed_apply_to": None if none else LVal((tab(Vn(s), lambda i: LVal((tab(Vk(s, i), lambda j: Vq(s, i, j)),), "list", "arg")),), "list", "arg")}
        elif nm == "HamiltonianTerm":
            r = self.term_value(it, t, e.tag)
            cx.revealed[k] = (e, r)
            return r
        elif nm == "Hamiltonian":
            tc = self.cls("HamiltonianTerm")
            tpl, variant = (lambda s: {"terms": LVal((tab(Hn(s), lambda i: Ent(Ht(s, i), tc, "arg")),), "list", "arg")}), ""
        else:
            raise Unsupported(f"arbitrary object of class {nm}")
        if nm == "UnitaryPrimitive":
            tp = self.template_under(e.cls, variant, tpl, [Vpu, Vnone], [pu, none])
        else:
            tp = self.template(e.cls, variant, tpl)
        if post:
            tp = post(tp)
        v = subst(tp, [(z3.Const("self!", U), t)])
        v = map_tags(v, lambda _: e.tag)
        cx.revealed[k] = (e, v)
        return v

    def template_under(self, cls, variant, args, preds, vals):
        key = (cls.qual, variant)
        if key in self.templates:
            return self.templates[key]
        t = z3.Const("self!", U)
        self.pending = [p(t) if v else z3.Not(p(t)) for p, v in zip(preds, vals)]
        from .interp import Interp
        out = []

        def h(cx):
            for f in self.pending:
                cx.assume(f)
            it = Interp(cx)
            cx.inline.add(cls.qual + ".__init__")
            try:
                r = it.instantiate(cls, [], args(t))
            except PyRaise as e:
                raise Infeasible()
            self.outcome(out, cx.freeze(r))
        for _ in explore(self.world, h, Stats(), 50):
            pass
        if len(out) != 1:
            raise Unsupported(f"the constructor of {cls.name} has {len(out)} outcomes on arbitrary valid arguments")
        self.templates[key] = out[0]
        return out[0]

    def unitary_fields(self, tp):
        """The matrix field holds the balanced matrix of the object itself."""
        t = z3.Const("self!", U)
        f = dict(tp.fields)
        lay = self.unitary_layout(tp)
        f[lay["matrix"]] = unitary_args(t, "arg")["matrix"]
        return OVal(tp.cls, f, tp.tag)

    ROLES = {"matrix": "matrix", "operation_name": "operation_name", "parameter_dict": "parameter_dict", "is_inverse": "is_inverse", "apply_to": "apply_to"}

    def unitary_layout(self, tp=None):
        """Which field plays which role, read off the constructor's result on distinct arguments."""
        if self.layout is None:
            if tp is None:
                tp = self.template(self.cls("Unitary"), "", lambda s: unitary_args(s, "arg"))
            t = z3.Const("self!", U)
            args = unitary_args(t, "arg")
            lay = {}
            for role, canonical in self.ROLES.items():
                if canonical in tp.fields:
                    lay[role] = canonical
                    continue
                for f, v in sorted(tp.fields.items()):
                    hit = isinstance(v, MVal) if role == "matrix" else M.key(v) == M.key(args[role])
                    if hit:
                        lay[role] = f
                        break
                else:
                    raise Unsupported(f"no field of Unitary holds {role}")
            self.layout = lay
            self.layout_extra = {f: v for f, v in tp.fields.items() if f not in lay.values()}
        return self.layout

    def entry_layout(self, it):
        """field -> ("unitary" | "qubits" | "other", constant value), read off the constructor's result; None: some field depends
        on the arguments in another way."""
        if self.elayout is None:
            e = self.cls("UnitarySequenceEntry")
            s = z3.Const("self!", U)
            self.reveal(it, Ent(s, e, "arg"))
            tp = self.templates[(e.qual, "")]
            lay = {}
            for name, v in tp.fields.items():
                if isinstance(v, Ent) and v.term.eq(Eu(s)):
                    lay[name] = ("unitary", None)
                elif isinstance(v, LVal) and v.kind == "list" and M.key(v) == M.key(LVal((tab(En(s), lambda i: Eq(s, i)),), "list", "arg")):
                    lay[name] = ("qubits", None)
                elif not mentions(v, {"self!"}):
                    lay[name] = ("other", v)
                else:
                    lay = False
                    break
            self.elayout = lay
        return self.elayout or None

    elayout = None

    def entry_fields(self, tp):
        f = {}
        for k, v in tp.fields.items():
            f[k] = Undef("cache of an arbitrary entry") if isinstance(v, DVal) else v
        return OVal(tp.cls, f, tp.tag)

    def term_value(self, it, t, tag):
        """A term's fields (HamiltonianTerm contract): dimension, coefficient, normalized matrix."""
        c = self.cls("HamiltonianTerm")
        d = Tdim(t)
        arg = lambda s: MVal(M.Mat.of(M.FAtom(Tmat(s), Tdim(s), Tdim(s), {"hermitian"})), "complex", "arg")

        def given(it, s):
            it.cx.assume(Tdim(s) >= 1)
            it.cx.assume(zreal(L.sigma_max(it, arg(s).mat)) > 0)
        tp = self.template(c, "", lambda s: {"matrix": arg(s)}, given)
        f = {}
        nm = M.Mat.of(M.FAtom(Tnm(t), d, d, {"hermitian"}))
        for k, v in tp.fields.items():
            if k == "dimension" or (is_int(v) and M.key(v) == M.key(Tdim(z3.Const("self!", U)))):
                f[k] = d
            elif k == "coefficient" or (k != "normalized_matrix" and is_num(v)):
                f[k] = Tco(t)
            elif isinstance(v, MVal):
                f[k] = MVal(nm, "complex", tag)
            else:
                raise Unsupported(f"field {k} of HamiltonianTerm")
        return OVal(c, f, tag)

    # ------------------------------------------------------------ unitaries
    def fields_of(self, it, v):
        if isinstance(v, Ref):
            v = it.cx.get(v)
        if isinstance(v, Ent):
            v = self.reveal(it, v)
        if not hasattr(v, "fields"):
            raise Unsupported("an attribute of a value of which only the existence is known")
        return v.fields

    def role(self, it, v, role):
        f = self.fields_of(it, v)
        x = f[self.unitary_layout()[role]]
        if isinstance(x, Undef):
            raise Unsupported(f"{role} of a unitary: {x.why}")
        return x

    def unitary_mat(self, it, v):
        x = self.role(it, v, "matrix")
        return it.cx.get(x).mat if isinstance(x, Ref) else x.mat

    def make_unitary(self, it, mat, name=ANY, params=None, inv=False, apply_to=None, frozen=False):
        """A Unitary object with the given attributes and nothing else known."""
        cx = it.cx
        lay = self.unitary_layout()
        f = {k: Undef(f"field {k} of a unitary") for k in self.layout_extra}
        for k, v in self.layout_extra.items():
            if not mentions(v, {"self!"}):
                f[k] = v
            elif is_int(v) and M.key(v) == M.key(Udim(z3.Const("self!", U))):
                f[k] = mat.rows
        f[lay["operation_name"]] = name
        f[lay["is_inverse"]] = inv
        if frozen:
            f[lay["matrix"]] = MVal(mat, "complex", "new")
            f[lay["parameter_dict"]] = DVal((), "new") if params is None else params
            f[lay["apply_to"]] = LVal((), "list", "new") if apply_to is None else apply_to
            return OVal(self.cls("Unitary"), f, "new")
        f[lay["matrix"]] = cx.new(ArrC(mat, "complex"))
        f[lay["parameter_dict"]] = cx.new(DictC(())) if params is None else params
        f[lay["apply_to"]] = cx.new(ListC((), "list", "default")) if apply_to is None else apply_to
        return cx.new(ObjC(self.cls("Unitary"), f, "new"))

    def unitary_with(self, it, mat, name=None):
        """A unitary of which only the matrix is specified: everything else is arbitrary."""
        cx = it.cx

        def family(nm, sort):
            nm = f"{nm}!{cx.n(nm)}"
            ls = tuple(cx.loops)
            f = z3.Function(nm, *[x.sort() for x in ls], I, sort)
            return lambda i: f(*ls, i)
        n, q = cx.fresh("any_params", I), cx.fresh("any_qubits", I)
        cx.ax(z3.And(n >= 0, q >= 0))
        pn, pv, pa, qs = family("any_pname", NAME), family("any_pval", R), family("any_pangle", B), family("any_qubit", I)
        return self.make_unitary(it, mat, name_of(cx.fresh("any_name", NAME)), DVal((tab(n, lambda i: (name_of(pn(i)), (pv(i), pa(i)))),), "new"),
                                 cx.fresh("any_marker", B), LVal((tab(q, qs),), "list", "new"), frozen=True)

    # ------------------------------------------------------------ matrices
    def allclose(self, it, A, Bm, rtol, atol):
        """Numerical closeness of two matrices that are not identical."""
        cx = it.cx
        if not (isinstance(rtol, Fraction) and isinstance(atol, Fraction)):
            raise Unsupported("allclose with unknown tolerances")
        if rtol == Fraction(1, 10 ** 5) and atol == Fraction(1, 10 ** 8):
            # A against the identity, A = W W^dagger: unitarity of W
            for P, Q in ((A, Bm), (Bm, A)):
                if Q.single() and not Q.word and not Q.terms[0][1] and Q.terms[0][0] == X.of(1) and P.single():
                    w = self.half(cx, P)
                    if w is not None:
                        return self.is_unitary(it, w)
            # A against its own adjoint
            if cx.same_mat(A.dagger(), Bm):
                return self.predicate(it, "hermitian", A)
        ex = self.explicit(A), self.explicit(Bm)
        if ex[0] is not None and ex[1] is not None:
            return self.expl_close(it, ex[0], ex[1], rtol, atol)
        return cx.skolem("allclose", None, None, B, (M.Mat.of(M.FOpaque(f"tol{rtol},{atol}", (), 1, 1)), A, Bm))

    def explicit(self, m):
        if m.single() and not m.terms[0][1] and len(m.word) <= 1:
            s, _, w = m.terms[0]
            if not w and isinstance(m.rows, int) and m.rows <= 16:
                return M.FExpl(m.rows, m.rows, [s if i == j else X({}) for i in range(m.rows) for j in range(m.rows)])
            if w and isinstance(w[0], M.FExpl):
                return M.FExpl(w[0].n, w[0].m, [s * x for x in w[0].e])
        return None

    def expl_close(self, it, A, Bm, rtol, atol):
        out = True
        for x, y in zip(A.e, Bm.e):
            d, b = L.absolute(it, L.low(x - y)), L.absolute(it, L.low(y))
            out = L.and_(out, L.compare_nums(it, "<=", d, L.arith(it, "+", atol, L.arith(it, "*", rtol, b))))
        return out

    def half(self, cx, P):
        """W if P is W W^dagger with W a single word (scalars included)."""
        s, d, w = P.terms[0]
        if len(w) == 1 and isinstance(w[0], M.FExpl):
            return None
        if len(w) % 2 or d:
            return None
        h = len(w) // 2
        left = w[:h]
        dag = [g for f in reversed(left) for g in f.flip(True, True)]
        if not cx.same_word(tuple(dag), w[h:]):
            return None
        if not (s.is_poly() or s.is_real()):
            return None
        return s, left

    def is_unitary(self, it, half):
        s2, word = half
        word = [f.mat.word[0] if isinstance(f, M.FClean) and small(f.eps) and f.mat.single() and len(f.mat.word) == 1 and f.mat.terms[0][0] == X.of(1) else f for f in word]
        r = M.Mat(word[0].dims()[0], word[-1].dims()[1], [(s2, (), tuple(word))])
        return self.predicate(it, "unitary", r)

    def predicate(self, it, kind, m):
        cx = it.cx
        rest = m
        if kind == "hermitian" and m.single() and len(m.word) == 1:
            f = m.word[0]
            if isinstance(f, M.FAtom) and f.t and f.c:
                rest = m.dagger()
        b = cx.skolem("is_" + kind, None, None, B, rest)
        cx.preds[b.sexpr()] = (kind, rest)
        return b

    def settled(self, it, m):
        """m with cleaning below 1e-12 ignored and the properties found to hold on this path recorded in its factors."""
        cx = it.cx

        def f(x):
            if isinstance(x, M.FClean) and small(x.eps) and x.mat.single() and x.mat.terms[0][0] == X.of(1) and not x.mat.terms[0][1]:
                return [y for g in x.mat.word for y in f(g)]
            if isinstance(x, M.FAtom):
                p = set(x.props)
                for kind in ("unitary", "hermitian"):
                    b = cx.skolem("is_" + kind, None, None, B, M.Mat.of(M.FAtom(x.term, x.rows, x.cols)))
                    if kind not in p and b.sexpr() in cx.preds and cx.entails(b):
                        p.add(kind)
                return [M.FAtom(x.term, x.rows, x.cols, p, x.t, x.c)]
            return [x]
        return M.Mat(m.rows, m.cols, [(s, tuple((g, e) for y, e in d for g in f(y)), M.simplify([g for x in w for g in f(x)])) for s, d, w in m.terms], m.phase)

    def embed_rule(self, cx, m):
        """P (A x 1) P^T is A applied to the qubits of P (contract of get_permute_matrix)."""
        if not m.single():
            return m
        s, d, w = m.terms[0]
        for i in range(len(w) - 2):
            p, k, q = w[i:i + 3]
            if isinstance(p, M.FPerm) and isinstance(q, M.FPerm) and not p.t and q.t and cx.same_content(p.qubits, q.qubits) and cx.eqz(p.D, q.D):
                kk = cx.length(cx.norm_content(p.qubits))
                op = None
                if isinstance(k, M.FKron) and k.b.single() and not k.b.word and not k.b.terms[0][1] and k.b.terms[0][0] == X.of(1):
                    op = k.a
                if op is not None and cx.eqz(op.rows, cx.pow2(kk)) and cx.eqz(L_mul(op.rows, k.b.rows), p.D):
                    e = M.FEmb(op, p.qubits, p.D)
                    return self.embed_rule(cx, M.Mat(m.rows, m.cols, [(s, d, M.simplify(w[:i] + (e,) + w[i + 3:]))], m.phase or op.phase))
                if cx.eqz(kk, cx.ilog2(p.D)) and not isinstance(k, M.FKron) and k.unitary():
                    return m
        return m

    # ------------------------------------------------------------ calls
    def contract(self, qual, self_, it):
        c = self.contracts.get(qual)
        if c is None or qual in it.cx.inline:
            return None
        if qual in ("Compiler.compile", "Compiler.compile_layered") and not (isinstance(self_, Ref) and "%prims" in it.cx.get(self_).fields):
            return None
        if qual.startswith("UnitarySequence."):
            if qual == "UnitarySequence.__init__" or isinstance(self_, ClassVal):
                return None if it.cx.concrete_sequences else c
            if isinstance(self_, (Ref, OVal)) and "%entries" not in (it.cx.get(self_) if isinstance(self_, Ref) else self_).fields:
                return None
        return c

    def apply_unknown(self, it, f, args, kwargs):
        """An arbitrary matrix function: a matrix that depends on the arguments and nothing else."""
        cx = it.cx
        star = kwargs.get("*", ())
        if set(kwargs) - {"*"}:
            raise Unsupported("keyword arguments of an arbitrary function")
        content = tuple(El(a) for a in args) + tuple(star)
        content = cx.norm_content(tuple(cx.freeze(c) for c in content))
        lst = LVal(content, "list")
        key = (f.args[0], lst)
        rows = cx.skolem("apply.rows", None, None, I, key)
        cols = cx.skolem("apply.cols", None, None, I, key)
        arity = cx.skolem("apply.accepts", None, None, B, key)
        cx.ax(z3.And(rows >= 0, cols >= 0))
        return cx.new(ArrC(M.Mat.of(M.FAtom(cx.skolem("apply", None, None, MS, key), rows, cols)), "complex"))


def small(eps):
    return isinstance(eps, Fraction) and eps <= Fraction(1, 10 ** 12)


def L_mul(a, b):
    return M.mul(a, b)
