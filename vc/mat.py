"""Matrix terms: linear combinations of words of factors, with exact scalars. `phase` marks a value known only up to a
factor of modulus one (what the Unitary constructor's balancing leaves unspecified). Facts used: associativity,
(AB)^dagger = B^dagger A^dagger, U U^dagger = 1 for factors known to be unitary, (A kron B)(C kron D) = AC kron BD,
exp(iH) exp(iH) laws for one and the same H, and that embedding an operator into a register is a *-homomorphism."""
import z3

from .alg import X, NotPoly, cyc_zero
from .values import children_map, is_z3, LVal, Sl, El, Tab

MS = z3.DeclareSort("Matrix")


class Factor:
    __slots__ = ()
    props = frozenset()

    def unitary(self):
        return "unitary" in self.props

    def hermitian(self):
        return "hermitian" in self.props

    def __repr__(self):
        return show(self)


class FAtom(Factor):
    """Unknown matrix `term`, transposed (t) and/or conjugated (c)."""
    __slots__ = ("term", "rows", "cols", "props", "t", "c")

    def __init__(self, term, rows, cols, props=frozenset(), t=False, c=False):
        props = frozenset(props)
        if "hermitian" in props and t and c:
            t = c = False
        if "hermitian" in props and t:
            t, c = False, True
        self.term, self.rows, self.cols, self.props, self.t, self.c = term, rows, cols, props, t, c

    def dims(self):
        return (self.cols, self.rows) if self.t else (self.rows, self.cols)

    def flip(self, t, c):
        return [FAtom(self.term, self.rows, self.cols, self.props, self.t ^ t, self.c ^ c)]

    def map(self, f):
        return FAtom(f(self.term), f(self.rows), f(self.cols), self.props, self.t, self.c)

    def parts(self):
        return ("atom", self.t, self.c, self.term)


class FExpl(Factor):
    """Explicit n x m matrix with entries in X."""
    __slots__ = ("n", "m", "e")

    def __init__(self, n, m, e):
        self.n, self.m, self.e = n, m, tuple(e)

    def dims(self):
        return self.n, self.m

    def at(self, i, j):
        return self.e[i * self.m + j]

    @property
    def props(self):
        out = set()
        if self.n == self.m:
            p = self.times(self.flip(True, True)[0])
            if all(p.at(i, j) == X.of(int(i == j)) for i in range(self.n) for j in range(self.n)):
                out.add("unitary")
            if all((self.at(i, j) - self.at(j, i).conj()).is_zero() for i in range(self.n) for j in range(self.n)):
                out.add("hermitian")
        return frozenset(out)

    def times(self, o):
        z = X({})
        return FExpl(self.n, o.m, [sum((self.at(i, k) * o.at(k, j) for k in range(self.m)), z) for i in range(self.n) for j in range(o.m)])

    def flip(self, t, c):
        n, m = (self.m, self.n) if t else (self.n, self.m)
        g = (lambda i, j: self.at(j, i)) if t else self.at
        return [FExpl(n, m, [g(i, j).conj() if c else g(i, j) for i in range(n) for j in range(m)])]

    def map(self, f):
        return FExpl(self.n, self.m, [f(x) for x in self.e])

    def parts(self):
        return ("expl", self.n, self.m) + self.e


class FKron(Factor):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def dims(self):
        return mul(self.a.rows, self.b.rows), mul(self.a.cols, self.b.cols)

    @property
    def props(self):
        return self.a.props() & self.b.props()

    def flip(self, t, c):
        return [FKron(self.a.flip(t, c), self.b.flip(t, c))]

    def map(self, f):
        return FKron(f(self.a), f(self.b))

    def parts(self):
        return ("kron", self.a, self.b)


class FExpI(Factor):
    """exp(i H), H a hermitian linear combination (a Mat)."""
    __slots__ = ("h", "t", "c")
    props = frozenset({"unitary"})

    def __init__(self, h, t=False, c=False):
        if t and c:
            h, t, c = h.scale(X.of(-1)), False, False
        self.h, self.t, self.c = h, t, c

    def dims(self):
        return self.h.rows, self.h.rows

    def flip(self, t, c):
        return [FExpI(self.h, self.t ^ t, self.c ^ c)]

    def map(self, f):
        return FExpI(f(self.h), self.t, self.c)

    def parts(self):
        return ("expi", self.t, self.c, self.h)


class FEmb(Factor):
    """The operator mat applied to the listed qubits of a register of dimension D (identity elsewhere)."""
    __slots__ = ("mat", "qubits", "D")

    def __init__(self, mat, qubits, D):
        self.mat, self.qubits, self.D = mat, tuple(qubits), D

    def dims(self):
        return self.D, self.D

    @property
    def props(self):
        return self.mat.props()

    def flip(self, t, c):
        return [FEmb(self.mat.flip(t, c), self.qubits, self.D)]

    def map(self, f):
        return FEmb(f(self.mat), tuple(f(x) for x in self.qubits), f(self.D))

    def parts(self):
        return ("emb", self.D, self.mat) + self.qubits


class FPerm(Factor):
    """The permutation matrix that moves the first tensor factors to the listed qubits, in order, and the rest, in
    increasing order, to the remaining ones."""
    __slots__ = ("qubits", "D", "t")
    props = frozenset({"unitary"})

    def __init__(self, qubits, D, t=False):
        self.qubits, self.D, self.t = tuple(qubits), D, t

    def dims(self):
        return self.D, self.D

    def flip(self, t, c):
        return [FPerm(self.qubits, self.D, self.t ^ t)]

    def map(self, f):
        return FPerm(tuple(f(x) for x in self.qubits), f(self.D), self.t)

    def parts(self):
        return ("perm", self.t, self.D) + self.qubits


def reversed_daggers(t):
    """The template whose product is the adjoint of that of t (a matrix, or the elements a flat block contributes)."""
    if not isinstance(t, LVal):
        return t.dagger()
    out = []
    for c in reversed(t.content):
        if isinstance(c, El):
            out.append(El(c.v.dagger()))
        else:
            out.append(Sl(Tab(c.tab.var, reversed_daggers(c.tab.template), c.tab.facts), c.lo, c.hi, not c.rev, c.cond, c.flat))
    return LVal(tuple(out), t.kind, t.tag)


class FProd(Factor):
    """Product of the unitaries tab(hi-1) ... tab(lo) (later index leftmost); dagger if dag; flags t,c otherwise."""
    __slots__ = ("sl", "D", "dag", "t")
    props = frozenset({"unitary"})

    def __init__(self, sl, D, dag=False, t=False):
        if sl.rev:
            # reversed order: (product of the daggers)^dagger
            tab = Tab(sl.tab.var, reversed_daggers(sl.tab.template), ())
            sl = Sl(tab, sl.lo, sl.hi, False, sl.cond, sl.flat)
            dag = not dag
        self.sl, self.D, self.dag, self.t = sl, D, dag, t

    def dims(self):
        return self.D, self.D

    def flip(self, t, c):
        dag, tt = self.dag, self.t
        if t and c:
            return [FProd(self.sl, self.D, not dag, tt)]
        if t:
            return [FProd(self.sl, self.D, dag, not tt)]
        if c:
            return [FProd(self.sl, self.D, not dag, not tt)]
        return [self]

    def map(self, f):
        return FProd(f(self.sl), f(self.D), self.dag, self.t)

    def parts(self):
        return ("prod", self.dag, self.t, self.D, self.sl)


class FSum(Factor):
    """Sum of tab(lo) + ... + tab(hi-1)."""
    __slots__ = ("sl", "rows", "cols")

    def __init__(self, sl, rows, cols):
        self.sl, self.rows, self.cols = sl, rows, cols

    def dims(self):
        return self.rows, self.cols

    @property
    def props(self):
        return self.sl.tab.template.props() & frozenset({"hermitian"})

    def flip(self, t, c):
        tab = Tab(self.sl.tab.var, self.sl.tab.template.flip(t, c), ())
        return [FSum(Sl(tab, self.sl.lo, self.sl.hi, False, self.sl.cond, self.sl.flat), *((self.cols, self.rows) if t else (self.rows, self.cols)))]

    def map(self, f):
        return FSum(f(self.sl), f(self.rows), f(self.cols))

    def parts(self):
        return ("sum", self.rows, self.sl)


class FClean(Factor):
    """mat with real and imaginary parts of magnitude below eps replaced by zero."""
    __slots__ = ("mat", "eps", "which", "extra")

    def __init__(self, mat, eps, which, extra=frozenset()):
        self.mat, self.eps, self.which, self.extra = mat, eps, which, frozenset(extra)

    @property
    def props(self):
        return self.extra

    def dims(self):
        return self.mat.rows, self.mat.cols

    def flip(self, t, c):
        return [FClean(self.mat.flip(t, c), self.eps, self.which, self.extra)]

    def map(self, f):
        return FClean(f(self.mat), f(self.eps), self.which, self.extra)

    def parts(self):
        return ("clean", str(self.eps), "".join(sorted(self.which)), self.mat)


class FOpaque(Factor):
    """Some other function of matrices, by name."""
    __slots__ = ("name", "args", "rows", "cols")

    def __init__(self, name, args, rows, cols):
        self.name, self.args, self.rows, self.cols = name, tuple(args), rows, cols

    def dims(self):
        return self.rows, self.cols

    def flip(self, t, c):
        return [FOpaque(f"{self.name}.{'T' if t else ''}{'C' if c else ''}", self.args, *((self.cols, self.rows) if t else (self.rows, self.cols)))]

    def map(self, f):
        return FOpaque(self.name, [f(a) for a in self.args], f(self.rows), f(self.cols))

    def parts(self):
        return ("opaque", self.name) + self.args


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return a * b


class Mat:
    """sum of scalar * dets * word; dets: tuple of (Factor, X): det(factor)^exponent."""
    __slots__ = ("rows", "cols", "terms", "phase")

    def __init__(self, rows, cols, terms, phase=False):
        self.rows, self.cols, self.terms, self.phase = rows, cols, tuple(terms), phase

    @staticmethod
    def identity(d):
        return Mat(d, d, [(X.of(1), (), ())])

    @staticmethod
    def of(factor, phase=False):
        r, c = factor.dims()
        return Mat(r, c, [(X.of(1), (), (factor,))], phase)

    @staticmethod
    def explicit(rows):
        n, m = len(rows), len(rows[0])
        return Mat.of(FExpl(n, m, [X.of(x) for r in rows for x in r]))

    def single(self):
        return len(self.terms) == 1

    @property
    def word(self):
        assert self.single()
        return self.terms[0][2]

    def props(self):
        if self.single():
            s, dets, w = self.terms[0]
            out = set()
            if all(f.unitary() for f in w) and (s * s.conj() - X.of(1)).is_zero() and unimodular(dets):
                out.add("unitary")
            if not self.phase and not dets and s.is_real() and (len(w) == 0 or (len(w) == 1 and w[0].hermitian())):
                out.add("hermitian")
            return frozenset(out)
        if not self.phase and all(not d and s.is_real() and (len(w) == 0 or (len(w) == 1 and w[0].hermitian())) for s, d, w in self.terms):
            return frozenset({"hermitian"})
        return frozenset()

    def scale(self, s, dets=()):
        s = X.of(s)
        return Mat(self.rows, self.cols, fold([(s * a, dets_mul(d, dets), w) for a, d, w in self.terms if not s.is_zero()], self.rows, self.cols), self.phase)

    def flip(self, t, c):
        out = []
        for s, d, w in self.terms:
            w2 = []
            for f in (reversed(w) if t else w):
                w2.extend(f.flip(t, c))
            out.append((s.conj() if c else s, tuple((f, -e) for f, e in d) if c and unimodular(d) else d, simplify(w2)))
        return Mat(*((self.cols, self.rows) if t else (self.rows, self.cols)), out, self.phase)

    def dagger(self):
        return self.flip(True, True)

    def times(self, o):
        out = [(a * b, dets_mul(d, e), simplify(v + w)) for a, d, v in self.terms for b, e, w in o.terms]
        return Mat(self.rows, o.cols, fold(collect(out), self.rows, o.cols), self.phase or o.phase)

    def plus(self, o):
        return Mat(self.rows, self.cols, fold(collect(self.terms + o.terms), self.rows, self.cols), self.phase or o.phase)

    def map(self, f):
        return Mat(f(self.rows), f(self.cols), [(f(s), tuple((f(a), f(e)) for a, e in d), simplify([f(x) for x in w])) for s, d, w in self.terms], self.phase)

    def strip(self):
        """Forget a unimodular scalar of a single term."""
        return Mat(self.rows, self.cols, [(X.of(1), (), self.word)], True)

    def parts(self):
        return ("mat", self.phase, self.rows, self.cols) + tuple(x for s, d, w in self.terms for x in ("term", s) + tuple(y for f, e in d for y in ("det", f, e)) + w)

    def __repr__(self):
        return show(self)


def no_phase(f):
    """The factor without the marks of unknown phases: equal to it up to one."""
    if isinstance(f, FEmb):
        return FEmb(no_phase(f.mat), f.qubits, f.D)
    if isinstance(f, FKron):
        return FKron(no_phase(f.a), no_phase(f.b))
    if isinstance(f, FProd):
        return FProd(no_phase(f.sl), f.D, f.dag, f.t)
    if isinstance(f, Mat):
        return Mat(f.rows, f.cols, [(s, d, tuple(no_phase(g) for g in w)) for s, d, w in f.terms]) if f.single() else Mat(f.rows, f.cols, f.terms)
    if isinstance(f, Sl):
        return Sl(Tab(f.tab.var, no_phase(f.tab.template), f.tab.facts), f.lo, f.hi, f.rev, f.cond, f.flat)
    if isinstance(f, LVal):
        return LVal(tuple(El(no_phase(c.v)) if isinstance(c, El) else no_phase(c) for c in f.content), f.kind, f.tag)
    return f


def unimodular(dets):
    """det(f)^e with f unitary and e real has modulus one."""
    return all(f.unitary() and e.is_real() for f, e in dets)


def dets_mul(a, b):
    out = list(a)
    for f, e in b:
        for i, (g, h) in enumerate(out):
            if key(g) == key(f):
                out[i] = (g, h + e)
                break
        else:
            out.append((f, e))
    return tuple((f, e) for f, e in out if not e.is_zero())


def collect(terms):
    out = []
    for s, d, w in terms:
        k = (tuple((key(f), e.key()) for f, e in d), tuple(key(f) for f in w))
        for i, (k2, s2, d2, w2) in enumerate(out):
            if k2 == k:
                out[i] = (k, s2 + s, d, w)
                break
        else:
            out.append((k, s, d, w))
    # an explicit sum of explicit matrices
    out = [x for x in out if not x[1].is_zero()]
    ex = [x for x in out if len(x[3]) == 1 and isinstance(x[3][0], FExpl) and not x[2]]
    if len(ex) > 1:
        n, m = ex[0][3][0].n, ex[0][3][0].m
        tot = [X({})] * (n * m)
        for _, s, _, w in ex:
            tot = [a + s * b for a, b in zip(tot, w[0].e)]
        out = [x for x in out if x not in ex] + [(None, X.of(1), (), (FExpl(n, m, tot),))]
    return [(s, d, w) for _, s, d, w in sorted(out, key=lambda x: str(x[0]))]


def fold(terms, rows, cols):
    """Explicit matrices absorb their scalars; a sum of explicit matrices and multiples of the identity is explicit."""
    out = []
    for s, d, w in terms:
        if not d and len(w) == 1 and isinstance(w[0], FExpl) and s != X.of(1):
            w, s = (FExpl(w[0].n, w[0].m, [s * x for x in w[0].e]),), X.of(1)
        out.append((s, d, w))
    if len(out) > 1 and all(not d and (not w or len(w) == 1 and isinstance(w[0], FExpl)) for s, d, w in out) and any(w for _, _, w in out):
        n, m = next(w[0].dims() for _, _, w in out if w)
        tot = [X({})] * (n * m)
        for s, _, w in out:
            tot = [t + (s * w[0].e[k] if w else s * X.of(int(k // m == k % m))) for k, t in enumerate(tot)]
        out = [(X.of(1), (), (FExpl(n, m, tot),))]
    return out


def simplify(word):
    """Cheap syntactic normal form; engine.reduce_word does the rest under the path condition."""
    out = []
    for f in word:
        f = single_factor(f)
        for g in f:
            push(out, g)
    return tuple(out)


def single_factor(f):
    if isinstance(f, FKron) and f.a.single() and f.b.single() and not f.a.phase and not f.b.phase:
        if not f.a.word and not f.b.word and f.a.terms[0][0] == X.of(1) and f.b.terms[0][0] == X.of(1) and not f.a.terms[0][1] and not f.b.terms[0][1]:
            return []
        if isinstance(f.b.rows, int) and f.b.rows == 1 and not f.b.word and f.b.terms[0][0] == X.of(1):
            return list(f.a.word) if f.a.terms[0][0] == X.of(1) else [f]
    if isinstance(f, FEmb) and f.mat.single() and not f.mat.word and f.mat.terms[0][0] == X.of(1):
        return []
    if isinstance(f, FExpl) and f.n == f.m and all(f.at(i, j) == X.of(int(i == j)) for i in range(f.n) for j in range(f.n)):
        return []
    if isinstance(f, FExpI) and not f.h.terms:
        return []
    return [f]


def push(out, g):
    while True:
        if not out:
            out.append(g)
            return
        f = out[-1]
        if isinstance(f, FExpl) and isinstance(g, FExpl) and f.m == g.n:
            out.pop()
            r = single_factor(f.times(g))
            if not r:
                return
            g = r[0]
            continue
        if f.unitary() and key(f.flip(True, True)[0]) == key(g):
            out.pop()
            return
        if isinstance(f, FEmb) and isinstance(g, FEmb) and tuple(map(key, f.qubits)) == tuple(map(key, g.qubits)) and key(f.D) == key(g.D):
            out.pop()
            r = single_factor(FEmb(f.mat.times(g.mat), f.qubits, f.D))
            if not r:
                return
            g = r[0]
            continue
        if isinstance(f, FKron) and isinstance(g, FKron) and key(f.a.cols) == key(g.a.rows) and key(f.b.cols) == key(g.b.rows):
            out.pop()
            r = single_factor(FKron(f.a.times(g.a), f.b.times(g.b)))
            if not r:
                return
            g = r[0]
            continue
        if isinstance(f, FExpI) and isinstance(g, FExpI) and not (f.t or f.c or g.t or g.c) and commuting(f.h, g.h):
            out.pop()
            r = single_factor(FExpI(f.h.plus(g.h)))
            if not r:
                return
            g = r[0]
            continue
        out.append(g)
        return


def commuting(h, k):
    return h.single() and k.single() and tuple(map(key, h.word)) == tuple(map(key, k.word))


# ---------------------------------------------------------------- structural keys
def parts_of(v):
    """(tag, children...) of any value, for keys and comparison; None if v is a leaf."""
    from . import values as V
    if isinstance(v, (Mat, Factor)):
        return v.parts()
    if isinstance(v, tuple):
        return ("tuple",) + v
    if isinstance(v, V.Ent):
        return ("ent", v.term)
    if isinstance(v, V.OVal):
        return ("obj", v.cls.name) + tuple(x for k in sorted(v.fields) for x in (k, v.fields[k]))
    if isinstance(v, V.LVal):
        return ("list", v.kind) + v.content
    if isinstance(v, V.DVal):
        return ("dict",) + v.content
    if isinstance(v, V.MVal):
        return ("arr", v.mat)
    if isinstance(v, V.El):
        return ("el", v.v)
    if isinstance(v, V.Sl):
        return ("sl", v.rev, v.flat, v.cond is not None, v.lo, v.hi, v.tab)
    if isinstance(v, V.Shuf):
        return ("shuf", v.tag) + v.content
    if isinstance(v, V.Str):
        return ("str",) + v.parts
    if isinstance(v, V.SName):
        return ("name", v.term)
    if isinstance(v, V.SOf):
        return ("of", v.kind) + v.args
    if isinstance(v, V.SJoin):
        return ("join", v.sep) + v.content
    if isinstance(v, V.NpInt):
        return ("npint", v.v)
    if isinstance(v, V.Opaque):
        return ("opq", v.kind) + v.args
    if isinstance(v, V.Bound):
        return ("bound", v.func.qual, v.self)
    if isinstance(v, V.FuncVal):
        d = v.defaults
        d = tuple(x for kv in sorted(d.items()) for x in kv) if isinstance(d, dict) else tuple(d or ())
        if isinstance(v.env, V.OVal):
            return ("func", v.qual, v.node.lineno, v.env, d)
        return ("func", v.qual, v.node.lineno, str(v.env), d)
    if isinstance(v, V.ClassVal):
        return ("class", v.qual)
    if isinstance(v, V.EnumMember):
        return ("enum", v.cls.name, v.name)
    return None


def key(v):
    """Structural key; bound variables are named by depth, so alpha-equivalent values have equal keys."""
    return _key(v, {})


def _key(v, bound):
    from . import values as V
    if isinstance(v, Tab):
        b = dict(bound)
        b[v.var.decl().name()] = f"%{len(bound)}"
        return f"({b[v.var.decl().name()]}:{_key(v.template, b)})"
    if isinstance(v, V.Sl) and v.cond is not None:
        b = dict(bound)
        b[v.tab.var.decl().name()] = f"%{len(bound)}"
        return f"(sl {v.rev} {v.flat} {_key(v.lo, bound)} {_key(v.hi, bound)} {_key(v.tab, bound)} if {_key(v.cond, b)})"
    if is_z3(v):
        return zkey(v, bound)
    if isinstance(v, X):
        return zkey_x(v, bound)
    p = parts_of(v)
    if p is None:
        return repr(v)
    return "(" + " ".join(_key(x, bound) if not isinstance(x, (str, bool)) else repr(x) for x in p) + ")"


def zkey(t, bound):
    s = z3.simplify(t, som=True) if t.sort() in (z3.IntSort(), z3.RealSort()) else t
    k = s.sexpr()
    for n, d in bound.items():
        if n in k:
            k = k.replace(n, d)
    return k


def zkey_x(x, bound):
    k = repr(x.key())
    for n, d in bound.items():
        if n in k:
            k = k.replace(n, d)
    return k


def show(v):
    try:
        return key(v)[:600]
    except Exception as e:  # noqa: BLE001
        return f"<{type(v).__name__}: {e}>"
