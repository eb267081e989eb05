"""Numeric refutation: a countermodel of the path condition is evaluated with floating point, arbitrary matrices replaced by
random ones with the assumed properties. Two terms are reported different only if they differ in an evaluation in which
every formula of the path condition holds."""
import hashlib
import math
from fractions import Fraction

import numpy as np
import scipy.linalg
import z3

from . import alg, mat as M
from .alg import X
from .values import *


class Inconclusive(Exception):
    pass


def rv(v):
    return z3.RealVal(str(v if isinstance(v, Fraction) else Fraction(v).limit_denominator(10 ** 9)))


WILD = ("wild",)


def has_wild(v):
    if v is WILD:
        return True
    if isinstance(v, (list, tuple)):
        return any(has_wild(x) for x in v)
    if isinstance(v, dict):
        return any(has_wild(x) for x in v.values())
    return False


def unlike(a, b, where=""):
    """The first definite difference between two evaluated values, or None."""
    if a is WILD or b is WILD:
        return None
    num = lambda x: isinstance(x, (int, float, complex, Fraction, np.number))
    if num(a) and num(b):
        x, y = complex(a), complex(b)
        if (isinstance(a, bool) or isinstance(b, bool)) and a != b:
            return f"{where}: {a} and {b}"
        if abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
            return f"{where}: {show(a)} and {show(b)}"
        return None
    if type(a) is not type(b):
        return f"{where}: {show(a)} and {show(b)}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{where}: {len(a)} and {len(b)} elements"
        for i, (x, y) in enumerate(zip(a, b)):
            r = unlike(x, y, f"{where}[{i}]")
            if r:
                return r
        return None
    if a is None:
        return None
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return f"{where}: {show(a)} and {show(b)}"
        if a[0] == "text":
            x, y = a[1], b[1]
            kx = sorted(t[0] for t in x if not isinstance(t, str))
            ky = sorted(t[0] for t in y if not isinstance(t, str))
            if [t for t in kx if t != "name"] != [t for t in ky if t != "name"]:
                return None
            if len(x) == len(y) and all(u == v or (not isinstance(u, str) and not isinstance(v, str) and near(u, v)) for u, v in zip(x, y)):
                return None
            return f"{where}: {show(x)} and {show(y)}"
        if a[0] == "dict":
            return unlike(a[1], b[1], where)
        if a[0] == "mat":
            return unlike_mat(a[1], b[1], a[2] or b[2], where)
        if a[0] == "ent":
            return None
        if a[0] == "enum":
            return None if a == b else f"{where}: {a[2]} and {b[2]}"
        if a[0] == "obj":
            if a[1] != b[1]:
                return f"{where}: {a[1]} and {b[1]}"
            if a[2] is not None and a[2] == b[2]:
                return None
            for k in a[3]:
                if k in b[3]:
                    r = unlike(a[3][k], b[3][k], f"{where}.{k}")
                    if r:
                        return r
            return None
    return None


def near(u, v):
    return len(u) == len(v) and u[0] == v[0] and all((p == q) or (isinstance(p, (int, float, Fraction)) and isinstance(q, (int, float, Fraction)) and abs(p - q) < 1e-9) for p, q in zip(u[1:], v[1:]))


def unlike_mat(a, b, phase, where=""):
    if a.shape != b.shape:
        return f"{where}: shapes {a.shape} and {b.shape}"
    if phase:
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if abs(na - nb) > 1e-6 * max(1, na, nb):
            return f"{where}: norms {na:.6f} and {nb:.6f}"
        gap = 1 - abs(np.vdot(a, b)) / max(na * nb, 1e-30)
        return f"{where}: matrices with overlap deficit {gap:.6f}" if gap > 1e-6 else None
    g = np.max(np.abs(a - b)) if a.size else 0
    return f"{where}: matrices that differ by {g:.6f}" if g > 1e-6 * max(1.0, np.max(np.abs(a))) else None


def show(v):
    if isinstance(v, Fraction):
        return str(float(v))
    return repr(v)[:120]


class Eval:
    def __init__(self, cx, model, seed):
        self.cx, self.model, self.seed = cx, model, seed
        self.cache = {}

    def num(self, t):
        """Python number / bool of a z3 term."""
        if isinstance(t, (bool, int, float, Fraction, complex)):
            return t
        if isinstance(t, NpInt):
            return self.num(t.v)
        if isinstance(t, X):
            return self.x(t)
        k = t.get_id()
        if k in self.cache:
            return self.cache[k][1]
        r = self._num(t)
        self.cache[k] = (t, r)
        return r

    def _num(self, t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.as_fraction())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not z3.is_app(t):
            raise Inconclusive("quantifier")
        d, a = t.decl(), t.children()
        nm, k = d.name(), d.kind()
        if nm == "pi!":
            return math.pi
        if nm == "pow2":
            n = self.num(a[0])
            if not 0 <= n <= 12:
                raise Inconclusive("size")
            return 2 ** n
        if nm == "ilog2":
            n = self.num(a[0])
            if n < 1:
                raise Inconclusive("log")
            return n.bit_length() - 1
        if k == z3.Z3_OP_UNINTERPRETED:
            if nm in self.cx.defs:
                return self.derived(nm, a)
            if nm.startswith("forall!"):
                return self.quantified(t)
            if "<" in nm:
                raise Inconclusive(nm.split("<")[0])
            if not a:
                return self.value(self.model.eval(t, model_completion=True))
            args = []
            for x in a:
                if x.sort() in (I, R, B):
                    v = self.num(x)
                    args.append(z3.IntVal(v) if x.sort() == I else z3.BoolVal(v) if x.sort() == B else rv(v))
                else:
                    args.append(self.model.eval(self.obj(x), model_completion=True))
            return self.value(self.model.eval(d(*args), model_completion=True))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE):
            return self.lazy(k, a)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and a[0].sort() not in (I, R, B):
            if len(a) != 2:
                raise Inconclusive("distinct")
            same = self.model.eval(self.obj(a[0]), model_completion=True).eq(self.model.eval(self.obj(a[1]), model_completion=True))
            return same == (k == z3.Z3_OP_EQ)
        v = [self.num(x) for x in a]
        op = {z3.Z3_OP_ADD: lambda: sum(v), z3.Z3_OP_MUL: lambda: math.prod(v), z3.Z3_OP_SUB: lambda: v[0] - sum(v[1:]), z3.Z3_OP_UMINUS: lambda: -v[0],
              z3.Z3_OP_DIV: lambda: (Fraction(v[0]) if isinstance(v[0], int) else v[0]) / v[1], z3.Z3_OP_IDIV: lambda: v[0] // v[1], z3.Z3_OP_MOD: lambda: v[0] % v[1], z3.Z3_OP_TO_REAL: lambda: v[0],
              z3.Z3_OP_TO_INT: lambda: math.floor(v[0]), z3.Z3_OP_ITE: lambda: v[1] if v[0] else v[2], z3.Z3_OP_AND: lambda: all(v), z3.Z3_OP_OR: lambda: any(v),
              z3.Z3_OP_NOT: lambda: not v[0], z3.Z3_OP_IMPLIES: lambda: (not v[0]) or v[1], z3.Z3_OP_LE: lambda: self.le(v[0], v[1]), z3.Z3_OP_GE: lambda: self.le(v[1], v[0]),
              z3.Z3_OP_LT: lambda: not self.le(v[1], v[0]), z3.Z3_OP_GT: lambda: not self.le(v[0], v[1]), z3.Z3_OP_EQ: lambda: self.eq(a, v), z3.Z3_OP_DISTINCT: lambda: not self.eq(a, v),
              z3.Z3_OP_POWER: lambda: v[0] ** v[1], z3.Z3_OP_XOR: lambda: v[0] != v[1], z3.Z3_OP_IFF: lambda: v[0] == v[1]}.get(k)
        if op is None:
            raise Inconclusive(nm)
        try:
            return op()
        except ZeroDivisionError:
            raise Inconclusive("division")

    def lazy(self, k, a):
        """Connectives: one conclusive argument may settle the value."""
        if k == z3.Z3_OP_ITE:
            return self.num(a[1] if self.num(a[0]) else a[2])
        if k == z3.Z3_OP_IMPLIES:
            a = [z3.Not(a[0]), a[1]]
        unit = k == z3.Z3_OP_AND
        bad = None
        for x in a:
            try:
                if self.num(x) is not unit:
                    return not unit
            except Inconclusive as e:
                bad = e
        if bad:
            raise bad
        return unit

    def quantified(self, t):
        for q in self.cx.quants:
            key, b, var, lo, hi, body, _ = q
            if b.decl().name() == t.decl().name():
                pairs = [(x, y) for x, y in zip(b.children(), t.children())]
                if pairs:
                    lo, hi, body = (z3.substitute(x, *pairs) for x in (lo, hi, body))
                lo, hi = self.num(lo), self.num(hi)
                if hi - lo > 12:
                    raise Inconclusive("size")
                return self.lazy(z3.Z3_OP_AND, [zbool(self.sub(var, i, body)) for i in range(lo, hi)])
        raise Inconclusive("quantifier")

    def derived(self, nm, a):
        """A function symbol of the verifier, evaluated from what it stands for."""
        name, args, value = self.cx.defs[nm]
        pairs = [(x, y) for x, y in zip(args, a) if not x.eq(y)]
        v = subst(value, pairs)
        name = name.split("<")[0]
        if name == "sqrt":
            x = self.num(v[0])
            if x < 0:
                raise Inconclusive("sqrt")
            r = math.isqrt(x.numerator) if isinstance(x, (int, Fraction)) else 0
            if isinstance(x, (int, Fraction)):
                r, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if r * r == x.numerator and q * q == x.denominator:
                    return Fraction(r, q)
            return math.sqrt(x)
        if name in ("abstr", "sigma_max", "norm_fro", "iszero"):
            r = None
            for f in v if not isinstance(v, M.Mat) else ():
                x = self.factor(f)
                r = x if r is None else r @ x
            if isinstance(v, M.Mat):
                r = self.mat(v)
            if name == "abstr":
                return float(abs(np.trace(r)))
            if name == "iszero":
                return bool(np.max(np.abs(r)) < 1e-9)
            return float(np.linalg.norm(r, 2 if name == "sigma_max" else "fro"))
        if name in ("is_unitary", "is_hermitian"):
            r = self.mat(v)
            if r.shape[0] != r.shape[1]:
                return False
            if name == "is_unitary":
                return bool(np.max(np.abs(r @ r.conj().T - np.identity(len(r)))) < 1e-6)
            return bool(np.max(np.abs(r - r.conj().T)) < 1e-6)
        if name in ("min", "max"):
            xs = self.content((v,), self.num)
            if not xs:
                raise Inconclusive("empty")
            return min(xs) if name == "min" else max(xs)
        if name in ("argmin", "argmax"):
            lo = self.num(v.lo)
            xs = [(self.num(self.sub(v.tab.var, i, v.tab.template)), i) for i in self.indices(v)]
            if not xs:
                raise Inconclusive("empty")
            return (min(xs) if name == "argmin" else max(xs, key=lambda x: (x[0], -x[1])))[1]
        if name == "sum":
            return sum(self.content((v,), self.num))
        if name in ("count", "lensum"):
            return len(self.content((v,), lambda x: 0))
        if name in ("setlen", "distinct"):
            xs = self.content(v.content, self.num)
            return len(set(xs)) if name == "setlen" else len(set(xs)) == len(xs)
        if name == "streq":
            return self.text(v[0]) == self.text(v[1])
        if name == "nonempty":
            return self.text(v) != []
        raise Inconclusive(name)

    # ------------------------------------------------------------ values
    def text(self, v):
        """A string as a list of literal pieces and tokens; a token stands for text that is fixed by its parts."""
        out = []

        def put(x):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        for p in (v.parts if isinstance(v, Str) else [v]):
            if isinstance(p, str):
                put(p)
            elif isinstance(p, SName):
                e = self.model.eval(self.obj(p.term), model_completion=True)
                for c in self.cx.names:
                    if self.model.eval(c, model_completion=True).eq(e):
                        put(c.decl().name()[4:])
                        break
                else:
                    put(("name", e.sexpr()))
            elif isinstance(p, SOf) and p.kind == "ite":
                for x in self.text(p.args[1] if self.num(p.args[0]) else p.args[2]):
                    put(x)
            elif isinstance(p, SOf):
                if p.kind == "str" and len(p.args) == 1 and is_int(p.args[0]):
                    put(str(self.num(p.args[0])))
                else:
                    put((p.kind,) + tuple(self.num(a) if is_num(a) else self.token(a) for a in p.args))
            elif isinstance(p, SJoin):
                first = True
                for x in self.content(p.content, self.text):
                    if not first:
                        for y in self.text(p.sep):
                            put(y)
                    first = False
                    for y in x:
                        put(y)
            else:
                raise Inconclusive("text")
        return out

    def token(self, v):
        r = self.val(v)
        if has_wild(r):
            raise Inconclusive("text")
        return repr(r)

    def val(self, v):
        """The value as plain data; WILD where it is not determined."""
        try:
            return self.val_(v)
        except Inconclusive as e:
            self.cx.numeric_note = str(e)
            return WILD

    def val_(self, v):
        if v is None or isinstance(v, (bool, int)):
            return v
        if isinstance(v, Undef):
            return WILD
        if isinstance(v, (str, Str)):
            return ("text", self.text(v))
        if is_z3(v) and v.sort() not in (I, R, B):
            return ("ent", self.model.eval(self.obj(v), model_completion=True).sexpr())
        if is_num(v):
            return self.num(v)
        if isinstance(v, tuple):
            return [self.val(x) for x in v]
        if isinstance(v, LVal):
            r = self.content(v.content, self.val)
            if v.kind == "set":
                raise Inconclusive("set")
            return r
        if isinstance(v, DVal):
            return ("dict", self.content(v.content, self.val))
        if isinstance(v, MVal):
            v = v.mat
        if isinstance(v, M.Mat):
            return ("mat", self.mat(v), v.phase)
        if isinstance(v, Ent):
            if v.cls is None or v.cls.name in ("UnitaryPrimitive",):
                return ("ent", self.model.eval(self.obj(v.term), model_completion=True).sexpr())
            o = self.cx.world.spec.reveal(self.cx.interp, v)
            return self.obj_val(o, self.model.eval(self.obj(v.term), model_completion=True).sexpr())
        if isinstance(v, OVal):
            return self.obj_val(v, None)
        if isinstance(v, EnumMember):
            return ("enum", v.cls.name, v.name)
        raise Inconclusive(type(v).__name__)

    def obj_val(self, o, ident):
        f = o.fields
        if o.cls.name == "Unitary":
            lay = self.cx.world.spec.unitary_layout()
            f = {r: o.fields[lay[r]] for r in lay}
        return ("obj", o.cls.name, ident, {k: self.val(x) for k, x in f.items()})

    def le(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if abs(a - b) < 1e-7:
                raise Inconclusive("boundary")
        return a <= b

    def eq(self, t, v):
        a, b = v
        if isinstance(a, float) or isinstance(b, float):
            return abs(a - b) < 1e-7
        return a == b

    def value(self, r):
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            return Fraction(r.as_fraction())
        if z3.is_true(r) or z3.is_false(r):
            return z3.is_true(r)
        if z3.is_algebraic_value(r):
            return float(r.approx(12).as_fraction())
        return r.sexpr()

    def obj(self, t):
        """A z3 term of an uninterpreted sort with its integer arguments evaluated."""
        if not t.children():
            return t
        args = []
        for x in t.children():
            if x.sort() == I:
                args.append(z3.IntVal(self.num(x)))
            elif x.sort() == R:
                args.append(rv(self.num(x)))
            elif x.sort() == B:
                args.append(z3.BoolVal(self.num(x)))
            else:
                args.append(self.obj(x))
        return t.decl()(*args)

    def x(self, x):
        tot = 0
        for (m, ex), c in x.d.items():
            v = sum(float(q) * np.exp(2j * np.pi * float(r)) for r, q in c.items())
            for s, e in m:
                v = v * self.num(alg.SYM[s]) ** e
            ph = 0.0
            for n, q in ex:
                w = float(q)
                for s, e in n:
                    w = w * self.num(alg.SYM[s]) ** e
                ph += w
            tot = tot + v * np.exp(1j * ph)
        return tot

    def dim(self, d):
        n = self.num(d)
        if not 1 <= n <= 64:
            raise Inconclusive("size")
        return n

    # ------------------------------------------------------------ matrices
    def mat(self, m):
        n, c = self.dim(m.rows), self.dim(m.cols)
        tot = np.zeros((n, c), complex)
        for s, d, w in m.terms:
            v = np.identity(n, complex)
            for f in w:
                v = v @ self.factor(f)
            k = self.x(s)
            for f, e in d:
                k = k * np.linalg.det(self.factor(f)) ** self.x(e)
            tot = tot + k * v
        return tot

    def sub(self, var, i, v):
        return subst(v, [(var, z3.IntVal(i))])

    def indices(self, sl):
        lo, hi = self.num(sl.lo), self.num(sl.hi)
        if hi - lo > 12:
            raise Inconclusive("size")
        out = [i for i in range(lo, hi) if sl.cond is None or self.num(self.sub(sl.tab.var, i, sl.cond))]
        return out[::-1] if sl.rev else out

    def content(self, content, leaf):
        out = []
        for c in content:
            if isinstance(c, El):
                out.append(leaf(c.v))
            elif isinstance(c, Sl):
                for i in self.indices(c):
                    v = self.sub(c.tab.var, i, c.tab.template)
                    if c.flat:
                        out.extend(self.content(v.content, leaf))
                    else:
                        out.append(leaf(v))
            else:
                raise Inconclusive("order")
        return out

    def matlike(self, v):
        if isinstance(v, MVal):
            v = v.mat
        if not isinstance(v, M.Mat):
            raise Inconclusive("matrix")
        return self.mat(v)

    def factor(self, f):
        if isinstance(f, M.FAtom):
            n, c = self.dim(f.rows), self.dim(f.cols)
            k = self.model.eval(self.obj(f.term), model_completion=True).sexpr()
            rng = np.random.default_rng(int(hashlib.md5(f"{k} {self.seed}".encode()).hexdigest()[:12], 16))
            a = rng.standard_normal((n, c)) + 1j * rng.standard_normal((n, c))
            p = f.props
            if "unitary" in p or "hermitian" in p:
                if n != c:
                    raise Inconclusive("shape")
            if "unitary" in p:
                a = np.linalg.qr(a)[0]
                a = a / np.linalg.det(a) ** (1 / n)
                if "hermitian" in p:
                    raise Inconclusive("unitary and hermitian")
            elif "hermitian" in p:
                a = (a + a.conj().T) / 2
            if f.t:
                a = a.T
            return a.conj() if f.c else a
        if isinstance(f, M.FExpl):
            return np.array([self.x(e) for e in f.e], complex).reshape(f.n, f.m)
        if isinstance(f, M.FKron):
            return np.kron(self.mat(f.a), self.mat(f.b))
        if isinstance(f, M.FExpI):
            r = scipy.linalg.expm(1j * self.mat(f.h))
            if f.t:
                r = r.T
            return r.conj() if f.c else r
        if isinstance(f, M.FEmb):
            return self.emb(self.mat(f.mat), self.content(f.qubits, self.num), self.dim(f.D))
        if isinstance(f, M.FPerm):
            r = self.perm(self.content(f.qubits, self.num), self.dim(f.D))
            return r.T if f.t else r
        if isinstance(f, M.FProd):
            r = np.identity(self.dim(f.D), complex)
            for m in self.content((f.sl,), self.matlike):
                r = m @ r
            if f.dag:
                r = r.conj().T
            return r.T if f.t else r
        if isinstance(f, M.FSum):
            r = np.zeros((self.dim(f.rows), self.dim(f.cols)), complex)
            for m in self.content((f.sl,), self.matlike):
                r = r + m
            return r
        if isinstance(f, M.FClean):
            if not (isinstance(f.eps, Fraction) and f.eps <= Fraction(1, 10 ** 12)):
                raise Inconclusive("clean")
            return self.mat(f.mat)
        if isinstance(f, M.FOpaque):
            name, _, mark = f.name.partition(".")
            args = [self.mat(m) for m in f.args]
            if name.startswith("power"):
                r = args[0] ** int(name[5:])
            elif name == "hadamard":
                r = args[0] * args[1]
            elif name == "expm":
                r = scipy.linalg.expm(args[0])
            elif name in ("real", "imag", "abs"):
                r = {"real": np.real, "imag": np.imag, "abs": np.abs}[name](args[0]).astype(complex)
            else:
                raise Inconclusive(f.name)
            for c in mark:
                r = r.T if c == "T" else r.conj() if c == "C" else r
            return r
        raise Inconclusive(type(f).__name__)

    def perm(self, qubits, D):
        n = D.bit_length() - 1
        if 2 ** n != D or len(set(qubits)) != len(qubits) or any(not 0 <= q < n for q in qubits):
            raise Inconclusive("qubits")
        order = list(qubits) + [q for q in range(n) if q not in qubits]
        P = np.zeros((D, D))
        for col in range(D):
            bits = [(col >> (n - 1 - k)) & 1 for k in range(n)]       # bit k of the column belongs to qubit order[k]
            row = 0
            for k, q in enumerate(order):
                row |= bits[k] << (n - 1 - q)
            P[row, col] = 1
        return P

    def emb(self, a, qubits, D):
        if a.shape[0] != 2 ** len(qubits):
            raise Inconclusive("shape")
        P = self.perm(qubits, D)
        return P @ np.kron(a, np.identity(D // a.shape[0])) @ P.T


def small_model(cx, tries, assumption=None):
    """Models of the path condition with small sizes."""
    s = cx.solver
    import time
    for k in range(tries):
        s.push()
        rng = np.random.default_rng(k)
        for p in cx.pow_terms:
            s.add(p.arg(0) <= 3)
        r = s.check()
        ok = r == z3.sat
        if not ok:
            s.pop()
            s.push()
            if s.check() != z3.sat:
                s.pop()
                return
        # spread the free reals
        consts = {}
        stack = list(cx.pc) + ([] if assumption is None else [assumption])
        seen = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                consts[t.sexpr()] = t
            stack.extend(t.children())
        for name, t in list(alg.SYM.items()):
            if z3.is_const(t):
                consts[name] = t
        for name in sorted(consts) if k or assumption is None else ():
            t = consts[name]
            if t.sort() == R and t.decl().name() != "pi!":
                s.push()
                s.add(t == z3.RealVal(str(Fraction(float(rng.uniform(-3, 3))).limit_denominator(1000))))
                if s.check() != z3.sat:
                    s.pop()
            elif t.sort() == I:
                s.push()
                s.add(t == int(rng.integers(0, 4)))
                if s.check() != z3.sat:
                    s.pop()
        if s.check() == z3.sat:
            yield s.model()
        while s.num_scopes() > cx.base_scopes:
            s.pop()


def evaluations(cx, tries, assumption=None):
    """Evaluations in which every formula of the path condition (and the assumption) holds."""
    cx.base_scopes = cx.solver.num_scopes()
    if assumption is not None:
        cx.solver.push()
        cx.solver.add(assumption)
        cx.base_scopes += 1
    try:
        for k, model in enumerate(small_model(cx, tries, assumption)):
            ev = Eval(cx, model, k)
            try:
                for p in list(cx.pc) + ([] if assumption is None else [assumption]):
                    if ev.num(p) is not True:
                        raise Inconclusive(f"the path condition does not hold: {str(p)[:80]}")
            except (Inconclusive, ArithmeticError, np.linalg.LinAlgError, ValueError) as e:
                cx.numeric_note = str(e)
                continue
            yield ev
    finally:
        while cx.solver.num_scopes() > cx.base_scopes:
            cx.solver.pop()
        if assumption is not None:
            cx.solver.pop()


def reachable(cx, assumption=None, tries=3):
    """A description of inputs for which the path (with the assumption) is taken, or None."""
    for ev in evaluations(cx, tries, assumption):
        return ev.model, brief(ev.model)
    return None


def different(cx, a, b, phase=False, tries=4):
    """(model, description) of inputs on this path for which the two values differ, or None."""
    for ev in evaluations(cx, tries):
        try:
            x, y = ev.val(a), ev.val(b)
            if phase and x is not WILD and y is not WILD and isinstance(x, tuple) and x[0] == "mat":
                x = ("mat", x[1], True)
            r = unlike(x, y, "result")
        except (ArithmeticError, np.linalg.LinAlgError, ValueError) as e:
            cx.numeric_note = str(e)
            continue
        if r:
            return ev.model, f"{r} at {brief(ev.model)}"
    return None


def brief(model):
    out = [f"{d.name()}={model[d]}" for d in model.decls() if d.arity() == 0 and "!" not in d.name() and "<" not in d.name()]
    return ", ".join(sorted(out)[:10])
