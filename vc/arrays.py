"""A second back end, for functions that compute with arrays of integers (get_permute_matrix): the body is executed
symbolically with arrays as functions of their indices; the invariant of each loop over a range of unknown length is
inferred from one generic iteration (closed forms, scattered writes, conditional counters) and then proved like any other
obligation (it holds at the start, an iteration preserves it). z3 decides every obligation; a construct outside the subset
makes the unit out of reach. Nothing is bounded."""
import ast

import z3

from .engine import Unsupported
from .values import ClassVal, FuncVal, ModVal

I, B = z3.IntSort(), z3.BoolSort()
P = z3.Function("pow2", I, I)
SHR, BIT = z3.Function("shr", I, I, I), z3.Function("bit", I, I, I)
DIV, MOD = z3.Function("idiv", I, I, I), z3.Function("imod", I, I, I)


DEBUG = False


def without_continue(body):
    """if c: ...; continue  REST  as  if c: ... else: REST"""
    for i, x in enumerate(body):
        if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], ast.Continue) and not x.orelse:
            rest = without_continue(body[i + 1:])
            return body[:i] + [ast.copy_location(ast.If(x.test, x.body[:-1] or [ast.Pass()], rest), x)]
        if isinstance(x, ast.Continue):
            return body[:i] or [ast.Pass()]
    return body


class Refused(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Opt:
    def __init__(self, none, val):
        self.none, self.val = none, val


class Ratio:
    """A float: num / den of integers."""
    def __init__(self, num, den):
        self.num, self.den = num, den


class Log2:
    def __init__(self, e):
        self.e = e


class SumV:
    """sum of f(j) for j < n"""
    def __init__(self, n, f):
        self.n, self.f = n, f


class A1:
    def __init__(self, n, get, nd, birth=0):
        self.n, self.get, self.nd, self.shared, self.birth = n, get, nd, False, birth


class A2:
    def __init__(self, rows, cols, get, birth=0):
        self.rows, self.cols, self.get, self.shared, self.birth = rows, cols, get, False, birth


class Sparse:
    def __init__(self, data, rows, cols, shape):
        self.data, self.rows, self.cols, self.shape = data, rows, cols, shape


class Func:
    def __init__(self, node, env, module, cls):
        self.node, self.env, self.module, self.cls = node, env, module, cls


class Method:
    def __init__(self, o, name):
        self.o, self.name = o, name


class SelfV:
    pass


class UnitV:
    pass


class Poison:
    pass


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and v.sort() == I)


def isbool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B)


def z(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if z3.is_expr(v):
        return v
    raise Unsupported(f"not a number: {type(v).__name__}")


def simp(t):
    if not z3.is_expr(t):
        return t
    t = z3.simplify(t, som=True)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def conj(fs):
    fs = [z(f) for f in fs]
    return z3.And(fs) if fs else z3.BoolVal(True)


def ite(c, a, b):
    if c is True or z3.is_true(c) if z3.is_expr(c) else c is True:
        return a
    if c is False or (z3.is_expr(c) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if (isint(a) and isint(b)) or (isbool(a) and isbool(b)):
        a, b = z(a), z(b)
        return a if a.eq(b) else z3.If(c, a, b)
    if all(x is None or isinstance(x, Opt) or isint(x) for x in (a, b)):
        a, b = opt(a), opt(b)
        return Opt(simp(z3.If(c, z(a.none), z(b.none))), z3.If(c, z(a.val), z(b.val)))
    raise Unsupported("values of different kinds on two paths")


def opt(v):
    return v if isinstance(v, Opt) else Opt(True, z3.IntVal(0)) if v is None else Opt(False, v)


# ---------------------------------------------------------------- integer arithmetic
def is_pow(t):
    return z3.is_expr(t) and t.decl().name() == "pow2"


def add(a, b):
    return simp(z(a) + z(b))


def sub(a, b):
    return simp(z(a) - z(b))


def mul(a, b):
    if is_pow(a) and is_pow(b):
        return pw(add(a.arg(0), b.arg(0)))
    for x, y in ((a, b), (b, a)):
        if is_pow(x) and isinstance(y, int) and y > 0 and y & (y - 1) == 0:
            return pw(add(x.arg(0), y.bit_length() - 1))
    return simp(z(a) * z(b))


def pw(e):
    e = simp(e)
    return 2 ** e if isinstance(e, int) and 0 <= e < 64 else P(z(e))


def log_of(v):
    """e with v = 2^e, if that is evident"""
    v = simp(v)
    if is_pow(v):
        return v.arg(0)
    if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
        return v.bit_length() - 1
    return None


def shr(x, e):
    x, e = simp(x), simp(e)
    if isinstance(x, int) and isinstance(e, int):
        return x >> e
    if e == 0 and isinstance(e, int):
        return x
    if z3.is_expr(x) and x.decl().name() == "shr":
        return shr(x.arg(0), add(x.arg(1), e))
    return SHR(z(x), z(e))


def idiv(x, y):
    e = log_of(y)
    return shr(x, e) if e is not None else DIV(z(x), z(y))


def imod(x, y):
    x, y = simp(x), simp(y)
    if isinstance(x, int) and isinstance(y, int):
        return x % y
    if isinstance(y, int) and y == 2:
        if z3.is_expr(x) and x.decl().name() == "shr":
            return BIT(x.arg(0), x.arg(1))
        if z3.is_expr(x) and x.decl().name() == "bit":
            return x
        return BIT(z(x), z3.IntVal(0))
    return MOD(z(x), z(y))


# ---------------------------------------------------------------- the machine
class Given:
    """Assumptions of a generic element or iteration."""
    def __init__(self, m, fs):
        self.m, self.fs = m, fs

    def __enter__(self):
        self.m.temps.append(z3.And(self.fs))

    def __exit__(self, *exc):
        self.m.temps.pop()


class Machine:
    def __init__(self, world, rec):
        self.world, self.rec = world, rec
        self.facts, self.temps, self.guard, self.quiet, self.time, self.count = [], [], [], 0, 0, 0
        self.perms, self.scatters, self.members, self.calls = [], [], [], 0
        self.solver_s = 0.0
        a, b = z3.Ints("a b")
        self.facts += [P(0) == 1, z3.ForAll([a], z3.Implies(a >= 0, P(a) >= 1), patterns=[P(a)]),
                       z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b), P(a) < P(b)), patterns=[z3.MultiPattern(P(a), P(b))])]
        self.lemma_done = self.outside = False

    # -- solver
    def fresh(self, name, sort=I):
        self.count += 1
        return z3.Const(f"{name}!{self.count}", sort)

    def prove(self, goal, timeout=4000, mbqi=False):
        import time
        goal = simp(goal)
        if goal is True:
            return True
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        s.set("auto_config", False)
        s.set("mbqi", mbqi)
        for f in self.facts + self.temps + self.guard:
            s.add(z(f))
        if goal is not False:
            s.add(z3.Not(z(goal)))
        self.calls += 1
        t = time.time()
        r = s.check() == z3.unsat
        self.solver_s += time.time() - t
        if DEBUG and time.time() - t > 0.5:
            import traceback
            print(round(time.time() - t, 1), r, str(goal)[:200], [f.name for f in traceback.extract_stack()[-7:-1]])
        return r

    def oblig(self, clause, goal, what=""):
        if self.quiet:
            return
        ok = self.prove(goal) or self.prove(goal, 3000, True)
        self.rec(clause, "discharged" if ok else "undecided", "" if ok else f"{what}: {str(simp(goal))[:300]}", 0.0, {})
        if not ok:
            self.learn(z(goal))

    def learn(self, *fs):
        """Facts that hold from now on, given what is being assumed at the moment."""
        ctx = self.temps + self.guard
        self.facts.extend(z3.Implies(conj(ctx), z(f)) if ctx else z(f) for f in fs)

    def given(self, *fs):
        return Given(self, [z(f) for f in fs])

    def inside(self, i, n, what="index"):
        self.oblig("indices are in range", z3.And(z(i) >= 0, z(i) < z(n)), what)

    def generic(self, n, f):
        """f at an arbitrary index below n, for its obligations."""
        if self.quiet:
            return
        i = self.fresh("i")
        with self.given(i >= 0, i < z(n)):
            f(i)

    # -- elements
    def num(self, v):
        if isinstance(v, Opt):
            self.oblig("no arithmetic on None", z3.Not(z(v.none)), "None")
            return v.val
        if isbool(v):
            return z3.If(z(v), z3.IntVal(1), z3.IntVal(0)) if z3.is_expr(v) else int(v)
        if isint(v) or isinstance(v, (Ratio, SumV)):
            return v
        raise Unsupported(f"a number is needed: {type(v).__name__}")

    def seq(self, v):
        """(length, item) of something iterable"""
        if isinstance(v, A1):
            return v.n, v.get
        if isinstance(v, (list, tuple)):
            return len(v), self.pick(list(v))
        if isinstance(v, A2):
            return v.rows, lambda r, g=v.get, n=v.cols: A1(n, lambda c: g(r, c), True)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def pick(self, vs):
        def get(i):
            i = simp(i)
            if isinstance(i, int):
                return vs[i]
            out = vs[-1]
            for x in range(len(vs) - 2, -1, -1):
                out = ite(z(i) == x, vs[x], out)
            return out
        return get

    def new1(self, n, get, nd):
        self.time += 1
        return A1(simp(n), get, nd, self.time)

    def new2(self, r, c, get):
        self.time += 1
        return A2(simp(r), simp(c), get, self.time)

    def arr(self, v, copy=True):
        if isinstance(v, A1):
            if v.nd and not copy:
                return v
            if not v.nd:
                sample = v.get(self.fresh("i"))
                if isinstance(sample, A1):
                    self.generic(v.n, lambda i: self.oblig("rows of equal length", z(v.get(i).n) == z(sample.n)))
                    return self.new2(v.n, sample.n, lambda r, c, g=v.get: g(r).get(c))
                self.generic(v.n, lambda i: self.num(v.get(i)))
                g = v.get
                return self.new1(v.n, lambda i: self.quietly(lambda: self.num(g(i))), True)
            return self.new1(v.n, v.get, True)
        if isinstance(v, A2):
            return self.new2(v.rows, v.cols, v.get) if copy else v
        if isinstance(v, (list, tuple)):
            if v and all(isint(x) for x in v):
                return self.new1(len(v), self.pick(list(v)), True)
            if v and all(isinstance(x, A1) for x in v):
                for x in v[1:]:
                    self.oblig("rows of equal length", z(x.n) == z(v[0].n))
                rows = [x.get for x in v]
                return self.new2(len(v), v[0].n, lambda r, c: self.pick([g(c) for g in rows])(r))
            if not v:
                return self.new1(0, lambda i: 0, True)
        raise Unsupported(f"array of {type(v).__name__}")

    def quietly(self, f):
        self.quiet += 1
        try:
            return f()
        finally:
            self.quiet -= 1

    # -- operators
    def op(self, k, a, b):
        if isinstance(a, (A2, A1)) and getattr(a, "nd", True) or isinstance(b, (A2, A1)) and getattr(b, "nd", True):
            return self.array_op(lambda x, y: self.op(k, x, y), a, b)
        if isinstance(a, A1) and not a.nd:
            if k == "+" and isinstance(b, A1) or k == "+" and isinstance(b, (list, tuple)):
                n, g, h = a.n, a.get, self.seq(b)
                return self.new1(add(n, h[0]), lambda i: ite(z(i) < z(n), g(i), h[1](sub(i, n))), False)
            raise Unsupported("operator on lists")
        if isinstance(a, (list, tuple)):
            if k == "*" and isint(b):
                if len(a) == 1:
                    n = b if isinstance(b, int) else b if self.prove(z(b) >= 0) else z3.If(b > 0, b, z3.IntVal(0))
                    return self.new1(n, lambda i, v=a[0]: v, False)
                raise Unsupported("repetition")
            if k == "+" and isinstance(b, (list, tuple)):
                return type(a)(list(a) + list(b))
            if k == "+" and isinstance(b, A1):
                return self.op("+", self.new1(len(a), self.pick(list(a)), False), b)
            raise Unsupported("operator on lists")
        a, b = self.num(a), self.num(b)
        if isinstance(a, Ratio) or isinstance(b, Ratio) or isinstance(a, SumV) or isinstance(b, SumV):
            if k == "//" and isinstance(a, Ratio) and b == 1:
                return self.floor(a)
            raise Unsupported("arithmetic on floats")
        if k == "+":
            return add(a, b)
        if k == "-":
            return sub(a, b)
        if k == "*":
            return mul(a, b)
        if k == "/":
            self.oblig("no division by zero", z(b) > 0, "divisor")
            return Ratio(a, b)
        if k == "//":
            self.oblig("no division by zero", z(b) > 0, "divisor")
            return idiv(a, b)
        if k == "%":
            self.oblig("no division by zero", z(b) > 0, "divisor")
            return imod(a, b)
        if k == "**":
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            if isinstance(a, int) and a == 2:
                self.oblig("powers of two have exponents that are not negative", z(b) >= 0, "exponent")
                return pw(b)
        if k == ">>":
            self.oblig("no negative shift", z(b) >= 0, "shift")
            return shr(a, b)
        if k == "<<":
            self.oblig("no negative shift", z(b) >= 0, "shift")
            return mul(a, pw(b))
        if k == "&" and isinstance(b, int) and b == 1:
            return imod(a, 2)
        raise Unsupported(f"operator {k}")

    def array_op(self, f, a, b):
        def shape(v):
            if isinstance(v, A2):
                return (v.rows, v.cols), v.get
            if isinstance(v, A1):
                if not v.nd:
                    v = self.arr(v)
                return (1, v.n), lambda r, c, g=v.get: g(c)
            if isinstance(v, (list, tuple)):
                v = self.arr(v)
                return (1, v.n), lambda r, c, g=v.get: g(c)
            return (1, 1), lambda r, c: v
        (ra, ca), ga = shape(a)
        (rb, cb), gb = shape(b)

        def one(x):
            return isinstance(x, int) and x == 1

        def join(x, y):
            if one(x):
                return y
            if not one(y):
                self.oblig("shapes agree", z(x) == z(y), "shape")
            return x
        rows, cols = join(ra, rb), join(ca, cb)

        def cell(r, c):
            return f(ga(0 if one(ra) else r, 0 if one(ca) else c), gb(0 if one(rb) else r, 0 if one(cb) else c))
        self.generic(rows, lambda r: self.generic(cols, lambda c: cell(r, c)))
        if isinstance(a, A2) or isinstance(b, A2):
            return self.new2(rows, cols, lambda r, c: self.quietly(lambda: cell(r, c)))
        return self.new1(cols, lambda c: self.quietly(lambda: cell(0, c)), True)

    def map_arr(self, f, v):
        if isinstance(v, (A1, A2)):
            return self.array_op(lambda x, y: f(x), v if isinstance(v, A2) or v.nd else self.arr(v), 0)
        return f(v)

    def floor(self, v):
        v = self.num(v) if not isinstance(v, Log2) else v
        if isinstance(v, Log2):
            return v.e
        if isinstance(v, Ratio):
            self.oblig("rounding of numbers that are not negative", z(v.num) >= 0, "numerator")
            return idiv(v.num, v.den)
        return v

    def cmp(self, k, a, b):
        if k in ("is", "is not") and b is None:
            t = True if a is None else a.none if isinstance(a, Opt) else False
            return t if k == "is" else simp(z3.Not(z(t)))
        if k in ("is", "is not"):
            raise Unsupported("is")
        if isinstance(a, (A1, A2)) and getattr(a, "nd", True) or isinstance(b, (A1, A2)) and getattr(b, "nd", True):
            return self.array_op(lambda x, y: self.cmp(k, x, y), a, b)
        if isinstance(a, (A1, list, tuple)) and isinstance(b, (A1, list, tuple)) and k in ("==", "!="):
            (m, f), (n, g) = self.seq(a), self.seq(b)
            i = self.fresh("i")
            t = z3.And(z(m) == z(n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(m)), z(self.quietly(lambda: self.cmp("==", f(i), g(i)))))))
            return t if k == "==" else z3.Not(t)
        if k in ("==", "!=") and (a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt)):
            a, b = opt(a), opt(b)
            t = z3.And(z(a.none) == z(b.none), z3.Or(z(a.none), z(a.val) == z(b.val)))
            return simp(t if k == "==" else z3.Not(t))
        if k in ("in", "not in"):
            t = self.member(b, a)
            return t if k == "in" else simp(z3.Not(z(t)))
        a, b = self.num(a), self.num(b)
        if not (isint(a) and isint(b)):
            raise Unsupported("comparison of floats")
        a, b = z(a), z(b)
        return simp({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[k])

    def member(self, b, a):
        """a in b"""
        n, g = self.seq(b)
        n = simp(n)
        if isinstance(n, int) and n <= 8:
            return simp(z3.Or([z(self.cmp("==", g(i), a)) for i in range(n)] or [z3.BoolVal(False)]))
        i, j = self.fresh("i"), self.fresh("j")
        if not isint(a) or not isint(g(i)):
            raise Unsupported("in")
        for h, m, hit in self.members:
            if h is g and m is n:
                return hit(z(a))
        self.count += 1
        hit, inv = z3.Function(f"member!{self.count}", I, B), z3.Function(f"place!{self.count}", I, I)
        with self.given(i >= 0, i < j, j < z(n)):
            different = self.prove(z(g(i)) != z(g(j)))
        x = z3.Int("i")
        gx = z(g(x))
        pat = {"patterns": [gx]} if z3.is_app(gx) and gx.decl().kind() == z3.Z3_OP_UNINTERPRETED else {}
        self.learn(*[z3.ForAll([x], z3.Implies(hit(x), z3.And(inv(x) >= 0, inv(x) < z(n), z(g(inv(x))) == x)), patterns=[hit(x)]),
                     z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < z(n)), z3.And(hit(gx), *([inv(gx) == x] if different else []))), **pat)])
        self.members.append((g, n, hit))
        if different:
            self.scatters.append((g, n, i, None, hit))
        return hit(z(a))

    def bool(self, v):
        if isbool(v):
            return v
        if isint(v):
            return simp(z(v) != 0)
        if v is None:
            return False
        if isinstance(v, A1) and not v.nd:
            return simp(z(v.n) != 0)
        if isinstance(v, (list, tuple)):
            return len(v) > 0
        raise Unsupported(f"truth of {type(v).__name__}")

    # -- permutations
    def perm(self, a):
        """The inverse function of the array a, if a is a permutation of 0 .. n-1: in range and without repetition
        (an injection of a finite set into itself is a bijection)."""
        for p in self.perms:
            if p[0] is a.get:
                return p[2]
        g, n = a.get, a.n
        i, j = self.fresh("i"), self.fresh("j")
        with self.given(i >= 0, i < z(n), j >= 0, j < z(n), i < j):
            x, y = g(i), g(j)
            ok = isint(x) and isint(y) and self.prove(z3.And(z(x) >= 0, z(x) < z(n), z(y) >= 0, z(y) < z(n))) and self.prove(z(x) != z(y))
        if not ok:
            return None
        self.count += 1
        tau = z3.Function(f"inverse!{self.count}", I, I)
        sig = z3.Function(f"perm!{self.count}", I, I)
        i = z3.Int("i")
        rng = z3.And(i >= 0, i < z(n))
        self.learn(*[z3.ForAll([i], z3.Implies(rng, z3.And(sig(i) == z(g(i)), sig(i) >= 0, sig(i) < z(n), tau(sig(i)) == i)), patterns=[sig(i)]),
                       z3.ForAll([i], z3.Implies(rng, z3.And(tau(i) >= 0, tau(i) < z(n), sig(tau(i)) == i)), patterns=[tau(i)])])
        self.perms.append((g, n, tau, sig))
        return tau

    # -- stores and loads
    def store(self, o, i, v):
        if o.shared:
            raise Unsupported("a write to an array that has views")
        g, gd = o.get, conj(self.guard) if self.guard else True
        log = getattr(self, "log", None)
        if isinstance(o, A1):
            if o.nd:
                v = self.num(v)
                if not isint(v):
                    raise Unsupported("floats stored in an array")
            i = self.index(i, o.n)
            o.get = lambda x: ite(simp(z3.And(z(gd), z(x) == z(i))), v, g(x))
            if log is not None:
                log.append((o, gd, i, v))
            return
        # o[:, j] = column
        if not (isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None) and isint(i[1])):
            raise Unsupported("store into a matrix")
        j = self.index(i[1], o.cols)
        if isinstance(v, A1) and v.nd:
            self.oblig("shapes agree", z(v.n) == z(o.rows), "column")
            h = v.get
        elif isint(v):
            h = lambda r: v  # noqa: E731
        else:
            raise Unsupported("column")
        if not isint(h(self.fresh("r"))):
            raise Unsupported("floats stored in an array of integers")
        o.get = lambda r, c: ite(simp(z3.And(z(gd), z(c) == z(j))), h(r), g(r, c))
        if log is not None:
            log.append((o, gd, j, h))

    def index(self, i, n):
        i = self.num(i)
        if not isint(i):
            raise Unsupported("index")
        if isinstance(i, int) and i < 0:
            i = add(n, i)
        self.inside(i, n)
        return i

    def slice(self, s, n):
        """(start, length, step) of a slice, clamped."""
        step = 1 if s.step is None else s.step
        if step == -1 and s.start is None and s.stop is None:
            return sub(n, 1), n, -1
        if step != 1:
            raise Unsupported("step of a slice")

        def place(v, default):
            if v is None:
                return default
            v = self.num(v)
            if isinstance(v, int) and v < 0:
                v = add(n, v)
            elif not self.prove(z(v) >= 0):
                raise Unsupported("sign of a slice bound")
            if self.prove(z3.And(z(v) >= 0, z(v) <= z(n))):
                return v
            return simp(z3.If(z(v) < 0, z3.IntVal(0), z3.If(z(v) > z(n), z(n), z(v))))
        a, b = place(s.start, 0), place(s.stop, n)
        ln = sub(b, a)
        if not self.prove(z(ln) >= 0):
            ln = simp(z3.If(z(ln) < 0, z3.IntVal(0), z(ln)))
        return a, ln, 1

    def load(self, o, i):
        if isinstance(o, (list, tuple)):
            if isinstance(i, (int, slice)) and not isinstance(i, bool) and not (isinstance(i, slice) and any(z3.is_expr(x) for x in (i.start, i.stop, i.step))):
                try:
                    return o[i]
                except IndexError:
                    raise Unsupported("index of a tuple")
            o = self.new1(len(o), self.pick(list(o)), False)
        if isinstance(o, A1):
            g = o.get
            if isinstance(i, slice):
                a, ln, st = self.slice(i, o.n)
                r = self.new1(ln, lambda x: g(add(a, x) if st == 1 else sub(a, x)), o.nd)
                if o.nd:
                    o.shared = r.shared = True
                return r
            if isinstance(i, tuple) and len(i) == 2 and o.nd and None in i and slice(None) in [x for x in i if x is not None]:
                o.shared = True
                r = self.new2(o.n, 1, lambda r, c: g(r)) if i[1] is None else self.new2(1, o.n, lambda r, c: g(c))
                r.shared = True
                return r
            if isinstance(i, (A1, list)) and o.nd:
                ix = self.arr(i)
                n, h = o.n, ix.get
                if isbool(h(self.fresh("i"))):
                    raise Unsupported("boolean mask")
                self.generic(ix.n, lambda x: self.inside(h(x), n))
                return self.new1(ix.n, lambda x: g(h(x)), True)
            i = self.index(i, o.n)
            return g(i)
        if isinstance(o, A2):
            g = o.get
            if isinstance(i, tuple) and len(i) == 2:
                a, b = i
                if isint(a) and isint(b):
                    return g(self.index(a, o.rows), self.index(b, o.cols))
                if isinstance(a, slice) and isint(b):
                    b = self.index(b, o.cols)
                    s, ln, st = self.slice(a, o.rows)
                    o.shared = True
                    r = self.new1(ln, lambda x: g(add(s, x) if st == 1 else sub(s, x), b), True)
                    r.shared = True
                    return r
                if isint(a) and isinstance(b, slice):
                    a = self.index(a, o.rows)
                    s, ln, st = self.slice(b, o.cols)
                    o.shared = True
                    r = self.new1(ln, lambda x: g(a, add(s, x) if st == 1 else sub(s, x)), True)
                    r.shared = True
                    return r
                if isinstance(a, slice) and isinstance(b, slice):
                    s, ln, st = self.slice(a, o.rows)
                    s2, ln2, st2 = self.slice(b, o.cols)
                    o.shared = True
                    r = self.new2(ln, ln2, lambda x, y: g(add(s, x) if st == 1 else sub(s, x), add(s2, y) if st2 == 1 else sub(s2, y)))
                    r.shared = True
                    return r
                if isinstance(a, slice) and a == slice(None) and isinstance(b, (A1, list)):
                    ix = self.arr(b)
                    h, n = ix.get, o.cols
                    self.generic(ix.n, lambda x: self.inside(h(x), n))
                    return self.new2(o.rows, ix.n, lambda r, c: g(r, h(c)))
                raise Unsupported("matrix subscript")
            if isint(i):
                return self.load(o, (i, slice(None)))
            if isinstance(i, slice):
                return self.load(o, (i, slice(None)))
        raise Unsupported("subscript")

    # -- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e["vars"]:
                v = e["vars"][name]
                if isinstance(v, Poison):
                    raise Unsupported(f"{name} after a loop")
                return v
            e = e["up"]
        g = self.world.modules[env["module"]]
        if name in g:
            return self.world.resolve(g[name])
        return ("builtin", name)

    def set(self, name, v, env):
        if self.guard and name in env["vars"] and env["vars"][name] is not v:
            v = ite(conj(self.guard), v, env["vars"][name])
        elif self.guard and not (isint(v) or isbool(v)):
            raise Unsupported("a definition on one path")
        env["vars"][name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n, g = self.seq(v)
            if simp(n) != len(t.elts):
                raise Unsupported("unpacking")
            for x, y in enumerate(t.elts):
                self.assign(y, g(x), env)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if not isinstance(o, (A1, A2)):
                raise Unsupported("item assignment")
            self.store(o, i, v)
        else:
            raise Unsupported("assignment")

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            if isinstance(v, list):
                v = self.new1(len(v), self.pick(v) if v else (lambda i: 0), False)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.assign(s.target, self.new1(len(v), self.pick(v) if v else (lambda i: 0), False) if isinstance(v, list) else v, env)
        elif isinstance(s, ast.AugAssign):
            o = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), env) if isinstance(s.target, ast.Name) else None
            if o is None and not isinstance(s.target, ast.Subscript) or isinstance(o, (A1, A2)):
                raise Unsupported("augmented assignment to an array")
            k = OPS.get(type(s.op))
            if isinstance(s.target, ast.Subscript):
                a, i = self.ev(s.target.value, env), self.ev(s.target.slice, env)
                if not isint(i):
                    raise Unsupported("augmented assignment to a slice")
                self.store(a, i, self.op(k, self.load(a, i), self.ev(s.value, env)))
            else:
                self.assign(s.target, self.op(k, o, self.ev(s.value, env)), env)
        elif isinstance(s, ast.Assert):
            self.refuse_unless(self.bool(self.ev(s.test, env)))
        elif isinstance(s, ast.Raise):
            if self.quiet:
                return
            if not self.guard:
                raise Refused()
            self.oblig("accepts every system that contains the qubits", z3.Not(conj(self.guard)), "raise")
        elif isinstance(s, ast.If):
            c = self.bool(self.ev(s.test, env))
            if c is True or c is not False and self.prove(c):
                self.block(s.body, env)
            elif c is False or self.prove(z3.Not(z(c))):
                self.block(s.orelse, env)
            else:
                for f, b in ((z(c), s.body), (z3.Not(z(c)), s.orelse)):
                    self.guard.append(f)
                    try:
                        self.block(b, env)
                    finally:
                        self.guard.pop()
        elif isinstance(s, ast.For):
            self.loop(s, env)
        elif isinstance(s, ast.Return):
            if self.guard:
                raise Unsupported("return on one path")
            raise Ret(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.FunctionDef):
            env["vars"][s.name] = Func(s, env, env["module"], env["cls"])
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)) and isinstance(s, ast.Pass):
            pass
        else:
            raise Unsupported(f"statement {type(s).__name__}")

    def refuse_unless(self, t):
        if self.quiet:
            return
        if self.prove(t):
            self.rec("accepts every system that contains the qubits", "discharged", "", 0.0, {})
            return
        if not self.guard and self.prove(z3.Not(z(t))):
            raise Refused()
        if self.outside:
            # a system for which this refuses is refused
            self.learn(z(t))
            return
        self.oblig("accepts every system that contains the qubits", t, "assertion")

    # -- loops
    def loop(self, s, env):
        if s.orelse:
            raise Unsupported("for ... else")
        n, item = self.seq(self.ev(s.iter, env))
        n = simp(n)
        if isinstance(n, int) and n <= 8:
            if any(isinstance(x, (ast.Break, ast.Continue)) for y in s.body for x in ast.walk(y)):
                raise Unsupported("a jump in a loop")
            for x in range(n):
                self.assign(s.target, item(x), env)
                self.block(s.body, env)
            return
        if self.guard or self.quiet:
            raise Unsupported("a loop inside another or on one path")
        body = without_continue(s.body)
        for x in ast.walk(ast.Module(body, [])):
            if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.While, ast.Nonlocal, ast.Global, ast.FunctionDef)):
                raise Unsupported("a jump in a loop")
        k = self.fresh("k")
        start = self.time
        names = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        pre = dict(env["vars"])
        scal = {x: pre[x] for x in names - tgt if x in pre and isint(pre[x])}
        if any(isinstance(pre[x], (A1, A2)) for x in (names | tgt) & set(pre)):
            raise Unsupported("an array variable assigned in a loop")
        hv = {x: self.fresh(x) for x in scal}

        def run(state):
            """One iteration; state: values of the scalars. -> environment afterwards, writes"""
            old = getattr(self, "log", None)
            self.log = []
            env["vars"].update(state)
            for x in names - tgt - set(scal):
                env["vars"].pop(x, None)
            try:
                with self.given(k >= 0, k < z(n)):
                    self.assign(s.target, item(k), env)
                    self.block(body, env)
                return dict(env["vars"]), self.log
            finally:
                env["vars"].clear()
                env["vars"].update(pre)
                self.log = old
        # 1. which arrays are written
        saved = {}

        def restore():
            for o, g in saved.values():
                o.get = g
        all_log = []
        self.quiet += 1
        try:
            old_store = self.store

            def spy(o, i, v):
                saved.setdefault(id(o), (o, o.get))
                return old_store(o, i, v)
            self.store = spy
            _, all_log = run(hv)
        finally:
            self.quiet -= 1
            self.store = old_store
            restore()
        objs = {key: o for key, (o, _) in saved.items() if o.birth <= start}
        pres = {key: saved[key][1] for key in objs}
        # 2. the effect of a generic iteration on a generic state
        holes = {}
        for key, o in objs.items():
            self.count += 1
            if isinstance(o, A1):
                e = pres[key](self.fresh("i"))
                optional = not isint(e) or any(w[0] is o and not isint(w[3]) for w in all_log)
                hn, hval = z3.Function(f"hole_none!{self.count}", I, B), z3.Function(f"hole!{self.count}", I, I)
                holes[key] = (hn, hval, optional)
                o.get = (lambda i, a=hn, b=hval: Opt(a(z(i)), b(z(i)))) if optional else (lambda i, b=hval: b(z(i)))
            else:
                hval = z3.Function(f"hole!{self.count}", I, I, I)
                holes[key] = (None, hval, False)
                o.get = lambda r, c, b=hval: b(z(r), z(c))
        self.quiet += 1
        try:
            after, log = run(hv)
        finally:
            self.quiet -= 1
            for key, o in objs.items():
                o.get = pres[key]
        decls = {f.name() for h in holes.values() for f in h[:2] if f is not None}

        def settle(t):
            """t with the arrays read at the position of this iteration replaced by their values before the loop"""
            if not z3.is_expr(t):
                return t
            for key, (hn, hval, optional) in holes.items():
                if hn is None:
                    continue
                e = pres[key](k)
                if optional:
                    e = opt(e)
                    t = z3.substitute(t, (hn(k), z(e.none)), (hval(k), z(e.val)))
                else:
                    t = z3.substitute(t, (hval(k), z(e)))
            return simp(t)

        def mentions(t, names_):
            if not z3.is_expr(t):
                return False
            seen, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                    continue
                if z3.is_app(x):
                    if x.decl().name() in names_:
                        return True
                    todo.extend(x.children())
            return False
        # 3. closed forms of the scalars at the start of iteration i
        closed = {}
        hvn = {v.decl().name() for v in hv.values()}
        for x in scal:
            v = settle(after.get(x))
            if not isint(v):
                raise Unsupported("a variable that changes its kind in a loop")
            d = simp(self.minus(z(v), hv[x]))
            if not mentions(d, hvn | decls):
                if not mentions(d, {k.decl().name()}):
                    closed[x] = lambda i, x=x, d=d: add(scal[x], mul(d, i))
                    continue
                c, inc = self.conditional(d)
                if c is not None:
                    cnt = self.counter(k, c, n)
                    closed[x] = lambda i, x=x, cnt=cnt, inc=inc: add(scal[x], mul(inc, cnt(z(i))))
                    continue
            raise Unsupported("a variable carried by a loop")

        def at(t, i):
            """a settled term of iteration k, for iteration i"""
            if not z3.is_expr(t):
                return t
            t = z3.substitute(t, *[(hv[x], z(closed[x](k))) for x in scal])
            return simp(z3.substitute(t, (k, z(i))))
        # 4. closed forms of the arrays
        forms = {}
        for key, o in objs.items():
            ws = [w for w in log if w[0] is o]
            if isinstance(o, A1) and all(z3.is_expr(w[2]) and w[2].eq(k) for w in ws):
                def new(i, o=o, key=key, ws=ws):
                    v = pres[key](i)
                    for _, gd, _, val in ws:
                        gd, val = settle(z(gd)), val
                        if isinstance(val, Opt):
                            val = Opt(at(settle(z(val.none)), i), at(settle(z(val.val)), i))
                        elif val is not None:
                            val = at(settle(val), i)
                        v = ite(z(at(gd, i)), val, v)
                    return v
                forms[key] = lambda j, i, new=new, key=key: ite(simp(z3.And(z(i) >= 0, z(i) < z(j))), new(i), pres[key](i))
                probe = new(k)
                for t in ([probe.none, probe.val] if isinstance(probe, Opt) else [probe]):
                    if mentions(t, decls):
                        raise Unsupported("an array read elsewhere in a loop")
                continue
            if len(ws) != 1 or not (ws[0][1] is True or z3.is_true(z(ws[0][1]))):
                raise Unsupported("writes in a loop")
            idx = at(settle(ws[0][2]), k)
            if mentions(idx, decls):
                raise Unsupported("an index that depends on what the loop writes")
            hit, inv = self.scatter(k, idx, n, o.n if isinstance(o, A1) else o.cols)
            if isinstance(o, A1):
                val = ws[0][3]
                if isinstance(val, Opt):
                    raise Unsupported("optional values scattered")
                val = val if val is None else at(settle(val), k)
                if mentions(val, decls):
                    raise Unsupported("values that depend on what the loop writes")

                def form(j, i, val=val, key=key, hit=hit, inv=inv):
                    v = val if val is None or not z3.is_expr(val) else simp(z3.substitute(val, (k, inv(z(i)))))
                    return ite(simp(z3.And(hit(z(i)), inv(z(i)) < z(j))), v, pres[key](i))
            else:
                h = ws[0][3]
                rr = self.fresh("r")
                val = at(settle(self.quietly(lambda: h(rr))), k)
                if mentions(val, decls):
                    raise Unsupported("values that depend on what the loop writes")

                def form(j, r, c, val=val, key=key, hit=hit, inv=inv, rr=rr):
                    v = val if not z3.is_expr(val) else simp(z3.substitute(val, (rr, z(r)), (k, inv(z(c)))))
                    return ite(simp(z3.And(hit(z(c)), inv(z(c)) < z(j))), v, pres[key](r, c))
            forms[key] = form
        # 5. the invariant: at the start, and preserved
        clause = "loop invariants hold"

        def equal(x, y):
            if isint(x) and isint(y):
                return z(x) == z(y)
            x, y = opt(x), opt(y)
            return z3.And(z(x.none) == z(y.none), z3.Or(z(x.none), z(x.val) == z(y.val)))

        def compare(key, o, get, j):
            i, r = self.fresh("i"), self.fresh("r")
            if isinstance(o, A1):
                return z3.Implies(z3.And(i >= 0, i < z(o.n)), equal(get(i), forms[key](j, i)))
            return z3.Implies(conj([i >= 0, i < z(o.cols), r >= 0, r < z(o.rows)]), equal(get(r, i), forms[key](j, r, i)))
        for x in scal:
            self.oblig(clause, z(closed[x](0)) == z(scal[x]), f"{x} at the start")
        for key, o in objs.items():
            self.oblig(clause, compare(key, o, pres[key], 0), "array at the start")
        for key, o in objs.items():
            o.get = (lambda i, f=forms[key]: f(k, i)) if isinstance(o, A1) else (lambda r, c, f=forms[key]: f(k, r, c))
        try:
            after, _ = run({x: closed[x](k) for x in scal})
            with self.given(k >= 0, k < z(n)):
                for x in scal:
                    self.oblig(clause, z(after[x]) == z(closed[x](add(k, 1))), f"{x} after an iteration")
                for key, o in objs.items():
                    self.oblig(clause, compare(key, o, o.get, add(k, 1)), "array after an iteration")
        finally:
            for key, o in objs.items():
                o.get = pres[key]
        # 6. afterwards
        total = n if self.prove(z(n) >= 0) else z3.If(z(n) > 0, z(n), z3.IntVal(0))
        for key, o in objs.items():
            o.get = (lambda i, f=forms[key]: f(total, i)) if isinstance(o, A1) else (lambda r, c, f=forms[key]: f(total, r, c))
        for x in scal:
            env["vars"][x] = closed[x](total)
        for x in (names | tgt) - set(scal):
            env["vars"][x] = Poison()

    def minus(self, v, x):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            return z3.If(c, self.minus(a, x), self.minus(b, x))
        return z3.simplify(v - x, som=True)

    def conditional(self, d):
        """d = If(c, m, 0): (c, m)"""
        if z3.is_expr(d) and d.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = d.children()
            if z3.is_int_value(a) and z3.is_int_value(b):
                if b.as_long() == 0:
                    return c, a.as_long()
                if a.as_long() == 0:
                    return z3.Not(c), b.as_long()
        return None, None

    def counter(self, k, c, n):
        """The number of i' < i for which c holds, as a function of i in 0 .. n."""
        self.count += 1
        f = z3.Function(f"count!{self.count}", I, I)
        a, b = z3.Ints("a b")
        z_n = z(n)
        ca = z3.substitute(c, (k, a))
        self.lemmas()
        self.learn(*[f(0) == 0,
                       z3.Implies(z3.And(k >= 0, k < z_n), f(k + 1) == f(k) + z3.If(c, 1, 0)),
                       z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= z_n), z3.And(f(a) <= f(b), f(b) - f(a) <= b - a)), patterns=[z3.MultiPattern(f(a), f(b))]),
                       z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= z_n, ca), f(a) < f(b)), patterns=[z3.MultiPattern(f(a), f(b))]),
                       z3.Implies(z_n >= 0, z3.And(f(z_n) >= 0, f(z_n) <= z_n))])
        for idx, m, kk, size, hit in self.scatters:
            i = self.fresh("i")
            if size is None:
                # the elements of a list without repetition: they must lie in the range that is counted
                j = self.fresh("j")
                inside = self.prove(z3.Implies(z3.And(j >= 0, j < z(m)), z3.And(z(idx(j)) >= 0, z(idx(j)) < z_n)))
            else:
                inside = self.prove(z(size) == z_n)
            if inside and self.prove(z3.Implies(z3.And(i >= 0, i < z_n), z3.substitute(c, (k, i)) == z3.Not(hit(i)))):
                self.learn(f(z_n) == z_n - z(m))
        return f

    def scatter(self, k, idx, n, size):
        """Writes at idx(0), ..., idx(n-1), all different: whether a position is written, and by which iteration."""
        j = self.fresh("j")
        g = z3.substitute(z(idx), (k, j))
        with self.given(k >= 0, k < z(n)):
            self.oblig("writes of a loop go to different positions in range",
                       z3.And(z(idx) >= 0, z(idx) < z(size), z3.Implies(z3.And(j >= 0, j < k), z(idx) != g)), "scattered writes")
        self.count += 1
        hit, inv = z3.Function(f"hit!{self.count}", I, B), z3.Function(f"inv!{self.count}", I, I)
        i = z3.Int("i")
        gi = z3.substitute(z(idx), (k, i))
        self.learn(z3.ForAll([i], z3.Implies(hit(i), z3.And(inv(i) >= 0, inv(i) < z(n), z3.substitute(z(idx), (k, inv(i))) == i)), patterns=[hit(i)]))
        back = z3.Implies(z3.And(i >= 0, i < z(n)), z3.And(hit(gi), inv(gi) == i))
        pat = gi if not z3.is_const(gi) and gi.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        self.learn(z3.ForAll([i], back, patterns=[pat]) if pat is not None else z3.ForAll([i], back))
        self.learn(z3.substitute(back, (i, k)))
        # if the positions are a permutation, every position is written
        w = self.fresh("w")

        def all_written():
            found = False
            for p in self.perms:
                if self.prove(z3.And(z(p[1]) == z(n), z(size) == z(n))) and self.prove(z3.Implies(z3.And(w >= 0, w < z(n)), p[3](w) == z3.substitute(z(idx), (k, w)))):
                    self.learn(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(n)), z3.And(hit(i), inv(i) == p[2](i))), patterns=[hit(i), inv(i)]))
                    found = True
            return found
        if not all_written() and self.prove(z(size) == z(n)) and self.perm(self.new1(n, lambda x: z3.substitute(z(idx), (k, z(x))), True)) is not None:
            all_written()
        self.scatters.append((idx, n, k, size, hit))
        return hit, inv

    def lemmas(self):
        """Counting, by induction: counts are monotone and grow by at most one per step; marking one more position, not yet
        marked, lowers the number of unmarked positions by one; so n - K positions are unmarked after K different ones."""
        if self.lemma_done or self.quiet > 1:
            return
        self.lemma_done = True
        f, g = z3.Function("lem_count", I, I), z3.Function("lem_count2", I, I)
        c, d = z3.Function("lem_c", I, B), z3.Function("lem_d", I, B)
        a, b, q, i = z3.Ints("lem_a lem_b lem_q lem_i")

        def one(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))

        def valid(t):
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(z3.Not(t))
            return s.check() == z3.unsat
        step = z3.And(f(b + 1) == f(b) + one(c(b)), g(b + 1) == g(b) + one(d(b)))
        mono = valid(z3.Implies(z3.And(a <= b, f(a) <= f(b), f(b) - f(a) <= b - a, step), z3.And(f(a) <= f(b + 1), f(b + 1) - f(a) <= b + 1 - a)))
        strict = valid(z3.Implies(z3.And(f(a + 1) == f(a) + one(c(a)), c(a), f(a + 1) <= f(b)), f(a) < f(b)))
        # c: unmarked before, d: unmarked after marking q, unmarked before
        mark = valid(z3.Implies(z3.And(step, c(q), d(b) == z3.And(c(b), b != q), g(b) == f(b) - one(q < b)), g(b + 1) == f(b + 1) - one(q < b + 1)))
        start = valid(z3.Implies(z3.And(step, c(b), f(b) == b), f(b + 1) == b + 1))
        for nm, ok in (("monotone", mono), ("strict", strict), ("mark", mark), ("start", start)):
            self.rec("counting lemmas", "discharged" if ok else "undecided", "" if ok else nm, 0.0, {})

    # -- expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ev_Constant(self, e, env):
        if isinstance(e.value, float) and e.value == int(e.value):
            return int(e.value)
        return e.value

    def ev_Name(self, e, env):
        return self.lookup(e.id, env)

    def ev_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def ev_List(self, e, env):
        return [self.ev(x, env) for x in e.elts]

    def ev_Slice(self, e, env):
        return slice(*[None if x is None else self.const(self.ev(x, env)) for x in (e.lower, e.upper, e.step)])

    def const(self, v):
        return simp(v) if isint(v) else v

    def ev_BinOp(self, e, env):
        k = OPS.get(type(e.op))
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if k == "@":
            return self.dot(a, b)
        return self.op(k, a, b)

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return simp(z3.Not(z(self.bool(v))))
        if isinstance(e.op, ast.USub):
            return self.op("-", 0, v)
        raise Unsupported("unary operator")

    def ev_Compare(self, e, env):
        out, a = [], self.ev(e.left, env)
        for o, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            out.append(self.cmp(CMP[type(o)], a, b))
            a = b
        return out[0] if len(out) == 1 else simp(conj([self.bool(x) for x in out]))

    def ev_BoolOp(self, e, env):
        vs, pushed = [], 0
        try:
            for x in e.values:
                v = self.bool(self.ev(x, env))
                vs.append(z(v))
                self.guard.append(z(v) if isinstance(e.op, ast.And) else z3.Not(z(v)))
                pushed += 1
        finally:
            del self.guard[len(self.guard) - pushed:]
        return simp(z3.And(vs) if isinstance(e.op, ast.And) else z3.Or(vs))

    def ev_IfExp(self, e, env):
        c = self.bool(self.ev(e.test, env))
        if c is True or c is not False and self.prove(c):
            return self.ev(e.body, env)
        if c is False or self.prove(z3.Not(z(c))):
            return self.ev(e.orelse, env)
        out = []
        for f, b in ((z(c), e.body), (z3.Not(z(c)), e.orelse)):
            self.guard.append(f)
            try:
                out.append(self.ev(b, env))
            finally:
                self.guard.pop()
        return ite(z(c), *out)

    def ev_Subscript(self, e, env):
        return self.load(self.ev(e.value, env), self.const_index(self.ev(e.slice, env)))

    def const_index(self, i):
        return tuple(self.const(x) for x in i) if isinstance(i, tuple) else self.const(i)

    def ev_Attribute(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, ModVal):
            v = o.name + "." + e.attr
            return None if v == "numpy.newaxis" else ModVal(v)
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "builtin":
            raise Unsupported(f"name {o[1]}")
        if isinstance(o, A2):
            if e.attr == "T":
                g = o.get
                o.shared = True
                r = self.new2(o.cols, o.rows, lambda r, c: g(c, r))
                r.shared = True
                return r
            if e.attr == "shape":
                return (o.rows, o.cols)
        if isinstance(o, A1) and o.nd:
            if e.attr == "T":
                return o
            if e.attr == "shape":
                return (o.n,)
            if e.attr == "size":
                return o.n
        if isinstance(o, SelfV):
            g = self.world.member(self.world.classes["UnitarySequenceEntry"], "get_apply_to")
            body = [x for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if isinstance(g, FuncVal) else []
            if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and body[0].value.attr == e.attr:
                return self.apply_to()
        return Method(o, e.attr)

    def apply_to(self):
        r = self.new1(self.K, lambda i: self.q(z(i)), False)
        r.shared = True
        return r

    def ev_ListComp(self, e, env):
        if len(e.generators) != 1:
            raise Unsupported("comprehension")
        n, item = self.seq(self.ev(e.generators[0].iter, env))
        if e.generators[0].ifs:
            n, item = self.filtered(e.generators[0], n, item, env)
        t = e.generators[0].target

        def at(i):
            child = {"vars": {}, "up": env, "module": env["module"], "cls": env["cls"]}
            guard, self.guard = self.guard, []
            try:
                self.assign(t, item(i), child)
            finally:
                self.guard = guard
            return self.ev(e.elt, child)
        n = simp(n)
        if isinstance(n, int) and n <= 8:
            return [at(i) for i in range(n)]
        self.generic(n, at)
        # the body reads the variables as they are now
        snap = {"vars": self.flat(env), "up": None, "module": env["module"], "cls": env["cls"]}
        used = {x.id for x in ast.walk(e.elt) if isinstance(x, ast.Name)}
        frozen = {x: (A1(v.n, v.get, v.nd) if isinstance(v, A1) else A2(v.rows, v.cols, v.get) if isinstance(v, A2) else v) for x, v in snap["vars"].items() if x in used}
        snap["vars"].update(frozen)

        def later(i):
            child = {"vars": {}, "up": snap, "module": env["module"], "cls": env["cls"]}
            self.assign(t, item(i), child)
            return self.quietly(lambda: self.ev(e.elt, child))
        if isinstance(later(self.fresh("i")), (list, tuple)):
            raise Unsupported("list of lists")
        return self.new1(n, later, False)

    ev_GeneratorExp = ev_ListComp

    def filtered(self, g, n, item, env):
        """(length, item) of the items that pass the tests, in order"""
        if self.guard or self.quiet:
            raise Unsupported("a filter on one path")
        k = self.fresh("k")

        def test(i):
            child = {"vars": {}, "up": env, "module": env["module"], "cls": env["cls"]}
            self.assign(g.target, item(i), child)
            return conj([self.bool(self.ev(x, child)) for x in g.ifs])
        self.generic(n, test)
        c = self.quietly(lambda: test(k))
        cnt = self.counter(k, c, n)
        self.count += 1
        at = z3.Function(f"kept!{self.count}", I, I)
        x = z3.Int("i")
        cx = z3.substitute(c, (k, x))
        self.learn(*[z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < cnt(z(n))), z3.And(at(x) >= 0, at(x) < z(n), z3.substitute(c, (k, at(x))), cnt(at(x)) == x)), patterns=[at(x)]),
                     z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < z(n), cx), at(cnt(x)) == x), patterns=[cnt(x)])])
        return cnt(z(n)), lambda i: item(at(z(i)))

    def flat(self, env):
        out = {}
        while env is not None:
            for x, v in env["vars"].items():
                out.setdefault(x, v)
            env = env["up"]
        return out

    # -- calls
    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unsupported("starred call")
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(f, Func):
            return self.inline(f, args, kw)
        if isinstance(f, FuncVal):
            return self.inline(Func(f.node, None, f.module, f.cls), args, kw)
        if isinstance(f, Method):
            return self.method(f.o, f.name, args, kw)
        name = f.name if isinstance(f, ModVal) else f[1] if isinstance(f, tuple) and f[0] == "builtin" else None
        if name is None:
            n = getattr(f, "name", None)
            name = n if isinstance(n, str) and "." in n else None
        if name is None:
            raise Unsupported("call")
        return self.library(name, args, kw)

    def inline(self, f, args, kw):
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or f.node.decorator_list and not (len(f.node.decorator_list) == 1 and isinstance(f.node.decorator_list[0], ast.Name) and f.node.decorator_list[0].id == "staticmethod"):
            raise Unsupported("signature")
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            raise Unsupported("arguments")
        env = {"vars": dict(zip(names, args)), "up": f.env, "module": f.module, "cls": f.cls}
        for k, v in kw.items():
            if k not in names or k in env["vars"]:
                raise Unsupported("arguments")
            env["vars"][k] = v
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if nm not in env["vars"]:
                env["vars"][nm] = self.ev(d, {"vars": {}, "up": f.env, "module": f.module, "cls": f.cls})
        if set(names) - set(env["vars"]):
            raise Unsupported("arguments")
        for nm in names:
            if isinstance(env["vars"][nm], list):
                v = env["vars"][nm]
                env["vars"][nm] = self.new1(len(v), self.pick(v) if v else (lambda i: 0), False)
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                raise Unsupported("scope")
        depth = getattr(self, "depth", 0)
        if depth > 12:
            raise Unsupported("recursion")
        self.depth = depth + 1
        guard, self.guard = self.guard, self.guard
        if guard:
            raise Unsupported("a call on one path")
        try:
            self.block(f.node.body, env)
        except Ret as r:
            return r.v
        finally:
            self.depth = depth
        return None

    def method(self, o, name, args, kw):
        if isinstance(o, SelfV):
            cls = self.world.classes["UnitarySequenceEntry"]
            if name == "get_apply_to" and not args:
                return self.apply_to()
            if name == "get_dimension" and not args:
                return pw(self.K)
            if name == "get_unitary" and not args:
                return UnitV()
            for nm in (name, f"_{cls.name}{name}"):
                m = self.world.member(cls, nm)
                if isinstance(m, FuncVal) and m.kind in ("method", "staticmethod"):
                    return self.inline(Func(m.node, None, m.module, m.cls), ([o] if m.kind == "method" else []) + args, kw)
            raise Unsupported(f"method {name}")
        if isinstance(o, ClassVal):
            m = self.world.member(o, name)
            if isinstance(m, FuncVal) and m.kind == "staticmethod":
                return self.inline(Func(m.node, None, m.module, m.cls), args, kw)
        if isinstance(o, UnitV) and name == "get_dimension":
            return pw(self.K)
        if isinstance(o, Sparse) and name in ("tocsr", "tocsc", "tocoo", "copy"):
            return o
        if isinstance(o, A1) and not o.nd:
            if name == "append" and len(args) == 1:
                if self.guard or getattr(self, "log", None) is not None or o.shared:
                    raise Unsupported("append in a loop")
                n, g, v = o.n, o.get, args[0]
                o.get, o.n = (lambda i: ite(simp(z(i) == z(n)), v, g(i))), add(n, 1)
                return None
            if name == "copy":
                return self.new1(o.n, o.get, False)
        if isinstance(o, (A1, A2)) and getattr(o, "nd", True):
            table = {"dot": "numpy.dot", "take": "numpy.take", "prod": "numpy.prod", "cumprod": "numpy.cumprod", "sum": "numpy.sum", "copy": "numpy.copy", "all": "numpy.all", "max": "numpy.max",
                     "argsort": "numpy.argsort", "reshape": "numpy.reshape", "ravel": "numpy.ravel", "flatten": "numpy.ravel", "transpose": "numpy.transpose"}
            if name in table:
                return self.library(table[name], [o] + (args if name != "reshape" or len(args) == 1 else [tuple(args)]), kw)
            if name == "astype":
                if not self.int_type(args[0]):
                    raise Unsupported("dtype")
                return self.map_arr(self.floor, o)
            if name == "tolist" and isinstance(o, A1):
                return self.new1(o.n, o.get, False)
        if isint(o) and name == "bit_length":
            e = log_of(o)
            if e is not None:
                return add(e, 1)
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def int_type(self, t):
        return t == ("builtin", "int") or isinstance(t, ModVal) and t.name in ("numpy.int64", "numpy.intp", "numpy.int_")

    def num_type(self, t):
        return self.int_type(t) or t is None or t == ("builtin", "float") or isinstance(t, ModVal) and t.name in ("numpy.float64",)

    def dot(self, a, b):
        def two(v):
            v = self.arr(v, False) if not isinstance(v, (A1, A2)) or isinstance(v, A1) and not v.nd else v
            return v
        a, b = two(a), two(b)
        if isinstance(a, A2) and isinstance(b, A2):
            self.oblig("shapes agree", z(a.cols) == z(b.rows), "product")
            g, h, n = a.get, b.get, a.cols
            return self.new2(a.rows, b.cols, lambda r, c: SumV(n, lambda j: self.op("*", g(r, j), h(j, c))))
        if isinstance(a, A2) and isinstance(b, A1):
            self.oblig("shapes agree", z(a.cols) == z(b.n), "product")
            g, h, n = a.get, b.get, a.cols
            return self.new1(a.rows, lambda r: SumV(n, lambda j: self.op("*", g(r, j), h(j))), True)
        if isinstance(a, A1) and isinstance(b, A2):
            self.oblig("shapes agree", z(a.n) == z(b.rows), "product")
            g, h, n = a.get, b.get, a.n
            return self.new1(b.cols, lambda c: SumV(n, lambda j: self.op("*", g(j), h(j, c))), True)
        raise Unsupported("product")

    def twos(self, v):
        """2 if every element is 2, 1 if every element is 1"""
        for c in (2, 1):
            i = self.fresh("i")
            x = v.get(i)
            if isint(x) and self.prove(z3.Implies(z3.And(i >= 0, i < z(v.n)), z(x) == c)):
                return c
        raise Unsupported("product of elements")

    def library(self, name, args, kw):
        nm = name.split(".")[-1]
        full = name
        if full.startswith("numpy.") and full.count(".") > 1:
            raise Unsupported(full)
        np_ = full.startswith("numpy.")
        base = not full.count(".")
        kw = dict(kw)
        allowed = {"arange": {"dtype"}, "ones": {"dtype", "shape"}, "zeros": {"dtype", "shape"}, "full": {"dtype"}, "array": {"dtype"}, "asarray": {"dtype"}, "sum": {"axis"}, "reshape": (), "append": (), "concatenate": ()}
        extra = set(kw) - set(allowed.get(nm, ())) if np_ else set()
        if extra:
            raise Unsupported(f"{full} with {sorted(extra)}")
        if "dtype" in kw and np_:
            if not self.num_type(kw["dtype"]):
                raise Unsupported("dtype")
            kw.pop("dtype")
        if base:
            return self.builtin(nm, args, kw)
        if full in ("scipy.sparse.coo_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.coo_array", "scipy.sparse.csr_array"):
            if set(kw) - {"shape", "dtype"} or len(args) != 1 or not (isinstance(args[0], tuple) and len(args[0]) == 2 and isinstance(args[0][1], tuple)) or not self.num_type(kw.get("dtype")):
                raise Unsupported("sparse matrix")
            data, (r, c) = args[0]
            data, r, c = [self.arr(x) for x in (data, r, c)]
            if not all(isinstance(x, A1) for x in (data, r, c)) or "shape" not in kw:
                raise Unsupported("sparse matrix")
            self.oblig("shapes agree", z3.And(z(data.n) == z(r.n), z(r.n) == z(c.n)), "sparse matrix")
            return Sparse(data, r, c, kw["shape"])
        if full in ("math.log2", "numpy.log2") and len(args) == 1 and isint(args[0]):
            e = log_of(args[0])
            if e is None:
                raise Unsupported("log2")
            return Log2(e)
        if full in ("math.floor", "numpy.floor", "math.trunc", "numpy.trunc", "numpy.fix") and len(args) == 1 or full in ("numpy.round", "numpy.rint") and isinstance(args[0], Log2):
            return self.map_arr(self.floor, args[0])
        if full == "math.prod" and len(args) == 1 and isinstance(args[0], A1):
            return pw(args[0].n) if self.twos(args[0]) == 2 else 1
        if not np_:
            raise Unsupported(full)
        if nm in ("array", "copy") and len(args) == 1:
            return self.arr(args[0])
        if nm == "asarray" and len(args) == 1:
            return self.arr(args[0], False)
        if nm == "arange" and 1 <= len(args) <= 3 and all(isint(x) for x in args):
            return self.rng(args, True)
        if nm in ("ones_like", "zeros_like") and len(args) == 1 and isinstance(args[0], (A1, A2)):
            a, v = args[0], 1 if nm == "ones_like" else 0
            return self.new1(a.n, lambda i: v, True) if isinstance(a, A1) else self.new2(a.rows, a.cols, lambda r, c: v)
        if nm in ("ones", "zeros", "full"):
            shape = args[0] if args else kw["shape"]
            v = args[1] if nm == "full" and len(args) > 1 else 1 if nm == "ones" else 0
            if len(args) > 1 and nm != "full" and not self.num_type(args[1]):
                raise Unsupported("dtype")
            if nm == "full" and not isint(v):
                raise Unsupported("full")
            if isinstance(shape, list):
                shape = tuple(shape)
            if isint(shape):
                return self.new1(shape, lambda i: v, True)
            if isinstance(shape, tuple) and len(shape) == 1:
                return self.new1(shape[0], lambda i: v, True)
            if isinstance(shape, tuple) and len(shape) == 2:
                return self.new2(shape[0], shape[1], lambda r, c: v)
        if nm == "prod" and len(args) == 1:
            a = self.arr(args[0], False)
            if isinstance(a, A1):
                return pw(a.n) if self.twos(a) == 2 else 1
        if nm == "cumprod" and len(args) == 1:
            a = self.arr(args[0], False)
            if isinstance(a, A1):
                return self.new1(a.n, (lambda i: pw(add(i, 1))) if self.twos(a) == 2 else lambda i: 1, True)
        if nm in ("fliplr", "flipud", "flip") and len(args) == 1:
            a = self.arr(args[0], False)
            a.shared = True
            g = a.get
            if isinstance(a, A1) and nm != "fliplr":
                r = self.new1(a.n, lambda i, n=a.n: g(sub(sub(n, 1), i)), True)
            elif isinstance(a, A2) and nm == "fliplr":
                r = self.new2(a.rows, a.cols, lambda i, j, n=a.cols: g(i, sub(sub(n, 1), j)))
            elif isinstance(a, A2) and nm == "flipud":
                r = self.new2(a.rows, a.cols, lambda i, j, n=a.rows: g(sub(sub(n, 1), i), j))
            else:
                raise Unsupported(full)
            r.shared = True
            return r
        if nm in ("append", "concatenate"):
            parts = args if nm == "append" else list(args[0])
            if len(parts) == 2:
                a, b = [self.arr(x if not isint(x) else [x]) for x in parts]
                if isinstance(a, A1) and isinstance(b, A1):
                    n, g, h = a.n, a.get, b.get
                    return self.new1(add(n, b.n), lambda i: ite(simp(z(i) < z(n)), g(i), h(sub(i, n))), True)
        if nm == "reshape" and len(args) == 2:
            a, s = args
            if isinstance(a, A1) and not a.nd:
                a = self.arr(a)
            s = s if isinstance(s, tuple) else (s,)
            a.shared = True
            g = a.get
            r = None
            if isinstance(a, A1) and len(s) == 2:
                def fits(x):
                    return isinstance(x, int) and x == -1 or self.prove(z(x) == z(a.n))
                if s[1] == 1 and isinstance(s[1], int) and fits(s[0]):
                    r = self.new2(a.n, 1, lambda i, j: g(i))
                elif s[0] == 1 and isinstance(s[0], int) and fits(s[1]):
                    r = self.new2(1, a.n, lambda i, j: g(j))
            elif isinstance(a, A2) and len(s) == 1:
                return self.library("numpy.ravel", [a], {})
            if r is None:
                raise Unsupported("reshape")
            r.shared = True
            return r
        if nm in ("ravel", "squeeze") and len(args) == 1:
            a = args[0]
            if isinstance(a, A1):
                return a
            g = a.get
            a.shared = True
            if isinstance(a.cols, int) and a.cols == 1:
                r = self.new1(a.rows, lambda i: g(i, 0), True)
            elif isinstance(a.rows, int) and a.rows == 1:
                r = self.new1(a.cols, lambda i: g(0, i), True)
            else:
                raise Unsupported("ravel")
            r.shared = True
            return r
        if nm == "transpose" and len(args) == 1:
            a = args[0]
            if isinstance(a, A1):
                return a
            g = a.get
            a.shared = True
            r = self.new2(a.cols, a.rows, lambda i, j: g(j, i))
            r.shared = True
            return r
        if nm in ("dot", "matmul") and len(args) == 2:
            return self.dot(*args)
        if nm == "sum":
            a, axis = args[0], args[1] if len(args) > 1 else kw.get("axis")
            if isinstance(a, A2) and axis in (1, -1):
                g, n = a.get, a.cols
                return self.new1(a.rows, lambda r: SumV(n, lambda j: g(r, j)), True)
            if isinstance(a, A2) and axis == 0:
                g, n = a.get, a.rows
                return self.new1(a.cols, lambda c: SumV(n, lambda j: g(j, c)), True)
        if nm == "take" and len(args) == 2:
            return self.load(self.arr(args[0]), self.arr(args[1]) if not isint(args[1]) else args[1])
        if nm in ("sort", "argsort") and len(args) == 1:
            a = self.arr(args[0], False)
            t = self.perm(a) if isinstance(a, A1) else None
            if t is None:
                raise Unsupported(f"{full} of an array not known to be a permutation")
            return self.new1(a.n, (lambda i: i) if nm == "sort" else (lambda i: t(z(i))), True)
        if nm == "all" and len(args) == 1:
            a = args[0]
            if isbool(a):
                return a
            a = self.arr(a, False)
            if isinstance(a, A1):
                i = self.fresh("i")
                return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z(a.n)), z(self.bool(a.get(i)))))
        if nm == "array_equal" and len(args) == 2:
            a, b = self.arr(args[0]), self.arr(args[1])
            if isinstance(a, A1) and isinstance(b, A1):
                return self.cmp("==", A1(a.n, a.get, False), A1(b.n, b.get, False))
        if nm in ("max", "amax", "min", "amin") and len(args) == 1:
            return self.builtin(nm[-3:], args, {})
        table = {"remainder": "%", "mod": "%", "floor_divide": "//", "add": "+", "subtract": "-", "multiply": "*", "right_shift": ">>", "left_shift": "<<", "bitwise_and": "&", "divide": "/", "true_divide": "/", "power": "**"}
        if nm in table and len(args) == 2:
            return self.op(table[nm], *[self.arr(x) if isinstance(x, (A1, list)) and not getattr(x, "nd", False) else x for x in args])
        raise Unsupported(full)

    def rng(self, args, nd):
        if len(args) == 3:
            a, b, st = [simp(x) for x in args]
            if not (isinstance(st, int) and st == -1):
                raise Unsupported("step of a range")
            n = sub(a, b)
        else:
            a, b = (0, args[0]) if len(args) == 1 else args[:2]
            st, n = 1, sub(b, a)
        if not self.prove(z(n) >= 0):
            n = z3.If(z(n) > 0, z(n), z3.IntVal(0))
        return self.new1(n, lambda i: add(a, i) if st == 1 else sub(a, i), nd)

    def builtin(self, nm, args, kw):
        if kw and nm not in ("enumerate",):
            raise Unsupported(f"{nm} with keywords")
        if nm == "range" and all(isint(x) for x in args):
            return self.rng(args, False)
        if nm == "len" and len(args) == 1:
            if isinstance(args[0], A2):
                return args[0].rows
            return self.seq(args[0])[0]
        if nm == "int" and len(args) == 1:
            return self.floor(args[0])
        if nm == "round" and len(args) == 1 and isinstance(args[0], Log2):
            return args[0].e
        if nm in ("list", "tuple") and len(args) == 1:
            if isinstance(args[0], (list, tuple)):
                return list(args[0]) if nm == "list" else tuple(args[0])
            n, g = self.seq(args[0])
            return self.new1(n, g, False)
        if nm == "enumerate":
            n, g = self.seq(args[0])
            s = args[1] if len(args) > 1 else kw.get("start", 0)
            return self.new1(n, lambda i: (add(i, s), g(i)), False)
        if nm == "zip" and len(args) == 2:
            (m, f), (n, g) = self.seq(args[0]), self.seq(args[1])
            if not self.prove(z(m) <= z(n)):
                m = n if self.prove(z(n) <= z(m)) else z3.If(z(m) < z(n), z(m), z(n))
            return self.new1(m, lambda i: (f(i), g(i)), False)
        if nm == "reversed" and len(args) == 1:
            n, g = self.seq(args[0])
            return self.new1(n, lambda i: g(sub(sub(n, 1), i)), False)
        if nm == "sorted" and len(args) == 1 and isinstance(args[0], A1):
            if self.perm(args[0]) is None:
                raise Unsupported("sorted")
            return self.new1(args[0].n, lambda i: i, False)
        if nm in ("max", "min") and len(args) == 1:
            n, g = self.seq(args[0])
            self.oblig("the maximum of something", z(n) >= 1, nm)
            m, w, i = self.fresh(nm), self.fresh("at"), z3.Int("i")
            gi = z(self.num(g(i)))
            self.learn(z3.Implies(z(n) >= 1, conj([w >= 0, w < z(n), z(g(w)) == m])))
            body = z3.Implies(z3.And(i >= 0, i < z(n)), gi <= m if nm == "max" else gi >= m)
            pat = z3.is_app(gi) and gi.decl().kind() == z3.Z3_OP_UNINTERPRETED
            self.learn(z3.ForAll([i], body, patterns=[gi]) if pat else z3.ForAll([i], body))
            return m
        if nm == "max" and len(args) == 2 or nm == "min" and len(args) == 2:
            a, b = [z(self.num(x)) for x in args]
            return simp(z3.If(a > b, a, b) if nm == "max" else z3.If(a < b, a, b))
        if nm in ("all", "any") and len(args) == 1 and isinstance(args[0], A1):
            n, g = self.seq(args[0])
            i = self.fresh("i")
            r = z3.And(i >= 0, i < z(n))
            b = z(self.bool(g(i)))
            return z3.ForAll([i], z3.Implies(r, b)) if nm == "all" else z3.Exists([i], z3.And(r, b))
        raise Unsupported(f"{nm}")


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


# ---------------------------------------------------------------- the unit
def permute_matrix(world, rec, cover):
    """get_permute_matrix of an arbitrary entry for a register of n qubits: accepted exactly if the register contains the
    qubits; the result is the 2^n x 2^n matrix with a 1 in column pi(r) of each row r and no other entry, where digit s(m) of pi(r) is
    digit m of r (most significant first) for a permutation s of the digits that takes the j-th listed qubit to j."""
    f = world.functions.get("UnitarySequenceEntry.get_permute_matrix")
    if f is None or f.kind != "method":
        raise Unsupported("UnitarySequenceEntry.get_permute_matrix not found")
    out = {"calls": 0, "solver_s": 0.0}
    for case in ("inside", "outside"):
        failed = []
        m = Machine(world, rec if case == "inside" else lambda clause, status, *rest: failed.append(clause) if status != "discharged" else None)
        n, K, mx = z3.Ints("n K maxq")
        q = z3.Function("q", I, I)
        i, j = z3.Ints("i j")
        m.K, m.q, m.outside = K, q, case == "outside"
        w = z3.Int("maxq_at")
        # invariants of an entry (proved for its constructor): at least one qubit, all different, not negative; k different
        # numbers from 0 to max are at most max + 1
        m.facts += [n >= 0, K >= 1, K <= mx + 1, w >= 0, w < K, q(w) == mx,
                    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K), z3.And(q(i) >= 0, q(i) <= mx)), patterns=[q(i)]),
                    z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < K), q(i) != q(j)), patterns=[z3.MultiPattern(q(i), q(j))])]
        m.facts.append(n >= mx + 1 if case == "inside" else n < mx + 1)
        D = P(n)
        try:
            r = m.inline(Func(f.node, None, f.module, f.cls), [SelfV(), D], {})
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, z3.Z3Exception) as e:
            raise Unsupported(f"array code: {type(e).__name__}: {e}")
        except Refused:
            if case == "inside":
                rec("accepts every system that contains the qubits", "undecided", "refused", 0.0, {})
            else:
                rec("refuses a system that does not contain the qubits", "discharged", "", 0.0, {})
            continue
        finally:
            out["calls"] += m.calls
            out["solver_s"] += m.solver_s
        if case == "outside":
            if failed:
                raise Unsupported("not refused by an assertion")
            rec("refuses a system that does not contain the qubits", "undecided", "not refused", 0.0, {})
            continue
        if m.prove(False):
            raise Unsupported("inconsistent facts")
        if not isinstance(r, Sparse):
            raise Unsupported("form of the result")
        cover("accepted")
        x = m.fresh("row")
        m.facts.append(z3.And(x >= 0, x < D))
        rows, cols = r.shape
        m.oblig("a 1 in each row and nothing else", conj([z(rows) == D, z(cols) == D, z(r.data.n) == D, z(r.rows.n) == D, z(r.cols.n) == D,
                                                          z(m.num(r.data.get(x))) == 1, z(m.num(r.rows.get(x))) == x]))
        c = r.cols.get(x)
        if not isinstance(c, SumV):
            raise Unsupported("form of the column index")
        m.oblig("as many digits as qubits", z(c.n) == n)
        d, jj = m.fresh("digit"), m.fresh("listed")
        m.facts.append(z3.And(d >= 0, d < n, jj >= 0, jj < K))
        ok, why = False, "no permutation of the digits"
        for g, size, tau, sig in reversed(m.perms):
            if not m.prove(z(size) == n):
                continue
            # digit p (most significant first) of the column is digit tau(p) of the row
            spec = lambda p: mul(BIT(x, z(n - 1 - tau(z(p)))), pw(sub(sub(n, 1), p)))  # noqa: E731
            body = z(m.num(m.quietly(lambda: c.f(d))))
            moved = m.prove(body == z(spec(d))) or m.prove(body == z(spec(sub(sub(n, 1), d))))
            placed = m.prove(sig(q(jj)) == jj)
            if moved and placed:
                ok = True
                rec("digits of the row moved as the permutation says", "discharged", "", 0.0, {})
                rec("the j-th listed qubit is the j-th digit of the column", "discharged", "", 0.0, {})
                break
            why = f"moved {moved} placed {placed}: {simp(body)}"
        if not ok:
            rec("digits of the row moved as the permutation says", "undecided", str(why)[:600], 0.0, {})
            rec("the j-th listed qubit is the j-th digit of the column", "undecided", "", 0.0, {})
    return out
