"""Trusted models of Python built-ins and of the numpy, scipy, copy, random, time and itertools functions used by /repo.
Floats are real numbers, complex numbers exact, arrays matrices over the complex numbers."""
from fractions import Fraction

import z3

from . import alg, mat as M
from .alg import X, NotPoly, PI, IU, canon, to_poly
from .engine import FrameWrite, Infeasible, PyRaise, Unsupported, pow2 as POW2, ilog2 as ILOG2
from .values import *


class Scal(V):
    """s * product of det(f)^e"""
    __slots__ = ("s", "dets")

    def __init__(self, s, dets):
        self.s, self.dets = s, tuple(dets)


NATIVES, CONSTS, BUILTINS = {}, {}, {}


def native(*names):
    def deco(fn):
        for n in names:
            NATIVES[n] = Native(n, fn)
        return fn
    return deco


def builtin_fn(*names):
    def deco(fn):
        for n in names:
            BUILTINS[n] = Native(n, fn)
            NATIVES["builtins." + n] = BUILTINS[n]
        return fn
    return deco


class TypeVal(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def canon_name(n):
    for a, b in (("np.", "numpy."),):
        if n.startswith(a):
            n = b + n[len(a):]
    return n


def lookup(name):
    if name in NATIVES:
        return NATIVES[name]
    if name in CONSTS:
        return CONSTS[name]
    if name.startswith(("typing.", "collections.abc.")):
        return Opaque("typing", name)
    if name in ("numpy.random", "numpy.linalg", "scipy.linalg", "scipy.stats", "scipy.sparse", "scipy.sparse.linalg", "numpy.typing", "os.path", "collections.abc"):
        return ModVal(name)
    return Native(name, unsupported(name))


def unsupported(name):
    def fn(it, args, kwargs):
        raise Unsupported(f"library function {name}")
    return fn


def builtin(name):
    if name in BUILTINS:
        return BUILTINS[name]
    if name in ("AssertionError", "ValueError", "TypeError", "KeyError", "IndexError", "Exception", "RuntimeError", "NotImplementedError", "AttributeError", "ZeroDivisionError"):
        return TypeVal(name)
    if name == "NotImplemented":
        return Opaque("NotImplemented")
    return None


for _n in ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "complex", "object", "frozenset", "bytes"):
    pass


def kw(args, kwargs, names, defaults=None, fn=""):
    """Positional/keyword binding of a library call."""
    out = dict(defaults or {})
    if len(args) > len(names):
        raise Unsupported(f"{fn}: too many arguments")
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kwargs.items():
        if k not in names:
            raise Unsupported(f"{fn}: argument {k}")
        out[k] = v
    return out


# ---------------------------------------------------------------- numbers
def low(v):
    """Simplest representation of a number."""
    if isinstance(v, X):
        c = v.const()
        if c is not None:
            return c
        if v.is_poly():
            return v.z3()
    if isinstance(v, z3.ExprRef) and v.sort() == R and z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def unnp(v):
    return v.v if isinstance(v, NpInt) else v


def as_x(v):
    v = unnp(v)
    if isinstance(v, X):
        return v
    if isinstance(v, bool):
        return X.of(int(v))
    if is_z3(v) and v.sort() == B:
        v = z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return X.of(v)


def to_num(v):
    """bool -> int"""
    if isinstance(v, bool):
        return int(v)
    if is_z3(v) and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def int_div(it, a, b):
    """Exact or floor quotient of non-negative integers."""
    cx = it.cx
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    ea, eb = exponent(cx, a), exponent(cx, b)
    if ea is not None and eb is not None and cx.entails(zint(ea) >= zint(eb)) and cx.entails(zint(eb) >= 0):
        return cx.pow2(z3.simplify(zint(ea) - zint(eb), som=True))
    try:
        q = alg.p_mul(to_poly(zint(a)), alg.p_inv(to_poly(zint(b))))
        if all(all(e > 0 for _, e in m) and c.denominator == 1 for m, c in q.items()):
            t = sum((int(c) * z3.Product([alg.SYM[s] for s, e in m for _ in range(e)]) if m else z3.IntVal(int(c)) for m, c in q.items()), z3.IntVal(0))
            if cx.entails(zint(b) != 0):
                return simp_int(z3.simplify(t))
    except NotPoly:
        pass
    return simp_int(zint(a) / zint(b))


def exponent(cx, d):
    """k with d = 2^k, if one is evident."""
    if isinstance(d, int):
        return d.bit_length() - 1 if d > 0 and d & (d - 1) == 0 else None
    if d.decl().name() == "pow2":
        return d.arg(0)
    for t in list(cx.pow_terms):
        if not t.eq(POW2(ILOG2(d))) and cx.entails(t == d):
            return t.arg(0)
    return None


def to_int(it, v):
    """int(v)"""
    cx = it.cx
    v = unnp(v)
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, Opaque) and v.kind == "log2":
        d = v.args[0]
        if isinstance(d, int):
            return d.bit_length() - 1
        e = exponent(cx, d)
        if e is not None:
            return simp_int(e)
        t = ILOG2(d)
        cx.register(t)
        return t
    if is_z3(v):
        if v.sort() == I:
            return v
        if v.sort() == B:
            return to_num(v)
        if z3.is_to_real(v):
            return simp_int(v.arg(0))
        if z3.is_div(v) and z3.is_to_real(v.arg(0)) and (z3.is_to_real(v.arg(1)) or z3.is_rational_value(v.arg(1))):
            b = v.arg(1)
            b = b.arg(0) if z3.is_to_real(b) else z3.IntVal(b.numerator_as_long())
            return int_div(it, simp_int(v.arg(0).arg(0)), simp_int(b))
        if cx.entails(v >= 0):
            return z3.ToInt(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isinstance(v, X):
        return to_int(it, low(v))
    raise Unsupported(f"int() of {type(v).__name__}")


def arith(it, op, a, b):
    """Scalar arithmetic."""
    cx = it.cx
    wrap = NpInt if (isinstance(a, NpInt) or isinstance(b, NpInt)) else None
    a, b = to_num(unnp(a)), to_num(unnp(b))
    if isinstance(a, Scal) or isinstance(b, Scal):
        return scal_op(it, op, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return opaque_op(it, op, a, b)
    if is_int(a) and is_int(b) and op != "/":
        r = int_op(it, op, a, b)
        return wrap(r) if wrap and is_int(r) else r
    if op == "**":
        return power(it, a, b)
    if op in ("//", "%"):
        raise Unsupported(f"{op} of reals")
    if op == "/":
        z = compare_nums(it, "==", b, 0)
        if z is not False and (z is True or cx.decide(z)):
            raise PyRaise("ZeroDivisionError")
    if isinstance(a, Fraction) and isinstance(b, (int, Fraction)) or isinstance(b, Fraction) and isinstance(a, (int, Fraction)):
        return {"+": lambda: Fraction(a) + b, "-": lambda: Fraction(a) - b, "*": lambda: Fraction(a) * b, "/": lambda: Fraction(a) / b}[op]()
    if isinstance(a, int) and isinstance(b, int):
        return Fraction(a, b)
    if isinstance(a, X) or isinstance(b, X):
        x, y = as_x(a), as_x(b)
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        except NotPoly as e:
            raise Unsupported(str(e))
        return low(r)
    if op == "/" and is_int(a) and is_int(b):
        q = zint(a), zint(b)
        return z3.ToReal(q[0]) / z3.ToReal(q[1]) if not isinstance(b, int) else z3.ToReal(q[0]) / z3.RealVal(b)
    x, y = zreal(a), zreal(b)
    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
    try:
        r = canon(r)
    except NotPoly:
        pass
    return low(r)


def int_op(it, op, a, b):
    cx = it.cx
    if isinstance(a, int) and isinstance(b, int):
        if op == "**":
            return a ** b if b >= 0 else Fraction(a) ** b
        if op in ("//", "%"):
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a // b if op == "//" else a % b
        return {"+": a + b, "-": a - b, "*": a * b, "|": a | b, "&": a & b, "^": a ^ b}.get(op) if op not in ("<<", ">>") else (a << b if op == "<<" else a >> b)
    if op in ("+", "-", "*"):
        if op == "*":
            ea = exponent(cx, a) if is_z3(a) and a.decl().name() == "pow2" else None
            eb = exponent(cx, b) if is_z3(b) and b.decl().name() == "pow2" else None
            if ea is not None and eb is not None and cx.entails(z3.And(zint(ea) >= 0, zint(eb) >= 0)):
                return cx.pow2(zint(ea) + zint(eb))
        r = {"+": lambda: zint(a) + zint(b), "-": lambda: zint(a) - zint(b), "*": lambda: zint(a) * zint(b)}[op]()
        return simp_int(z3.simplify(r, som=True))
    if op == "**":
        if isinstance(a, int) and a == 2:
            if cx.decide(zint(b) >= 0):
                return cx.pow2(b)
            raise Unsupported("2 to a negative power")
        if isinstance(b, int) and 0 <= b <= 8:
            r = 1
            for _ in range(b):
                r = int_op(it, "*", r, a)
            return r
        raise Unsupported("integer power")
    if op == "<<" and isinstance(a, int) and a == 1:
        return int_op(it, "**", 2, b)
    if op in ("//", "%"):
        if isinstance(b, int) and b > 0 or cx.entails(zint(b) > 0):
            if op == "//":
                return int_div(it, a, b)
            return simp_int(zint(a) % zint(b))
        raise Unsupported("integer division")
    raise Unsupported(f"integer {op}")


def power(it, a, b):
    cx = it.cx
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if (isinstance(a, (int, Fraction)) and a == 1 or isinstance(a, X) and a == X.of(1)) and is_num(b):
        return 1
    if isinstance(b, int) and abs(b) <= 8:
        try:
            return low(as_x(a) ** b)
        except NotPoly as e:
            raise Unsupported(str(e))
    if isinstance(b, Fraction) and b == Fraction(1, 2):
        return sqrt(it, a)
    if isinstance(b, NpInt) or isinstance(a, NpInt):
        return power(it, unnp(a), unnp(b))
    if isinstance(a, (int, Fraction)) and a == 2 and is_z3(b) and b.sort() == R:
        i = to_int(it, b)
        if it.cx.entails(z3.ToReal(zint(i)) == b):
            return cx.pow2(i)
    raise Unsupported("power")


def sqrt(it, a):
    cx = it.cx
    a = unnp(a)
    if isinstance(a, (int, Fraction)):
        if a < 0:
            raise Unsupported("sqrt of a negative number")
        return low(alg.xsqrt(Fraction(a)))
    t = zreal(a)
    s = cx.skolem("sqrt", None, None, R, (canon(t),))
    cx.ax(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
    return s


def scal_op(it, op, a, b):
    def sc(v):
        return v if isinstance(v, Scal) else Scal(as_x(v), ())
    if op == "*":
        a, b = sc(a), sc(b)
        return Scal(a.s * b.s, M.dets_mul(a.dets, b.dets))
    if op == "/":
        a, b = sc(a), sc(b)
        return Scal(a.s / b.s, M.dets_mul(a.dets, tuple((f, -e) for f, e in b.dets)))
    if op == "**" and isinstance(a, Scal) and not isinstance(b, Scal):
        e = as_x(b)
        if not (a.s - X.of(1)).is_zero():
            raise Unsupported("power of a scaled determinant")
        return Scal(X.of(1), tuple((f, g * e) for f, g in a.dets))
    raise Unsupported(f"determinant {op}")


def opaque_op(it, op, a, b):
    if op == "/" and isinstance(a, Opaque) and a.kind == "ln" and isinstance(b, Opaque) and b.kind == "ln" and b.args[0] == 2:
        return Opaque("log2", a.args[0])
    if isinstance(a, Opaque) and a.kind == "trace" and op in ("*", "/") and is_num(b):
        return Opaque("trace", a.args[0].scale(as_x(b) if op == "*" else as_x(b).inv()))
    if isinstance(b, Opaque) and b.kind == "trace" and op == "*" and is_num(a):
        return Opaque("trace", b.args[0].scale(as_x(a)))
    if isinstance(a, Opaque) and a.kind == "log2" or isinstance(b, Opaque) and b.kind == "log2":
        f = lambda v: zreal(to_int(it, v)) if isinstance(v, Opaque) else v
        if all(not isinstance(v, Opaque) or v.kind == "log2" and exponent(it.cx, v.args[0]) is not None for v in (a, b)):
            return arith(it, op, f(a), f(b))
    raise Unsupported(f"{op} on {a!r} and {b!r}"[:120])


def compare_nums(it, op, a, b):
    a, b = to_num(unnp(a)), to_num(unnp(b))
    if isinstance(a, Opaque) and a.kind == "log2":
        a = to_int(it, a)
    if isinstance(b, Opaque) and b.kind == "log2":
        b = to_int(it, b)
    if isinstance(a, Scal) or isinstance(b, Scal) or isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of complex values")
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, X) or isinstance(b, X):
        d = as_x(a) - as_x(b)
        if op in ("==", "!="):
            if d.is_zero():
                return op == "=="
            if d.symbols() <= {alg.PIK}:
                return op == "!="
            raise Unsupported("equality of complex values")
        if d.symbols() <= {alg.PIK} and d.is_real():
            if d.is_zero():
                return op in ("<=", ">=")
            v = d.approx()
            if abs(v) > 1e-9:
                return (v < 0) == (op in ("<", "<="))
        a, b = low(as_x(a)), low(as_x(b))
        if isinstance(a, X) or isinstance(b, X):
            raise Unsupported("comparison of transcendental values")
    if is_int(a) and is_int(b):
        x, y = zint(a), zint(b)
    else:
        x, y = zreal(a), zreal(b)
    r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
    r = z3.simplify(r)
    return True if z3.is_true(r) else False if z3.is_false(r) else r


# ---------------------------------------------------------------- generic protocol
def truth(it, v):
    cx = it.cx
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    if is_z3(v):
        if v.sort() == B:
            b = z3.simplify(v)
            return True if z3.is_true(b) else False if z3.is_false(b) else b
        return compare_nums(it, "!=", v, 0)
    if isinstance(v, X):
        return not v.is_zero() if v.const() is not None else Unsupported
    if isinstance(v, NpInt):
        return truth(it, v.v)
    if isinstance(v, Str):
        return True if any(isinstance(p, str) or isinstance(p, SOf) and never_empty(it, p) for p in v.parts) else nonempty_str(it, v)
    if isinstance(v, (Ent, FuncVal, ClassVal, Native, Bound, EnumMember, OVal)):
        if isinstance(v, (Ent, OVal)) and any(it.world.member(v.cls, m) for m in ("__bool__", "__len__")):
            raise Unsupported("__bool__")
        return True
    if isinstance(v, Ref):
        c = cx.get(v)
        if isinstance(c, ObjC):
            if any(it.world.member(c.cls, m) for m in ("__bool__", "__len__")):
                raise Unsupported("__bool__")
            return True
        if isinstance(c, ArrC):
            raise Unsupported("truth of a matrix")
    if is_seq(it, v):
        k = kind_of(it, v)
        if k in ("iter", "spent"):
            return True
        content = cx.norm_content(raw_content(it, v))
        if k == "arr":
            if len(content) == 1 and isinstance(content[0], El):
                return truth(it, content[0].v)
            raise PyRaise("ValueError", "truth value of an array")
        return nonempty(it, content)
    if is_dict(it, v):
        return nonempty(it, dict_content(it, v))
    raise Unsupported(f"truth of {type(v).__name__}")


def nonempty(it, content):
    content = it.cx.norm_content(content)
    if any(isinstance(c, El) for c in content):
        return True
    n = it.cx.length(content)
    return n > 0 if isinstance(n, int) else (n > 0)


def never_empty(it, p):
    return all(truth(it, a) is True for a in p.args[1:]) if p.kind == "ite" else p.kind in ("str", "strfloat", "repr") or p.kind.startswith("format:") and not isinstance(p.args[0], (str, Str))


def nonempty_str(it, v):
    if len(v.parts) == 1 and isinstance(v.parts[0], SJoin):
        # of strings that are not empty: empty exactly when there are none
        content = v.parts[0].content
        items = [c.v if isinstance(c, El) else None if c.flat else c.tab.template for c in content]
        if all(isinstance(x, (str, Str)) and truth(it, x) is True for x in items):
            return nonempty(it, content)
    it.cx.n("strne")
    return it.cx.skolem("nonempty", None, None, B, v)


def is_seq(it, v):
    return isinstance(v, (tuple, LVal)) or (isinstance(v, Ref) and isinstance(it.cx.get(v), ListC)) or (isinstance(v, Opaque) and v.kind == "view")


def is_dict(it, v):
    return isinstance(v, DVal) or (isinstance(v, Ref) and isinstance(it.cx.get(v), DictC))


def is_mat(it, v):
    return isinstance(v, MVal) or (isinstance(v, Ref) and isinstance(it.cx.get(v), ArrC))


def kind_of(it, v):
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, LVal):
        return v.kind
    if isinstance(v, Opaque):
        return "view"
    return it.cx.get(v).kind


def raw_content(it, v):
    """The elements of an iterable for a use in which their order and repetitions do not matter."""
    if is_seq(it, v) and kind_of(it, v) == "set":
        return v.content if isinstance(v, LVal) else it.cx.get(v).content
    return content_of(it, v)


def lazy(it, content, env=None, names=()):
    """An iterator: used once, and before anything it reads changes."""
    cx = it.cx
    r = mk_list(it, content, "iter")
    cx.stamps[r.id] = ({i: c for i, c in cx.heap.items() if not isinstance(c, EnvC) and i != r.id}, env, {n: it.lookup(n, env) for n in names if n in bound_names(it, env)})
    return r


def bound_names(it, env):
    out, r = set(), env.ref
    while r is not None:
        c = it.cx.get(r)
        out |= set(c.vars)
        r = c.parent
    return out


def fresh_iter(it, v):
    cx = it.cx
    heap, env, names = cx.stamps[v.id]
    if any(cx.heap.get(i) is not c for i, c in heap.items()) or any(it.lookup(n, env) is not x for n, x in names.items()):
        raise Unsupported("an iterator used after what it reads may have changed")


def content_of(it, v):
    """The elements of an iterable, in order."""
    cx = it.cx
    if is_seq(it, v) and not isinstance(v, tuple):
        k = kind_of(it, v)
        if k == "set":
            c = raw_content(it, v)
            if len(c) > 1 or any(not isinstance(x, El) for x in c):
                raise Unsupported("order of a set")
            return c
        if k == "iter":
            if not isinstance(v, Ref):
                raise Unsupported("a stored iterator")
            fresh_iter(it, v)
            c = cx.get(v).content
            cx.heap[v.id] = ListC((), "spent", cx.get(v).tag)
            return c
        if k == "spent":
            raise Unsupported("an iterator used twice")
    if isinstance(v, tuple):
        return tuple(El(x) for x in v)
    if isinstance(v, LVal):
        return v.content
    if isinstance(v, DVal) or (isinstance(v, Ref) and isinstance(cx.get(v), DictC)):
        return map_content(it, dict_content(it, v), lambda p: p[0])
    if isinstance(v, Ref) and isinstance(cx.get(v), ListC):
        return cx.get(v).content
    if isinstance(v, Opaque) and v.kind == "view":
        which, d = v.args
        c = dict_content(it, d)
        if which == "items":
            return c
        return map_content(it, c, lambda p: p[0 if which == "keys" else 1])
    if isinstance(v, ClassVal) and v.enum:
        return tuple(El(v.members[n]) for n in v.members["__order__"])
    if isinstance(v, str):
        return tuple(El(ch) for ch in v)
    if v is None or is_num(v):
        raise PyRaise("TypeError", "not iterable")
    raise Unsupported(f"iteration over {type(v).__name__}")


def mk_list(it, content, kind="list"):
    return it.cx.new(ListC(tuple(content), kind))


def mk_tuple(it, content):
    if all(isinstance(c, El) for c in content):
        return tuple(c.v for c in content)
    return LVal(tuple(content), "tuple", "new")


def map_content(it, content, fn):
    """Elementwise pure function; the generic element stands for all."""
    cx = it.cx
    out = []
    for c in content:
        if isinstance(c, El):
            out.append(El(fn(c.v)))
        elif isinstance(c, Sl):
            if c.flat:
                inner = c.tab.template
                if not isinstance(inner, LVal):
                    raise Unsupported("map over a nested chunk")
                out.append(Sl(Tab(c.tab.var, LVal(map_content(it, inner.content, fn), "list", "new"), c.tab.facts), c.lo, c.hi, c.rev, c.cond, True))
            else:
                k = cx.fresh_index()
                v = cx.generic(c, k, lambda x: fn(x))
                out.append(Sl(Tab(k, v, [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]), c.lo, c.hi, c.rev,
                              None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k))))
        elif isinstance(c, Shuf):
            out.append(Shuf(map_content(it, c.content, fn), c.tag))
        else:
            raise Unsupported("map")
    return tuple(out)


def dict_content(it, d):
    if isinstance(d, DVal):
        return d.content
    if isinstance(d, Ref) and isinstance(it.cx.get(d), DictC):
        c = it.cx.get(d)
        if c.inv is not None:
            raise Unsupported("contents of a cache")
        return c.content
    raise Unsupported(f"dictionary view of {type(d).__name__}")


def dict_put(it, content, k, v):
    for i, c in enumerate(content):
        if isinstance(c, El):
            b = compare(it, "==", c.v[0], k)
            b = truth(it, b)
            if b is True or (b is not False and it.cx.decide(b)):
                return list(content[:i]) + [El((c.v[0], v))] + list(content[i + 1:])
        elif not (isinstance(c, Sl) and isinstance(c.tab.template, Opaque) and c.tab.template.kind == "holeitem"):
            raise Unsupported("store into a symbolic dictionary")
    return list(content) + [El((k, v))]


def dict_put_chunk(it, content, c):
    if isinstance(c, El):
        return dict_put(it, content, *c.v)
    if content:
        raise Unsupported("merge of symbolic dictionaries")
    return [c]


def identical(it, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool) and is_bool(b):
        return b if a else z3.Not(b)
    if isinstance(b, bool) and is_bool(a):
        return a if b else z3.Not(a)
    if isinstance(a, EnumMember) or isinstance(b, EnumMember):
        return a == b
    if isinstance(a, (ClassVal, Native, TypeVal)) or isinstance(b, (ClassVal, Native, TypeVal)):
        return a is b
    if isinstance(a, Ent) and isinstance(b, Ent):
        if a.tag == b.tag:
            return z3.simplify(a.term == b.term) if not a.term.eq(b.term) else True
    if type(a) is not type(b) and not {type(a), type(b)} <= {Ent, OVal}:
        return False
    raise Unsupported("identity of values")


def compare(it, op, a, b):
    cx = it.cx
    if isinstance(a, TypeVal) or isinstance(b, TypeVal) or isinstance(a, ClassVal) or isinstance(b, ClassVal):
        r = a is b
        return r if op == "==" else not r
    if (is_num(a) or isinstance(a, (Scal, Opaque))) and (is_num(b) or isinstance(b, (Scal, Opaque))):
        if isinstance(a, Opaque) and a.kind == "abspart":
            return mask_compare(it, op, a, b)
        if isinstance(b, Opaque) and b.kind == "abspart":
            return mask_compare(it, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), b, a)
        return compare_nums(it, op, a, b)
    arr = (is_seq(it, a) and kind_of(it, a) == "arr"), (is_seq(it, b) and kind_of(it, b) == "arr")
    if any(arr):
        if arr[0] and not is_seq(it, b):
            return mk_list(it, map_content(it, content_of(it, a), lambda x: compare(it, op, x, b)), "arr")
        if arr[1] and not is_seq(it, a):
            return mk_list(it, map_content(it, content_of(it, b), lambda x: compare(it, op, a, x)), "arr")
        return mk_list(it, zip_map(it, content_of(it, a), content_of(it, b), lambda x, y: compare(it, op, x, y)), "arr")
    if op not in ("==", "!="):
        if is_mat(it, a) or is_mat(it, b):
            return mask_compare(it, op, a, b)
        if a is None or b is None:
            raise PyRaise("TypeError", "unorderable")
        raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")
    r = equal(it, a, b)
    if op == "==":
        return r
    return (not r) if isinstance(r, bool) else z3.Not(r)


def equal(it, a, b):
    """Python's == on non-numeric values, as a formula."""
    cx = it.cx
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if cx.same_str(a, b):
            return True
        return name_eq(it, a, b)
    if isinstance(a, EnumMember) or isinstance(b, EnumMember):
        return a == b
    if is_seq(it, a) and is_seq(it, b):
        if {kind_of(it, a), kind_of(it, b)} & {"set", "iter", "spent"}:
            raise Unsupported("equality of sets or iterators")
        if kind_of(it, a) != kind_of(it, b):
            return False
        ca, cb = cx.norm_content(content_of(it, a)), cx.norm_content(content_of(it, b))
        la, lb = cx.length(ca), cx.length(cb)
        cond = compare_nums(it, "==", la, lb)
        if cond is False:
            return False
        if cond is not True and not cx.decide(cond):
            return False
        if all(isinstance(c, El) for c in ca + cb):
            out = True
            for x, y in zip(ca, cb):
                r = compare(it, "==", x.v, y.v)
                out = and_(out, truth(it, r))
            return out
        return all_content(it, zip_map(it, ca, cb, lambda x, y: compare(it, "==", x, y)))
    if is_num(a) and is_num(b):
        return compare_nums(it, "==", a, b)
    if type(a) is not type(b) and not (isinstance(a, (Ref, Ent, OVal)) and isinstance(b, (Ref, Ent, OVal))):
        return False
    oa, ob = obj_cls(it, a), obj_cls(it, b)
    if oa is not None and ob is not None:
        for c in (oa, ob):
            if it.world.member(c, "__eq__"):
                m = it.world.member(c, "__eq__")
                return it.call_function(m, [a, b], {})
        if isinstance(a, Ent) and isinstance(b, Ent):
            return z3.simplify(a.term == b.term)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        return False
    if isinstance(a, Ent) and isinstance(b, Ent):
        return z3.simplify(a.term == b.term)
    if isinstance(a, FuncVal):
        return a is b
    if is_dict(it, a) and is_dict(it, b):
        fa, fb = cx.freeze(a), cx.freeze(b)
        if cx.same(fa, fb):
            return True
    raise Unsupported(f"equality of {type(a).__name__}")


def name_eq(it, a, b):
    a2, b2 = sorted([a, b], key=lambda v: M.key(v) if not isinstance(v, str) else v)
    if all(isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], SName) or isinstance(v, str) for v in (a, b)):
        t = lambda v: it.cx.str_const(v) if isinstance(v, str) else v.parts[0].term
        return t(a) == t(b)
    return it.cx.skolem("streq", None, None, B, (a2, b2))


def obj_cls(it, v):
    if isinstance(v, (Ent, OVal)):
        return v.cls
    if isinstance(v, Ref) and isinstance(it.cx.get(v), ObjC):
        return it.cx.get(v).cls
    return None


def and_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def all_content(it, content):
    """Conjunction of the elements, as a formula."""
    cx = it.cx
    out = True
    for c in cx.norm_content(content):
        if isinstance(c, El):
            out = and_(out, truth(it, c.v))
        elif isinstance(c, Sl) and not c.flat:
            b = truth(it, c.tab.template)
            if c.cond is not None:
                b = True if b is True else z3.Implies(c.cond, zbool(b))
            out = and_(out, cx.qatom(c.tab.var, c.lo, c.hi, b))
        elif isinstance(c, Sl):
            inner = all_content_term(it, c)
            out = and_(out, inner)
        elif isinstance(c, Shuf):
            out = and_(out, all_content(it, c.content))
        else:
            raise Unsupported("all() over this list")
    return out


def all_content_term(it, c):
    """True where every inner list is proved to satisfy it; what else may hold is not decided."""
    cx = it.cx
    k = cx.fresh_index()
    with cx.within(c, k):
        v = cx.tab_at(c.tab, k)
        b = all_content(it, v.content)
        if b is True or b is not False and cx.entails(b):
            return True
    raise Unsupported("all() over a nested list")


def contains(it, coll, v):
    cx = it.cx
    if is_dict(it, coll):
        c = cx.get(coll) if isinstance(coll, Ref) else coll
        if isinstance(c, DictC) and c.inv is not None:
            return c.inv(it, c, v)[0]
        content = map_content(it, dict_content(it, coll), lambda p: p[0])
    elif isinstance(coll, (str, Str)):
        raise Unsupported("substring test")
    else:
        content = raw_content(it, coll)
    neg = all_content(it, map_content(it, cx.norm_content(content), lambda x: not_(truth(it, compare(it, "==", x, v)))))
    return not_(neg)


def not_(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def align(it, a, b):
    """Cut two contents into pieces of equal length: pairs (El, El) or (Sl, Sl) over equal ranges."""
    cx = it.cx
    a, b = list(cx.norm_content(a)), list(cx.norm_content(b))
    out = []
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, El) and isinstance(y, El):
            out.append((x, y))
            a, b = a[1:], b[1:]
            continue
        if isinstance(x, Sl) and isinstance(y, Sl):
            if x.flat or y.flat:
                raise Unsupported("pairing of nested lists")
            if (x.cond is None) != (y.cond is None):
                raise Unsupported("pairing with a filtered list")
            if x.cond is not None:
                if not (cx.eqz(x.lo, y.lo) and cx.eqz(x.hi, y.hi) and M.key(Sl(Tab(x.tab.var, 0), 0, 1, False, x.cond)) == M.key(Sl(Tab(y.tab.var, 0), 0, 1, False, y.cond))):
                    raise Unsupported("pairing with a filtered list")
            lx, ly = zint(x.hi) - zint(x.lo), zint(y.hi) - zint(y.lo)
            if cx.entails(lx == ly):
                out.append((x, y))
                a, b = a[1:], b[1:]
                continue
            if x.rev or y.rev or x.cond is not None:
                raise Unsupported("pairing of lists of different length")
            if cx.decide(lx <= ly):
                m = simp_int(z3.simplify(zint(y.lo) + lx))
                out.append((x, Sl(y.tab, y.lo, m)))
                a, b = a[1:], [Sl(y.tab, m, y.hi)] + b[1:]
            else:
                m = simp_int(z3.simplify(zint(x.lo) + ly))
                out.append((Sl(x.tab, x.lo, m), y))
                a, b = [Sl(x.tab, m, x.hi)] + a[1:], b[1:]
            continue
        if isinstance(x, Sl) and isinstance(y, El) or isinstance(x, El) and isinstance(y, Sl):
            s = x if isinstance(x, Sl) else y
            if s.flat or s.cond is not None:
                raise Unsupported("pairing of lists")
            if not cx.decide(zint(s.hi) > zint(s.lo)):
                if s is x:
                    a = a[1:]
                else:
                    b = b[1:]
                continue
            f, rest = cx.split_first(s)
            if s is x:
                out.append((El(f), y))
                a, b = [rest] + a[1:], b[1:]
            else:
                out.append((x, El(f)))
                a, b = a[1:], [rest] + b[1:]
            continue
        raise Unsupported("pairing of lists")
    return out, a, b


def zip_map(it, a, b, fn, strict=True):
    cx = it.cx
    pairs, ra, rb = align(it, a, b)
    out = []
    for x, y in pairs:
        if isinstance(x, El):
            out.append(El(fn(x.v, y.v)))
            continue
        k = cx.fresh_index()
        n = simp_int(z3.simplify(zint(x.hi) - zint(x.lo)))

        def at(s):
            i = z3.simplify((zint(s.hi) - 1 - k) if s.rev else (zint(s.lo) + k), som=True)
            return i
        base = Sl(Tab(k, (Opaque("i"),), [z3.substitute(f, (s.tab.var, at(s))) for s in (x, y) for f in s.tab.facts]), 0, n, False,
                  None if x.cond is None else z3.substitute(x.cond, (x.tab.var, at(x))))
        v = cx.generic(base, k, lambda _: fn(subst(x.tab.template, [(x.tab.var, at(x))]), subst(y.tab.template, [(y.tab.var, at(y))])))
        out.append(Sl(Tab(k, v, base.tab.facts), 0, n, False, base.cond))
    return tuple(out)


def unpack(it, v, elts):
    cx = it.cx
    import ast
    content = cx.norm_content(content_of(it, v))
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if star:
        i, after = star[0], len(elts) - star[0] - 1
        if all(isinstance(c, El) for c in content) and len(content) >= len(elts) - 1:
            items = [c.v for c in content]
            return items[:i] + [mk_list(it, [El(x) for x in items[i:len(items) - after]])] + items[len(items) - after:]
        raise Unsupported("starred unpacking")
    if all(isinstance(c, El) for c in content):
        if len(content) != len(elts):
            raise PyRaise("ValueError", "unpack")
        return [c.v for c in content]
    n = cx.length(content)
    if not cx.decide(compare_nums(it, "==", n, len(elts))):
        raise PyRaise("ValueError", "unpack")
    return [item_at(it, content, i) for i in range(len(elts))]


# ---------------------------------------------------------------- items and slices
def locate(it, content, i):
    """Value at position i >= 0 (known to be in range)."""
    cx = it.cx
    content = list(cx.norm_content(content))
    pos = i
    for n, c in enumerate(content):
        last = n == len(content) - 1
        if isinstance(c, El):
            b = compare_nums(it, "==", pos, 0)
            if b is True or (b is not False and (last or cx.decide(b))):
                return c.v
            pos = arith(it, "-", pos, 1)
            continue
        if isinstance(c, Sl) and not c.flat and c.cond is None:
            m = arith(it, "-", c.hi, c.lo)
            b = compare_nums(it, "<", pos, m)
            if last or b is True or (b is not False and cx.decide(b)):
                j = z3.simplify(zint(c.hi) - 1 - zint(pos), som=True) if c.rev else z3.simplify(zint(c.lo) + zint(pos), som=True)
                return cx.tab_at(c.tab, j)
            pos = arith(it, "-", pos, m)
            continue
        if isinstance(c, Sl) and not c.flat and len(content) == 1:
            # the pos-th index that satisfies the condition
            j = cx.skolem("nth", None, None, I, (Opaque("filter", c.lo, c.hi, Sl(Tab(c.tab.var, True), c.lo, c.hi, c.rev, c.cond)), pos))
            cx.ax(z3.And(zint(c.lo) <= j, j < zint(c.hi), z3.substitute(c.cond, (c.tab.var, j))))
            return cx.tab_at(c.tab, j)
        raise Unsupported("indexing this list")
    raise Unsupported("indexing")


def item_at(it, content, i):
    cx = it.cx
    n = cx.length(cx.norm_content(content))
    i = unnp(i)
    neg = compare_nums(it, "<", i, 0)
    if neg is True or (neg is not False and cx.decide(neg)):
        i = arith(it, "+", i, n)
        b = compare_nums(it, "<", i, 0)
        if b is True or (b is not False and cx.decide(b)):
            raise PyRaise("IndexError")
    b = compare_nums(it, "<", i, n)
    if b is False or (b is not True and not cx.decide(b)):
        raise PyRaise("IndexError")
    return locate(it, content, i)


def slice_content(it, content, s):
    cx = it.cx
    content = cx.norm_content(content)
    if s.step not in (None, 1):
        if isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
            return rev_content(it, content)
        raise Unsupported("slice with a step")
    n = cx.length(content)

    def bound(v, default):
        if v is None:
            return default
        v = unnp(v)
        b = compare_nums(it, "<", v, 0)
        if b is True or (b is not False and cx.decide(b)):
            v = arith(it, "+", v, n)
            b = compare_nums(it, "<", v, 0)
            if b is True or (b is not False and cx.decide(b)):
                return 0
            return v
        b = compare_nums(it, ">", v, n)
        if b is True or (b is not False and cx.decide(b)):
            return n
        return v
    lo, hi = bound(s.start, 0), bound(s.stop, n)
    _, rest = cut(it, content, lo)
    m = arith(it, "-", hi, lo)
    b = compare_nums(it, "<=", m, 0)
    if b is True or (b is not False and cx.decide(b)):
        return ()
    first, _ = cut(it, rest, m)
    return first


def cut(it, content, k):
    """Split after k elements, 0 <= k <= length."""
    cx = it.cx
    left, content = [], list(cx.norm_content(content))
    while content:
        b = compare_nums(it, "==", k, 0)
        if b is True or (b is not False and cx.decide(b)):
            return tuple(left), tuple(content)
        c = content[0]
        if isinstance(c, El):
            left.append(c)
            content = content[1:]
            k = arith(it, "-", k, 1)
            continue
        m = cx.length((c,))
        b = compare_nums(it, "<=", m, k)
        if b is True or (b is not False and cx.decide(b)):
            left.append(c)
            content = content[1:]
            k = arith(it, "-", k, m)
            continue
        if not isinstance(c, Sl) or c.flat or c.cond is not None:
            raise Unsupported("slice of this list")
        if c.rev:
            mid = simp_int(z3.simplify(zint(c.hi) - zint(k), som=True))
            return tuple(left + [Sl(c.tab, mid, c.hi, True)]), tuple([Sl(c.tab, c.lo, mid, True)] + content[1:])
        mid = simp_int(z3.simplify(zint(c.lo) + zint(k), som=True))
        return tuple(left + [Sl(c.tab, c.lo, mid)]), tuple([Sl(c.tab, mid, c.hi)] + content[1:])
    return tuple(left), ()


def rev_content(it, content):
    out = []
    for c in reversed(it.cx.norm_content(content)):
        if isinstance(c, El):
            out.append(c)
        elif isinstance(c, Sl):
            tab = c.tab
            if c.flat:
                tab = Tab(tab.var, LVal(rev_content(it, tab.template.content), "list", "new"), tab.facts)
            out.append(Sl(tab, c.lo, c.hi, not c.rev, c.cond, c.flat))
        else:
            raise Unsupported("reversal of a shuffled list")
    return tuple(out)


def get_item(it, o, i):
    cx = it.cx
    if isinstance(o, Opaque) and o.kind == "typing":
        return o
    if is_dict(it, o):
        c = cx.get(o) if isinstance(o, Ref) else o
        if isinstance(c, DictC) and c.inv is not None:
            present, value = c.inv(it, c, i)
            if present is True or (present is not False and cx.decide(present)):
                return value()
            raise PyRaise("KeyError")
        return dict_get(it, dict_content(it, o), i)
    if is_seq(it, o):
        k = kind_of(it, o)
        if k in ("set", "iter", "spent"):
            raise PyRaise("TypeError", f"{k} is not subscriptable")
        content = content_of(it, o)
        if isinstance(i, slice):
            if k == "arr":
                cx.sliced = True
            r = slice_content(it, content, i)
            return mk_tuple(it, r) if k == "tuple" else mk_list(it, r, k if k in ("list", "arr") else "list")
        if is_seq(it, i) and k != "arr":
            raise PyRaise("TypeError", "list index")
        if is_seq(it, i):
            return mask_list(it, o, i)
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if is_num(i):
            return item_at(it, content, to_num(i))
        raise Unsupported("index")
    if is_mat(it, o):
        return mat_item(it, o, i)
    if isinstance(o, ClassVal) and o.enum and isinstance(i, str):
        return o.members[i]
    raise Unsupported(f"subscript of {type(o).__name__}")


def dict_get(it, content, k):
    cx = it.cx
    for c in content:
        if isinstance(c, El):
            b = truth(it, compare(it, "==", c.v[0], k))
            if b is True or (b is not False and cx.decide(b)):
                return c.v[1]
        elif isinstance(c, Sl) and not c.flat:
            none = all_content(it, map_content(it, (c,), lambda p: not_(truth(it, compare(it, "==", p[0], k)))))
            if none is True or (none is not False and cx.decide(none)):
                continue
            # the one index with this key
            w = cx.skolem("keyat", None, None, I, (Opaque("keys", c), k))
            key = lambda i: zbool(truth(it, compare(it, "==", cx.tab_at(c.tab, i)[0], k)))
            rng = lambda i: z3.And(zint(c.lo) <= i, i < zint(c.hi), True if c.cond is None else z3.substitute(c.cond, (c.tab.var, i)))
            cx.ax(z3.Implies(z3.Not(none) if is_z3(none) else z3.BoolVal(True), z3.And(rng(w), key(w))))
            cx.add_index(w)
            for i in list(cx.indices):
                cx.ax(z3.Implies(z3.And(rng(i), key(i)), i == w))
            return cx.tab_at(c.tab, w)[1]
        else:
            raise Unsupported("lookup in a symbolic dictionary")
    raise PyRaise("KeyError")


def mask_list(it, o, mask):
    cx = it.cx
    mc = cx.norm_content(content_of(it, mask))
    probe = next((c.v if isinstance(c, El) else c.tab.template for c in mc), None)
    if probe is None or not is_bool(probe):
        return mk_list(it, map_content(it, mc, lambda j: item_at(it, content_of(it, o), j)), "arr")
    pairs, ra, rb = align(it, content_of(it, o), mc)
    if ra or rb:
        la, lb = cx.length(tuple(ra)), cx.length(tuple(rb))
        if not (cx.decide(compare_nums(it, "==", la, 0)) and cx.decide(compare_nums(it, "==", lb, 0))):
            raise PyRaise("IndexError", "mask length")
    out = []
    for x, y in pairs:
        if isinstance(x, El):
            b = truth(it, y.v)
            if b is True or (b is not False and cx.decide(b)):
                out.append(x)
        else:
            if x.rev or x.cond is not None:
                raise Unsupported("mask")
            if y.rev:
                raise Unsupported("mask")
            i = z3.simplify(zint(y.lo) + x.tab.var - zint(x.lo), som=True)
            b = truth(it, subst(y.tab.template, [(y.tab.var, i)]))
            if b is True:
                out.append(x)
            elif b is not False:
                out.append(Sl(x.tab, x.lo, x.hi, False, b))
    return mk_list(it, out, "arr")


def foreign(o, what):
    """The exception for a change of something the code does not own."""
    if getattr(o, "tag", None) == "module":
        return Unsupported("change of an object of the module")
    return FrameWrite(what)


def owned(it, o, what):
    c = it.cx.get(o)
    if c.tag not in ("new",) and not str(c.tag).startswith("own"):
        raise FrameWrite(f"{what} of a {type(c).__name__[:-1].lower()} that belongs to the caller ({c.tag})")
    return c


def set_item(it, o, i, v):
    cx = it.cx
    if isinstance(o, (LVal, DVal, MVal)):
        raise foreign(o, "item assignment to an object that belongs to the caller")
    if isinstance(o, Opaque) and o.kind == "part":
        return masked_store(it, o, i, v)
    if isinstance(o, Ref):
        c = cx.get(o)
        if isinstance(c, DictC):
            if c.inv is not None:
                cx.put(o, DictC(c.content + (El((i, v)),), c.tag, c.inv))
                cx.notes.append(("cache", i, v))
                return
            owned(it, o, "item assignment")
            cx.put(o, DictC(dict_put(it, list(c.content), i, v), c.tag))
            return
        if isinstance(c, ListC):
            owned(it, o, "item assignment")
            if c.kind in ("iter", "spent", "set", "tuple", "view"):
                raise PyRaise("TypeError", "item assignment")
            if c.kind == "arr":
                raise Unsupported("item assignment in an array")
            content = list(cx.norm_content(c.content))
            if isinstance(i, slice):
                if i.start is None and i.stop is None and i.step is None:
                    cx.put(o, ListC(content_of(it, v), c.kind, c.tag))
                    return
                raise Unsupported("slice assignment")
            i = unnp(i)
            if isinstance(i, int) and all(isinstance(x, El) for x in content):
                if not -len(content) <= i < len(content):
                    raise PyRaise("IndexError")
                content[i] = El(v)
                cx.put(o, ListC(content, c.kind, c.tag))
                return
            left, right = cut(it, content, i if not isinstance(i, int) or i >= 0 else arith(it, "+", i, cx.length(content)))
            if not right:
                raise PyRaise("IndexError")
            _, right = cut(it, right, 1)
            cx.put(o, ListC(tuple(left) + (El(v),) + tuple(right), c.kind, c.tag))
            return
        if isinstance(c, ArrC):
            raise Unsupported("matrix item assignment")
    raise Unsupported("item assignment")


def del_item(it, o, i):
    cx = it.cx
    if isinstance(o, (LVal, DVal)):
        raise foreign(o, "deletion from an object that belongs to the caller")
    c = cx.get(o)
    if isinstance(c, ListC) and not isinstance(i, slice):
        list_pop(it, o, i)
        return
    raise Unsupported("del item")


# ---------------------------------------------------------------- list methods
def list_append(it, o, v):
    if isinstance(o, LVal):
        raise foreign(o, "append to a list that belongs to the caller")
    c = owned(it, o, "append")
    it.cx.put(o, ListC(c.content + (El(v),), c.kind, c.tag))


def list_extend(it, o, content):
    if isinstance(o, LVal):
        raise foreign(o, "extend of a list that belongs to the caller")
    c = owned(it, o, "extend")
    it.cx.put(o, ListC(c.content + tuple(content), c.kind, c.tag))


def list_insert(it, o, i, v):
    if isinstance(o, LVal):
        raise foreign(o, "insert into a list that belongs to the caller")
    c = owned(it, o, "insert")
    if i == 0:
        it.cx.put(o, ListC((El(v),) + c.content, c.kind, c.tag))
        return
    n = it.cx.length(c.content)
    if not isinstance(i, int) and it.cx.entails(zint(i) == zint(n)):
        it.cx.put(o, ListC(c.content + (El(v),), c.kind, c.tag))
        return
    if isinstance(i, int) and i < 0:
        i = arith(it, "+", i, n)
        if compare_nums(it, "<", i, 0) is not False and it.cx.decide(zint(i) < 0):
            i = 0
    if it.cx.decide(zint(i) >= zint(n)):
        it.cx.put(o, ListC(c.content + (El(v),), c.kind, c.tag))
        return
    left, right = cut(it, c.content, i)
    it.cx.put(o, ListC(tuple(left) + (El(v),) + tuple(right), c.kind, c.tag))


def list_pop(it, o, i=-1):
    cx = it.cx
    if isinstance(o, LVal):
        raise foreign(o, "pop from a list that belongs to the caller")
    c = owned(it, o, "pop")
    content = list(cx.norm_content(c.content))
    n = cx.length(content)
    b = compare_nums(it, ">", n, 0)
    if b is False or (b is not True and not cx.decide(b)):
        raise PyRaise("IndexError", "pop from empty list")
    if not isinstance(i, int):
        if cx.entails(zint(i) == zint(n) - 1):
            i = -1
        elif cx.entails(zint(i) == 0):
            i = 0
    if i == -1:
        x, rest = take_last(it, content)
    elif i == 0:
        x, rest = take_first(it, content)
    else:
        left, right = cut(it, content, i)
        x, right = take_first(it, list(right))
        rest = tuple(left) + tuple(right)
    cx.put(o, ListC(rest, c.kind, c.tag))
    return x


def take_first(it, content):
    cx = it.cx
    content = list(content)
    while content:
        c = content[0]
        if isinstance(c, El):
            return c.v, tuple(content[1:])
        if isinstance(c, Sl):
            if c.flat and c.cond is None:
                content = list(open_flat(it, c, True)) + content[1:]
                continue
            if c.cond is not None:
                raise Unsupported("first element of this list")
            if len(content) == 1 or cx.decide(zint(c.hi) > zint(c.lo)):
                f, rest = cx.split_first(c)
                return f, tuple([rest] + content[1:])
            content = content[1:]
            continue
        raise Unsupported("first element of a shuffled list")
    raise PyRaise("IndexError")


def open_flat(it, c, first):
    """The lists of a list of lists, with the first or the last one on its own. All lists are known not to be empty."""
    cx = it.cx
    if not cx.decide(zint(c.hi) > zint(c.lo)):
        return ()
    inner, rest = cx.split_first(c) if first else cx.split_last(c)
    rest = Sl(rest.tab, rest.lo, rest.hi, rest.rev, None, True)
    inner = tuple(inner.content)
    if not cx.entails(zint(cx.length(inner)) > 0):
        raise Unsupported("list of lists, some of them empty")
    return inner + (rest,) if first else (rest,) + inner


def drop(it, content, k, first):
    """The list without its first or last k elements; empty if there are no more than k."""
    cx = it.cx
    content = list(cx.norm_content(content))
    while content:
        b = compare_nums(it, "<=", k, 0)
        if b is True or (b is not False and cx.decide(b)):
            return tuple(content)
        c = content[0 if first else -1]
        rest = content[1:] if first else content[:-1]
        m = cx.length((c,))
        b = compare_nums(it, "<=", m, k)
        if b is True or (b is not False and cx.decide(b)):
            content = rest
            k = arith(it, "-", k, m)
            continue
        if not isinstance(c, Sl) or c.cond is not None:
            raise Unsupported("slice of this list")
        if c.flat:
            content = list(open_flat(it, c, first)) + rest if first else rest + list(open_flat(it, c, first))
            continue
        low = first != c.rev        # are the indices from lo on dropped?
        c = Sl(c.tab, simp_int(z3.simplify(zint(c.lo) + zint(k), som=True)), c.hi, c.rev) if low else \
            Sl(c.tab, c.lo, simp_int(z3.simplify(zint(c.hi) - zint(k), som=True)), c.rev)
        return tuple([c] + rest if first else rest + [c])
    return ()


def take_last(it, content):
    cx = it.cx
    content = list(content)
    while content:
        c = content[-1]
        if isinstance(c, El):
            return c.v, tuple(content[:-1])
        if isinstance(c, Sl):
            if c.flat and c.cond is None:
                content = content[:-1] + list(open_flat(it, c, False))
                continue
            if c.cond is not None:
                raise Unsupported("last element of this list")
            if len(content) == 1 or cx.decide(zint(c.hi) > zint(c.lo)):
                f, rest = cx.split_last(c)
                return f, tuple(content[:-1] + [rest])
            content = content[:-1]
            continue
        raise Unsupported("last element of a shuffled list")
    raise PyRaise("IndexError")


def retag(it, v, tag):
    c = it.cx.get(v)
    if isinstance(c, ListC):
        it.cx.put(v, ListC(c.content, c.kind, tag))
    elif isinstance(c, DictC):
        it.cx.put(v, DictC(c.content, tag, c.inv))
    return v


def thaw(it, v, tag="new"):
    """A mutable copy of a frozen value, owned by nobody else."""
    cx = it.cx
    if isinstance(v, LVal):
        if v.kind == "tuple":
            return LVal(tuple(El(thaw(it, c.v)) if isinstance(c, El) else c for c in v.content), "tuple", tag)
        return cx.new(ListC(tuple(El(thaw(it, c.v)) if isinstance(c, El) else c for c in v.content), v.kind))
    if isinstance(v, DVal):
        return cx.new(DictC(tuple(El((c.v[0], thaw(it, c.v[1]))) if isinstance(c, El) else c for c in v.content)))
    if isinstance(v, MVal):
        return cx.new(ArrC(v.mat, v.dtype))
    if isinstance(v, OVal):
        return cx.new(ObjC(v.cls, {k: thaw(it, x) for k, x in v.fields.items()}))
    if isinstance(v, tuple):
        return tuple(thaw(it, x) for x in v)
    return v


def deepcopy(it, v):
    cx = it.cx
    tag = ("copy", cx.n("copy"))
    fz = map_tags(cx.freeze(v), lambda t: tag)
    return thaw(it, fz)


from .lib2 import *  # noqa: E402,F401,F403
