"""Continuation of lib: strings, attributes, built-in functions, numpy and scipy."""
from fractions import Fraction

import z3

from . import alg, mat as M
from .alg import X, NotPoly, PI, IU, canon, to_poly
from .engine import FrameWrite, Infeasible, PyRaise, Unsupported
from .values import *
from . import lib as L
from .lib import NATIVES, CONSTS, BUILTINS, Scal, TypeVal, native, builtin_fn, kw, low, as_x, unnp

CONSTS.update({"numpy.pi": PI, "math.pi": PI, "numpy.ndarray": TypeVal("ndarray"), "numpy.complex128": TypeVal("complex"), "numpy.complex64": TypeVal("complex64"),
               "numpy.float64": TypeVal("float"), "numpy.int64": TypeVal("int"), "numpy.integer": TypeVal("npinteger"), "numpy.floating": TypeVal("npfloat"),
               "numpy.int32": TypeVal("int32"), "numpy.newaxis": None, "numpy.bool_": TypeVal("npbool"), "numbers.Number": TypeVal("Number"), "numbers.Integral": TypeVal("Integral"),
               "numbers.Real": TypeVal("Real")})


# ---------------------------------------------------------------- strings
def mk_str(parts):
    s = Str(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def to_str(it, v):
    """str(v)"""
    cx = it.cx
    if isinstance(v, (str, Str)):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, NpInt):
        return to_str(it, v.v)
    if isinstance(v, z3.ExprRef) and v.sort() == I:
        return Str([SOf("str", [v])])
    if isinstance(v, Opaque) and v.kind == "round":
        return Str([SOf("str", [v])])
    if is_num(v):
        return Str([SOf("strfloat", [v])])
    if L.is_seq(it, v) and L.kind_of(it, v) in ("list", "tuple"):
        k = L.kind_of(it, v)
        content = cx.norm_content(L.content_of(it, v))
        if k == "list":
            items = L.map_content(it, content, lambda x: repr_(it, x))
            return mk_str(["[", join(it, ", ", items), "]"])
    if isinstance(v, EnumMember):
        return f"{v.cls.name}.{v.name}"
    raise Unsupported(f"str() of {type(v).__name__}")


def repr_(it, v):
    if isinstance(v, NpInt):
        return mk_str(["np.int64(", to_str(it, v.v), ")"])
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Str):
        return mk_str([SOf("repr", [v])])
    return to_str(it, v)


def join(it, sep, content):
    cx = it.cx
    content = cx.norm_content(content)
    if not content:
        return ""
    if all(isinstance(c, El) for c in content):
        out = []
        for i, c in enumerate(content):
            if not isinstance(c.v, (str, Str)):
                raise PyRaise("TypeError", "join of a non-string")
            out += ([sep] if i else []) + [c.v]
        return mk_str(out)
    if len(content) == 1 and isinstance(content[0], Sl):
        n = cx.length(content)
        if cx.entails(zint(n) == 0):
            return ""
    return Str([SJoin(sep, content)])


def str_method(it, s, name, args, kwargs):
    if name == "join":
        return join(it, s, L.content_of(it, args[0]))
    if name == "format" and isinstance(s, str) and not kwargs:
        parts, rest, i = [], s, 0
        import re
        for m in re.finditer(r"\{(\d*)\}|([^{}]+)", s):
            if m.group(2) is not None:
                parts.append(m.group(2))
            else:
                k = int(m.group(1)) if m.group(1) else i
                i += 1
                parts.append(to_str(it, args[k]))
        if "{{" in s or "}}" in s or ":" in s and "{:" in s:
            raise Unsupported("format")
        return mk_str(parts)
    if name in ("strip", "rstrip", "lstrip", "upper", "lower", "replace", "startswith", "endswith", "split") and isinstance(s, str) and all(isinstance(a, str) for a in args):
        r = getattr(s, name)(*args)
        return L.mk_list(it, [El(x) for x in r]) if isinstance(r, list) else r
    raise Unsupported(f"str.{name}")


# ---------------------------------------------------------------- attributes of library values
def attribute(it, o, name):
    cx = it.cx
    if isinstance(o, (str, Str)):
        return Native("str." + name, lambda it, a, k: str_method(it, o, name, a, k))
    if isinstance(o, Opaque) and o.kind == "typing":
        return o
    if isinstance(o, Opaque) and o.kind == "iinfo":
        return {"max": 2 ** 31 - 1 if o.args[0] == "int32" else 2 ** 63 - 1, "min": -2 ** 31 if o.args[0] == "int32" else -2 ** 63}[name]
    if isinstance(o, Opaque) and o.kind == "exception":
        raise Unsupported("exception attributes")
    if isinstance(o, Opaque) and o.kind == "hadamard" and name == "sum":
        return meth(name, lambda it, a, k: NATIVES["numpy.sum"].fn(it, [o] + a, k))
    if L.is_mat(it, o):
        return mat_attr(it, o, name)
    if L.is_seq(it, o):
        return list_attr(it, o, name)
    if L.is_dict(it, o):
        return dict_attr(it, o, name)
    if is_num(o) or isinstance(o, (Scal, Opaque)):
        return num_attr(it, o, name)
    if isinstance(o, FuncVal) and name == "__name__":
        return o.name
    if o is None:
        raise PyRaise("AttributeError", f"None.{name}")
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def meth(name, fn, most=0, names=()):
    """A bound library method taking at most 'most' positional arguments and the keywords 'names'."""
    return Native(name, checked(name, fn, most, names))


def checked(name, fn, most, names=()):
    """Refuses (as out of reach) every argument the model does not know."""
    def g(it, a, k):
        if most is not None and len(a) > most:
            raise Unsupported(f"{name}: more than {most} arguments")
        if names is not None:
            for n in k:
                if n not in names and n != "*":
                    raise Unsupported(f"{name}: argument {n}")
        return fn(it, a, k)
    return g


def num_attr(it, o, name):
    if name == "bit_length":
        def f(it, a, k):
            if isinstance(o, int):
                return o.bit_length()
            if not it.cx.entails(zint(o) >= 1):
                raise Unsupported("bit_length")
            return L.arith(it, "+", L.to_int(it, Opaque("log2", o)), 1)
        return meth("bit_length", f)
    if name in ("conjugate", "conj"):
        return meth("conj", lambda it, a, k: conj_num(it, o))
    if name == "real" and is_num(o):
        return low(as_x(o).real())
    if name == "imag" and is_num(o):
        return low(as_x(o).imag())
    if name == "item":
        return meth("item", lambda it, a, k: o)
    if name == "tolist":
        return meth("tolist", lambda it, a, k: unnp(o))
    if name == "is_integer" and isinstance(o, Fraction):
        return meth(name, lambda it, a, k: o.denominator == 1)
    raise Unsupported(f"attribute {name} of a number")


def conj_num(it, o):
    if isinstance(o, Scal):
        return Scal(o.s.conj(), tuple((f, -e) for f, e in o.dets))
    if isinstance(o, Opaque) and o.kind == "trace":
        return Opaque("trace", o.args[0].dagger())
    return low(as_x(o).conj())


def list_attr(it, o, name):
    cx = it.cx
    k = L.kind_of(it, o)
    if k == "arr":
        r = arr_attr(it, o, name)
        if r is not None:
            return r
    if k in ("list", "set", "tuple", "view", "range"):
        def m(fn, most=1):
            return meth("list." + name, fn, most)
        if name == "append":
            return m(lambda it, a, kw_: L.list_append(it, o, a[0]))
        if name == "add" and k == "set":
            return m(lambda it, a, kw_: L.list_append(it, o, a[0]))
        if name == "extend":
            return m(lambda it, a, kw_: L.list_extend(it, o, L.content_of(it, a[0])))
        if name == "insert":
            return m(lambda it, a, kw_: L.list_insert(it, o, a[0], a[1]), 2)
        if name == "pop":
            return m(lambda it, a, kw_: L.list_pop(it, o, *a))
        if name == "copy":
            return m(lambda it, a, kw_: L.mk_list(it, L.content_of(it, o), k))
        if name == "index":
            return m(lambda it, a, kw_: list_index(it, o, a[0]))
        if name == "reverse":
            def rev(it, a, kw_):
                if isinstance(o, LVal):
                    raise L.foreign(o, "reversal of a list that belongs to the caller")
                c = L.owned(it, o, "reverse")
                cx.put(o, ListC(L.rev_content(it, c.content), c.kind, c.tag))
            return m(rev)
        if name == "clear":
            def clear(it, a, kw_):
                if isinstance(o, LVal):
                    raise L.foreign(o, "clearing a list that belongs to the caller")
                c = L.owned(it, o, "clear")
                cx.put(o, ListC((), c.kind, c.tag))
            return m(clear)
        if name == "count":
            return m(lambda it, a, kw_: count_true(it, L.map_content(it, L.content_of(it, o), lambda x: L.compare(it, "==", x, a[0]))))
        if name in ("sort", "remove"):
            return m(L.unsupported("list." + name))
    raise Unsupported(f"attribute {name} of a {k}")


def list_index(it, o, v):
    """Position of the first element equal to v."""
    cx = it.cx
    content = cx.norm_content(L.content_of(it, o))
    if len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat and content[0].cond is None and not content[0].rev:
        c = content[0]
        if isinstance(v, Ent) and isinstance(c.tab.template, Ent):
            # the element may occur several times: the index is the first occurrence
            j = cx.skolem("index", None, None, I, (c, v))
            at = cx.tab_at(c.tab, j)
            cx.ax(z3.Implies(z3.Not(zbool(L.not_(L.contains(it, o, v)))), z3.And(zint(c.lo) <= j, j < zint(c.hi), at.term == v.term)))
            b = L.contains(it, o, v)
            if not (b is True or (b is not False and cx.decide(b))):
                raise PyRaise("ValueError")
            return L.arith(it, "-", j, c.lo)
    if all(isinstance(c, El) for c in content):
        for i, c in enumerate(content):
            b = L.truth(it, L.compare(it, "==", c.v, v))
            if b is True or (b is not False and cx.decide(b)):
                return i
        raise PyRaise("ValueError")
    raise Unsupported("list.index")


def dict_attr(it, o, name):
    cx = it.cx
    if name in ("items", "keys", "values"):
        return meth(name, lambda it, a, k: Opaque("view", name, o))
    if name == "get":
        def get(it, a, k):
            default = a[1] if len(a) > 1 else None
            b = L.contains(it, o, a[0])
            if b is True or (b is not False and cx.decide(b)):
                return L.get_item(it, o, a[0])
            return default
        return meth("get", get, 2)
    if name == "copy":
        return meth("copy", lambda it, a, k: cx.new(DictC(L.dict_content(it, o))))
    if name == "setdefault":
        def setdefault(it, a, k):
            b = L.contains(it, o, a[0])
            if b is True or (b is not False and cx.decide(b)):
                return L.get_item(it, o, a[0])
            L.set_item(it, o, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return meth("setdefault", setdefault, 2)
    if name in ("update", "pop", "clear", "popitem"):
        def upd(it, a, k):
            if isinstance(o, DVal):
                raise L.foreign(o, f"dict.{name} on a dictionary that belongs to the caller")
            if name == "update":
                for c in L.dict_content(it, a[0]):
                    if not isinstance(c, El):
                        raise Unsupported("update with a symbolic dictionary")
                    L.set_item(it, o, c.v[0], c.v[1])
                return None
            raise Unsupported("dict." + name)
        return meth(name, upd, 2)
    raise Unsupported(f"dict.{name}")


# ---------------------------------------------------------------- one-dimensional arrays
def arr_attr(it, o, name):
    cx = it.cx
    content = L.content_of(it, o)
    if name == "tolist":
        return meth(name, lambda it, a, k: L.mk_list(it, L.map_content(it, content, lambda x: unnp(x))))
    if name == "size":
        return cx.length(cx.norm_content(content))
    if name == "shape":
        return (cx.length(cx.norm_content(content)),)
    if name == "ndim":
        return 1
    if name == "copy":
        return meth(name, lambda it, a, k: L.mk_list(it, content, "arr"))
    if name in ("sum", "min", "max", "all", "any", "prod"):
        return meth(name, lambda it, a, k: NATIVES["numpy." + name].fn(it, [o] + a, k), 1, None)
    if name == "astype":
        return meth(name, lambda it, a, k: arr_cast(it, o, a[0] if a else k.get("dtype"), k.get("copy") is not False), 1, ("dtype", "copy"))
    if name == "dot":
        return None
    return None


def type_name(t):
    """Kind of a dtype argument: int, float, complex, bool or None when it is not one of them."""
    n = t if isinstance(t, str) else t.name if isinstance(t, (TypeVal, Native)) else t.args[0] if isinstance(t, Opaque) and t.kind == "dtype" else None
    return {"int": "int", "int64": "int", "float": "float", "float64": "float", "double": "float", "complex": "complex", "complex128": "complex",
            "bool": "bool"}.get(str(n).replace("numpy.", "").replace("builtins.", ""))


def elem_types(cx, content):
    out = set()
    for c in content:
        if isinstance(c, Shuf):
            out |= elem_types(cx, c.content)
            continue
        v = c.v if isinstance(c, El) else c.tab.template
        out.add("bool" if is_bool(v) else "int" if is_int(v) else "float" if is_real(v) else "complex" if isinstance(v, X) else "float" if isinstance(v, Opaque) and v.kind in ("log2", "ln", "round")
                else "other")
    return out


def arr_cast(it, o, t, copy=True):
    """A one-dimensional array of numbers with the given element type (None: the common type of the elements)."""
    cx = it.cx
    content = cx.norm_content(L.content_of(it, o))
    have = elem_types(cx, content)
    if "other" in have or any(isinstance(c, Sl) and c.flat for c in content):
        raise Unsupported("array of objects")
    if t is None:
        want = "float" if not have else next(x for x in ("complex", "float", "int", "bool") if x in have)
    else:
        want = type_name(t)
        if want is None:
            raise Unsupported("array element type")
    if not copy and isinstance(o, (Ref, LVal)) and L.kind_of(it, o) == "arr" and have <= {want}:
        return o
    if have <= {want}:
        return L.mk_list(it, L.map_content(it, content, lambda x: np_int(it, x)) if want == "int" else content, "arr")
    if want == "int" and have <= {"int", "bool"}:
        return L.mk_list(it, L.map_content(it, content, lambda x: NpInt(L.to_num(unnp(x)))), "arr")
    if want == "float" and have <= {"int", "bool", "float"}:
        return L.mk_list(it, L.map_content(it, content, lambda x: x if isinstance(x, Opaque) else b_float(it, [L.to_num(unnp(x))], {})), "arr")
    if want == "complex":
        return L.mk_list(it, content, "arr")
    raise Unsupported(f"array conversion from {have} to {want}")


# ---------------------------------------------------------------- matrices
def mat_of(it, o):
    """(Mat, dtype)"""
    c = it.cx.get(o) if isinstance(o, Ref) else o
    return c.mat


def dtype_of(it, o):
    return (it.cx.get(o) if isinstance(o, Ref) else o).dtype


def new_mat(it, m, dtype="complex"):
    return it.cx.new(ArrC(m, dtype))


def view_mat(it, o, m):
    """A view sharing memory with o."""
    if isinstance(o, MVal):
        return MVal(m, o.dtype, o.tag)
    c = it.cx.get(o)
    return it.cx.new(ArrC(m, c.dtype, c.tag, c.buffer if c.buffer is not None else o.id))


def mat_attr(it, o, name):
    cx = it.cx
    m = mat_of(it, o)
    if name == "shape":
        return (m.rows, m.cols)
    if name == "size":
        return L.arith(it, "*", m.rows, m.cols)
    if name == "ndim":
        return 2
    if name == "T":
        return view_mat(it, o, m.flip(True, False))
    if name in ("H",):
        return new_mat(it, m.dagger())
    if name in ("conj", "conjugate"):
        return meth(name, lambda it, a, k: new_mat(it, m.flip(False, True)))
    if name == "transpose":
        return meth(name, lambda it, a, k: view_mat(it, o, m.flip(True, False)))
    if name == "getH":
        return meth(name, lambda it, a, k: new_mat(it, m.dagger()))
    if name == "astype":
        def astype(it, a, k):
            t = type_name(a[0] if a else k.get("dtype"))
            have = dtype_of(it, o)
            if t is None or have not in ("int", "float", "complex"):
                raise Unsupported("astype")
            if k.get("copy") is False and t == have:
                return o
            if t == "complex" or t == have or (t, have) == ("float", "int"):
                return new_mat(it, m, t)
            raise Unsupported("astype")
        return meth(name, astype, 1, ("dtype", "copy"))
    if name == "copy":
        return meth(name, lambda it, a, k: new_mat(it, m, dtype_of(it, o)))
    if name in ("real", "imag"):
        return Opaque("part", o, name)
    if name == "dot":
        return meth(name, lambda it, a, k: matmul(it, o, a[0]), 1)
    if name == "trace":
        return meth(name, lambda it, a, k: NATIVES["numpy.trace"].fn(it, [o] + a, k))
    if name in ("tocsr", "tocsc", "tocoo", "todense", "toarray"):
        dt = dtype_of(it, o)
        return meth(name, lambda it, a, k: new_mat(it, m, "sparse" if name.startswith("toc") else dt.replace("sparse", "float")))
    if name == "dtype":
        return Opaque("dtype", dtype_of(it, o))
    raise Unsupported(f"attribute {name} of a matrix")


def square(it, m):
    return it.cx.eqz(m.rows, m.cols)


def mat_binop(it, op, a, b):
    cx = it.cx
    ma, mb = L.is_mat(it, a), L.is_mat(it, b)
    if op == "@" or (op == "*" and ma and mb and "sparse" in (dtype_of(it, a), dtype_of(it, b))):
        if not (ma and mb):
            raise Unsupported("matrix times vector")
        return matmul(it, a, b)
    if ma and mb:
        A, B_ = mat_of(it, a), mat_of(it, b)
        if op in ("+", "-"):
            shape_eq(it, A, B_)
            if A.phase or B_.phase:
                raise Unsupported("sum of matrices known up to a phase each")
            return new_mat(it, A.plus(B_ if op == "+" else B_.scale(X.of(-1))))
        if op == "*" and "sparse" not in (dtype_of(it, a), dtype_of(it, b)):
            shape_eq(it, A, B_)
            return Opaque("hadamard", A, B_)
        raise Unsupported(f"elementwise {op} of matrices")
    if op == "*":
        s, m = (b, mat_of(it, a)) if ma else (a, mat_of(it, b))
        return new_mat(it, scale(it, m, s))
    if op == "/" and ma:
        s = b
        if isinstance(s, Scal):
            return new_mat(it, scale(it, mat_of(it, a), L.scal_op(it, "/", 1, s)))
        z = L.compare_nums(it, "==", s, 0) if not isinstance(s, X) else False
        if z is True or (z is not False and cx.decide(z)):
            # numpy: division by zero gives nan, and every later comparison fails
            return new_mat(it, M.Mat(mat_of(it, a).rows, mat_of(it, a).cols, [(X.of(1), (), (M.FOpaque("nan", (), mat_of(it, a).rows, mat_of(it, a).cols),))]))
        try:
            return new_mat(it, scale(it, mat_of(it, a), as_x(s).inv()))
        except NotPoly as e:
            raise Unsupported(str(e))
    if op == "**" and ma and isinstance(b, int) and not isinstance(b, bool) and b >= 0:
        return mat_power(it, a, b) if "sparse" in dtype_of(it, a) else elementwise_mat(it, f"power{b}", a)
    raise Unsupported(f"matrix {op}")


def elementwise_mat(it, name, *args):
    """An elementwise function of matrices of one shape."""
    ms = [mat_of(it, a) for a in args]
    for m in ms[1:]:
        shape_eq(it, ms[0], m)
    if name == "power1":
        return new_mat(it, ms[0])
    return new_mat(it, M.Mat.of(M.FOpaque(name, ms, ms[0].rows, ms[0].cols)))


def mat_power(it, a, k):
    m = mat_of(it, a)
    if not square(it, m):
        raise PyRaise("LinAlgError", "matrix_power of a matrix that is not square")
    if k > 8:
        raise Unsupported("matrix power")
    r = new_mat(it, M.Mat.identity(m.rows), dtype_of(it, a))
    for _ in range(k):
        r = matmul(it, r, a)
    return r


def scale(it, m, s):
    if isinstance(s, Scal):
        return m.scale(s.s, s.dets)
    if isinstance(s, Opaque):
        raise Unsupported("scaling by an opaque number")
    return m.scale(as_x(s))


def shape_eq(it, A, B_):
    cx = it.cx
    b = L.and_(L.compare_nums(it, "==", A.rows, B_.rows), L.compare_nums(it, "==", A.cols, B_.cols))
    if b is False or (b is not True and not cx.decide(b)):
        raise PyRaise("ValueError", "shapes")


def matmul(it, a, b):
    cx = it.cx
    A, B_ = mat_of(it, a), mat_of(it, b)
    c = L.compare_nums(it, "==", A.cols, B_.rows)
    if c is False or (c is not True and not cx.decide(c)):
        raise PyRaise("ValueError", "matmul shapes")
    dt = "sparse" if dtype_of(it, a) == dtype_of(it, b) == "sparse" else "complex"
    r = A.times(B_)
    return new_mat(it, it.world.spec.embed_rule(cx, r), dt)


def mat_item(it, o, i):
    cx = it.cx
    m = mat_of(it, o)
    if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, int) for x in i) and m.single() and len(m.word) == 1 and isinstance(m.word[0], M.FExpl):
        s, d, (f,) = m.terms[0]
        if not d:
            return low(s * f.at(*i))
    if isinstance(i, tuple) and len(i) == 2:
        raise Unsupported("matrix element")
    raise Unsupported("matrix subscript")


def mask_compare(it, op, a, b):
    cx = it.cx
    if isinstance(a, Opaque) and a.kind == "abspart" and op in ("<", "<=") and is_num(b):
        part = a.args[0]
        return Opaque("mask", part.args[0], part.args[1], b, op, M.key(mat_of(it, part.args[0])))
    raise Unsupported("elementwise comparison")


def masked_store(it, part, mask, v):
    """matrix.real[np.abs(matrix.real) < eps] = 0"""
    cx = it.cx
    o, which = part.args
    if not (isinstance(mask, Opaque) and mask.kind == "mask"):
        raise Unsupported("masked store")
    src, which2, eps, op, key = mask.args
    now = mat_of(it, o)
    if key != M.key(now) and now.single() and len(now.word) == 1 and isinstance(now.word[0], M.FClean) and now.terms[0][0] == X.of(1) and not now.terms[0][1] \
            and which not in now.word[0].which:
        now = now.word[0].mat       # the mask was taken before the other part was cleaned, which left this part as it was
    if which2 != which or key != M.key(now) or not (is_num(v) and L.compare_nums(it, "==", v, 0) is True):
        raise Unsupported("masked store of another form")
    if isinstance(o, MVal):
        raise L.foreign(o, "in-place change of a matrix that belongs to the caller")
    c = cx.get(o)
    if c.tag != "new":
        raise L.foreign(o, "in-place change of a matrix that belongs to the caller")
    buf = c.buffer if c.buffer is not None else o.id
    if any(isinstance(x, ArrC) and i != o.id and (x.buffer == buf or i == buf) for i, x in cx.heap.items()):
        raise Unsupported("in-place change of a shared array")
    m = c.mat
    if eps is not None and isinstance(eps, Fraction) and eps <= Fraction(1, 10 ** 12) and known_unitary(m):
        return      # zeroing parts below 1e-12: no change beyond rounding
    w = m.single() and len(m.word) == 1 and isinstance(m.word[0], M.FClean) and m.terms[0][0] == X.of(1) and not m.terms[0][1]
    if w and cx.eqz(m.word[0].eps, eps):
        f = m.word[0]
        n = M.FClean(f.mat, f.eps, f.which | {which}, f.extra)
    else:
        n = M.FClean(m, eps, frozenset({which}))
    cx.put(o, ArrC(M.Mat.of(n), c.dtype, c.tag, c.buffer))


def known_unitary(m):
    return m.single() and "unitary" in m.props()


def set_part(it, o, name, v):
    raise Unsupported("assignment to a real or imaginary part")


def binop(it, op, a, b):
    cx = it.cx
    if L.is_mat(it, a) or L.is_mat(it, b):
        return mat_binop(it, op, a, b)
    if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
        if op == "+" and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return mk_str([a, b])
        if op == "%" and isinstance(a, str):
            raise Unsupported("% formatting")
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise PyRaise("TypeError", "str and non-str")
    sa, sb = L.is_seq(it, a), L.is_seq(it, b)
    if sa or sb:
        ka, kb = (L.kind_of(it, a) if sa else None), (L.kind_of(it, b) if sb else None)
        if "arr" in (ka, kb) or (sa and not sb and op == "/") or (sb and not sa and op == "/"):
            if "arr" not in (ka, kb):
                # a plain list divided by a numpy number broadcasts
                if not (is_num(a) or is_num(b)):
                    raise PyRaise("TypeError", "list arithmetic")
            if sa and sb:
                return L.mk_list(it, L.zip_map(it, L.content_of(it, a), L.content_of(it, b), lambda x, y: binop(it, op, x, y)), "arr")
            if sa:
                return L.mk_list(it, L.map_content(it, L.content_of(it, a), lambda x: binop(it, op, x, b)), "arr")
            return L.mk_list(it, L.map_content(it, L.content_of(it, b), lambda x: binop(it, op, a, x)), "arr")
        if op == "+" and sa and sb and ka == kb:
            c = L.content_of(it, a) + L.content_of(it, b)
            return L.mk_tuple(it, c) if ka == "tuple" else L.mk_list(it, c)
        if op == "*" and (is_int(b) if sa else is_int(a)):
            lst, n = (a, b) if sa else (b, a)
            content = cx.norm_content(L.content_of(it, lst))
            n = unnp(n)
            if isinstance(n, int):
                c = content * max(n, 0)
                return L.mk_tuple(it, c) if L.kind_of(it, lst) == "tuple" else L.mk_list(it, c)
            k = cx.fresh_index()
            hi = n if cx.entails(zint(n) >= 0) else z3.If(n > 0, n, z3.IntVal(0))
            if len(content) == 1 and isinstance(content[0], El):
                return L.mk_list(it, [Sl(Tab(k, cx.freeze(content[0].v)), 0, hi)])
            return L.mk_list(it, [Sl(Tab(k, LVal(tuple(cx.freeze(x) for x in content), "list", "new")), 0, hi, False, None, True)])
        raise Unsupported(f"list {op}")
    if a is None or b is None:
        raise PyRaise("TypeError", "None in arithmetic")
    if op in ("&", "|") and is_bool(a) and is_bool(b):
        return L.and_(a, b) if op == "&" else L.or_(a, b)
    if is_num(a) or isinstance(a, (Scal, Opaque)):
        return L.arith(it, op, a, b)
    raise Unsupported(f"{op} on {type(a).__name__}")


def aug(it, op, a, b):
    """In-place operators: lists and arrays change, everything else is rebound."""
    cx = it.cx
    if L.is_seq(it, a) and L.kind_of(it, a) == "list" and op == "+":
        L.list_extend(it, a, L.content_of(it, b))
        return a
    if L.is_seq(it, a) and L.kind_of(it, a) == "arr":
        if isinstance(a, LVal):
            raise L.foreign(a, "in-place change of an array that belongs to the caller")
        c = L.owned(it, a, "in-place change")
        r = binop(it, op, a, b)
        if not (L.is_seq(it, r) and L.kind_of(it, r) == "arr") or cx.sliced or elem_types(cx, cx.norm_content(L.content_of(it, r))) != elem_types(cx, cx.norm_content(c.content)):
            raise Unsupported("in-place array operation")
        cx.put(a, ListC(L.content_of(it, r), c.kind, c.tag))
        return a
    if L.is_mat(it, a):
        if isinstance(a, MVal):
            raise L.foreign(a, "in-place change of a matrix that belongs to the caller")
        c = cx.get(a)
        if c.dtype not in ("complex",):
            raise Unsupported("in-place change of a matrix of integers or reals")
        if c.tag != "new":
            raise L.foreign(a, "in-place change of a matrix that belongs to the caller")
        buf = c.buffer if c.buffer is not None else a.id
        if any(isinstance(x, ArrC) and i != a.id and (x.buffer == buf or i == buf) for i, x in cx.heap.items()):
            raise Unsupported("in-place change of a shared array")
        r = mat_binop(it, op, a, b)
        cx.put(a, ArrC(mat_of(it, r), c.dtype, c.tag, c.buffer))
        return a
    return binop(it, op, a, b)


def neg(it, v):
    if L.is_mat(it, v):
        return new_mat(it, mat_of(it, v).scale(X.of(-1)))
    if L.is_seq(it, v) and L.kind_of(it, v) == "arr":
        return L.mk_list(it, L.map_content(it, L.content_of(it, v), lambda x: neg(it, x)), "arr")
    return L.arith(it, "-", 0, v) if not isinstance(v, Scal) else L.scal_op(it, "*", -1, v)


def invert(it, v):
    if L.is_seq(it, v) and L.kind_of(it, v) == "arr":
        return L.mk_list(it, L.map_content(it, L.content_of(it, v), lambda x: L.not_(L.truth(it, x))), "arr")
    if is_bool(v) and not isinstance(v, bool):
        return z3.Not(v)
    raise Unsupported("~")


# ---------------------------------------------------------------- built-in functions
@builtin_fn("len")
def b_len(it, a, k):
    v = a[0]
    if L.is_mat(it, v):
        return mat_of(it, v).rows
    if isinstance(v, str):
        return len(v)
    if L.is_seq(it, v) and L.kind_of(it, v) == "set":
        return set_len(it, L.raw_content(it, v))
    if L.is_seq(it, v) and L.kind_of(it, v) in ("iter", "spent"):
        raise PyRaise("TypeError", "len of an iterator")
    if L.is_dict(it, v):
        return it.cx.length(it.cx.norm_content(L.dict_content(it, v)))
    if isinstance(v, Opaque) and v.kind == "view":
        return it.cx.length(it.cx.norm_content(L.dict_content(it, v.args[1])))
    o = L.obj_cls(it, v)
    if o is not None:
        m = it.world.member(o, "__len__")
        if m is None:
            raise PyRaise("TypeError", "len")
        return it.call(Bound(m, v), [], {})
    return it.cx.length(it.cx.norm_content(L.content_of(it, v)))


def set_len(it, content):
    """Number of distinct values."""
    cx = it.cx
    content = cx.norm_content(content)
    if all(isinstance(c, El) for c in content):
        vals = [unnp(c.v) for c in content]
        if all(isinstance(v, (int, str)) for v in vals):
            return len(set(vals))
        n = z3.IntVal(0)
        for i, v in enumerate(vals):
            dup = L.or_all([L.truth(it, L.compare(it, "==", v, w)) for w in vals[:i]])
            n = n + z3.If(zbool(dup), 0, 1)
        return simp_int(z3.simplify(n))
    n = cx.length(content)
    d = distinct(it, content)
    s = cx.skolem("setlen", None, None, I, LVal(L.map_content(it, content, lambda x: unnp(x)), "list"))
    cx.register(s)
    return s


def setlen_axioms(it, t, value):
    cx = it.cx
    n = cx.length(value.content)
    d = zbool(distinct(it, value.content))
    cx.register(d)
    cx.ax(z3.And(t >= 0, t <= zint(n), (t == zint(n)) == d, z3.Implies(zint(n) >= 1, t >= 1)))


def distinct_axioms(it, t, value):
    """Not distinct: two places hold the same value."""
    cx = it.cx
    if len(value.content) != 1 or not isinstance(value.content[0], Sl) or value.content[0].cond is not None or value.content[0].flat:
        return
    c = value.content[0]
    v = c.tab.template
    if not is_z3(v):
        return
    i, j = cx.skolem("twin1", None, None, I, value), cx.skolem("twin2", None, None, I, value)
    lo, hi = zint(c.lo), zint(c.hi)
    f = z3.Implies(z3.Not(t), z3.And(lo <= i, i < j, j < hi, z3.substitute(v, (c.tab.var, i)) == z3.substitute(v, (c.tab.var, j))))
    cx.register(f)
    cx.ax(f)


def distinct(it, content):
    """Atom: the elements of content are pairwise different."""
    cx = it.cx
    content = cx.norm_content(content)
    if all(isinstance(c, El) for c in content):
        vals = [unnp(c.v) for c in content]
        out = True
        for i, v in enumerate(vals):
            for w in vals[:i]:
                out = L.and_(out, L.not_(L.truth(it, L.compare(it, "==", v, w))))
        return out
    if len(content) == 1 and isinstance(content[0], Sl) and content[0].cond is None and not content[0].flat:
        t = content[0].tab.template
        c = content[0]
        if is_z3(t) and z3.is_int(t):
            k = z3.simplify(t - c.tab.var)
            if not mentions(k, {c.tab.var.decl().name()}):
                return True       # an arithmetic progression
        c = Sl(Tab(c.tab.var, unnp(t)), c.lo, c.hi)
        content = (c,)
    d = cx.skolem("distinct", None, None, B, LVal(L.map_content(it, content, lambda x: unnp(x)), "list"))
    cx.register(d)
    return d


def or_all(bs):
    out = False
    for b in bs:
        out = L.or_(out, b)
    return out


L.or_all = or_all


@builtin_fn("range")
def b_range(it, a, k):
    cx = it.cx
    a = [L.to_int(it, x) if isinstance(x, Opaque) else unnp(x) for x in a]
    for x in a:
        if not is_int(x):
            raise PyRaise("TypeError", "range of a non-integer")
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, step)) and len(range(lo, hi, step)) <= 64:
        return LVal(tuple(El(x) for x in range(lo, hi, step)), "range", "new")
    v = cx.fresh_index()
    if step == 1:
        h = hi
        if not cx.entails(zint(hi) >= zint(lo)):
            if not cx.decide(zint(hi) >= zint(lo)):
                return LVal((), "range", "new")
        return LVal((Sl(Tab(v, v), lo, h),), "range", "new")
    if step == -1:
        # hi+1 .. lo, reversed
        l2, h2 = L.arith(it, "+", hi, 1), L.arith(it, "+", lo, 1)
        if not cx.entails(zint(h2) >= zint(l2)):
            if not cx.decide(zint(h2) >= zint(l2)):
                return LVal((), "range", "new")
        return LVal((Sl(Tab(v, v), l2, h2, True),), "range", "new")
    raise Unsupported("range with a step")


@builtin_fn("list")
def b_list(it, a, k):
    return L.mk_list(it, L.content_of(it, a[0]) if a else ())


@builtin_fn("tuple")
def b_tuple(it, a, k):
    return L.mk_tuple(it, L.content_of(it, a[0]) if a else ())


@builtin_fn("set", "frozenset")
def b_set(it, a, k):
    return L.mk_list(it, L.raw_content(it, a[0]) if a else (), "set")


@builtin_fn("dict")
def b_dict(it, a, k):
    out = []
    if a:
        if L.is_dict(it, a[0]):
            out = list(L.dict_content(it, a[0]))
        else:
            for c in it.cx.norm_content(L.content_of(it, a[0])):
                if isinstance(c, El):
                    x, y = L.unpack(it, c.v, [None, None])
                    out = L.dict_put(it, out, x, y)
                elif isinstance(c, Sl) and not out and isinstance(c.tab.template, tuple):
                    out = dict_from_chunk(it, c)
                else:
                    raise Unsupported("dict() of a symbolic list")
    for n, v in k.items():
        out = L.dict_put(it, out, n, v)
    return it.cx.new(DictC(out))


def dict_from_chunk(it, c):
    """{key(i): value(i)}: keys must be known to be distinct, or the result is a function of the whole list."""
    return [Sl(c.tab, c.lo, c.hi, c.rev, c.cond, c.flat)]


@builtin_fn("int")
def b_int(it, a, k):
    return L.to_int(it, a[0])


@builtin_fn("float")
def b_float(it, a, k):
    v = unnp(a[0])
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, str):
        raise Unsupported("float of a string")
    return v if is_real(v) or isinstance(v, Opaque) else zreal(v)


@builtin_fn("complex")
def b_complex(it, a, k):
    return as_x(a[0]) + (as_x(a[1]) * IU if len(a) > 1 else X({}))


@builtin_fn("bool")
def b_bool(it, a, k):
    return L.truth(it, a[0]) if a else False


@builtin_fn("str")
def b_str(it, a, k):
    return to_str(it, a[0]) if a else ""


@builtin_fn("repr")
def b_repr(it, a, k):
    return repr_(it, a[0])


@builtin_fn("abs", )
def b_abs(it, a, k):
    return absolute(it, a[0])


def absolute(it, v):
    cx = it.cx
    if L.is_mat(it, v):
        raise Unsupported("abs of a matrix")
    if isinstance(v, Opaque) and v.kind == "part":
        return Opaque("abspart", v)
    if isinstance(v, Opaque) and v.kind == "trace":
        return abs_trace(it, v.args[0])
    if isinstance(v, Scal):
        if M.unimodular(v.dets):
            return absolute(it, low(v.s))
        raise Unsupported("abs of a determinant")
    if L.is_seq(it, v):
        return L.mk_list(it, L.map_content(it, L.content_of(it, v), lambda x: absolute(it, x)), "arr")
    v = unnp(v)
    if isinstance(v, (int, Fraction)):
        return abs(v)
    if isinstance(v, X):
        q = v * v.conj()
        return L.sqrt(it, low(q))
    if is_z3(v):
        if cx.entails(v >= 0):
            return v
        return z3.If(v >= 0, v, -v)
    raise Unsupported("abs")


def abs_trace(it, m):
    """|tr m|, a function of the cyclic word of m up to dagger and phase."""
    cx = it.cx
    if not m.single():
        raise Unsupported("trace of a sum")
    s, d, w = m.terms[0]
    if not M.unimodular(d):
        raise Unsupported("trace with a determinant of a non-unitary matrix")
    w = cx.reduce_word([M.no_phase(f) for f in w])
    while len(w) > 1:
        r = cx.merge(w[-1], w[0])
        if r is None:
            break
        w = cx.reduce_word(list(w[1:-1]) + list(r))
    q = low(s * s.conj())
    mod = L.sqrt(it, q)
    if not w:
        return L.arith(it, "*", mod, zreal(m.rows)) if not isinstance(m.rows, int) else L.arith(it, "*", mod, m.rows)
    if len(w) == 1 and isinstance(w[0], M.FExpl):
        f = w[0]
        t = sum((f.at(i, i) for i in range(f.n)), X({}))
        return L.arith(it, "*", mod, absolute(it, low(t)))
    rots = [tuple(w[i:] + w[:i]) for i in range(len(w))]
    dag = [g for f in reversed(w) for g in f.flip(True, True)]
    rots += [tuple(dag[i:] + dag[:i]) for i in range(len(dag))]
    best = min(rots, key=lambda r: " ".join(M.key(f) for f in r))
    t = cx.skolem("abstr", None, None, R, best)
    rows = zreal(m.rows)
    cx.register(m.rows)
    cx.ax(t >= 0)
    if all(f.unitary() for f in w):
        cx.ax(z3.Implies(rows >= 0, t <= rows))
    cx.traces.append((t, M.Mat(m.rows, m.cols, [(X.of(1), (), best)], True)))
    return L.arith(it, "*", mod, t)


def refresh_traces(it):
    """Traces taken earlier, with what the path has learnt since: an equal value in its present normal form."""
    cx = it.cx
    for t, m in list(cx.traces):
        w = cx.reduce_word(list(m.word))
        if len(w) != len(m.word) or any(M.key(a) != M.key(b) for a, b in zip(w, m.word)):
            cx.assume(t == zreal(L.to_num(abs_trace(it, M.Mat(m.rows, m.cols, [(X.of(1), (), tuple(w))], True)))))


@builtin_fn("min")
def b_min(it, a, k):
    return minmax(it, "min", a, k)


@builtin_fn("max")
def b_max(it, a, k):
    return minmax(it, "max", a, k)


def minmax(it, kind, a, k):
    cx = it.cx
    k = dict(k)
    has_default = "default" in k
    default = k.pop("default", None)
    if k:
        raise Unsupported(f"{kind} with {list(k)}")
    items = tuple(El(x) for x in a) if len(a) > 1 else L.raw_content(it, a[0])
    items = cx.norm_content(items)
    b = L.nonempty(it, items)
    if b is False or (b is not True and not cx.decide(b)):
        if has_default:
            return default
        raise PyRaise("ValueError", f"{kind} of an empty sequence")
    acc = None
    for c in items:
        if isinstance(c, El):
            v = c.v
        elif isinstance(c, Sl) and not c.flat and c.cond is None:
            v = cx.reduction(kind, Sl(Tab(c.tab.var, unnp(c.tab.template), c.tab.facts), c.lo, c.hi))
            if len(items) > 1 and not cx.entails(zint(c.hi) > zint(c.lo)):
                if not cx.decide(zint(c.hi) > zint(c.lo)):
                    continue
        else:
            raise Unsupported(kind)
        if acc is None:
            acc = v
            continue
        le = L.compare_nums(it, "<=", acc, v)
        if kind == "max":
            le = L.not_(le) if not isinstance(le, bool) else not le
            ge = L.compare_nums(it, ">=", acc, v)
            le = ge
        if not isinstance(le, bool):
            le = True if cx.entails(le) else False if cx.entails(z3.Not(le)) else le
        if isinstance(le, bool):
            acc = acc if le else v
        else:
            x, y = L.to_num(unnp(acc)), L.to_num(unnp(v))
            if is_int(x) and is_int(y):
                acc = z3.If(le, zint(x), zint(y))
            else:
                acc = z3.If(le, zreal(x), zreal(y))
    return acc


@builtin_fn("sum")
def b_sum(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return sum_content(it, L.content_of(it, a[0]), start)


def sum_content(it, content, acc):
    cx = it.cx
    for c in cx.norm_content(content):
        if isinstance(c, El):
            acc = binop(it, "+", acc, L.to_num(c.v)) if not (is_num(acc) and L.is_mat(it, c.v) and L.compare_nums(it, "==", acc, 0) is True) else c.v
            continue
        if isinstance(c, Shuf):
            acc = sum_content(it, c.content, acc)
            continue
        t = c.tab.template
        if isinstance(t, MVal):
            b = L.nonempty(it, (c,))
            if not (b is True or (b is not False and cx.decide(b))):
                continue
            first = zint(c.lo) if c.cond is None else None
            at = lambda x: x if first is None or not is_z3(x) else simp_int(z3.substitute(zint(x), (c.tab.var, first)))
            rows, cols = at(t.mat.rows), at(t.mat.cols)
            known = z3.And(list(c.tab.facts)) if c.tab.facts else z3.BoolVal(True)
            if first is not None and c.tab.facts:
                cx.tab_at(c.tab, first)
            for x, y in ((rows, t.mat.rows), (cols, t.mat.cols)):
                if is_z3(x) and mentions(x, {c.tab.var.decl().name()}) or not cx.entails(zbool(cx.qatom(c.tab.var, c.lo, c.hi, z3.Implies(known, zint(x) == zint(y))))):
                    raise Unsupported("sum of matrices of possibly different shapes")
            m = M.Mat.of(M.FSum(Sl(Tab(c.tab.var, t.mat, c.tab.facts), c.lo, c.hi, False, c.cond), rows, cols))
            acc = new_mat(it, m) if is_num(acc) else binop(it, "+", acc, new_mat(it, m))
            continue
        if c.flat:
            raise Unsupported("sum of a nested list")
        t = L.to_num(unnp(t))
        if not is_num(t):
            raise Unsupported("sum of non-numbers")
        acc = L.arith(it, "+", acc, sum_chunk(it, c, t))
    return acc


def sum_chunk(it, c, t):
    cx = it.cx
    name = c.tab.var.decl().name()
    if c.cond is None and not (is_z3(t) and mentions(t, {name})):
        return L.arith(it, "*", t, simp_int(z3.simplify(zint(c.hi) - zint(c.lo))))
    sort = I if is_int(t) else R
    if sort == R:
        # constant factors go in front
        poly = alg.to_poly(zreal(t))
        parts = {}
        for mono, q in poly.items():
            bound = tuple(f for f in mono if mentions(alg.SYM[f[0]], {name}))
            free = tuple(f for f in mono if f not in bound)
            parts.setdefault(bound, {})[free] = q
        if parts and (len(parts) > 1 or next(iter(parts.values())) != {(): Fraction(1)}):
            acc = Fraction(0)
            for bound, f in sorted(parts.items()):
                if bound:
                    x = sum_chunk(it, c, alg.p_z3({bound: Fraction(1)}))
                elif c.cond is None:
                    x = L.to_num(simp_int(z3.simplify(zint(c.hi) - zint(c.lo))))
                else:
                    acc = None
                    break
                acc = L.arith(it, "+", acc, L.arith(it, "*", simp_int(alg.p_z3(f)), x))
            if acc is not None:
                return acc
    s = cx.skolem("sum", None, None, sort, Sl(Tab(c.tab.var, zint(t) if sort == I else canon(zreal(t))), c.lo, c.hi, False, c.cond))
    pos = (zint(t) if sort == I else zreal(t)) >= 0
    cx.ax(z3.Implies(zbool(cx.qatom(c.tab.var, c.lo, c.hi, pos if c.cond is None else z3.Implies(c.cond, pos))), s >= 0))
    if c.cond is None:
        spos = cx.qatom(c.tab.var, c.lo, c.hi, (zint(t) if sort == I else zreal(t)) > 0)
        cx.ax(z3.Implies(z3.And(zbool(spos), zint(c.lo) < zint(c.hi)), s > 0))
        zero = cx.qatom(c.tab.var, c.lo, c.hi, (zint(t) if sort == I else zreal(t)) == 0)
        cx.ax(z3.Implies(zbool(zero), s == 0))
    return s


@builtin_fn("enumerate")
def b_enum(it, a, k):
    cx = it.cx
    start = a[1] if len(a) > 1 else k.get("start", 0)
    content = cx.norm_content(L.content_of(it, a[0]))
    n = cx.length(content)
    idx = LVal((), "list")
    if all(isinstance(c, El) for c in content):
        return L.lazy(it, [El((L.arith(it, "+", start, i), c.v)) for i, c in enumerate(content)])
    v = cx.fresh_index()
    nums = (Sl(Tab(v, v), start, L.arith(it, "+", start, n)),)
    if len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat and content[0].cond is None and not content[0].rev and start == 0 and content[0].lo == 0:
        c = content[0]
        return L.lazy(it, [Sl(Tab(c.tab.var, (c.tab.var, c.tab.template), c.tab.facts), c.lo, c.hi)])
    if len(content) == 1 and isinstance(content[0], (Sl, Shuf)) and (isinstance(content[0], Shuf) or content[0].flat or content[0].cond is not None):
        # positions of elements of an irregular list: element = position-th element
        p = cx.fresh_index()
        return L.lazy(it, [Sl(Tab(p, (p, Opaque("nth", LVal(content, "list"), p))), start, L.arith(it, "+", start, n))])
    return L.lazy(it, L.zip_map(it, nums, content, lambda x, y: (x, y)))


@builtin_fn("zip")
def b_zip(it, a, k):
    if not a:
        return L.lazy(it, ())
    if len(a) == 1:
        return L.lazy(it, L.map_content(it, L.content_of(it, a[0]), lambda x: (x,)))
    acc = L.map_content(it, L.content_of(it, a[0]), lambda x: (x,))
    for b in a[1:]:
        acc = L.zip_map(it, acc, L.content_of(it, b), lambda x, y: x + (y,))
    return L.lazy(it, acc)


@builtin_fn("reversed")
def b_reversed(it, a, k):
    return L.lazy(it, L.rev_content(it, L.content_of(it, a[0])))


@builtin_fn("map")
def b_map(it, a, k):
    if len(a) == 2:
        return L.lazy(it, L.map_content(it, L.content_of(it, a[1]), lambda x: it.call(a[0], [x], {})))
    raise Unsupported("map")


@builtin_fn("filter")
def b_filter(it, a, k):
    raise Unsupported("filter")


@builtin_fn("all")
def b_all(it, a, k):
    return L.all_content(it, L.raw_content(it, a[0]))


@builtin_fn("any")
def b_any(it, a, k):
    return L.not_(L.all_content(it, L.map_content(it, L.raw_content(it, a[0]), lambda x: L.not_(L.truth(it, x)))))


@builtin_fn("sorted")
def b_sorted(it, a, k):
    content = it.cx.norm_content(L.content_of(it, a[0]))
    if not k and all(isinstance(c, El) for c in content):
        vals = [unnp(c.v) for c in content]
        if all(isinstance(v, (int, Fraction)) for v in vals) or all(isinstance(v, str) for v in vals):
            return L.mk_list(it, [El(v) for v in sorted(vals)])
    if not k:
        return L.mk_list(it, [Opaque("sorted", LVal(content, "list"))]) if False else unsup("sorted")
    raise Unsupported("sorted")


def unsup(msg):
    raise Unsupported(msg)


@builtin_fn("round")
def b_round(it, a, k):
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    v = unnp(a[0])
    if isinstance(v, int) and nd is None:
        return v
    if is_num(v):
        return Opaque("round", canon(zreal(v)), nd)
    raise Unsupported("round")


@builtin_fn("callable")
def b_callable(it, a, k):
    v = a[0]
    return isinstance(v, (FuncVal, Bound, Native, ClassVal)) or (isinstance(v, Opaque) and v.kind == "function")


@builtin_fn("print")
def b_print(it, a, k):
    return None


@builtin_fn("id")
def b_id(it, a, k):
    raise Unsupported("id")


@builtin_fn("hasattr")
def b_hasattr(it, a, k):
    if isinstance(a[0], Ref) and isinstance(it.cx.get(a[0]), ObjC) and isinstance(it.cx.get(a[0]).fields.get(a[1] if isinstance(a[1], str) else None), Undef):
        raise Unsupported(f"{a[1]}: {it.cx.get(a[0]).fields[a[1]].why}")
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.kind == "AttributeError":
            return False
        raise


@builtin_fn("getattr")
def b_getattr(it, a, k):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and e.kind == "AttributeError":
            return a[2]
        raise


@builtin_fn("divmod")
def b_divmod(it, a, k):
    return (L.arith(it, "//", a[0], a[1]), L.arith(it, "%", a[0], a[1]))


@builtin_fn("pow")
def b_pow(it, a, k):
    return L.arith(it, "**", a[0], a[1])


@builtin_fn("iter")
def b_iter(it, a, k):
    return L.lazy(it, L.content_of(it, a[0]))


@builtin_fn("next")
def b_next(it, a, k):
    if isinstance(a[0], Ref) and isinstance(it.cx.get(a[0]), ListC):
        L.fresh_iter(it, a[0])
        content = it.cx.norm_content(it.cx.get(a[0]).content)
        b = L.nonempty(it, content)
        if b is True or (b is not False and it.cx.decide(b)):
            o, c = a[0], it.cx.get(a[0])
            if c.kind != "iter":
                raise PyRaise("TypeError", "not an iterator")
            x, rest = L.take_first(it, content)
            it.cx.heap[o.id] = ListC(rest, c.kind, c.tag)
            return x
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration")
    raise Unsupported("next")


@builtin_fn("type")
def b_type(it, a, k):
    c = L.obj_cls(it, a[0])
    if c is not None:
        return c
    for n in ("bool", "int", "str", "list", "dict", "tuple", "ndarray", "float"):
        if isinst(it, a[0], TypeVal(n)) is True:
            return BUILTINS.get(n) or TypeVal(n)
    return Opaque("type", repr(a[0])[:40])


@builtin_fn("object")
def b_object(it, a, k):
    return Opaque("object")


@builtin_fn("slice")
def b_slice(it, a, k):
    return slice(*a)


@builtin_fn("issubclass")
def b_issub(it, a, k):
    raise Unsupported("issubclass")


@builtin_fn("isinstance")
def b_isinstance(it, a, k):
    ts = a[1]
    ts = ts if isinstance(ts, tuple) else (ts,)
    out = False
    for t in ts:
        out = L.or_(out, isinst(it, a[0], t))
    return out


def isinst(it, v, t):
    cx = it.cx
    if isinstance(t, Native) and BUILTINS.get(t.name) is t:
        t = TypeVal(t.name)
    if isinstance(t, Opaque) and t.kind == "typing":
        return {"typing.Iterable": L.is_seq(it, v), "typing.Callable": b_callable(it, [v], {}), "collections.abc.Iterable": L.is_seq(it, v) or L.is_mat(it, v) or L.is_dict(it, v),
                "collections.abc.Sequence": L.is_seq(it, v), "collections.abc.Callable": b_callable(it, [v], {}), "typing.List": L.is_seq(it, v) and L.kind_of(it, v) == "list"}.get(t.args[0]) \
            if t.args[0] in ("typing.Iterable", "typing.Callable", "collections.abc.Iterable", "collections.abc.Sequence", "collections.abc.Callable", "typing.List") else unsup("isinstance")
    c = L.obj_cls(it, v)
    if isinstance(t, ClassVal):
        if c is None:
            return isinstance(v, EnumMember) and v.cls is t
        return any(x.qual == t.qual for x in it.world.mro(c))
    if isinstance(t, TypeVal):
        n = t.name
        if n == "ndarray":
            if L.is_mat(it, v):
                return (cx.get(v).dtype if isinstance(v, Ref) else v.dtype) != "sparse"
            return L.is_seq(it, v) and L.kind_of(it, v) == "arr"
        if n in ("list", "tuple", "set"):
            return L.is_seq(it, v) and L.kind_of(it, v) == n
        if n == "dict":
            return L.is_dict(it, v)
        if n == "str":
            return isinstance(v, (str, Str))
        if n == "bool":
            return is_bool(v)
        if n == "int":
            return (is_int(v) and not isinstance(v, NpInt)) or is_bool(v)
        if n in ("npinteger",):
            return isinstance(v, NpInt)
        if n == "float":
            return is_real(v)
        if n in ("Number", "Real"):
            return is_num(v) and not (n == "Real" and isinstance(v, X))
        if n in ("Integral",):
            return is_int(v)
        if n == "complex":
            return isinstance(v, X)
        if n == "object":
            return True
    raise Unsupported("isinstance")


# ---------------------------------------------------------------- copy, time, itertools, functools
@native("copy.deepcopy")
def c_deepcopy(it, a, k):
    return L.deepcopy(it, a[0])


@native("copy.copy")
def c_copy(it, a, k):
    cx, v = it.cx, a[0]
    if L.is_seq(it, v) and L.kind_of(it, v) != "tuple":
        return L.mk_list(it, L.content_of(it, v), L.kind_of(it, v))
    if L.is_dict(it, v):
        return cx.new(DictC(L.dict_content(it, v)))
    if L.is_mat(it, v):
        return new_mat(it, mat_of(it, v), dtype_of(it, v))
    if isinstance(v, Ent):
        v = it.reveal(v)
    if isinstance(v, OVal):
        return cx.new(ObjC(v.cls, v.fields))
    if isinstance(v, Ref) and isinstance(cx.get(v), ObjC):
        c = cx.get(v)
        return cx.new(ObjC(c.cls, c.fields))
    return v


@native("time.perf_counter", "time.time", "time.monotonic", "time.process_time")
def t_now(it, a, k):
    t = it.cx.fresh("clock", R)
    if it.cx.clock is not None:
        it.cx.ax(t >= it.cx.clock)
    it.cx.clock = t
    return t


@native("itertools.chain")
def i_chain(it, a, k):
    out = ()
    for x in a:
        out += tuple(L.content_of(it, x))
    for c in k.get("*", ()):
        if isinstance(c, El):
            out += tuple(L.content_of(it, c.v))
        elif isinstance(c, Sl) and isinstance(c.tab.template, LVal):
            out += (Sl(c.tab, c.lo, c.hi, c.rev, c.cond, True),)
        else:
            raise Unsupported("chain")
    return L.lazy(it, out)


@native("itertools.chain.from_iterable")
def i_chain2(it, a, k):
    out = ()
    for c in it.cx.norm_content(L.content_of(it, a[0])):
        if isinstance(c, El):
            out += tuple(L.content_of(it, c.v))
        elif isinstance(c, Sl) and isinstance(c.tab.template, LVal):
            out += (Sl(c.tab, c.lo, c.hi, c.rev, c.cond, True),)
        else:
            raise Unsupported("chain")
    return L.lazy(it, out)


@native("itertools.combinations")
def i_comb(it, a, k):
    cx = it.cx
    p = kw(a, k, ["iterable", "r"])
    content = cx.norm_content(L.content_of(it, p["iterable"]))
    r = p["r"]
    if all(isinstance(c, El) for c in content) and isinstance(r, int) and len(content) <= 8:
        import itertools
        return L.lazy(it, [El(t) for t in itertools.combinations([c.v for c in content], r)])
    if isinstance(r, int) and r == 2 and len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat and content[0].cond is None and not content[0].rev:
        c = content[0]
        i, j = cx.fresh_index(), cx.fresh_index()
        at = lambda t: subst(c.tab.template, [(c.tab.var, t)])
        inner = LVal((Sl(Tab(j, (at(i), at(j))), simp_int(z3.simplify(i + 1)), c.hi),), "list", "new")
        return L.lazy(it, [Sl(Tab(i, inner), c.lo, c.hi, False, None, True)])
    if isinstance(r, int) and r == 0:
        return L.lazy(it, [El(())])
    if isinstance(r, int) and r == 1 and all(isinstance(c, El) or (isinstance(c, Sl) and not c.flat) for c in content):
        return L.lazy(it, [El((c.v,)) if isinstance(c, El) else Sl(Tab(c.tab.var, (c.tab.template,), c.tab.facts), c.lo, c.hi, c.rev, c.cond) for c in content])
    # subsets of size r, in lexicographic order: an opaque table of increasing index tuples
    return L.lazy(it, [comb_chunk(it, content, r)])


def comb_chunk(it, content, r):
    """combinations(content, r): chunk of 'binom(n, r)' tuples, the m-th being content at positions comb(n, r, m, 0..r-1)."""
    cx = it.cx
    n = cx.length(content)
    if len(content) != 1 or not isinstance(content[0], Sl) or content[0].flat or content[0].cond is not None or content[0].rev:
        raise Unsupported("combinations")
    c = content[0]
    binom = z3.Function("binom", I, I, I)
    comb = z3.Function("comb", I, I, I, I, I)
    m, j = cx.fresh_index(), cx.fresh_index()
    total = binom(zint(n), zint(r))
    cx.ax(z3.Implies(z3.And(zint(n) >= zint(r), zint(r) >= 0), total >= 1))
    cx.ax(total >= 0)
    pos = comb(zint(n), zint(r), m, j)
    idx = z3.simplify(zint(c.lo) + pos)
    t = LVal((Sl(Tab(j, subst(c.tab.template, [(c.tab.var, idx)])), 0, r),), "tuple", "new")
    return Sl(Tab(m, t), 0, total)


@native("itertools.repeat")
def i_repeat(it, a, k):
    cx = it.cx
    v = cx.fresh_index()
    n = a[1]
    return L.lazy(it, [Sl(Tab(v, cx.freeze(a[0])), 0, n)])


@native("functools.reduce")
def f_reduce(it, a, k):
    cx = it.cx
    f = a[0]
    content = cx.norm_content(L.content_of(it, a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        acc, content = L.take_first(it, content)
        content = cx.norm_content(content)
    return it.loops.fold(it, content, acc, lambda acc, x: it.call(f, [acc, x], {}))


# ---------------------------------------------------------------- numpy: numbers
def elementwise(fn):
    def g(it, a, k):
        v = a[0]
        if L.is_mat(it, v):
            raise Unsupported("elementwise function of a matrix")
        if L.is_seq(it, v):
            return L.mk_list(it, L.map_content(it, L.content_of(it, v), lambda x: fn(it, x)), "arr")
        return fn(it, v)
    return g


def trig(kind):
    def f(it, v):
        v = as_x(v)
        try:
            p = v.poly()
        except NotPoly:
            raise Unsupported("trigonometric function of a complex number")
        if kind == "tan":
            raise Unsupported("tan")
        r = alg.xcos(p) if kind == "cos" else alg.xsin(p)
        return low(r)
    return elementwise(f)


for _k in ("cos", "sin", "tan"):
    NATIVES["numpy." + _k] = NATIVES["math." + _k] = Native("numpy." + _k, trig(_k))


def exp_(it, v):
    cx = it.cx
    if isinstance(v, Opaque):
        raise Unsupported("exp")
    x = as_x(v)
    re, im = x.real(), x.imag()
    try:
        im_p = im.poly()
        re_p = re.poly()
    except NotPoly:
        raise Unsupported("exp of a transcendental number")
    # exp(i * c * arg(det)) is a power of the determinant
    dets, rest = [], {}
    for mono, c in im_p.items():
        syms = [s for s, e in mono if s in cx.arg_syms and e == 1]
        if syms:
            s = syms[0]
            others = tuple((a, e) for a, e in mono if a != s)
            dets.append((cx.arg_syms[s], X({(others, ()): alg.cyc(c)})))
        else:
            rest[mono] = c
    r = X.expi(rest)
    if re_p:
        r = r * X.of(real_exp(cx, re_p))
    if dets:
        out = ()
        for f, e in dets:
            out = M.dets_mul(out, ((f, e),))
        return Scal(r, out)
    return low(r)


def real_exp(cx, p):
    t = alg.p_z3(p)
    e = z3.Function("exp", R, R)(t)
    cx.ax(e > 0)
    cx.ax((t <= 0) == (e <= 1))
    cx.ax((t < 0) == (e < 1))
    cx.exps.append((t, e))
    for (s, f) in cx.exps[:-1]:
        cx.ax((s < t) == (f < e))
        cx.ax((s == t) == (f == e))
    return e


NATIVES["numpy.exp"] = NATIVES["math.exp"] = NATIVES["cmath.exp"] = Native("numpy.exp", elementwise(exp_))


@native("numpy.sqrt", "math.sqrt")
def n_sqrt(it, a, k):
    return elementwise(L.sqrt)(it, a, k)


@native("numpy.log2", "math.log2")
def n_log2(it, a, k):
    v = unnp(a[0])
    if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
        return Fraction(v.bit_length() - 1)
    return Opaque("log2", v)


@native("numpy.log", "math.log")
def n_log(it, a, k):
    if len(a) > 1 and a[1] == 2:
        return n_log2(it, a[:1], k)
    if len(a) > 1:
        raise Unsupported("logarithm with a base")
    return Opaque("ln", unnp(a[0]))


@native("numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs")
def n_abs(it, a, k):
    return absolute(it, a[0])


@native("numpy.angle")
def n_angle(it, a, k):
    v = a[0]
    if isinstance(v, Scal) and (v.s - X.of(1)).is_zero() and len(v.dets) == 1 and (v.dets[0][1] - X.of(1)).is_zero() and v.dets[0][0].unitary():
        t = it.cx.skolem("argdet", None, None, R, v.dets[0][0])
        it.cx.arg_syms[alg.sym_of(t)] = v.dets[0][0]
        return t
    raise Unsupported("angle")


@native("numpy.real")
def n_real(it, a, k):
    return it.getattr(a[0], "real")


@native("numpy.imag")
def n_imag(it, a, k):
    return it.getattr(a[0], "imag")


@native("numpy.conj", "numpy.conjugate")
def n_conj(it, a, k):
    if L.is_mat(it, a[0]):
        return new_mat(it, mat_of(it, a[0]).flip(False, True))
    return conj_num(it, a[0])


@native("math.floor")
def m_floor(it, a, k):
    v = unnp(a[0])
    if isinstance(v, (int, Fraction)):
        import math
        return math.floor(v)
    if is_z3(v) and v.sort() == I:
        return v
    if is_z3(v):
        return z3.ToInt(v)
    if isinstance(v, Opaque) and v.kind == "log2":
        return L.to_int(it, v)
    raise Unsupported("floor")


@native("numpy.floor")
def n_floor(it, a, k):
    v = m_floor(it, a, k)
    return Fraction(v) if isinstance(v, int) else zreal(v)


@native("numpy.round", "numpy.around")
def n_round(it, a, k):
    if isinstance(a[0], Opaque) and a[0].kind == "log2" and len(a) == 1 and L.exponent(it.cx, a[0].args[0]) is not None:
        v = L.to_int(it, a[0])
        return Fraction(v) if isinstance(v, int) else zreal(v)
    return b_round(it, a, {"ndigits": k.get("decimals")} if k else {})


@native("numpy.isreal")
def n_isreal(it, a, k):
    v = a[0]
    return as_x(v).is_real()


@native("numpy.iscomplexobj")
def n_isc(it, a, k):
    return isinstance(a[0], X)


@native("numpy.iinfo")
def n_iinfo(it, a, k):
    t = a[0]
    return Opaque("iinfo", t.name if isinstance(t, TypeVal) else "int64")


@native("numpy.isclose")
def n_isclose(it, a, k):
    p = kw(a, k, ["a", "b", "rtol", "atol", "equal_nan", "rel_tol", "abs_tol"], {"rtol": Fraction(1, 10 ** 5), "atol": Fraction(1, 10 ** 8)})
    x, y = p["a"], p["b"]
    if "rel_tol" in p or "abs_tol" in p or p.get("equal_nan") not in (None, False):
        raise Unsupported("math.isclose")
    if L.is_mat(it, x) or L.is_seq(it, x):
        raise Unsupported("isclose of arrays")
    d = absolute(it, L.arith(it, "-", x, y))
    t = L.arith(it, "+", p["atol"], L.arith(it, "*", p["rtol"], absolute(it, y)))
    return L.compare_nums(it, "<=", d, t)


@native("numpy.allclose")
def n_allclose(it, a, k):
    cx = it.cx
    p = kw(a, k, ["a", "b", "rtol", "atol"], {"rtol": Fraction(1, 10 ** 5), "atol": Fraction(1, 10 ** 8)})
    default = p["rtol"] == Fraction(1, 10 ** 5) and p["atol"] == Fraction(1, 10 ** 8)
    x, y = p["a"], p["b"]
    if is_num(x) and is_num(y):
        return n_isclose(it, [x, y], {"rtol": p["rtol"], "atol": p["atol"]})
    if not (L.is_mat(it, x) and L.is_mat(it, y)):
        raise Unsupported("allclose")
    A, B_ = mat_of(it, x), mat_of(it, y)
    shape_eq(it, A, B_)
    if has_nan(A) or has_nan(B_):
        return False
    if cx.same_mat(A, B_):
        return True
    return it.world.spec.allclose(it, A, B_, p["rtol"], p["atol"])


def has_nan(m):
    return any(isinstance(f, M.FOpaque) and f.name == "nan" for _, _, w in m.terms for f in w)


@native("numpy.array_equal")
def n_aeq(it, a, k):
    x, y = a[0], a[1]
    if L.is_mat(it, x) and L.is_mat(it, y):
        A, B_ = mat_of(it, x), mat_of(it, y)
        if it.cx.same_mat(A, B_) and not A.phase and not B_.phase:
            return True
        return it.cx.skolem("array_equal", None, None, B, (A, B_))
    return L.equal(it, L.mk_list(it, L.content_of(it, x)), L.mk_list(it, L.content_of(it, y)))


@native("numpy.all")
def n_all(it, a, k):
    if L.is_seq(it, a[0]):
        return L.all_content(it, L.content_of(it, a[0]))
    return L.truth(it, a[0])


@native("numpy.any")
def n_any(it, a, k):
    if L.is_seq(it, a[0]):
        return b_any(it, a, k)
    return L.truth(it, a[0])


@native("numpy.min", "numpy.amin")
def n_min(it, a, k):
    return np_int(it, minmax(it, "min", a[:1], k))


@native("numpy.max", "numpy.amax")
def n_max(it, a, k):
    return np_int(it, minmax(it, "max", a[:1], k))


def np_int(it, v):
    return NpInt(v) if is_int(v) and not isinstance(v, NpInt) else v


@native("numpy.sum")
def n_sum(it, a, k):
    p = kw(a, k, ["a", "axis"])
    v = p["a"]
    if isinstance(v, Opaque) and v.kind == "hadamard" and p.get("axis") is None:
        return NATIVES["numpy.trace"].fn(it, [new_mat(it, v.args[0].flip(True, False).times(v.args[1]))], {})
    content = it.cx.norm_content(L.content_of(it, v))
    probe = next((c.v if isinstance(c, El) else getattr(c.tab, "template", None) for c in content if not isinstance(c, Shuf)), None)
    if probe is not None and (isinstance(probe, MVal) or L.is_mat(it, probe)):
        if p.get("axis") != 0:
            raise Unsupported("sum of matrices over another axis")
        return sum_content(it, content, 0)
    return np_int(it, sum_content(it, content, 0))


@native("numpy.prod")
def n_prod(it, a, k):
    acc = 1
    for c in it.cx.norm_content(L.content_of(it, a[0])):
        if not isinstance(c, El):
            raise Unsupported("prod")
        acc = L.arith(it, "*", acc, c.v)
    return np_int(it, acc)


@native("numpy.count_nonzero")
def n_count(it, a, k):
    return count_true(it, L.content_of(it, a[0]))


def count_true(it, content):
    n = 0
    for c in it.cx.norm_content(content):
        if not isinstance(c, El):
            raise Unsupported("count_nonzero")
        b = L.truth(it, c.v)
        n = L.arith(it, "+", n, L.to_num(b))
    return n


def n_array(copies):
    def f(it, a, k):
        cx = it.cx
        p = kw(a, k, ["object", "dtype", "copy", "ndmin"] if copies else ["object", "dtype"], {"dtype": None, "copy": True})
        v, t = p["object"], p["dtype"]
        copy = copies and p["copy"] is True
        if p.get("ndmin") not in (None, 0, 1) or not isinstance(p["copy"], bool):
            raise Unsupported("array()")
        want = None if t is None else type_name(t)
        if t is not None and want is None:
            raise Unsupported("array element type")
        if L.is_mat(it, v):
            have = dtype_of(it, v)
            if have not in ("int", "float", "complex"):
                raise Unsupported("array of a sparse matrix")
            if not copy and want in (None, have):
                return v
            if want in (None, have, "complex") or (want, have) == ("float", "int"):
                return new_mat(it, mat_of(it, v), want or have)
            raise Unsupported("array element type")
        if not L.is_seq(it, v):
            if is_num(v) and t is None:
                return v
            raise Unsupported("array()")
        if L.kind_of(it, v) in ("iter", "set"):
            raise Unsupported("array of an iterator or a set")
        content = cx.norm_content(L.content_of(it, v))
        if content and all(isinstance(c, El) and L.is_seq(it, c.v) for c in content):
            rows = [[x for x in cx.norm_content(L.content_of(it, c.v))] for c in content]
            if len({len(r) for r in rows}) == 1 and all(isinstance(x, El) and (is_num(x.v)) for r in rows for x in r):
                have = set()
                for r in rows:
                    have |= elem_types(cx, r)
                nat = next((x for x in ("complex", "float", "int") if x in have), "int")
                if want in (None, nat, "complex") or (want, nat) == ("float", "int"):
                    return new_mat(it, M.Mat.explicit([[as_x(x.v) for x in r] for r in rows]), want or nat)
            raise Unsupported("array of lists")
        return arr_cast(it, v, t, copy)
    return f


for _n in ("numpy.array",):
    NATIVES[_n] = Native(_n, n_array(True))
for _n in ("numpy.asarray", "numpy.asanyarray"):
    NATIVES[_n] = Native(_n, n_array(False))


@native("numpy.identity", "numpy.eye")
def n_identity(it, a, k):
    n = unnp(a[0])
    if n is None:
        raise PyRaise("TypeError")
    if is_real(n):
        raise PyRaise("TypeError", "identity of a float")
    if len(a) > 1 and not isinstance(a[1], (TypeVal, Native)):
        raise Unsupported("eye")
    t = a[1] if len(a) > 1 else k.get("dtype")
    dt = "float" if t is None else type_name(t)
    if dt not in ("int", "float", "complex"):
        raise Unsupported("identity of this type")
    return new_mat(it, M.Mat.identity(n), dt)


@native("numpy.arange")
def n_arange(it, a, k):
    r = b_range(it, a, {})
    return L.mk_list(it, L.map_content(it, r.content, lambda x: NpInt(x)), "arr")


@native("numpy.append", "numpy.concatenate")
def n_append(it, a, k):
    raise Unsupported("numpy.append")


@native("numpy.unique")
def n_unique(it, a, k):
    raise Unsupported("numpy.unique")


@native("numpy.kron", "scipy.linalg.kron")
def n_kron(it, a, k):
    A, B_ = mat_of(it, a[0]), mat_of(it, a[1])
    return new_mat(it, kron(A, B_))


def kron(A, B_):
    if A.single() and B_.single():
        s, d, w = A.terms[0]
        t, e, v = B_.terms[0]
        ex = [explicit_word(w, A.rows), explicit_word(v, B_.rows)]
        if ex[0] is not None and ex[1] is not None and ex[0].n * ex[1].n <= 16:
            p, q = ex
            r = M.FExpl(p.n * q.n, p.m * q.m, [p.at(i // q.n, j // q.m) * q.at(i % q.n, j % q.m) for i in range(p.n * q.n) for j in range(p.m * q.m)])
            return M.Mat(r.n, r.m, M.fold([(s * t, M.dets_mul(d, e), M.simplify((r,)))], r.n, r.m), A.phase or B_.phase)
        f = M.FKron(M.Mat(A.rows, A.cols, [(X.of(1), (), w)]), M.Mat(B_.rows, B_.cols, [(X.of(1), (), v)]))
        return M.Mat(M.mul(A.rows, B_.rows), M.mul(A.cols, B_.cols), [(s * t, M.dets_mul(d, e), M.simplify((f,)))], A.phase or B_.phase)
    return M.Mat.of(M.FKron(A, B_))


def explicit_word(w, n):
    if len(w) == 1 and isinstance(w[0], M.FExpl):
        return w[0]
    if not w and isinstance(n, int) and n <= 8:
        return M.FExpl(n, n, [X.of(int(i == j)) for i in range(n) for j in range(n)])
    return None


@native("numpy.matmul", "numpy.dot")
def n_matmul(it, a, k):
    if L.is_mat(it, a[0]) and L.is_mat(it, a[1]):
        return matmul(it, a[0], a[1])
    raise Unsupported("dot")


@native("numpy.linalg.multi_dot")
def n_multidot(it, a, k):
    content = it.cx.norm_content(L.content_of(it, a[0]))
    return it.loops.fold(it, content[1:], content[0].v, lambda x, y: matmul(it, x, y))


@native("numpy.vdot")
def n_vdot(it, a, k):
    if L.is_mat(it, a[0]) and L.is_mat(it, a[1]):
        A, B_ = mat_of(it, a[0]), mat_of(it, a[1])
        shape_eq(it, A, B_)
        return Opaque("trace", A.dagger().times(B_))
    raise Unsupported("vdot")


@native("numpy.transpose")
def n_transpose(it, a, k):
    return view_mat(it, a[0], mat_of(it, a[0]).flip(True, False))


@native("numpy.trace")
def n_trace(it, a, k):
    m = mat_of(it, a[0])
    if not it.cx.eqz(m.rows, m.cols):
        raise Unsupported("trace of a non-square matrix")
    m2 = it.cx.reduce_mat(m)
    if m2.single() and not m2.word and not m2.terms[0][1] and not m2.phase:
        return L.arith(it, "*", low(m2.terms[0][0]), m2.rows)
    if m2.single() and len(m2.word) == 1 and isinstance(m2.word[0], M.FExpl) and not m2.terms[0][1] and not m2.phase:
        f = m2.word[0]
        return low(m2.terms[0][0] * sum((f.at(i, i) for i in range(f.n)), X({})))
    return Opaque("trace", m)


@native("numpy.linalg.norm", "scipy.linalg.norm")
def n_norm(it, a, k):
    v = a[0]
    if L.is_mat(it, v):
        ordn = a[1] if len(a) > 1 else k.get("ord")
        m = mat_of(it, v)
        if ordn == 2:
            return sigma_max(it, m)
        if ordn is None or ordn == "fro":
            nm = "norm_fro"
        else:
            nm = f"norm_{ordn}"
        return uf_norm(it, nm, m)
    if is_num(v) or isinstance(v, (Opaque, Scal)):
        return absolute(it, v)
    raise Unsupported("norm of a vector")


def sigma_max(it, m):
    return uf_norm(it, "sigma_max", m)


def uf_norm(it, name, m):
    """Absolutely homogeneous, dagger-invariant norms."""
    cx = it.cx
    if not m.single():
        t = cx.skolem(name, None, None, R, m)
        cx.ax(t >= 0)
        return t
    s, d, w = m.terms[0]
    w = cx.reduce_word(list(w))
    mod = absolute(it, low(s))
    if name == "sigma_max" and all(f.unitary() for f in w) and w:
        return mod
    if not w and name == "sigma_max":
        return mod
    dag = [g for f in reversed(w) for g in f.flip(True, True)]
    best = min((tuple(w), tuple(dag)), key=lambda r: " ".join(M.key(f) for f in r)) if name in ("sigma_max", "norm_fro") else tuple(w)
    t = cx.skolem(name, None, None, R, best)
    cx.ax(t >= 0)
    zero = cx.skolem("iszero", None, None, B, best)
    cx.ax(zero == (t == 0))
    cx.norms.append((name, t, best))
    return L.arith(it, "*", mod, t)


@native("numpy.linalg.svd", "scipy.linalg.svd")
def n_svd(it, a, k):
    cx = it.cx
    m = mat_of(it, a[0])
    n = m.rows
    j = cx.fresh_index()
    sv = z3.Function("sval<" + str(cx.n("sval")) + ">", I, R)
    smax = sigma_max(it, m)
    first = sv(z3.IntVal(0))
    # singular values in decreasing order; the first is the largest
    cx.ax(z3.Implies(zint(n) >= 1, first == zreal(smax)))
    facts = [z3.Implies(z3.And(j >= 0, j < zint(n)), z3.And(sv(j) >= 0, sv(j) <= zreal(smax)))]
    if not (isinstance(n, int) and n >= 1) and not cx.entails(zint(n) >= 1):
        if not cx.decide(zint(n) >= 1):
            raise Unsupported("singular values of an empty matrix")
    s = L.mk_list(it, [El(smax), Sl(Tab(j, sv(j), facts), 1, n)], "arr")
    if k.get("compute_uv") is False:
        return s
    return (Opaque("svdU", m), s, Opaque("svdV", m))


@native("numpy.linalg.det", "scipy.linalg.det")
def n_det(it, a, k):
    m = mat_of(it, a[0])
    return det(it, m)


def det(it, m):
    cx = it.cx
    if not m.single() or m.phase:
        raise Unsupported("determinant of a sum")
    s, d, w = m.terms[0]
    out = Scal(X.of(1), ())
    if not (s - X.of(1)).is_zero():
        if not isinstance(m.rows, int):
            raise Unsupported("determinant of a scaled matrix")
        out = Scal(s ** m.rows, ())
    dd = ()
    for f, e in d:
        dd = M.dets_mul(dd, ((f, e * X.of(m.rows if isinstance(m.rows, int) else zreal(m.rows))),))
    for f in w:
        if isinstance(f, M.FExpl):
            out = Scal(out.s * det_expl(f), out.dets)
        else:
            dd = M.dets_mul(dd, ((f, X.of(1)),))
    if dd:
        return Scal(out.s, dd)
    return low(out.s)


def det_expl(f):
    n = f.n
    if n == 1:
        return f.at(0, 0)
    if n == 2:
        return f.at(0, 0) * f.at(1, 1) - f.at(0, 1) * f.at(1, 0)
    tot = X({})
    for j in range(n):
        if f.at(0, j).is_zero():
            continue
        minor = M.FExpl(n - 1, n - 1, [f.at(r, c) for r in range(1, n) for c in range(n) if c != j])
        tot = tot + f.at(0, j) * det_expl(minor) * (1 if j % 2 == 0 else -1)
    return tot


@native("numpy.linalg.inv", "scipy.linalg.inv")
def n_inv(it, a, k):
    m = mat_of(it, a[0])
    if "unitary" in m.props():
        return new_mat(it, m.dagger())
    raise Unsupported("inverse of a general matrix")


@native("numpy.linalg.matrix_power")
def n_mpow(it, a, k):
    p = kw(a, k, ["a", "n"])
    n = p["n"]
    if not isinstance(n, int) or isinstance(n, bool):
        raise Unsupported("matrix_power")
    if n >= 0:
        return mat_power(it, p["a"], n)
    return mat_power(it, n_inv(it, [p["a"]], {}), -n)


@native("numpy.square", "numpy.power")
def n_power(it, a, k):
    b = a[1] if len(a) > 1 else 2
    if L.is_mat(it, a[0]):
        return mat_binop(it, "**", a[0], b)
    if is_num(a[0]) or isinstance(a[0], Scal):
        return L.arith(it, "**", a[0], b)
    raise Unsupported("power")


@native("scipy.linalg.expm")
def n_expm(it, a, k):
    cx = it.cx
    m = it.world.spec.settled(it, mat_of(it, a[0]))
    # i times a hermitian combination?
    h = m.scale(IU * -1)
    if is_hermitian(cx, h):
        f = M.FExpI(h)
        return new_mat(it, M.Mat(m.rows, m.cols, [(X.of(1), (), M.simplify((f,)))]))
    return new_mat(it, M.Mat.of(M.FOpaque("expm", (m,), m.rows, m.cols)))


def is_hermitian(cx, m):
    if m.phase:
        return False
    for s, d, w in m.terms:
        if d or not s.is_real():
            return False
        if not w:
            continue
        if len(w) == 1 and w[0].hermitian():
            continue
        return False
    return True


def filled(value):
    def f(it, a, k):
        p = kw(a, k, ["shape", "dtype"], {"dtype": None})
        dt = "float" if p["dtype"] is None else type_name(p["dtype"])
        n = unnp(p["shape"])
        if dt not in ("int", "float", "complex"):
            raise Unsupported("array element type")
        if is_int(n):
            if dt == "complex" or not it.cx.entails(zint(n) >= 0):
                raise Unsupported("zeros/ones")
            v = NpInt(value) if dt == "int" else Fraction(value)
            return L.mk_list(it, [Sl(Tab(it.cx.fresh_index(), v), 0, n)], "arr")
        dims = it.cx.norm_content(L.content_of(it, n)) if L.is_seq(it, n) else ()
        if value or len(dims) != 2 or not all(isinstance(c, El) and is_int(unnp(c.v)) and it.cx.entails(zint(unnp(c.v)) >= 1) for c in dims):
            raise Unsupported("zeros/ones")
        return new_mat(it, M.Mat(unnp(dims[0].v), unnp(dims[1].v), []), dt)
    return f


NATIVES["numpy.zeros"] = Native("numpy.zeros", filled(0))
NATIVES["numpy.ones"] = Native("numpy.ones", filled(1))


@native("numpy.zeros_like")
def n_zeros_like(it, a, k):
    if k or not L.is_mat(it, a[0]) or "sparse" in dtype_of(it, a[0]):
        raise Unsupported("zeros_like")
    m = mat_of(it, a[0])
    return new_mat(it, M.Mat(m.rows, m.cols, []), dtype_of(it, a[0]))


@native("numpy.diag")
def n_diag(it, a, k):
    if L.is_mat(it, a[0]) or not L.is_seq(it, a[0]):
        raise Unsupported("diagonal of a matrix")
    xs = it.cx.norm_content(L.content_of(it, a[0]))
    if not xs or not all(isinstance(c, El) and is_num(c.v) for c in xs):
        raise Unsupported("diag")
    have = elem_types(it.cx, xs)
    dt = next((x for x in ("complex", "float", "int") if x in have), "int")
    return new_mat(it, M.Mat.explicit([[as_x(x.v) if i == j else X({}) for j in range(len(xs))] for i, x in enumerate(xs)]), dt)


# ---------------------------------------------------------------- random numbers
def draw(it, kind, params, result):
    it.cx.draws.append((kind, params, result))
    return result


def u01(it):
    cx = it.cx
    u = cx.fresh("u01", R)
    cx.law(u, z3.And(u >= 0, u < 1))
    return draw(it, "u01", (), u)


@native("numpy.random.random_sample", "numpy.random.random", "numpy.random.rand", "numpy.random.ranf", "random.random")
def r_u01(it, a, k):
    if a or k:
        raise Unsupported("random array")
    return u01(it)


@native("numpy.random.uniform", "random.uniform")
def r_uniform(it, a, k):
    p = kw(a, k, ["low", "high", "size"], {"low": Fraction(0), "high": Fraction(1)})
    if p.get("size") is not None:
        raise Unsupported("random array")
    lo, hi = p["low"], p["high"]
    u = u01(it)
    return L.arith(it, "+", lo, L.arith(it, "*", L.arith(it, "-", hi, lo), u))


@native("numpy.random.seed", "random.seed")
def r_seed(it, a, k):
    raise Unsupported("seeding the generator")


@native("numpy.random.randint", "random.randrange")
def r_randint(it, a, k):
    if k:
        raise Unsupported("randint")
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    v = choose_index(it, L.b_range_content(it, lo, hi), None)
    return v


@native("random.randint")
def r_randint2(it, a, k):
    return choose_index(it, L.b_range_content(it, a[0], L.arith(it, "+", a[1], 1)), None)


def b_range_content(it, lo, hi):
    return b_range(it, [lo, hi], {}).content


L.b_range_content = b_range_content


SUM_TOL = Fraction(1, 2 ** 26)      # numpy accepts probabilities whose sum is within the square root of the machine epsilon of 1


def choose_index(it, content, weights):
    """One element of content; weights: list content or None."""
    cx = it.cx
    content = cx.norm_content(content)
    b = L.nonempty(it, content)
    if b is False or (b is not True and not cx.decide(b)):
        raise PyRaise("ValueError", "choice from an empty list")
    if weights is not None:
        n, m = cx.length(content), cx.length(cx.norm_content(weights))
        e = L.compare_nums(it, "==", n, m)
        if e is False or (e is not True and not cx.decide(e)):
            raise PyRaise("ValueError", "a and p must have the same size")
        total = L.to_num(unnp(sum_content(it, weights, 0)))
        ok = L.and_(L.all_content(it, L.map_content(it, cx.norm_content(weights), lambda x: L.compare_nums(it, ">=", unnp(x), 0))),
                    L.and_(L.compare_nums(it, "<=", L.arith(it, "-", total, 1), SUM_TOL), L.compare_nums(it, "<=", L.arith(it, "-", 1, total), SUM_TOL)))
        if ok is False or (ok is not True and not cx.entails(ok) and not cx.decide(ok)):
            raise PyRaise("ValueError", "probabilities are not a distribution")
    fz = LVal(tuple(cx.freeze(c) for c in content), "list")
    fw = None if weights is None else LVal(tuple(cx.freeze(c) for c in cx.norm_content(weights)), "list")
    if all(isinstance(c, El) for c in content):
        n = len(content)
        J = cx.fresh("pick", I)
        cx.law(J, z3.And(J >= 0, J < n))
        draw(it, "choice", (fz, fw), J)
        if n == 1:
            cx.ax(J == 0)
            return content[0].v
        if all(is_int(c.v) and isinstance(unnp(c.v), int) for c in content) and [unnp(c.v) for c in content] == list(range(n)):
            return NpInt(J)
        for i in range(n - 1):
            if cx.decide(J == i):
                return content[i].v
        return content[n - 1].v
    if len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat:
        c = content[0]
        J = cx.fresh("pick", I)
        f = z3.Implies(zint(c.lo) < zint(c.hi), z3.And(zint(c.lo) <= J, J < zint(c.hi)))
        if c.cond is not None:
            f = z3.And(f, z3.substitute(c.cond, (c.tab.var, J)))
            cx.register(f)
        cx.law(J, f if b is True else z3.Implies(b, f))
        draw(it, "choice", (fz, fw), J)
        return cx.tab_at(c.tab, J)
    if len(content) == 1 and isinstance(content[0], Sl) and content[0].flat and content[0].cond is None and isinstance(content[0].tab.template, LVal):
        # one element of one of the inner lists
        c = content[0]
        J, K = cx.fresh("pick", I), cx.fresh("pick", I)
        inner = cx.norm_content(cx.tab_at(c.tab, J).content)
        if len(inner) == 1 and isinstance(inner[0], Sl) and not inner[0].flat and inner[0].cond is None:
            e = inner[0]
            f = z3.And(zint(c.lo) <= J, J < zint(c.hi), zint(e.lo) <= K, K < zint(e.hi))
            cx.law(K, f if b is True else z3.Implies(b, f))
            draw(it, "choice", (fz, fw), (J, K))
            return cx.tab_at(e.tab, K)
    raise Unsupported("choice from this list")


@native("numpy.random.choice")
def r_choice(it, a, k):
    cx = it.cx
    p = kw(a, k, ["a", "size", "replace", "p"], {"size": None, "replace": True, "p": None})
    pop = p["a"]
    if is_int(pop):
        content = b_range_content(it, 0, unnp(pop))
        np_elems = True
    else:
        content = cx.norm_content(L.content_of(it, pop))
        np_elems = False
    w = None if p["p"] is None else L.content_of(it, p["p"])
    size = p["size"]
    if size is None:
        v = choose_index(it, content, w)
        return np_int(it, v)
    size = unnp(size)
    if isinstance(size, tuple) and len(size) == 1:
        size = size[0]
    if isinstance(size, int) and size == 1 and p["replace"] is not False:
        return L.mk_list(it, [El(np_int(it, choose_index(it, content, w)))], "arr")
    if not isinstance(p["replace"], bool):
        raise Unsupported("choice without replacement")
    if p["replace"] is False and w is not None and isinstance(size, int) and size == 1:
        return L.mk_list(it, [El(np_int(it, choose_index(it, content, w)))], "arr")
    if p["replace"] is False and w is not None:
        return L.mk_list(it, L.map_content(it, sample(it, content, size, tuple(cx.freeze(c) for c in cx.norm_content(w))), lambda x: np_int(it, x)), "arr")
    if p["replace"] is False:
        return L.mk_list(it, L.map_content(it, sample(it, content, size), lambda x: np_int(it, x)), "arr")
    if isinstance(size, int) and size <= 4:
        return L.mk_list(it, [El(np_int(it, choose_index(it, content, w))) for _ in range(size)], "arr")
    # independent draws
    j = cx.fresh_index()
    base = Sl(Tab(j, j), 0, size)
    v = cx.generic(base, j, lambda _: choose_index(it, content, w))
    return L.mk_list(it, [Sl(Tab(j, np_int(it, v)), 0, size)], "arr")


@native("random.choice")
def r_choice2(it, a, k):
    return choose_index(it, L.content_of(it, a[0]), None)


@native("random.choices")
def r_choices(it, a, k):
    cx = it.cx
    p = kw(a, k, ["population", "weights", "cum_weights", "k"], {"weights": None, "cum_weights": None, "k": 1})
    if p["cum_weights"] is not None:
        raise Unsupported("cumulative weights")
    w = None
    if p["weights"] is not None:
        w = cx.norm_content(L.content_of(it, p["weights"]))
        total = L.to_num(unnp(sum_content(it, w, 0)))
        pos = L.compare_nums(it, ">", total, 0)
        if pos is False or (pos is not True and not cx.decide(pos)):
            raise PyRaise("ValueError", "total of weights must be greater than zero")
        one = L.compare_nums(it, "==", total, 1)
        if one is not True and not cx.entails(zbool(one)):
            w = L.map_content(it, w, lambda x: L.arith(it, "/", unnp(x), total))
        w = L.mk_list(it, w)
    r = NATIVES["numpy.random.choice"].fn(it, [p["population"], p["k"]], {"p": w})
    return L.mk_list(it, L.content_of(it, r))


def sample(it, content, m, weights=None):
    """m distinct positions of content, in uniformly random order (drawn one after the other by weights, if given)."""
    cx = it.cx
    content = cx.norm_content(content)
    n = cx.length(content)
    b = L.compare_nums(it, "<=", m, n)
    if b is False or (b is not True and not cx.decide(b)):
        raise PyRaise("ValueError", "sample larger than population")
    if not isinstance(m, int) and not cx.entails(zint(m) >= 0):
        if not cx.decide(zint(m) >= 0):
            raise PyRaise("ValueError", "negative sample")
    idx = cx.n("sample")
    args = list(cx.loops)
    f = z3.Function(f"samp!{idx}", *[x.sort() for x in args], I, I)
    j = cx.fresh_index()
    pos = f(*args, j)
    facts = [z3.Implies(z3.And(j >= 0, j < zint(m)), z3.And(pos >= 0, pos < zint(n)))]
    fz = LVal(tuple(cx.freeze(c) for c in content), "list")
    draw(it, "sample" if weights is None else "weighted sample", (fz, m) if weights is None else (fz, m, LVal(weights, "list")), Opaque("sampled", idx))
    plain = (Sl(Tab(j, pos, facts), 0, m),)
    d = distinct(it, cx.norm_content(plain))
    cx.law(pos, z3.And(facts[0], zbool(d)))
    if all(isinstance(c, El) for c in content) and not all(isinstance(unnp(c.v), int) for c in content):
        raise Unsupported("sample of a concrete list")
    if len(content) == 1 and isinstance(content[0], Sl) and not content[0].flat and content[0].cond is None:
        c = content[0]
        i = z3.simplify(zint(c.lo) + pos, som=True)
        return (Sl(Tab(j, subst(c.tab.template, [(c.tab.var, i)]), facts), 0, m),)
    if [unnp(c.v) for c in content if isinstance(c, El)] == list(range(len(content))):
        return plain
    raise Unsupported("sample of this list")


@native("random.sample")
def r_sample(it, a, k):
    p = kw(a, k, ["population", "k"])
    return L.mk_list(it, sample(it, L.content_of(it, p["population"]), p["k"]))


@native("numpy.random.shuffle", "random.shuffle")
def r_shuffle(it, a, k):
    cx = it.cx
    o = a[0]
    if isinstance(o, LVal):
        raise L.foreign(o, "shuffle of a list that belongs to the caller")
    c = L.owned(it, o, "shuffle")
    cx.put(o, ListC(shuffled(it, c.content), c.kind, c.tag))


def shuffled(it, content):
    cx = it.cx
    idx = cx.n("shuf")
    while len(content) == 1 and isinstance(content[0], Shuf):
        content = content[0].content      # a shuffle of a shuffle
    fz = tuple(cx.freeze(c) for c in cx.norm_content(content))
    t = z3.Function(f"shuf!{idx}", *[x.sort() for x in cx.loops], I)(*cx.loops) if cx.loops else z3.Int(f"shuf!{idx}")
    draw(it, "shuffle", (LVal(fz, "list"),), t)
    return (Shuf(fz, t),)


@native("numpy.random.permutation")
def r_perm(it, a, k):
    content = b_range_content(it, 0, unnp(a[0])) if is_int(a[0]) else L.content_of(it, a[0])
    return L.mk_list(it, L.map_content(it, shuffled(it, content), lambda x: np_int(it, x)), "arr")


@native("scipy.stats.unitary_group.rvs")
def r_unitary(it, a, k):
    cx = it.cx
    d = unnp(a[0] if a else k["dim"])
    t = cx.fresh("haar", M.MS)
    return draw(it, "haar", (d,), new_mat(it, M.Mat.of(M.FAtom(t, d, d, {"unitary"}))))


# ---------------------------------------------------------------- arguments each model knows: (positional, keywords); None: checked by the model
SIGS = {
    "len": 1, "range": 3, "list": 1, "tuple": 1, "set": 1, "frozenset": 1, "dict": (1, None), "int": 1, "float": 1, "complex": 2, "bool": 1, "str": 1, "repr": 1, "abs": 1,
    "min": (None, None), "max": (None, None), "sum": (2, ("start",)), "enumerate": (2, ("start",)), "zip": (None, ()), "reversed": 1, "map": (None, ()), "filter": 2, "all": 1, "any": 1,
    "sorted": (1, None), "round": (2, ("ndigits",)), "callable": 1, "print": (None, None), "id": 1, "hasattr": 2, "getattr": 3, "divmod": 2, "pow": 2, "iter": 1, "next": 2, "type": 1, "object": 0,
    "slice": 3, "issubclass": 2, "isinstance": 2, "copy.deepcopy": 1, "copy.copy": 1, "time.perf_counter": 0, "time.time": 0, "time.monotonic": 0, "time.process_time": 0,
    "itertools.chain": (None, ()), "itertools.chain.from_iterable": 1, "itertools.combinations": (None, None), "itertools.repeat": 2, "functools.reduce": 3,
    "numpy.exp": 1, "math.exp": 1, "cmath.exp": 1, "numpy.sqrt": 1, "math.sqrt": 1, "numpy.log2": 1, "math.log2": 1, "numpy.log": 1, "math.log": 2, "numpy.abs": 1, "numpy.absolute": 1, "math.fabs": 1,
    "numpy.fabs": 1, "numpy.angle": 1, "numpy.real": 1, "numpy.imag": 1, "numpy.conj": 1, "numpy.conjugate": 1, "numpy.floor": 1, "math.floor": 1, "numpy.round": (1, ("decimals",)),
    "numpy.around": (1, ("decimals",)), "numpy.isreal": 1, "numpy.iscomplexobj": 1, "numpy.iinfo": 1, "numpy.isclose": (None, None), "numpy.allclose": (None, None), "numpy.array_equal": 2,
    "numpy.all": 1, "numpy.any": 1, "numpy.min": 1, "numpy.amin": 1, "numpy.max": 1, "numpy.amax": 1, "numpy.sum": (None, None), "numpy.prod": 1, "numpy.count_nonzero": 1, "numpy.array": (None, None),
    "numpy.asarray": (None, None), "numpy.asanyarray": (None, None), "numpy.identity": (2, ("dtype",)), "numpy.eye": (1, ("dtype",)), "numpy.arange": 3, "numpy.append": (None, None),
    "numpy.concatenate": (None, None), "numpy.unique": (None, None), "numpy.kron": 2, "scipy.linalg.kron": 2, "numpy.matmul": 2, "numpy.dot": 2, "numpy.linalg.multi_dot": 1, "numpy.vdot": 2,
    "numpy.transpose": 1, "numpy.trace": 1, "numpy.linalg.norm": (2, ("ord",)), "scipy.linalg.norm": (2, ("ord",)), "numpy.linalg.svd": (1, ("compute_uv",)), "scipy.linalg.svd": (1, ("compute_uv",)),
    "numpy.linalg.det": 1, "scipy.linalg.det": 1, "numpy.linalg.inv": 1, "scipy.linalg.inv": 1, "numpy.linalg.matrix_power": 2, "numpy.square": 1, "numpy.power": 2, "scipy.linalg.expm": 1, "numpy.zeros": (2, ("dtype",)), "numpy.zeros_like": 1, "numpy.diag": 1,
    "numpy.ones": (2, ("dtype",)), "numpy.random.random_sample": (None, None), "numpy.random.random": (None, None), "numpy.random.rand": (None, None), "numpy.random.ranf": (None, None),
    "random.random": (None, None), "numpy.random.uniform": (None, None), "random.uniform": 2, "numpy.random.seed": (None, None), "random.seed": (None, None), "numpy.random.randint": 2,
    "random.randrange": 2, "random.randint": 2, "numpy.random.choice": (None, None), "random.choice": 1, "random.choices": (None, None), "random.sample": (None, None), "numpy.random.shuffle": 1,
    "random.shuffle": 1, "numpy.random.permutation": 1, "scipy.stats.unitary_group.rvs": (1, ("dim",)), "scipy.sparse.coo_matrix": (None, None), "scipy.sparse.csr_matrix": (None, None),
    "numpy.cos": 1, "numpy.sin": 1, "numpy.tan": 1, "math.cos": 1, "math.sin": 1, "math.tan": 1,
}


def guard_signatures():
    for table in (NATIVES, BUILTINS):
        for n, f in list(table.items()):
            if n.startswith("builtins."):
                continue
            sig = SIGS[n]
            most, names = sig if isinstance(sig, tuple) else (sig, ())
            table[n] = Native(f.name if table is BUILTINS else n, checked(n, f.fn, most, names))
    for n, f in BUILTINS.items():
        NATIVES["builtins." + n] = f


guard_signatures()
CONSTS["scipy.stats.unitary_group"] = ModVal("scipy.stats.unitary_group")


@native("scipy.sparse.coo_matrix", "scipy.sparse.csr_matrix")
def s_coo(it, a, k):
    raise Unsupported("sparse matrix construction")
