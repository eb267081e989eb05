"""Symbolic values. Everything here is immutable; mutable Python objects live in the heap of a Ctx (engine.py) and are
referred to by Ref. Concrete Python None/bool/int/str/tuple stand for themselves, a Fraction for a float, z3 terms of
sort Int/Real/Bool for unknown numbers (mathematical integers and reals), alg.X for complex scalars."""
from fractions import Fraction

import z3

from .alg import X

U = z3.DeclareSort("U")          # unknown objects of the user
NAME = z3.DeclareSort("Name")    # unknown strings
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class V:
    __slots__ = ()

    def __repr__(self):
        return f"{type(self).__name__}(" + ", ".join(str(getattr(self, s, "?")) for s in self.__slots__) + ")"


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(self.id)


class Ent(V):
    """An unknown object: its fields are functions of `term`. tag says who owns it ("arg", "copy3", ...)."""
    __slots__ = ("term", "cls", "tag")

    def __init__(self, term, cls, tag="arg"):
        self.term, self.cls, self.tag = term, cls, tag


class OVal(V):
    """A read-only object value."""
    __slots__ = ("cls", "fields", "tag")

    def __init__(self, cls, fields, tag="arg"):
        self.cls, self.fields, self.tag = cls, fields, tag


class LVal(V):
    """A read-only list ('list'), tuple of unknown length ('tuple'), 1-d array ('arr') or set ('set')."""
    __slots__ = ("content", "kind", "tag")

    def __init__(self, content, kind="list", tag="arg"):
        self.content, self.kind, self.tag = content, kind, tag


class DVal(V):
    """A read-only dictionary: content holds (key, value) pairs in insertion order."""
    __slots__ = ("content", "tag")

    def __init__(self, content, tag="arg"):
        self.content, self.tag = content, tag


class MVal(V):
    """A read-only two-dimensional array."""
    __slots__ = ("mat", "dtype", "tag")

    def __init__(self, mat, dtype="complex", tag="arg"):
        self.mat, self.dtype, self.tag = mat, dtype, tag


# heap contents (replaced, never mutated)
class ListC(V):
    __slots__ = ("content", "kind", "tag")

    def __init__(self, content, kind="list", tag="new"):
        self.content, self.kind, self.tag = tuple(content), kind, tag


class DictC(V):
    __slots__ = ("content", "tag", "inv")

    def __init__(self, content, tag="new", inv=None):
        self.content, self.tag, self.inv = tuple(content), tag, inv


class ObjC(V):
    __slots__ = ("cls", "fields", "tag")

    def __init__(self, cls, fields, tag="new"):
        self.cls, self.fields, self.tag = cls, fields, tag


class ArrC(V):
    """buffer: identity of the memory, shared between views."""
    __slots__ = ("mat", "dtype", "tag", "buffer")

    def __init__(self, mat, dtype="complex", tag="new", buffer=None):
        self.mat, self.dtype, self.tag, self.buffer = mat, dtype, tag, buffer


class EnvC(V):
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


# ---------------------------------------------------------------- list contents: tuples of chunks
class El(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Tab:
    """index -> value. facts: list of (guarded) formulas in var that hold for every index in range."""
    __slots__ = ("var", "template", "facts")

    def __init__(self, var, template, facts=()):
        self.var, self.template, self.facts = var, template, tuple(facts)

    def __repr__(self):
        return f"[{self.var} -> {self.template}]"


CONDS = {}


def canon_cond(c, var):
    """An equivalent condition whose conjunctions and disjunctions are in a fixed order, whatever the name of the index."""
    if c is None or not is_z3(c):
        return c
    k = (c.get_id(), var.get_id())
    if k not in CONDS:
        hole = z3.Const("%", var.sort())

        def f(t):
            if z3.is_and(t) or z3.is_or(t) or z3.is_not(t):
                xs = [f(x) for x in t.children()]
                if z3.is_not(t):
                    return z3.Not(xs[0])
                keyed = {x.sexpr(): x for x in xs}
                xs = [keyed[i] for i in sorted(keyed)]
                return xs[0] if len(xs) == 1 else z3.And(xs) if z3.is_and(t) else z3.Or(xs)
            return t
        r = f(z3.simplify(z3.substitute(c, (var, hole))))
        CONDS[k] = (c, var, z3.substitute(r, (hole, var)))
    return CONDS[k][2]


class Sl(V):
    """tab(lo), ..., tab(hi-1); reversed if rev; only indices with cond (a formula in tab.var) if cond is not None;
    flat: each tab value is itself a list content whose elements are spliced in."""
    __slots__ = ("tab", "lo", "hi", "rev", "cond", "flat")

    def __init__(self, tab, lo, hi, rev=False, cond=None, flat=False):
        self.tab, self.lo, self.hi, self.rev, self.cond, self.flat = tab, lo, hi, rev, canon_cond(cond, tab.var), flat


class Shuf(V):
    """A random permutation of content."""
    __slots__ = ("content", "tag")

    def __init__(self, content, tag):
        self.content, self.tag = content, tag


class Str(V):
    """Structured string: tuple of parts: str | SName | SOf | SJoin."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, Str) else (p,)):
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)


class SName(V):
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class SOf(V):
    """str(value) of a number, or a piece of text determined by (kind, values)."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)


class SJoin(V):
    __slots__ = ("sep", "content")

    def __init__(self, sep, content):
        self.sep, self.content = sep, content


# functions and modules
class ClassVal(V):
    __slots__ = ("name", "node", "module", "bases", "members", "enum", "qual")

    def __repr__(self):
        return f"<class {self.name}>"


class FuncVal(V):
    __slots__ = ("name", "node", "env", "module", "cls", "kind", "qual", "defaults", "kwdefaults")

    def __repr__(self):
        return f"<function {self.qual}>"

    def map(self, f):
        """f applied to what the function has captured, where that is no longer part of the state."""
        env = f(self.env) if isinstance(self.env, OVal) else self.env
        d = self.defaults
        d = {k: f(x) for k, x in d.items()} if isinstance(d, dict) else tuple(f(x) for x in d) if isinstance(d, (tuple, list)) else d
        if env is self.env and not d:
            return self
        w = FuncVal()
        for s in FuncVal.__slots__:
            setattr(w, s, getattr(self, s, None))
        w.env, w.defaults = env, d
        return w


class Bound(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Native(V):
    """A modelled library function: fn(cx, args, kwargs)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModVal(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class EnumMember(V):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumMember) and (self.cls.name, self.name) == (o.cls.name, o.name)

    def __hash__(self):
        return hash((self.cls.name, self.name))


class NpInt(V):
    """A numpy integer (prints differently inside a list than a plain int)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Undef(V):
    """A slot whose value is not known at this point."""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why


class Opaque(V):
    """A value of the library model with no arithmetic of its own: kind plus arguments."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.sort() == I) or isinstance(v, NpInt)


def is_real(v):
    return isinstance(v, Fraction) or (is_z3(v) and v.sort() == R)


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort() == B)


def is_num(v):
    return isinstance(v, (int, Fraction, X, NpInt)) or (is_z3(v) and v.sort() in (I, R, B))


def zint(v):
    if isinstance(v, NpInt):
        v = v.v
    return z3.IntVal(v) if isinstance(v, int) else v


def zreal(v):
    if isinstance(v, NpInt):
        v = v.v
    if isinstance(v, X):
        return v.z3()
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(Fraction(v)))
    if v.sort() == I:
        return z3.ToReal(v)
    return v


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


# ---------------------------------------------------------------- substitution and traversal
def children_map(v, f):
    """Rebuild v with f applied to its direct components."""
    from .mat import Mat, Factor
    if v is None or isinstance(v, (bool, int, str, Fraction, Ref, ClassVal, Native, ModVal, EnumMember, Undef)):
        return v
    if isinstance(v, FuncVal):
        return v.map(f)
    if is_z3(v):
        return f(v)
    if isinstance(v, tuple):
        return tuple(f(x) for x in v)
    if isinstance(v, X):
        return v.subst(f)
    if isinstance(v, Ent):
        return Ent(f(v.term), v.cls, v.tag)
    if isinstance(v, OVal):
        return OVal(v.cls, {k: f(x) for k, x in v.fields.items()}, v.tag)
    if isinstance(v, LVal):
        return LVal(tuple(f(c) for c in v.content), v.kind, v.tag)
    if isinstance(v, DVal):
        return DVal(tuple(f(c) for c in v.content), v.tag)
    if isinstance(v, MVal):
        return MVal(f(v.mat), v.dtype, v.tag)
    if isinstance(v, El):
        return El(f(v.v))
    if isinstance(v, Tab):
        return Tab(v.var, f(v.template), tuple(f(x) for x in v.facts))
    if isinstance(v, Sl):
        return Sl(f(v.tab), f(v.lo), f(v.hi), v.rev, None if v.cond is None else f(v.cond), v.flat)
    if isinstance(v, Shuf):
        return Shuf(tuple(f(c) for c in v.content), f(v.tag))
    if isinstance(v, Str):
        return Str([f(p) for p in v.parts])
    if isinstance(v, SName):
        return SName(f(v.term))
    if isinstance(v, SOf):
        return SOf(v.kind, [f(a) for a in v.args])
    if isinstance(v, SJoin):
        return SJoin(f(v.sep), tuple(f(c) for c in v.content))
    if isinstance(v, NpInt):
        return NpInt(f(v.v))
    if isinstance(v, Opaque):
        return Opaque(v.kind, *[f(a) for a in v.args])
    if isinstance(v, Bound):
        return Bound(v.func, f(v.self))
    if isinstance(v, (Mat, Factor)):
        return v.map(f)
    raise TypeError(f"children_map: {type(v).__name__}")


def subst(v, pairs):
    """Replace z3 terms in v."""
    if not pairs:
        return v

    def f(x):
        if is_z3(x):
            r = z3.substitute(x, *pairs)
            return simp_int(r)
        return children_map(x, f)
    return f(v)


def simp_int(t):
    """Turn numerals into Python numbers."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if t.sort() == I:
        s = z3.simplify(t)
        return s.as_long() if z3.is_int_value(s) else t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def walk_terms(v, out):
    """All z3 terms occurring in v."""
    def f(x):
        if is_z3(x):
            out.append(x)
            return x
        return children_map(x, f)
    f(v)
    return out


def mentions(v, consts):
    """Does v mention one of the z3 constants/function symbols named in consts?"""
    terms = walk_terms(v, [])
    seen = set()
    stack = list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in consts:
            return True
        stack.extend(t.children())
    return False


def map_tags(v, f):
    """Replace ownership tags (deep copy)."""
    def g(x):
        if isinstance(x, Ent):
            return Ent(x.term, x.cls, f(x.tag))
        y = x if is_z3(x) else children_map(x, g)
        if isinstance(y, OVal):
            return OVal(y.cls, y.fields, f(y.tag))
        if isinstance(y, LVal):
            return LVal(y.content, y.kind, f(y.tag))
        if isinstance(y, DVal):
            return DVal(y.content, f(y.tag))
        if isinstance(y, MVal):
            return MVal(y.mat, y.dtype, f(y.tag))
        return y
    return g(v)


def tags_of(v, out=None):
    out = [] if out is None else out

    def g(x):
        if isinstance(x, (Ent, OVal, LVal, DVal, MVal)):
            if not (isinstance(x, LVal) and x.kind in ("tuple",)):
                out.append(x.tag)
        return x if is_z3(x) else children_map(x, g)
    g(v)
    return out
