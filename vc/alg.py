"""Exact algebra: Laurent polynomials over real symbols, cyclotomic numbers, and the ring
    X = sum of  cyclotomic * monomial * exp(i * polynomial)
in which trigonometric identities are decided by normal form. Symbols stand for arbitrary real numbers."""
from fractions import Fraction
from functools import lru_cache
from math import gcd

import z3

PI = z3.Real("pi!")
SYM = {}          # symbol name -> z3 term (Real or Int sort)


def sym_of(t):
    k = t.sexpr()
    SYM.setdefault(k, t)
    return k


PIK = sym_of(PI)


class NotPoly(Exception):
    pass


# ---------------------------------------------------------------- polynomials: dict monomial -> Fraction
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
        if d[s] == 0:
            del d[s]
    return tuple(sorted(d.items()))


def p_add(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(p, q):
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + a * b
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_pow(p, n):
    if n < 0:
        return p_pow(p_inv(p), -n)
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, p)
    return r


def p_inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((s, -e) for s, e in m): 1 / c}
    if not p:
        raise NotPoly("division by zero")
    # 1/(polynomial) becomes an opaque symbol, scaled to a leading coefficient of 1
    lead = p[max(p)]
    q = {m: c / lead for m, c in p.items()}
    return {((sym_of(1 / p_z3(q)), 1),): 1 / lead}


def p_z3(p):
    """Canonical z3 real term of a polynomial."""
    if not p:
        return z3.RealVal(0)
    out = []
    for m, c in sorted(p.items()):
        num, den = [], []
        for s, e in m:
            t = SYM[s]
            t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
            (num if e > 0 else den).extend([t] * abs(e))
        t = None
        if c != 1 or not num:
            t = z3.RealVal(str(c))
        for f in num:
            t = f if t is None else t * f
        for f in den:
            t = t / f
        out.append(t)
    return z3.Sum(out) if len(out) > 1 else out[0]


def to_poly(t):
    """Laurent polynomial of a Python number or z3 arithmetic term; unknown sub-terms become symbols."""
    if isinstance(t, bool):
        return p_const(int(t))
    if isinstance(t, (int, Fraction)):
        return p_const(t)
    if z3.is_int_value(t):
        return p_const(t.as_long())
    if z3.is_rational_value(t):
        return p_const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = p_add(r, to_poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = to_poly(ch[0])
        for c in ch[1:]:
            r = p_add(r, to_poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return p_add({}, to_poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in ch:
            r = p_mul(r, to_poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return p_mul(to_poly(ch[0]), p_inv(to_poly(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
        return to_poly(ch[0])
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
        return p_pow(to_poly(ch[0]), ch[1].as_long())
    return {((sym_of(t), 1),): Fraction(1)}


def canon(t):
    """Canonical z3 form of a real term."""
    return p_z3(to_poly(t))


def p_key(p):
    return tuple(sorted(p.items()))


# ---------------------------------------------------------------- cyclotomic numbers: dict r in [0,1) -> Fraction
@lru_cache(None)
def cyclotomic(n):
    """Coefficients (low first) of the n-th cyclotomic polynomial."""
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            q = cyclotomic(d)
            p = polydiv(p, q)[0]
    return tuple(p)


def polydiv(a, b):
    a = list(a)
    q = [0] * (len(a) - len(b) + 1)
    for i in range(len(q) - 1, -1, -1):
        c = a[i + len(b) - 1] / b[-1] if not isinstance(a[i + len(b) - 1], int) else a[i + len(b) - 1] // b[-1]
        q[i] = c
        for j, y in enumerate(b):
            a[i + j] -= c * y
    return q, a[:len(b) - 1]


def cyc(c):
    c = Fraction(c)
    return {Fraction(0): c} if c else {}


def cyc_root(r, c=1):
    """c * exp(2 pi i r)"""
    return {Fraction(r) % 1: Fraction(c)}


def cyc_add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + k * c
        if v:
            r[x] = v
        else:
            r.pop(x, None)
    return r


def cyc_mul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            k = (x + y) % 1
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def cyc_vec(a, n):
    """Canonical coordinates of a in Q(zeta_n)."""
    phi = cyclotomic(n)
    v = [Fraction(0)] * n
    for x, c in a.items():
        v[int(x * n)] += c
    deg = len(phi) - 1
    for i in range(n - 1, deg - 1, -1):
        c = v[i]
        if c:
            for j in range(deg + 1):
                v[i - deg + j] -= c * phi[j]
    return v[:deg]


def cyc_order(*xs):
    n = 1
    for a in xs:
        for r in a:
            n = n * r.denominator // gcd(n, r.denominator)
    return n


def cyc_zero(a):
    return not a or not any(cyc_vec(a, cyc_order(a)))


def cyc_norm(a):
    """Canonical form: smallest dictionary over the power basis of its own field."""
    if not a:
        return {}
    n = cyc_order(a)
    v = cyc_vec(a, n)
    out = {Fraction(i, n): c for i, c in enumerate(v) if c}
    if cyc_order(out) < n:
        return cyc_norm(out)
    return out


def cyc_conj(a):
    return {(-x) % 1: c for x, c in a.items()}


def cyc_inv(a):
    if cyc_zero(a):
        raise NotPoly("division by zero")
    if len(a) == 1:
        (r, c), = a.items()
        return {(-r) % 1: 1 / c}
    n = cyc_order(a)
    deg = len(cyclotomic(n)) - 1
    cols = [cyc_vec(cyc_mul(a, {Fraction(j, n): Fraction(1)}), n) for j in range(deg)]
    m = [[cols[j][i] for j in range(deg)] + [Fraction(int(i == 0))] for i in range(deg)]
    for i in range(deg):
        p = next(k for k in range(i, deg) if m[k][i])
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for k in range(deg):
            if k != i and m[k][i]:
                m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
    return {Fraction(j, n): m[j][deg] for j in range(deg) if m[j][deg]}


def cyc_sqrt(q):
    """Square root of a non-negative rational."""
    q = Fraction(q)
    if q < 0:
        return cyc_mul(cyc_root(Fraction(1, 4)), cyc_sqrt(-q))
    if q == 0:
        return {}
    n = q.numerator * q.denominator
    sq, free, p = 1, [], 2
    while n > 1:
        if p * p > n:
            p = n
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        sq *= p ** (e // 2)
        if e % 2:
            free.append(p)
        p += 1
    r = cyc(Fraction(sq, q.denominator))
    for p in free:
        if p > 1000:
            raise NotPoly("sqrt")
        if p == 2:
            f = {Fraction(1, 8): Fraction(1), Fraction(7, 8): Fraction(1)}
        else:
            f = {Fraction(a, p): Fraction(1 if pow(a, (p - 1) // 2, p) == 1 else -1) for a in range(1, p)}
            if p % 4 == 3:
                f = cyc_mul(f, cyc_root(Fraction(3, 4)))
        r = cyc_mul(r, f)
    return r


# ---------------------------------------------------------------- the ring X
class X:
    """d: (monomial, exponent polynomial key) -> cyclotomic number"""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = {k: c for k, c in d.items() if not cyc_zero(c)}
        self._k = None

    @staticmethod
    def of(v):
        if isinstance(v, X):
            return v
        if isinstance(v, complex):
            return X({((), ()): cyc_add(cyc(Fraction(str(v.real))), cyc_mul(cyc_root(Fraction(1, 4)), cyc(Fraction(str(v.imag)))))})
        if isinstance(v, float):
            v = Fraction(str(v))
        return X({(m, ()): cyc(c) for m, c in to_poly(v).items()})

    @staticmethod
    def expi(p):
        """exp(i p) for a polynomial p"""
        r, q = Fraction(0), {}
        for m, c in p.items():
            if m == ((PIK, 1),):
                r = c / 2
            else:
                q[m] = c
        return X({((), p_key(q)): cyc_root(r)})

    def __add__(self, o):
        o = X.of(o)
        r = dict(self.d)
        for k, c in o.d.items():
            r[k] = cyc_add(r.get(k, {}), c)
        return X(r)

    __radd__ = __add__

    def __neg__(self):
        return X({k: cyc_add({}, c, -1) for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-X.of(o))

    def __rsub__(self, o):
        return X.of(o) - self

    def __mul__(self, o):
        o = X.of(o)
        r = {}
        for (m, e), a in self.d.items():
            for (n, f), b in o.d.items():
                x = X.expi(p_add(dict(e), dict(f)))
                (k2, root), = x.d.items()
                k = (mono_mul(m, n), k2[1])
                r[k] = cyc_add(r.get(k, {}), cyc_mul(cyc_mul(a, b), root))
        return X(r)

    __rmul__ = __mul__

    def conj(self):
        r = {}
        for (m, e), a in self.d.items():
            r[(m, p_key(p_add({}, dict(e), -1)))] = cyc_conj(a)
        return X(r)

    def inv(self):
        if len(self.d) == 1:
            ((m, e), a), = self.d.items()
            return X({(tuple((s, -k) for s, k in m), p_key(p_add({}, dict(e), -1))): cyc_inv(a)})
        if self.is_poly():
            return X.of(p_z3(p_inv(self.poly())))
        raise NotPoly("inverse of a sum")

    def __truediv__(self, o):
        return self * X.of(o).inv()

    def __rtruediv__(self, o):
        return X.of(o) * self.inv()

    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = X.of(1)
        for _ in range(n):
            r = r * self
        return r

    def is_zero(self):
        return not self.d

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((m, e, tuple(sorted(cyc_norm(c).items()))) for (m, e), c in self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, X) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def is_real(self):
        return (self - self.conj()).is_zero()

    def real(self):
        return (self + self.conj()) * Fraction(1, 2)

    def imag(self):
        return (self - self.conj()) * X({((), ()): cyc_root(Fraction(3, 4), Fraction(1, 2))})

    def is_poly(self):
        return all(e == () and (cyc_order(cyc_norm(c)) == 1) for (m, e), c in self.d.items())

    def poly(self):
        if not self.is_poly():
            raise NotPoly(str(self))
        return {m: cyc_norm(c)[Fraction(0)] for (m, e), c in self.d.items()}

    def z3(self):
        return p_z3(self.poly())

    def const(self):
        """Fraction if this is a rational constant, else None."""
        if not self.d:
            return Fraction(0)
        if self.is_poly() and set(self.poly()) == {()}:
            return self.poly()[()]
        return None

    def approx(self):
        """Floating-point value of a real constant (only pi as symbol)."""
        import cmath
        import math
        tot = 0
        for (m, e), c in self.d.items():
            v = sum(float(q) * cmath.exp(2j * math.pi * float(r)) for r, q in c.items())
            for _, k in m:
                v *= math.pi ** k
            tot += v * cmath.exp(1j * sum(float(q) * math.prod(math.pi ** k for _, k in n) for n, q in e))
        return tot.real

    def symbols(self):
        out = set()
        for (m, e) in self.d:
            out |= {s for s, _ in m}
            for n, _ in e:
                out |= {s for s, _ in n}
        return out

    def subst(self, f):
        """f: z3 term -> z3 term"""
        r = X({})
        for (m, e), c in self.d.items():
            mono = X({((), ()): c}) * X.of(f(p_z3({m: Fraction(1)})))
            r = r + mono * X.expi(to_poly(f(p_z3(dict(e)))) if e else {})
        return r

    def __repr__(self):
        out = []
        for (m, e), c in sorted(self.d.items()):
            s = "+".join(f"{v}*w({k})" if k else str(v) for k, v in sorted(cyc_norm(c).items()))
            s = f"({s})" if "+" in s else s
            s += "".join(f"*{a}" + (f"^{b}" if b != 1 else "") for a, b in m)
            if e:
                s += f"*expi({p_z3(dict(e))})"
            out.append(s)
        return " + ".join(out) or "0"


IU = X({((), ()): cyc_root(Fraction(1, 4))})


def xcos(p):
    return (X.expi(p) + X.expi(p_add({}, p, -1))) * Fraction(1, 2)


def xsin(p):
    return (X.expi(p) - X.expi(p_add({}, p, -1))) * X({((), ()): cyc_root(Fraction(3, 4), Fraction(1, 2))})


def xsqrt(q):
    return X({((), ()): cyc_sqrt(q)})
