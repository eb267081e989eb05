"""C01-C05, C19 (single operations)."""
import math
import numpy as np

from core import scenario, ok, refuses, require, pick_name, Violation
import oracle as O
from stoqcompiler.unitary import (
    Unitary, UnitaryDefinitions, ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions)



PARAMETER_NAMES = ["a", "a ", "A", " ", "", "0", "1", "t0", "t_0", "x y", "λ", "theta", "pi", "Θ", "a=b", "b,c", "z" * 30]


def mk_params(rs, k=None):
    k = rs.randint(0, 4) if k is None else k
    names = ["θ", "Φ", "t", "alpha", "b2"]
    if rs.randint(3) == 0:
        names = [PARAMETER_NAMES[i] for i in rs.permutation(len(PARAMETER_NAMES))[:max(k, 1)]]
    zero = rs.randint(6) == 0
    special = [0.0, 0, 1, -2, math.pi, -math.pi / 2, 2 * math.pi, 0.5, 1e-9, 12345.678]
    return {names[i]: (0.0 if zero else (float(rs.uniform(-20, 20)) if rs.randint(4) else special[rs.randint(len(special))]), bool(rs.randint(2))) for i in range(k)}


def mk_unitary(rs, d, kind="haar", rich=True):
    m = O.rand_unitary(rs, d, kind)
    if not rich:
        return Unitary(d, m)
    n = int(np.log2(d))
    app = [] if rs.randint(2) else [int(x) for x in rs.permutation(n + 2)[:n]]
    return Unitary(d, m, pick_name(rs), mk_params(rs), is_inverse=bool(rs.randint(2)), apply_to=app)


def snap(u):
    return (u.get_matrix().copy(), u.get_operation_name(), dict(u.parameter_dict), u.is_inverse, list(u.apply_to),
            u.get_display_name(), u.get_qasm(), u.get_jaqal())


def same_snap(a, b):
    return np.array_equal(a[0], b[0]) and a[1:] == b[1:]


def check_valid(u, d, what, det=True):
    m = u.get_matrix()
    require(isinstance(m, np.ndarray) and m.shape == (d, d), f"{what}: shape {getattr(m, 'shape', None)} for dimension {d}")
    require(u.get_dimension() == d, f"{what}: dimension {u.get_dimension()} != {d}")
    require(np.max(np.abs(m @ m.conj().T - np.eye(d))) < 2e-5, f"{what}: matrix not unitary")
    if det:
        require(abs(np.linalg.det(m) - 1) < 1e-6, lambda: f"{what}: determinant {np.linalg.det(m)}")


# ---------------------------------------------------------------- C01
@scenario("C01", lambda g: {"seed": g.seed(), "d": g.choice([1, 2, 2, 3, 4, 4, 5, 6, 8, 8, 16]) if g.bool(.8) else g.int(1, 40),
                            "kind": g.choice(O.KINDS), "layout": g.choice(["C", "F", "ro", "slice", "T"]),
                            "phase": g.bool(.3)},
          weight=3, fixed=[{"seed": 5, "d": 64, "kind": "haar", "layout": "C", "phase": False}]
          + [{"seed": 3, "d": d, "kind": k, "layout": "ro", "phase": False} for d in (1, 2, 4) for k in sorted(set(O.KINDS))])
def accept(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    m = O.rand_unitary(rs, d, p["kind"])
    if p["phase"]:
        m = np.exp(1j * rs.uniform(0, 6.3)) * m
    if p["layout"] == "F":
        m = np.asfortranarray(m)
    elif p["layout"] == "slice":
        big = np.zeros((2 * d, 2 * d), dtype=m.dtype)
        big[::2, ::2] = m
        m = big[::2, ::2]
    elif p["layout"] == "T":
        m = m.T.copy().T
    elif p["layout"] == "ro":
        m.setflags(write=False)
    before = m.copy()
    u = ok(lambda: Unitary(d, m), "constructing from a unitary matrix")
    check_valid(u, d, "constructed unitary")
    require(np.array_equal(m, before) and m.dtype == before.dtype, "the caller's array was modified")
    require(not np.shares_memory(m, u.get_matrix()), "the result shares memory with the caller's array")
    diff = O.phase_diff(u.get_matrix(), m)
    # clean-up may zero parts below 1e-12; the rest is rounding of the phase balancing
    require(diff < 3e-12 + 2e-14 * d, f"matrix differs from the input by {diff:.3e} (beyond a phase)")
    if m.flags.writeable:
        keep = u.get_matrix().copy()
        m[...] = 0
        require(np.array_equal(keep, u.get_matrix()), "changing the caller's array changed the unitary")


@scenario("C01", lambda g: {"seed": g.seed(), "d": g.choice([1, 2, 2, 3, 4, 8, 16]) if g.bool(.8) else g.int(1, 24), "kind": g.choice(O.KINDS),
                            "bad": g.choice(["shape+", "shape-", "rect", "rect2", "scale", "scaledown", "elem", "small", "zero", "nan",
                                             "inf", "colnorm", "sing", "vec", "flat3", "row", "conjsign", "dup"])}, weight=3,
          fixed=[{"seed": 11, "d": d, "kind": "haar", "bad": b} for d in (2, 4) for b in
                 ["shape+", "shape-", "rect", "rect2", "scale", "scaledown", "elem", "small", "zero", "nan", "inf", "colnorm", "sing",
                  "vec", "flat3", "row", "conjsign", "dup"]])
def reject(p):
    rs = np.random.RandomState(p["seed"])
    d, b = p["d"], p["bad"]
    m = O.rand_unitary(rs, d, p["kind"]).astype(complex)
    dim = d
    if b == "shape+":
        dim = d + 1 + rs.randint(3)
    elif b == "shape-":
        m, dim = O.rand_unitary(rs, d + 1 + rs.randint(3), "haar"), d
    elif b == "rect":
        m = np.vstack([m, np.zeros((1, d))])
    elif b == "rect2":
        m = np.hstack([m, np.zeros((d, 1))])   # rows orthonormal, not square
    elif b == "scale":
        m = m * (1 + 10.0 ** -rs.uniform(0, 4))
    elif b == "scaledown":
        m = m * (1 - 10.0 ** -rs.uniform(0.1, 4))
    elif b == "elem":
        m = m.copy()
        m[rs.randint(d), rs.randint(d)] += 10.0 ** -rs.uniform(0, 3) * 10
    elif b == "small":
        # an off-diagonal overlap of about 1e-7: outside numpy's default absolute tolerance 1e-8
        if d == 1:
            return
        m = m.copy()
        m[0] = m[0] + 1e-6 * m[1]
    elif b == "zero":
        m = np.zeros((d, d))
    elif b == "nan":
        m = m.copy()
        m[rs.randint(d), rs.randint(d)] = np.nan
    elif b == "inf":
        m = m.copy()
        m[rs.randint(d), rs.randint(d)] = np.inf
    elif b == "colnorm":
        if d == 1:
            return
        m = rs.standard_normal((d, d))
        m = m / np.linalg.norm(m, axis=0)
    elif b == "row":
        if d == 1:
            return
        m = rs.standard_normal((d, d))
        m = m / np.linalg.norm(m, axis=1)[:, None]
    elif b == "sing":
        if d == 1:
            return
        m = m.copy()
        m[0] = m[-1]
    elif b == "dup":
        if d == 1:
            return
        m = np.ones((d, d)) / np.sqrt(d)
    elif b == "conjsign":
        if d == 1:
            return
        m = O.rand_unitary(rs, d, "haar")
        m[0, 0] = -m[0, 0]
        if abs(m[0, 0]) < 1e-3:
            return
    elif b == "vec":
        m = m[0]
    elif b == "flat3":
        m = m[None]
    refuses(lambda: Unitary(dim, m), f"matrix made invalid by '{b}' for dimension {dim}")


@scenario("C01", lambda g: {"seed": g.seed(), "d": g.int(1, 40)}, fixed=[{"seed": 1, "d": d} for d in (1, 2, 3, 4, 8, 16)])
def defaults(p):
    d = p["d"]
    for u, what in ((ok(lambda: Unitary(d), "default"), "default"), (ok(lambda: Unitary.identity(d), "identity"), "identity")):
        check_valid(u, d, what)
        require(O.same(u.get_matrix(), np.eye(d), 1e-12), f"{what} is not the identity")
    u = ok(lambda: Unitary.random(d), "random")
    check_valid(u, d, "random")
    refuses(lambda: Unitary(0), "dimension 0")
    refuses(lambda: Unitary(-d), "negative dimension")
    refuses(lambda: Unitary(d, [[1]]), "a non-array matrix")


@scenario("C01", lambda g: {"seed": g.seed(), "d": g.choice([2, 4, 8])})
def derived_objects(p):
    """Objects produced by operations satisfy the same invariant."""
    rs = np.random.RandomState(p["seed"])
    a, b = mk_unitary(rs, p["d"]), mk_unitary(rs, p["d"], O.KINDS[rs.randint(len(O.KINDS))])
    for what, u, d in (("inverse", a.inverse(), p["d"]), ("product", a.left_multiply(b), p["d"]),
                       ("right product", a.right_multiply(b), p["d"]), ("tensor", a.tensor(b), p["d"] ** 2)):
        check_valid(u, d, what)


# ---------------------------------------------------------------- C02
def gen_pair(g):
    return {"seed": g.seed(), "d": g.choice([1, 2, 2, 3, 4, 4, 6, 8]) if g.bool(.85) else g.int(1, 24), "d2": g.choice([1, 2, 3, 4, 8]),
            "kind": g.choice(O.KINDS), "kind2": g.choice(O.KINDS)}


@scenario("C02", gen_pair, weight=3,
          fixed=[{"seed": 7, "d": d, "d2": e, "kind": k, "kind2": j, "upto": 256} for d, e in ((2, 64), (64, 2), (16, 16), (1, 128), (3, 50)) for k, j in (("diag", "diag"), ("haar", "monomial"))])
def algebra(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    a, b = mk_unitary(rs, d, p["kind"]), mk_unitary(rs, d, p["kind2"])
    sa, sb = snap(a), snap(b)
    A, B = a.get_matrix(), b.get_matrix()
    A, B = A.copy(), B.copy()
    inv = ok(a.inverse, "inverse")
    require(O.same(inv.get_matrix(), A.conj().T), "inverse is not the conjugate transpose")
    require(O.same(ok(lambda: a.left_multiply(b), "left_multiply").get_matrix(), B @ A), "left_multiply is not factor @ self")
    require(O.same(ok(lambda: a.right_multiply(b), "right_multiply").get_matrix(), A @ B), "right_multiply is not self @ factor")
    if d * p["d2"] <= p.get("upto", 64):
        c = mk_unitary(rs, p["d2"], p["kind2"])
        sc = snap(c)
        t = ok(lambda: a.tensor(c), "tensor")
        require(t.get_dimension() == d * p["d2"], "tensor dimension")
        require(O.same(t.get_matrix(), np.kron(A, c.get_matrix())), "tensor is not the Kronecker product self (x) factor")
        require(same_snap(snap(c), sc), "tensor changed its operand")
    require(same_snap(snap(a), sa) and same_snap(snap(b), sb), "an operation changed an operand")
    # self products
    require(O.same(a.left_multiply(a).get_matrix(), A @ A), "left_multiply with itself")
    require(O.same(a.right_multiply(a).get_matrix(), A @ A), "right_multiply with itself")
    if d <= 8:
        require(O.same(a.tensor(a).get_matrix(), np.kron(A, A)), "tensor with itself")
    twin = a.inverse().inverse()
    require(O.same(a.right_multiply(twin).get_matrix(), A @ A) and O.same(a.left_multiply(twin).get_matrix(), A @ A), "product with an equal operation")
    require(same_snap(snap(a), sa), "a product with itself changed the operand")
    require(O.same(a.right_multiply(inv).get_matrix(), np.eye(d)), "A times its inverse is not the identity")
    require(O.same(a.left_multiply(inv).get_matrix(), np.eye(d)), "inverse times A is not the identity")


@scenario("C02", gen_pair, weight=2)
def inverse_metadata(p):
    rs = np.random.RandomState(p["seed"])
    a = mk_unitary(rs, p["d"], p["kind"])
    s = snap(a)
    i = ok(a.inverse, "inverse")
    require(i.get_operation_name() == a.get_operation_name(), "inverse changed the name")
    require(dict(i.parameter_dict) == s[2], "inverse changed the parameters")
    for k, v in s[2].items():
        require(i.get_parameter_value(k) == v, "inverse changed a parameter value")
    require(list(i.apply_to) == s[4], "inverse changed the qubits")
    require(i.is_inverse == (not s[3]), "inverse did not toggle the marker")
    shown, inv_shown = s[5], i.get_display_name()
    require((inv_shown == shown[:-1]) if s[3] else (inv_shown == shown + "†"), f"display of inverse: {inv_shown!r} vs {shown!r}")
    ii = ok(i.inverse, "double inverse")
    si = snap(ii)
    require(si[1:] == s[1:], f"inverting twice changed name/parameters/marker/qubits/text: {si[1:]} vs {s[1:]}")
    require(O.same(ii.get_matrix(), s[0]), "inverting twice changed the operation")
    require(same_snap(snap(a), s), "inversion changed its operand")


@scenario("C02", gen_pair)
def mismatch(p):
    if p["d"] == p["d2"]:
        p = dict(p, d2=p["d"] + 1)
    rs = np.random.RandomState(p["seed"])
    a, b = mk_unitary(rs, p["d"], rich=False), mk_unitary(rs, p["d2"], rich=False)
    refuses(lambda: a.left_multiply(b), "left_multiply of different dimensions")
    refuses(lambda: a.right_multiply(b), "right_multiply of different dimensions")
    refuses(lambda: a.tensor(b.get_matrix()), "tensor with a non-unitary object")


# ---------------------------------------------------------------- C03
@scenario("C03", gen_pair, weight=3)
def formula(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    a, b = mk_unitary(rs, d, p["kind"]), mk_unitary(rs, d, p["kind2"])
    A, B = a.get_matrix().copy(), b.get_matrix().copy()
    sa, sb = snap(a), snap(b)
    want = O.distance(A, B)
    for what, got in (("distance(A,B)", ok(lambda: a.distance_from(b), "distance")), ("distance(B,A)", ok(lambda: b.distance_from(a), "distance")),
                      ("distance(A, matrix of B)", ok(lambda: a.distance_from(B), "distance to matrix")),
                      ("distance(A, phase * B)", a.distance_from(np.exp(1j * rs.uniform(0, 6.3)) * B)),
                      ("distance(phase * A, B)", Unitary(d, np.exp(1j * rs.uniform(0, 6.3)) * A).distance_from(b))):
        require(np.isscalar(got) or np.ndim(got) == 0, f"{what} is not a scalar")
        require(np.isreal(got) and abs(got - want) < 1e-9, f"{what} = {got!r}, expected {want!r}")
        require(-1e-9 <= got <= 1 + 1e-9, f"{what} = {got!r} outside [0, 1]")
    require(abs(a.distance_from(a)) < 1e-9, "distance from itself is not 0")
    require(same_snap(snap(a), sa) and same_snap(snap(b), sb), "distance changed an operand")
    for t in [0.0, 1.0, want, 1 - want, rs.uniform(0, 1), 1 - want + 1e-6, 1 - want - 1e-6, 0.5, 0.9, 0.999]:
        t = float(min(1, max(0, t)))
        if abs(want - (1 - t)) < 1e-8 and t != 0.0:
            continue
        for other in (b, B):
            got = ok(lambda: a.close_to(other, t), "close_to")
            require(bool(got) == (want <= 1 - t or t == 0.0), f"close_to(threshold={t}) = {got} at distance {want}")
    if abs(want - 1e-8) > 1e-10:
        require(bool(ok(lambda: a.close_to(b), "close_to")) == (want < 1e-8), f"close_to() wrong at distance {want}")
        require(bool(a.close_to(b, None)) == (want < 1e-8), f"close_to(None) wrong at distance {want}")


@scenario("C03", lambda g: {"seed": g.seed(), "d": g.choice([2, 3, 4, 8]), "exp": g.real(-13, -3) if g.bool() else g.real(-8.5, -7.5)}, weight=2)
def near_pairs(p):
    """Pairs at a chosen tiny distance around numpy's default absolute tolerance 1e-8."""
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    dist = 10.0 ** p["exp"]
    A = O.haar(rs, d)
    # phases +-e on two axes: overlap = (d - 2 + 2 cos e)/d
    e = math.acos(max(-1.0, 1 - dist * d / 2))
    D = np.eye(d, dtype=complex)
    D[0, 0], D[1, 1] = np.exp(1j * e), np.exp(-1j * e)
    a, b = Unitary(d, A), Unitary(d, A @ D)
    want = O.distance(a.get_matrix(), b.get_matrix())
    if abs(want - 1e-8) < 1e-10:
        return
    require(bool(a.close_to(b)) == (want < 1e-8), f"close_to() wrong at distance {want}")
    for t in (1 - 2 * dist, 1 - dist / 2, 0.999999, 1 - 1e-9):
        if 0 <= t <= 1 and abs(want - (1 - t)) > 1e-12:
            require(bool(a.close_to(b, t)) == (want <= 1 - t), f"close_to({t}) wrong at distance {want}")


@scenario("C03", gen_pair)
def distance_mismatch(p):
    if p["d"] == p["d2"]:
        p = dict(p, d2=p["d"] + 1)
    rs = np.random.RandomState(p["seed"])
    a, b = mk_unitary(rs, p["d"], rich=False), mk_unitary(rs, p["d2"], rich=False)
    for x, y in ((a, b), (b, a)):
        refuses(lambda: x.distance_from(y), "distance of different dimensions")
        refuses(lambda: x.distance_from(y.get_matrix()), "distance to a matrix of another dimension")
        refuses(lambda: x.close_to(y), "closeness of different dimensions")
        refuses(lambda: x.close_to(y, 0.5), "closeness of different dimensions")


# ---------------------------------------------------------------- C04
def meta(u, name, params, what):
    require(u.get_operation_name() == name, f"{what}: name {u.get_operation_name()!r}")
    require(len(u.parameter_dict) == len(params), f"{what}: parameters {u.parameter_dict}")
    for k, v in params.items():
        got = u.get_parameter_value(k)
        require(got is not None and got[0] == v and got[1] is True, f"{what}: parameter {k} recorded as {got}, expected ({v}, True)")
    require(list(u.parameter_dict) == list(params), f"{what}: parameter order {list(u.parameter_dict)}")
    require(not u.is_inverse, f"{what}: marked as inverse")


ANG = [0.0, 0.3, -0.3, 1.0, -2.5, 4.0, 7.5, -11.0, 25.0, 100.0, 3, math.pi, math.pi / 4, -math.pi / 2, 2 * math.pi, 1e-3]


@scenario("C04", lambda g: {"theta": g.angle(), "phi": g.angle()}, weight=3,
          fixed=[{"theta": t, "phi": f} for t in ANG for f in (0.0, 0.7, -2.0, math.pi / 2, 5.0)])
def rotations(p):
    th, ph = p["theta"], p["phi"]
    for nm, P, f in (("Rx", O.X, UnitaryDefinitions.rx), ("Ry", O.Y, UnitaryDefinitions.ry), ("Rz", O.Z, UnitaryDefinitions.rz)):
        u = ok(lambda: f(th), nm)
        require(O.same(u.get_matrix(), O.herm_exp(P, -th / 2), 1e-9), f"{nm}({th}) is not exp(-i theta P/2)")
        meta(u, nm, {"θ": th}, nm)
    u = ok(lambda: UnitaryDefinitions.rphi(th, ph), "R")
    require(O.same(u.get_matrix(), O.herm_exp(np.cos(ph) * O.X + np.sin(ph) * O.Y, -th / 2), 1e-9), f"R({th},{ph}) wrong")
    meta(u, "R", {"θ": th, "Φ": ph}, "R")
    u = ok(lambda: UnitaryDefinitions.xx(th), "XX")
    require(O.same(u.get_matrix(), O.herm_exp(np.kron(O.X, O.X), -th), 1e-9), f"XX({th}) wrong")
    meta(u, "XX", {"θ": th}, "XX")


@scenario("C04", fixed=[{}])
def fixed_gates(p):
    D = UnitaryDefinitions
    tof = np.eye(8)
    tof[6:, 6:] = [[0, 1], [1, 0]]
    for nm, f, m in (("H", D.h, np.array([[1, 1], [1, -1]]) / np.sqrt(2)), ("T", D.t, np.diag([1, np.exp(1j * np.pi / 4)])),
                     ("X", D.sigmax, O.X), ("Y", D.sigmay, O.Y), ("Z", D.sigmaz, O.Z),
                     ("CNOT", D.cnot, np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])),
                     ("CCNOT", D.ccnot, tof)):
        u = ok(f, nm)
        require(O.same(u.get_matrix(), m, 1e-9), f"{nm} gate wrong")
        meta(u, nm, {}, nm)
    # phase-flip QECC: reference from the paper's definition as tabulated in the documentation of the gate
    q = np.array([[1, 1, 1, 1, 1, 1, 1, 1], [1, -1, -1, 1, -1, 1, 1, -1], [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, -1, 1, -1, 1],
                  [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, -1, 1, 1, -1, -1, 1], [1, -1, 1, -1, 1, -1, 1, -1],
                  [1, 1, -1, -1, -1, -1, 1, 1]]) / np.sqrt(8)
    u = ok(D.qecc_phase_flip, "QECC")
    require(O.same(u.get_matrix(), q, 1e-9), "QECC gate wrong")
    meta(u, "QECC", {}, "QECC")
    u = ok(D.xx, "XX()")
    require(O.same(u.get_matrix(), O.herm_exp(np.kron(O.X, O.X), -np.pi / 4), 1e-9), "XX default angle wrong")
    meta(u, "XX", {"θ": np.pi / 4}, "XX()")


def gms_ref(n, th):
    if n > 5:
        # diagonal in the basis of X: the sum over pairs of s_i s_j
        had = np.eye(1)
        sums = np.zeros(1)
        for _ in range(n):
            had = np.kron(had, (O.X + O.Z) / math.sqrt(2))
            sums = (sums[:, None] + np.array([1, -1])[None, :]).ravel()
        return had @ np.diag(np.exp(-1j * th * (sums ** 2 - n) / 2)) @ had
    h = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i in range(n):
        for j in range(i + 1, n):
            h = h + O.embed(np.kron(O.X, O.X), [i, j], n)
    return O.herm_exp(h, -th)


@scenario("C04", lambda g: {"n": g.choice([1, 2, 2, 3, 3, 4, 5]), "theta": g.angle()}, weight=1.5,
          fixed=[{"n": n, "theta": t} for n in (1, 2, 3, 4, 5) for t in (0.3, -1.1, math.pi / 4)]
          + [{"n": n, "theta": .3} for n in (6, 7, 8)])
def gms(p):
    n, th = p["n"], p["theta"]
    u = ok(lambda: UnitaryDefinitions.gms(n, th), "GMS")
    require(u.get_dimension() == 2 ** n, "GMS dimension")
    require(O.same(u.get_matrix(), gms_ref(n, th), 1e-8), f"GMS({n}, {th}) is not the product of XX over all pairs")
    meta(u, f"GMS{n}", {"θ": th}, "GMS")
    u = ok(lambda: UnitaryDefinitions.gms(n), "GMS default")
    require(O.same(u.get_matrix(), gms_ref(n, np.pi / 4), 1e-8), f"GMS({n}) default angle wrong")
    meta(u, f"GMS{n}", {"θ": np.pi / 4}, "GMS default")


# ---------------------------------------------------------------- C05
def gen_param(g):
    k = g.small(1, 5)
    ps = []
    for _ in range(k):
        lo = g.choice([0.0, -1.0, g.real(-10, 10), g.real(-0.01, 0.01)])
        hi = lo + g.choice([0.0, 1.0, g.real(0, 20), 2 * math.pi, 1e-3])
        ps.append([lo, hi, g.bool()])
    return {"seed": g.seed(), "ps": ps, "arr": g.bool(), "which": g.int(0, k - 1), "frac": [g.choice([0.0, 1.0, g.real(0, 1)]) for _ in range(k)]}


def gate_of(vals):
    m = np.eye(2, dtype=complex)
    for i, v in enumerate(vals):
        m = O.herm_exp([O.X, O.Y, O.Z][i % 3], v * (0.3 + 0.1 * i)) @ m
    return m


@scenario("C05", gen_param, weight=3)
def as_unitary(p):
    seen = []

    def fn(*vals):
        seen.append(vals)
        return gate_of(vals)
    params = [ParameterizedUnitaryParameter(f"p{i}", lo, hi, a) for i, (lo, hi, a) in enumerate(p["ps"])]
    pu = ok(lambda: ParameterizedUnitary(2, fn, params, "Nm"), "ParameterizedUnitary")
    vals = [lo + f * (hi - lo) for (lo, hi, a), f in zip(p["ps"], p["frac"])]
    vals = [min(max(v, q[0]), q[1]) for v, q in zip(vals, p["ps"])]
    arg = np.array(vals) if p["arr"] else list(vals)
    u = ok(lambda: pu.as_unitary(arg), "as_unitary with in-range values")
    require(list(arg) == vals, "as_unitary changed its argument")
    require(len(seen) >= 1 and all(list(s) == vals for s in seen), f"matrix function called with {seen}, expected {vals}")
    require(O.same(u.get_matrix(), gate_of(vals), 1e-9), "wrong matrix")
    require(u.get_operation_name() == "Nm" and u.get_dimension() == 2 and not u.is_inverse, "wrong name, dimension or marker")
    require(list(u.parameter_dict) == [f"p{i}" for i in range(len(vals))], f"recorded parameters {list(u.parameter_dict)}")
    for i, (lo, hi, a) in enumerate(p["ps"]):
        got = u.get_parameter_value(f"p{i}")
        require(got is not None and got[0] == vals[i] and bool(got[1]) == a, f"parameter {i} recorded as {got}")
    # the same object and the same list again, with other values
    other = [min(max(lo + (1 - f) / 2 * (hi - lo), lo), hi) for (lo, hi, a), f in zip(p["ps"], p["frac"])]
    arg[:] = other
    u2 = ok(lambda: pu.as_unitary(arg), "as_unitary once more")
    for who, v, x in (("earlier", vals, u), ("later", other, u2)):
        require(O.same(x.get_matrix(), gate_of(v), 1e-9), f"the {who} of two unitaries has the wrong matrix")
        for i in range(len(v)):
            require(x.get_parameter_value(f"p{i}")[0] == v[i], f"the {who} of two unitaries records {x.get_parameter_value(f'p{i}')} for parameter {i}")
    # out of range in one position
    w = p["which"]
    lo, hi, _ = p["ps"][w]
    for delta in (1e-9 * max(1, abs(lo)), 1e-3, 1.0, 100.0):
        for v in (lo - delta, hi + delta):
            if lo <= v <= hi:
                continue
            bad = list(vals)
            bad[w] = v
            refuses(lambda: pu.as_unitary(bad), f"value {v} outside [{lo}, {hi}] for parameter {w} of {len(vals)}")
            kept = list(vals)
            pu.as_unitary(kept)
            kept[w] = v
            refuses(lambda: pu.as_unitary(kept), f"value {v} outside [{lo}, {hi}] in a list used before")
    refuses(lambda: pu.as_unitary(vals[:-1]), "a missing value")
    refuses(lambda: pu.as_unitary(vals + [vals[-1]]), "an extra value")


@scenario("C05", gen_param)
def values(p):
    for lo, hi, a in p["ps"]:
        q = ok(lambda: ParameterizedUnitaryParameter("p", lo, hi, a), "parameter")
        require(q.get_parameter_name() == "p" and q.get_is_angle() == a, "name or angle flag lost")
        require(q.is_valid(lo) and q.is_valid(hi) and q.is_valid((lo + hi) / 2 if hi > lo else lo), "in-range value declared invalid")
        eps = 1e-9 * max(1, abs(lo), abs(hi))
        require(not q.is_valid(lo - eps) and not q.is_valid(hi + eps) and not q.is_valid(hi + 50), "out-of-range value declared valid")
        rv = [float(q.random_value()) for _ in range(300)]
        require(all(lo - 1e-12 <= v <= hi + 1e-12 for v in rv), f"random value outside [{lo}, {hi}]")
        if hi > lo:
            f = [(v - lo) / (hi - lo) for v in rv]
            require(min(f) < 0.15 and max(f) > 0.85 and abs(np.mean(f) - .5) < 0.2, f"random values do not cover [{lo}, {hi}]: {min(f)}..{max(f)}")
            if hi - lo > 1e-6:
                refuses(lambda: ParameterizedUnitaryParameter("p", hi, lo, a), "reversed range")


@scenario("C05", lambda g: {"a": [g.real(0, 2 * math.pi) for _ in range(3)], "n": g.choice([2, 3, 4])}, weight=2)
def builtin_families(p):
    a, b, c = p["a"]
    D = ParameterizedUnitaryDefinitions
    u = ok(lambda: D.rotation_xy().as_unitary([a, b]), "rotation_xy")
    require(O.same(u.get_matrix(), O.herm_exp(np.cos(b) * O.X + np.sin(b) * O.Y, -a / 2), 1e-9), f"rotation_xy({a},{b}) wrong")
    require([u.get_parameter_value(k) for k in u.parameter_dict] == [(a, True), (b, True)], "rotation_xy parameters")
    u = ok(lambda: D.rotation_xyz().as_unitary([a, b, c]), "rotation_xyz")
    ref = O.herm_exp(O.Z, -a / 2) @ O.herm_exp(O.Y, -b / 2) @ O.herm_exp(O.Z, -c / 2)
    require(O.same(u.get_matrix(), ref, 1e-9), f"rotation_xyz({a},{b},{c}) wrong")
    require([u.get_parameter_value(k) for k in u.parameter_dict] == [(a, True), (b, True), (c, True)], "rotation_xyz parameters")
    u = ok(lambda: D.xx().as_unitary([a]), "xx")
    require(O.same(u.get_matrix(), O.herm_exp(np.kron(O.X, O.X), -a), 1e-9), f"xx({a}) wrong")
    require([u.get_parameter_value(k) for k in u.parameter_dict] == [(a, True)], "xx parameters")
    g = D.gms(p["n"])
    require(g.get_dimension() == 2 ** p["n"], "gms dimension")
    u = ok(lambda: g.as_unitary([a]), "gms")
    require(O.same(u.get_matrix(), gms_ref(p["n"], a), 1e-8), f"gms({a}) wrong")
    require([u.get_parameter_value(k) for k in u.parameter_dict] == [(a, True)], "gms parameters")
    for f in (D.rotation_xy(), D.rotation_xyz(), D.xx(), g):
        k = len(f.get_parameters())
        for i in range(k):
            for v in (-0.5, 2 * math.pi + 0.5):
                vals = [1.0] * k
                vals[i] = v
                if not f.get_parameters()[i].is_valid(v):
                    refuses(lambda: f.as_unitary(vals), f"{f.get_operation_name()} parameter {i} = {v}")
            for _ in range(5):
                require(f.get_parameters()[i].is_valid(f.get_parameters()[i].random_value()), "random parameter outside its range")


@scenario("C05", lambda g: {"seed": g.seed(), "d": g.choice([1, 2, 2, 4, 4, 8]), "kind": g.choice(O.HKINDS), "t0": g.real(-3, 3), "dt": g.real(0, 5),
                            "f": g.choice([0, 1, g.real(0, 1)]), "suffix": g.choice(["", "0", "1+2"])}, weight=2)
def time_evolution_family(p):
    rs = np.random.RandomState(p["seed"])
    h = O.rand_herm(rs, p["d"], p["kind"] if p["d"] > 1 else "diag")
    lo, hi = p["t0"], p["t0"] + p["dt"]
    hb = h.copy()
    f = ok(lambda: ParameterizedUnitaryDefinitions.time_evolution(h, lo, hi, p["suffix"]), "time_evolution family")
    t = min(max(lo + p["f"] * (hi - lo), lo), hi)
    u = ok(lambda: f.as_unitary([t]), "time_evolution value")
    require(O.same(u.get_matrix(), O.herm_exp(h, t), 1e-8), "time-evolution family is not exp(iHt)")
    require(u.get_parameter_value("t") == (t, False), f"time recorded as {u.get_parameter_value('t')}")
    v = ok(lambda: UnitaryDefinitions.time_evolution(h, t, p["suffix"]), "time_evolution")
    require(O.same(v.get_matrix(), O.herm_exp(h, t), 1e-8), "time_evolution is not exp(iHt)")
    require(v.get_parameter_value("t") == (t, False), "time recorded wrongly")
    require(u.get_operation_name() == "H" + p["suffix"] == v.get_operation_name(), "names")
    require(np.array_equal(h, hb), "the Hamiltonian matrix was modified")
    refuses(lambda: f.as_unitary([hi + 1e-6]), "time above the range")
    refuses(lambda: f.as_unitary([lo - 1e-6]), "time below the range")
    if p["d"] > 1:
        bad = h.astype(complex).copy()
        bad[0, 1] += 10.0 ** -rs.uniform(0, 3) * (1 + abs(bad[0, 1]))
        refuses(lambda: UnitaryDefinitions.time_evolution(bad, t), "time evolution under a non-Hermitian matrix")
        refuses(lambda: ParameterizedUnitaryDefinitions.time_evolution(bad, lo, hi), "family of a non-Hermitian matrix")
        bad = h.astype(complex).copy()
        bad[1, 1] += 0.01j
        refuses(lambda: UnitaryDefinitions.time_evolution(bad, t), "complex diagonal")
    if hi - lo > 1e-6:
        refuses(lambda: ParameterizedUnitaryDefinitions.time_evolution(h, hi, lo), "reversed time range")


# ---------------------------------------------------------------- C19, single operations
def exp_display(u):
    s = u.operation_name + (str([int(q) for q in u.apply_to]) if len(u.apply_to) else "")
    if u.parameter_dict:
        s += "(" + ", ".join(f"{k}=" + (f"{round(float(v) / np.pi, 3)}π" if a else f"{round(v, 4)}") for k, (v, a) in u.parameter_dict.items()) + ")"
    return s + ("†" if u.is_inverse else "")


def exp_qubits(u):
    return [int(q) for q in u.apply_to] if len(u.apply_to) else list(range(int(round(math.log2(u.get_dimension())))))


def exp_qasm(u):
    ps = ""
    if u.parameter_dict:
        ps = "(" + ",".join(f"pi*{round(float(v) / np.pi, 7)}" if a else f"{round(v, 7)}" for k, (v, a) in u.parameter_dict.items()) + ")"
    return u.operation_name + ps + "\t" + ",".join(f"q[{q}]" for q in exp_qubits(u)) + ";"


def exp_jaqal(u):
    ps = " ".join(f"{round(v, 7)}" for k, (v, a) in u.parameter_dict.items())
    return u.operation_name + " " + " ".join(f"q[{q}]" for q in exp_qubits(u)) + " " + ps


@scenario("C19", lambda g: {"seed": g.seed(), "n": g.choice([1, 1, 2, 3, 4]), "k": g.choice([0, 1, 2, 3, 4]), "inv": g.bool(), "app": g.bool(),
                            "vals": [g.choice([g.angle(), g.real(-1e-6, 1e-6), g.real(-100, 100)]) for _ in range(4)],
                            "flags": [g.bool() for _ in range(4)], "big": g.bool(.2)}, weight=3)
def single_text(p):
    rs = np.random.RandomState(p["seed"])
    names = ["θ", "Φ", "t", "zz"] if rs.randint(2) else [PARAMETER_NAMES[i] for i in rs.permutation(len(PARAMETER_NAMES))]
    pd = {names[i]: (p["vals"][i], p["flags"][i]) for i in range(p["k"])}
    app = []
    if p["app"]:
        app = [int(x) for x in rs.permutation(14 if p["big"] else p["n"] + 2)[:p["n"]]]
    u = Unitary(2 ** p["n"], O.haar(rs, 2 ** p["n"]), pick_name(rs), dict(pd), is_inverse=p["inv"], apply_to=list(app))
    for what, got, want in (("display", ok(u.get_display_name, "display"), exp_display(u)), ("QASM", ok(u.get_qasm, "qasm"), exp_qasm(u)),
                            ("JAQAL", ok(u.get_jaqal, "jaqal"), exp_jaqal(u))):
        require(got == want, f"{what}: {got!r}, expected {want!r}")
    require(u.parameter_dict == pd and list(u.parameter_dict) == list(pd) and u.apply_to == app, "text output changed the operation")


@scenario("C19", lambda g: {"theta": g.angle(), "n": g.choice([2, 3])}, fixed=[{"theta": 0.5, "n": 3}])
def gate_text(p):
    D = UnitaryDefinitions
    for u in (D.rx(p["theta"]), D.rphi(p["theta"], p["theta"] / 2), D.xx(p["theta"]), D.cnot(), D.ccnot(), D.gms(p["n"], p["theta"]), D.t(),
              D.rx(p["theta"]).inverse(), D.cnot().inverse().inverse()):
        require(u.get_display_name() == exp_display(u), f"display {u.get_display_name()!r}")
        require(u.get_qasm() == exp_qasm(u), f"qasm {u.get_qasm()!r}")
        require(u.get_jaqal() == exp_jaqal(u), f"jaqal {u.get_jaqal()!r}")


__all__ = ["mk_unitary", "exp_display", "exp_qasm", "exp_jaqal"]
_ = Violation
