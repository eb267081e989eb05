"""C16-C18: Hamiltonian terms, evolutions, decompositions and compilation."""
import itertools
import random
import numpy as np

from core import scenario, ok, refuses, require
import oracle as O
from scen_compiler import freq, within, tol
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def mk_terms(rs, n, count, kinds=None):
    out = []
    for _ in range(count):
        kind = (kinds or O.HKINDS)[rs.randint(len(kinds or O.HKINDS))]
        m = O.rand_herm(rs, 2 ** n, kind)
        if kind != "int":
            m = m * rs.choice([1.0, -1.0]) * (10.0 ** rs.uniform(-1, 1) / max(1e-12, np.linalg.norm(m, 2)))
        out.append(m)
    special = rs.randint(6)
    if special == 0:
        # equal largest singular values (exactly equal ones where the matrix allows it)
        out = [np.array(O.rand_herm(rs, 2 ** n, rs.choice(["pauli", "identity"])), dtype=complex) for _ in range(count)]
    elif special == 1:
        c = np.linalg.norm(out[0], 2)
        out = [m * (c / np.linalg.norm(m, 2)) for m in out]
    elif special == 2:
        out = [out[0] for _ in range(count)]
    return out


# ---------------------------------------------------------------- C16
@scenario("C16", lambda g: {"seed": g.seed(), "d": g.choice([1, 2, 2, 3, 4, 4, 5, 8, 16]), "kind": g.choice(O.HKINDS), "scale": g.choice([1, -1, 1e-3, 1e3, 1e-6, 1e6, g.real(-50, 50) or 1]),
                            "layout": g.choice(["C", "F", "ro", "real"])}, weight=3,
          fixed=[{"seed": 3, "d": 4, "kind": k, "scale": s, "layout": "C"} for k in O.HKINDS for s in (1, -1, -250.0, 1e-4)])
def term(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    kind = p["kind"] if (p["kind"] != "pauli" or d & (d - 1) == 0) and not (d == 1 and p["kind"] == "pauli") else "full"
    m = O.rand_herm(rs, d, kind)
    if kind != "int":
        m = m * p["scale"]
    if p["layout"] == "F":
        m = np.asfortranarray(m)
    elif p["layout"] == "real" and np.all(np.isreal(m)):
        m = np.ascontiguousarray(m.real)
    if p["layout"] == "ro":
        m.setflags(write=False)
    mb = m.copy()
    s = np.linalg.norm(m, 2)
    if s == 0:
        return
    t = ok(lambda: HamiltonianTerm(m), "HamiltonianTerm of a Hermitian matrix")
    require(np.array_equal(m, mb) and m.dtype == mb.dtype, "the caller's matrix was modified")
    require(t.get_dimension() == d, "dimension")
    c, nm = t.get_coefficient(), t.get_normalized_matrix()
    require(np.isreal(c) and np.real(c) > 0 and abs(c - s) <= 1e-9 * s, f"coefficient {c!r}, largest singular value {s!r}")
    require(np.allclose(t.get_matrix(), m, rtol=1e-9, atol=1e-12 * s), "matrix of the term")
    require(np.allclose(np.asarray(c) * nm, m, rtol=1e-9, atol=1e-12 * s), "coefficient times normalized matrix")
    require(np.allclose(nm, nm.conj().T) and abs(np.linalg.norm(nm, 2) - 1) < 1e-9, "normalized matrix")
    if m.flags.writeable:
        m *= 2
        require(np.allclose(t.get_matrix(), mb, rtol=1e-9, atol=1e-12 * s), "changing the caller's matrix changed the term")


BAD_TERMS = ["shape", "shape2", "nonherm", "anti", "diag", "vec", "list", "sym", "cube", "nan", "symreal", "swapped", "negated", "real"]


@scenario("C16", lambda g: {"seed": g.seed(), "d": g.choice([2, 3, 4, 8]), "bad": g.choice(BAD_TERMS)},
          weight=2, fixed=[{"seed": 5, "d": d, "bad": b} for d in (2, 4) for b in BAD_TERMS])
def term_refused(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]
    m = O.rand_herm(rs, d).astype(complex)
    b = p["bad"]
    if b == "shape":
        m = np.vstack([m, np.zeros((1, d))])
    elif b == "shape2":
        m = np.hstack([m, np.zeros((d, 1))])
    elif b == "nonherm":
        i, j = rs.permutation(d)[:2]
        m[i, j] += 10.0 ** -rs.uniform(0, 3) * (1 + abs(m[i, j]))
    elif b == "anti":
        m = 1j * m
    elif b == "diag":
        m[d - 1, d - 1] += 0.01j * (1 + abs(m[d - 1, d - 1]))
    elif b == "sym":
        m = m.real + 1j * np.ones((d, d)) * (1 + abs(m).max())
        m = (m + m.T) / 2
    elif b == "symreal":         # complex symmetric with a real diagonal: every real test of it passes
        m = m.real + 1j * (np.triu(m.imag, 1) + np.triu(m.imag, 1).T + (1 - np.eye(d)))
    elif b in ("swapped", "negated"):         # one pair of entries only
        i, j = rs.permutation(d)[:2]
        m[i, j] = 0.4 + 0.7j
        m[j, i] = m[i, j] if b == "swapped" else -m[i, j]
    elif b == "real":
        m = m.real.copy()
        i, j = rs.permutation(d)[:2]
        m[i, j] = m[j, i] + 0.3
    elif b == "vec":
        m = m[0]
    elif b == "list":
        m = m.tolist()
    elif b == "cube":
        m = m[None]
    elif b == "nan":
        m[0, 0] = np.nan
    refuses(lambda: HamiltonianTerm(m), f"term from a matrix spoiled by '{b}'")


@scenario("C16", lambda g: {"seed": g.seed(), "n": g.choice([1, 1, 2, 3]), "count": g.choice([1, 2, 3, 4, 6]), "t": g.choice([0.0, 1.0, -1.0, g.real(-20, 20), g.angle(), 3])},
          weight=3, fixed=[{"seed": 2, "n": n, "count": c, "t": t} for n in (1, 2, 3) for c in (1, 2, 3, 5) for t in (0.7, -1.3)])
def evolution(p):
    rs = np.random.RandomState(p["seed"])
    n, d = p["n"], 2 ** p["n"]
    ms = mk_terms(rs, n, p["count"])
    if p["count"] > 2 and rs.rand() < .3:
        ms[1] = ms[0]
    terms = [HamiltonianTerm(m) for m in ms]
    h = ok(lambda: Hamiltonian(terms), "Hamiltonian")
    require(h.get_dimension() == d and h.get_qubit_count() == n, f"dimension {h.get_dimension()} or qubits {h.get_qubit_count()} of {n} qubits")
    H = sum(np.array(m, dtype=complex) for m in ms)
    tb = [t.get_matrix().copy() for t in terms]
    u = ok(lambda: h.get_time_evolution_operator(p["t"]), "time evolution")
    require(O.same(u.get_matrix(), O.herm_exp(H, p["t"]), 1e-7), f"evolution for {p['t']} under {p['count']} terms is not exp(i t sum)")
    require(u.get_dimension() == d, "dimension of the evolution")
    for t in (-p["t"], p["t"] / 3, p["t"] + 1e-6, p["t"], 0.0):
        u1 = ok(lambda: h.get_time_evolution_operator(t), "another time evolution")
        require(O.same(u1.get_matrix(), O.herm_exp(H, t), 1e-7), f"evolution for {t} after that for {p['t']} is not exp(i t sum)")
    if rs.rand() < .5:
        h.get_trotter_sequence(p["t"], 1, randomize=True)
        h.get_qdrift_sequence(p["t"], 2)
    extra = HamiltonianTerm(O.rand_herm(rs, d))
    k = rs.randint(4)
    if k == 0:
        terms.append(extra)
    elif k == 1:
        terms.clear()
    elif k == 2:
        terms[0] = extra
    else:
        terms.reverse()
    u2 = ok(lambda: h.get_time_evolution_operator(-p["t"] / 2), "time evolution after changing the list")
    require(O.same(u2.get_matrix(), O.herm_exp(H, -p["t"] / 2), 1e-7), "changing the list passed in changed the Hamiltonian")
    tr = ok(lambda: h.get_trotter_sequence(1.0, 1), "trotter")
    require(tr.get_length() == len(ms), "number of terms after changing the list passed in")
    _ = tb


@scenario("C16", lambda g: {"seed": g.seed(), "n": g.choice([1, 2]), "count": g.choice([1, 2, 3]), "at": g.int(0, 3)},
          fixed=[{"seed": 1, "n": 1, "count": c, "at": a} for c in (1, 2, 3) for a in range(c + 1)])
def hamiltonian_refused(p):
    rs = np.random.RandomState(p["seed"])
    terms = [HamiltonianTerm(m) for m in mk_terms(rs, p["n"], p["count"])]
    ok(lambda: Hamiltonian(list(terms)), "Hamiltonian")
    at = min(p["at"], len(terms))
    odd = HamiltonianTerm(O.rand_herm(rs, 2 ** (p["n"] + 1)))
    refuses(lambda: Hamiltonian(terms[:at] + [odd] + terms[at:]), f"terms of different dimension (odd one at {at})")
    refuses(lambda: Hamiltonian(terms[:at] + [terms[0].get_matrix()] + terms[at:]), "a matrix among the terms")
    refuses(lambda: Hamiltonian([]), "no terms")
    refuses(lambda: Hamiltonian(terms[0]), "a term instead of a list")
    refuses(lambda: Hamiltonian(None), "None")


# ---------------------------------------------------------------- C17
def mats(seq, n):
    """Full operators; also requires that every entry acts on all qubits."""
    out = []
    for e in seq.get_sequence_entries():
        require(sorted(int(q) for q in e.get_apply_to()) == list(range(n)), f"entry acts on {e.get_apply_to()} of {n} qubits")
        out.append(e.get_full_unitary(2 ** n).get_matrix())
    return out


def gen_h(g):
    return {"seed": g.seed(), "n": g.choice([1, 1, 2, 2, 3]), "count": g.choice([1, 2, 3, 4]), "t": g.choice([1.0, -1.0, 0.0, g.real(-8, 8), 2]), "N": g.choice([1, 1, 2, 3, 5, g.small(1, 30)])}


@scenario("C17", gen_h, weight=2, fixed=[{"seed": 4, "n": n, "count": c, "t": t, "N": N} for n in (1, 2) for c in (1, 3) for t in (1.3, -.4) for N in (1, 2, 7)])
def decompositions(p):
    rs = np.random.RandomState(p["seed"])
    n, d, t, N = p["n"], 2 ** p["n"], p["t"], p["N"]
    ms = [np.array(m, dtype=complex) for m in mk_terms(rs, n, p["count"])]
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    H = sum(ms)
    s = ok(lambda: h.get_ideal_sequence(t, N), "ideal sequence")
    E = mats(s, n)
    require(len(E) == N and s.get_dimension() == d, f"ideal sequence has {len(E)} entries, expected {N}")
    for i, m in enumerate(E):
        require(O.same(m, O.herm_exp(H, t / N), 1e-7), f"ideal entry {i} is not exp(iHt/N)")
    require(O.same(s.product().get_matrix(), O.herm_exp(H, t), 1e-6), "ideal product is not the exact evolution")
    ref = [O.herm_exp(m, t / N) for m in ms]
    for call in (lambda: h.get_trotter_sequence(t, N), lambda: h.get_trotter_sequence(t, N, False), lambda: h.get_trotter_sequence(t, N, randomize=False)):
        s = ok(call, "Trotter sequence")
        E = mats(s, n)
        require(len(E) == N * len(ms), f"Trotter sequence has {len(E)} entries, expected {N} x {len(ms)}")
        for i, m in enumerate(E):
            require(O.same(m, ref[i % len(ms)], 1e-7), f"Trotter entry {i} is not the evolution of term {i % len(ms)}")
    P = np.eye(d)
    for _ in range(N):
        for r in ref:
            P = r @ P
    require(O.same(s.product().get_matrix(), P, 1e-6), "Trotter product")
    s = ok(lambda: h.get_trotter_sequence(t, N, randomize=True), "randomized Trotter sequence")
    E = mats(s, n)
    require(len(E) == N * len(ms), f"randomized Trotter sequence has {len(E)} entries")
    for b in range(N):
        match(E[b * len(ms):(b + 1) * len(ms)], ref, f"randomized Trotter step {b}")
    # the Hamiltonian is unaffected
    s = h.get_trotter_sequence(t, 1)
    for m, r in zip(mats(s, n), [O.herm_exp(m, t) for m in ms]):
        require(O.same(m, r, 1e-7), "term order changed by randomization")


@scenario("C17", lambda g: dict(gen_h(g), calls=[[g.choice(["ideal", "trotter", "random", "qdrift"]), g.choice([1, -1, 1, 2, .5]), g.choice([0, 0, 0, 1, 3])] for _ in range(7)]), weight=2,
          fixed=[{"seed": 8, "n": 1, "count": 2, "t": .9, "N": 3, "calls": [[k, s, m] for s, m in ((1, 0), (-1, 0), (2, 0), (1, 2), (1, 0), (2, 0)) for k in ("trotter", "ideal", "random", "qdrift")]}])
def one_hamiltonian_again(p):
    """One Hamiltonian object asked for sequences again and again, for other times, signs and numbers of steps."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    ms = [np.array(m, dtype=complex) for m in mk_terms(rs, n, p["count"], kinds=["full", "diag", "real", "rank1"])]
    co = [np.linalg.norm(m, 2) for m in ms]
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    held = []
    for kind, scale, more in p["calls"]:
        t, N = (p["t"] or .7) * scale, min(p["N"], 6) + more
        what = f"{kind} sequence for {t} in {N} steps, after others"
        s = ok(lambda: {"ideal": lambda: h.get_ideal_sequence(t, N), "trotter": lambda: h.get_trotter_sequence(t, N), "random": lambda: h.get_trotter_sequence(t, N, randomize=True),
                        "qdrift": lambda: h.get_qdrift_sequence(t, N)}[kind](), what)
        held.append((kind, t, N, s, what))
    for kind, t, N, s, what in held:
        E = mats(s, n)
        require(len(E) == N * (len(ms) if kind in ("trotter", "random") else 1), f"{what}: {len(E)} entries")
        ref = [O.herm_exp(m, t / N) for m in ms]
        if kind == "ideal":
            require(all(O.same(m, O.herm_exp(sum(ms), t / N), 1e-7) for m in E), f"{what}: entries are not exp(iHt/N)")
        elif kind == "trotter":
            require(all(O.same(m, ref[i % len(ms)], 1e-7) for i, m in enumerate(E)), f"{what}: entries are not the evolutions of the terms in order")
        elif kind == "random":
            for b in range(N):
                match(E[b * len(ms):(b + 1) * len(ms)], ref, f"{what}: step {b}")
        else:
            qref = [O.herm_exp(m / c, sum(co) * t / N) for m, c in zip(ms, co)]
            require(all(any(O.same(m, r, 1e-7) for r in qref) for m in E), f"{what}: an entry is not exp(i L t h_j / N)")
        P = np.eye(2 ** n)
        for m in E:
            P = m @ P
        require(O.same(s.product().get_matrix(), P, 1e-6), f"{what}: product")
        require(O.same(h.get_time_evolution_operator(t).get_matrix(), O.herm_exp(sum(ms), t), 1e-6), f"{what}: the Hamiltonian's evolution has changed")


def match(block, ref, what):
    """Is block a permutation of ref?  Exact matching on small sets (several terms may evolve alike)."""
    k = len(ref)
    A = [[O.same(b, r, 1e-7) for r in ref] for b in block]
    used = [False] * k

    def go(i):
        if i == k:
            return True
        for j in range(k):
            if A[i][j] and not used[j]:
                used[j] = True
                if go(i + 1):
                    return True
                used[j] = False
        return False
    require(len(block) == k and go(0), f"{what} does not contain every term exactly once")


@scenario("C17", gen_h, weight=2, fixed=[{"seed": 6, "n": n, "count": c, "t": t, "N": 300} for n, c, t in ((1, 2, 1.7), (2, 4, -2.0), (1, 1, .5))])
def qdrift(p):
    rs = np.random.RandomState(p["seed"])
    n, t, N = p["n"], p["t"] if p["t"] else 1.1, p["N"]
    ms = [np.array(m, dtype=complex) for m in mk_terms(rs, n, p["count"], kinds=["full", "diag", "real", "rank1"])]
    co = [np.linalg.norm(m, 2) for m in ms]
    lam = sum(co)
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    s = ok(lambda: h.get_qdrift_sequence(t, N), "QDRIFT sequence")
    E = mats(s, n)
    require(len(E) == N, f"QDRIFT sequence has {len(E)} entries, expected {N}")
    ref = [O.herm_exp(m / c, lam * t / N) for m, c in zip(ms, co)]
    cnt = {}
    distinct = all(not O.same(a, b, 1e-5) for a, b in itertools.combinations(ref, 2))
    for i, m in enumerate(E):
        js = [j for j in range(len(ms)) if O.same(m, ref[j], 1e-7)]
        require(js, f"QDRIFT entry {i} is not exp(i L t h_j / N) for any term")
        cnt[js[0]] = cnt.get(js[0], 0) + 1
    if distinct:
        freq(cnt, {j: c / lam for j, c in enumerate(co)}, N, "QDRIFT term")


@scenario("C17", lambda g: {"seed": g.seed(), "N": g.choice([1, 2, 3]), "count": g.choice([2, 3, 4, 5]), "R": 200}, weight=1,
          fixed=[{"seed": 8, "N": N, "count": c, "R": 1000 if N < 3 else 500} for N, c in ((1, 3), (2, 3), (2, 5), (3, 2))]
          + [{"seed": 8, "N": N, "count": c, "R": 200, "equal": True} for N, c in ((1, 3), (2, 2))])
def qdrift_few_steps(p):
    """Sequences of few steps, many times: every combination of terms as often as independent draws have it."""
    rs = np.random.RandomState(p["seed"])
    t, N, R = 1.3, p["N"], p["R"]
    ms = [np.array(O.rand_herm(rs, 2), dtype=complex) * rs.uniform(.3, 1.5) for _ in range(p["count"])]
    if p.get("equal", rs.randint(3) == 0):
        ms = [np.array(m, dtype=complex) for m in (O.X, O.Y, O.Z)][:p["count"]]
    co = [np.linalg.norm(m, 2) for m in ms]
    lam = sum(co)
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    ref = [O.herm_exp(m / c, lam * t / N) for m, c in zip(ms, co)]
    if any(O.same(a, b, 1e-5) for a, b in itertools.combinations(ref, 2)):
        return
    cnt, first = {}, {}
    for _ in range(R):
        E = mats(ok(lambda: h.get_qdrift_sequence(t, N), "QDRIFT sequence"), 1)
        require(len(E) == N, f"QDRIFT sequence has {len(E)} entries, expected {N}")
        k = []
        for i, m in enumerate(E):
            js = [j for j in range(len(ms)) if O.same(m, ref[j], 1e-7)]
            require(js, f"QDRIFT entry {i} of {N} is not exp(i L t h_j / N) for any term")
            k.append(js[0])
        cnt[tuple(k)] = cnt.get(tuple(k), 0) + 1
        first[k[-1]] = first.get(k[-1], 0) + 1
    freq(cnt, {k: float(np.prod([co[j] / lam for j in k])) for k in itertools.product(range(len(ms)), repeat=N)}, R, f"QDRIFT terms of {N} steps")
    freq(first, {j: c / lam for j, c in enumerate(co)}, R, f"last QDRIFT term of {N}")
    if N > 1:
        same = sum((c / lam) ** 2 for c in co)
        got = sum(v for k, v in cnt.items() if k[0] == k[1])
        freq({True: got, False: R - got}, {True: same, False: 1 - same}, R, f"first two QDRIFT terms of {N} alike")


@scenario("C17", lambda g: {"seed": g.seed(), "reps": 200}, weight=.5, fixed=[{"seed": 1, "reps": 600}])
def random_orders_occur(p):
    rs = np.random.RandomState(p["seed"])
    ms = [O.X * .9, O.Y * .5, O.Z * .2]
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    E = mats(h.get_trotter_sequence(float(p["reps"]), p["reps"], randomize=True), 1)
    ref = [O.herm_exp(m, 1.0) for m in ms]
    seen = {}
    for b in range(p["reps"]):
        k = tuple(next(j for j in range(3) if O.same(m, ref[j])) for m in E[3 * b:3 * b + 3])
        seen[k] = seen.get(k, 0) + 1
    require(len(seen) == 6 or p["reps"] < 150, f"only the orders {sorted(seen)} occur in {p['reps']} randomized steps")
    _ = (rs, random, tol)


# ---------------------------------------------------------------- C18
def subset_ref(ms, simultaneous):
    if simultaneous:
        return {c: sum(ms[i] for i in c) for k in range(1, len(ms) + 1) for c in itertools.combinations(range(len(ms)), k)}
    return {(i,): m for i, m in enumerate(ms)}


def classify(e, n, refs, mx, what):
    """Every entry is an evolution under one allowed (sub)set of terms for an allowed recorded time."""
    require(sorted(int(q) for q in e.get_apply_to()) == list(range(n)), f"{what}: entry acts on {e.get_apply_to()} of {n} qubits")
    f = e.get_full_unitary(2 ** n)
    require(not f.is_inverse, f"{what}: entry marked as inverse")
    vals = [v for v in f.parameter_dict.values()]
    require(len(vals) == 1, f"{what}: entry parameters {f.parameter_dict}")
    t = vals[0][0]
    require(-mx - 1e-9 <= t <= mx + 1e-9, f"{what}: evolution for {t}, limit {mx}")
    m = f.get_matrix()
    hits = [c for c, h in refs.items() if O.same(m, O.herm_exp(h, t), 1e-6)]
    require(hits, f"{what}: entry {f.get_display_name()} is not the evolution of an allowed term or subset")
    return t, hits


def gen_hc(g):
    return {"seed": g.seed(), "n": g.choice([1, 1, 1, 2]), "count": g.choice([1, 2, 2, 3]), "t": g.choice([.3, 1.0, g.real(-2, 2)]), "mx": g.choice([.1, .5, 1.0, g.real(.05, 2)]),
            "thr": g.choice([.3, .6, .8, .85]), "sim": g.bool(), "T": g.choice([.2, 1.0, 2.5])}


def many_terms(rs, n, count):
    return [np.array(O.rand_herm(rs, 2 ** n), dtype=complex) for _ in range(count)]


def easy_terms(rs, n, count):
    P = [O.X, O.Y, O.Z]
    out = []
    for i in range(count):
        m = np.eye(1)
        if n == 1:
            m = P[i % 3]
        else:
            m = [np.kron(O.X, O.I2), np.kron(O.Z, O.Z), np.kron(O.I2, O.Y)][i % 3]
        out.append(np.array(m * rs.uniform(.4, 1.5), dtype=complex))
    return out


@scenario("C18", gen_hc, weight=3)
def stoq_sequence(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    ms = easy_terms(rs, n, p["count"])
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    thr = p["thr"] if n == 1 else min(p["thr"], .6)
    refs = subset_ref(ms, p["sim"])
    args = {"allow_simultaneous_terms": True} if p["sim"] else ({} if rs.randint(2) else {"allow_simultaneous_terms": False})
    r = ok(lambda: h.compile_stoq_sequence(p["t"], p["mx"], thr, **args), "compile_stoq_sequence")
    for e in r.compiled_sequence.get_sequence_entries():
        classify(e, n, refs, p["mx"], "STOQ")
    U = O.herm_exp(sum(ms), p["t"])
    dist = O.distance(U, product(r.compiled_sequence, n))
    require(len(r.cost_by_step) <= 10000, "more than 10000 steps")
    require(within(dist, thr) is not False or len(r.cost_by_step) == 10000, f"stopped after {len(r.cost_by_step)} steps at distance {dist}, threshold {thr}")
    if r.cost_by_step:
        require(abs(r.cost_by_step[-1] - dist) < 1e-7, "last cost")
    else:
        require(r.compiled_sequence.get_length() == 0, "gates without steps")


def product(seq, n):
    P = np.eye(2 ** n, dtype=complex)
    for e in seq.get_sequence_entries():
        P = e.get_full_unitary(2 ** n).get_matrix() @ P
    require(O.same(seq.product().get_matrix(), P, 1e-6), "product of the sequence is not the product of its entries")
    return P


@scenario("C18", gen_hc, weight=3)
def rav_sequence(p):
    rs = np.random.RandomState(p["seed"])
    n, T, mx = p["n"], p["T"], p["mx"]
    ms = easy_terms(rs, n, p["count"])
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    thr = p["thr"] if n == 1 else min(p["thr"], .5)
    refs = subset_ref(ms, p["sim"])
    args = {"allow_simultaneous_terms": True} if p["sim"] else {}
    r = ok(lambda: h.compile_rav_sequence(T, mx, thr, **args), "compile_rav_sequence")
    ts = [abs(classify(e, n, refs, mx, "Hamiltonian RAV")[0]) for e in r.compiled_sequence.get_sequence_entries()]
    require(sum(ts) >= T - 1e-9, f"the whole sequence evolves for {sum(ts)} < {T}")
    dist = O.distance(np.eye(2 ** n), product(r.compiled_sequence, n))
    steps = len(r.cost_by_step)
    require(steps <= 10000 and (within(dist, thr) is not False or steps == 10000), f"RAV product at distance {dist} after {steps} steps, threshold {thr}")
    if steps:
        require(abs(r.cost_by_step[-1] - dist) < 1e-7, f"trace ends at {r.cost_by_step[-1]}, distance from the identity {dist}")
    else:
        # nothing compiled: the random part stops as soon as its times add up
        require(sum(ts[:-1]) < T + 1e-9, f"random part of {sum(ts)} goes on after reaching {T}")


@scenario("C18", gen_hc, weight=1, fixed=[{"seed": 1, "n": 1, "count": 2, "t": 1.0, "mx": .7, "thr": 0.0, "sim": s, "T": 12.0} for s in (False, True)]
          + [{"seed": 2, "n": 1, "count": 3, "t": 1.0, "mx": .7, "thr": 0.0, "sim": s, "T": 30.0} for s in (False, True)]
          + [{"seed": 3, "n": 1, "count": c, "t": 1.0, "mx": .5, "thr": 0.0, "sim": s, "T": 36.0} for s in (False, True) for c in (4, 5) if c == 4 or not s]
          + [{"seed": 4, "n": 1, "count": 5, "t": 1.0, "mx": .5, "thr": 0.0, "sim": True, "T": 75.0}, {"seed": 5, "n": 2, "count": 4, "t": 1.0, "mx": .5, "thr": 0.0, "sim": True, "T": 45.0}]
          + [{"seed": 6, "n": 1, "count": 3, "t": 1.0, "mx": .7, "thr": 0.0, "sim": s, "T": 8.0, "sc": sc, "mixed": mix} for s in (False, True) for sc, mix in ((1e-4, False), (1e-5, True), (1e4, False))])
def random_part(p):
    """Threshold 0: nothing has to be compiled, so the sequence is the random part alone."""
    rs = np.random.RandomState(p["seed"])
    sc = p.get("sc", 1.0)
    n, mx = p["n"], p["mx"] / sc
    T = max(p["T"], 3.0) * mx
    ms = [np.array(m * c, dtype=complex) for m, c in zip(easy_terms(rs, n, p["count"]), (1.0, .83, .61))] if p["count"] < 4 else many_terms(rs, n, p["count"])
    ms = [m * sc for m in ms]
    if p.get("mixed"):
        ms[0] = ms[0] * 1e3
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    refs = subset_ref(ms, p["sim"])
    used, long = set(), 0
    for _ in range(8):
        r = ok(lambda: h.compile_rav_sequence(T, mx, 0.0, p["sim"]), "compile_rav_sequence")
        require(len(r.cost_by_step) == 0, "compilation steps with threshold 0")
        ts = []
        for e in r.compiled_sequence.get_sequence_entries():
            t, hits = classify(e, n, refs, mx, "random part")
            if abs(t) > .3 * mx:
                used.update(hits)
                long += 1
            ts.append(abs(t))
        require(sum(ts) >= T - 1e-9, f"random part evolves for {sum(ts)} < {T}")
        require(sum(ts[:-1]) < T + 1e-9, f"random part goes on after reaching {T}: {ts}")
    if long > 40 * len(refs):
        require(used == set(refs), f"of the allowed subsets {sorted(refs)} only {sorted(used)} occur in {long} steps")


@scenario("C18", gen_hc, weight=1, fixed=[{"seed": 3, "n": 1, "count": c, "t": 1.0, "mx": 1.0, "thr": .5, "sim": s, "T": 1.0} for c in (1, 2, 3) for s in (False, True)])
def every_subset_available(p):
    """Over several compilations every allowed single term (and subset) occurs."""
    rs = np.random.RandomState(p["seed"])
    n = 1
    ms = [np.array(m * c, dtype=complex) for m, c in zip(easy_terms(rs, n, p["count"]), (1.0, .83, .61))]
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    refs = subset_ref(ms, p["sim"])
    used, total = set(), 0
    for _ in range(60):
        r = h.compile_rav_sequence(1.0, p["mx"], .7, p["sim"])
        for e in r.compiled_sequence.get_sequence_entries():
            t, hits = classify(e, n, refs, p["mx"], "RAV")
            if abs(t) > .3 * p["mx"]:
                used.update(hits)
                total += 1
    if total > 40 * len(refs):
        require(used == set(refs), f"of the allowed subsets {sorted(refs)} only {sorted(used)} occur in {total} entries")


@scenario("C18", gen_hc, weight=1, fixed=[{"seed": s, "n": 1, "count": 2, "t": 1.5, "mx": .4, "thr": .9, "sim": True, "T": 3.0} for s in (1, 2)])
def one_hamiltonian_again(p):
    """One Hamiltonian object compiled again and again, with other step limits and with and without simultaneous terms."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    ms = easy_terms(rs, n, p["count"])
    h = Hamiltonian([HamiltonianTerm(m) for m in ms])
    thr = p["thr"] if n == 1 else min(p["thr"], .5)
    for k, (mx, sim) in enumerate([(1, True), (1, False), (.5, False), (.5, True), (2, True), (1, False)] if p["sim"] else [(1, False), (.5, False), (.5, True), (1, True), (2, False)]):
        mx *= p["mx"]
        refs = subset_ref(ms, sim)
        what = f"call {k} with step {mx}, simultaneous terms {sim}"
        r = ok(lambda: h.compile_rav_sequence(3 * mx, mx, thr if k % 2 else 0.0, sim), "compile_rav_sequence")
        ts = [abs(classify(e, n, refs, mx, "RAV, " + what)[0]) for e in r.compiled_sequence.get_sequence_entries()]
        require(sum(ts) >= 3 * mx - 1e-9, f"{what}: the sequence evolves for {sum(ts)}")
        if k < 4:
            sign = 1 if k % 2 else -1
            r = ok(lambda: h.compile_stoq_sequence(sign * p["t"], mx, thr, sim), "compile_stoq_sequence")
            for e in r.compiled_sequence.get_sequence_entries():
                classify(e, n, refs, mx, "STOQ, " + what)
            dist = O.distance(O.herm_exp(sum(ms), sign * p["t"]), product(r.compiled_sequence, n))
            require(within(dist, thr) is not False or len(r.cost_by_step) == 10000, f"{what}: stopped at distance {dist} from the evolution, threshold {thr}")


@scenario("C18", thorough=[{"seed": 1}])
def step_limit(p):
    """An unreachable target uses exactly 10000 steps."""
    # terms that hardly move: the target (another Hamiltonian's evolution) is out of reach
    h2 = Hamiltonian([HamiltonianTerm(O.X * 1e-9), HamiltonianTerm(O.Z * 1e-9)])
    r = h2.compile_stoq_sequence(1.4e9, 1e-3, 0.9)
    require(len(r.cost_by_step) == 10000, f"{len(r.cost_by_step)} steps, expected 10000")
