"""C11-C15: random entries and layers, compilation, verification sequences."""
import math
import random
import numpy as np

from core import scenario, ok, refuses, require, CODE_NAMES
import oracle as O
from stoqcompiler.unitary import (
    Unitary, UnitaryDefinitions, UnitaryPrimitive, UnitarySequence, ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.compiler import Compiler
from stoqcompiler.verification import Verification


def seed_all(s):
    np.random.seed(s % 2 ** 32)
    random.seed(s)


# ---------------------------------------------------------------- primitives with unique names
class Spec:
    """A primitive with a unique operation name, so that a generated gate identifies its primitive."""

    def __init__(self, i, k, fam, allowed, rs, name=None):
        self.name, self.k, self.fam, self.allowed = name or f"P{i}", k, fam, allowed
        self.M = O.haar(rs, 2 ** k)
        self.H = O.rand_herm(rs, 2 ** k)
        self.ranges = [(float(a), float(a + b), bool(rs.randint(2))) for a, b in zip(rs.uniform(-5, 5, fam), rs.uniform(0, 6, fam))]
        if fam and rs.rand() < .1:
            self.ranges[0] = (1.25, 1.25, False)
        if fam == 0:
            u = Unitary(2 ** k, self.M, self.name)
        else:
            u = ParameterizedUnitary(
                2 ** k, lambda *v: self.matrix(v),
                [ParameterizedUnitaryParameter(f"x{j}", lo, hi, a) for j, (lo, hi, a) in enumerate(self.ranges)], self.name)
        self.prim = UnitaryPrimitive(u, None if allowed is None else [list(q) for q in allowed])

    def matrix(self, v):
        m = self.M
        for j, x in enumerate(v):
            m = O.herm_exp(self.H, x * (1 + j)) @ m
        return m

    def usable(self):
        return self.allowed is None or len(self.allowed) > 0

    def check(self, e, n, what):
        """Entry e (known by name to be of this primitive) respects the primitive."""
        f = ok(lambda: e.get_full_unitary(2 ** n), "full operator")
        qs = [int(q) for q in e.get_apply_to()]
        require(len(set(qs)) == len(qs) == self.k and all(0 <= q < n for q in qs), f"{what}: {self.name} on qubits {qs} of {n}")
        if self.allowed is not None:
            require(qs in [list(q) for q in self.allowed], f"{what}: {self.name} on {qs}, allowed only on {self.allowed}")
        require(len(f.parameter_dict) == len(self.ranges), f"{what}: {self.name} has parameters {f.parameter_dict}")
        vals = []
        for j, (lo, hi, a) in enumerate(self.ranges):
            got = f.get_parameter_value(f"x{j}")
            require(got is not None and got[1] == a and lo - 1e-9 <= got[0] <= hi + 1e-9, f"{what}: {self.name} parameter {j} is {got}, range [{lo}, {hi}]")
            vals.append(got[0])
        require(not f.is_inverse, f"{what}: gate marked as inverse")
        require(O.same(f.get_matrix(), O.embed(np.array(self.matrix(vals), dtype=complex), qs, n), 1e-6), f"{what}: {self.name} is another operation")
        return qs, vals


def gate_name(e, n):
    return e.get_full_unitary(2 ** n).get_operation_name()


def mk_specs(rs, n, count, allow_empty=True, maxk=3):
    specs = []
    odd = [x for x in CODE_NAMES if x] if rs.rand() < .3 else []
    odd = [odd[i] for i in rs.permutation(len(odd))]
    for i in range(count):
        k = rs.randint(1, min(n, maxk) + 1)
        allowed = None
        c = rs.rand()
        if c < .45:
            allowed = []
            for _ in range(rs.randint(1, 5)):
                q = [int(x) for x in rs.permutation(n)[:k]]
                if q not in allowed:
                    allowed.append(q)
        elif c < .6 and allow_empty:
            allowed = []
        specs.append(Spec(i, k, rs.choice([0, 0, 1, 2, 3]), allowed, rs, odd[i] if i < len(odd) else None))
    if not any(s.usable() for s in specs):
        specs[rs.randint(len(specs))] = Spec(len(specs), 1, 0, None, rs)
    return specs


def prim_snap(specs):
    return [(s.prim.get_unitary(), None if s.prim.get_allowed_apply_to() is None else [list(q) for q in s.prim.get_allowed_apply_to()],
             s.prim.get_unitary().get_operation_name(), s.prim.get_unitary().get_dimension(),
             s.prim.get_unitary().get_matrix().copy() if s.fam == 0 else [(p.get_parameter_name(), p.min_value, p.max_value, p.get_is_angle()) for p in s.prim.get_unitary().get_parameters()])
            for s in specs]


def same_prims(a, b):
    return all(x[0] is y[0] and x[1:4] == y[1:4] and (np.array_equal(x[4], y[4]) if isinstance(x[4], np.ndarray) else x[4] == y[4]) for x, y in zip(a, b))


def tol(N, p):
    return 8 * math.sqrt(N * p * (1 - p)) + 10 if 0 < p < 1 else 0


def freq(counts, probs, N, what):
    for k, p in probs.items():
        c = counts.get(k, 0)
        require(abs(c - N * p) <= tol(N, p), f"{what}: {k} drawn {c} times of {N}, expected about {N * p:.1f}")
    for k in counts:
        require(k in probs, f"{what}: {k} must never be drawn")


def mk_probs(rs, specs):
    w = rs.uniform(0.05, 1, len(specs))
    if len(specs) > 1 and rs.rand() < .5:
        j = rs.randint(len(specs))
        if sum(s.usable() for i, s in enumerate(specs) if i != j) > 0:
            w[j] = 0
    return w / w.sum()


# ---------------------------------------------------------------- C11
@scenario("C11", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3, 4]), "count": g.choice([1, 2, 3, 5]), "probs": g.choice([None, "list", "array"]), "arr": g.bool(.2)},
          weight=2, fixed=[{"seed": s, "n": n, "count": 3, "probs": q, "arr": False} for s, n, q in ((1, 2, None), (2, 3, "list"), (3, 1, "array"), (4, 4, None))])
def entry_draws(p):
    rs = np.random.RandomState(p["seed"])
    n, d = p["n"], 2 ** p["n"]
    specs = mk_specs(rs, n, p["count"])
    by = {s.name: s for s in specs}
    probs = None
    if p["probs"]:
        probs = mk_probs(rs, specs)
        if sum(q for q, s in zip(probs, specs) if s.usable()) <= 0:
            return
        if p["probs"] == "list":
            probs = [float(x) for x in probs]
    plist = [s.prim for s in specs]
    if p["arr"]:
        plist = np.array(plist, dtype=object)
    before, pb = prim_snap(specs), None if probs is None else list(probs)
    N = 60
    cn = {}
    for _ in range(N):
        e = ok(lambda: Compiler.create_random_sequence_entry(d, plist, probs), "create_random_sequence_entry")
        nm = gate_name(e, n)
        require(nm in by, f"gate {nm} is none of the primitives")
        by[nm].check(e, n, "random entry")
        require(by[nm].usable(), f"primitive {nm} may not be applied anywhere")
        cn[nm] = cn.get(nm, 0) + 1
    w = {s.name: (1.0 if probs is None else probs[i]) if s.usable() else 0.0 for i, s in enumerate(specs)}
    tot = sum(w.values())
    freq(cn, {k: v / tot for k, v in w.items() if v > 0}, N, "primitive choice")
    require(same_prims(before, prim_snap(specs)) and len(plist) == len(specs) and all(a is s.prim for a, s in zip(plist, specs)), "primitives were modified")
    require(probs is None or list(probs) == pb, "probabilities were modified")


@scenario("C11", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3, 4]), "probs": g.bool(.6), "N": 1500}, weight=1,
          fixed=[{"seed": 21, "n": 3, "probs": False, "N": 2500}, {"seed": 22, "n": 3, "probs": True, "N": 2500}, {"seed": 23, "n": 2, "probs": True, "N": 2500}])
def entry_statistics(p):
    rs = np.random.RandomState(p["seed"])
    n, d, N = p["n"], 2 ** p["n"], p["N"]
    specs = [Spec(0, 1, 0, None, rs), Spec(1, min(2, n), 0, None, rs), Spec(2, 1, 0, [[0], [n - 1]] if n > 1 else [[0]], rs), Spec(3, 1, 0, [], rs),
             Spec(4, min(2, n), 0, [[int(x) for x in rs.permutation(n)[:min(2, n)]]], rs), Spec(5, 1, 1, None, rs)]
    specs = [specs[i] for i in rs.permutation(6)]
    probs = None
    if p["probs"]:
        probs = list(mk_probs(rs, specs))
    cn, cq = {}, {}
    vals = []
    plist = [s.prim for s in specs]
    by = {s.name: s for s in specs}
    for _ in range(N):
        e = ok(lambda: Compiler.create_random_sequence_entry(d, plist, probs), "create_random_sequence_entry")
        f = e.get_full_unitary(d)
        nm, qs = f.get_operation_name(), tuple(int(q) for q in e.get_apply_to())
        cn[nm] = cn.get(nm, 0) + 1
        cq.setdefault(nm, {})[qs] = cq.setdefault(nm, {}).get(qs, 0) + 1
        if nm == "P5":
            vals.append(f.get_parameter_value("x0")[0])
    w = {s.name: (1.0 if probs is None else probs[i]) if s.usable() else 0.0 for i, s in enumerate(specs)}
    tot = sum(w.values())
    freq(cn, {k: v / tot for k, v in w.items() if v > 0}, N, "primitive choice")
    import itertools
    for nm, c in cq.items():
        s = by[nm]
        outs = [tuple(q) for q in s.allowed] if s.allowed is not None else list(itertools.permutations(range(n), s.k))
        freq(c, {q: 1 / len(outs) for q in outs}, sum(c.values()), f"qubits of {nm}")
    lo, hi, _ = by["P5"].ranges[0]
    if len(vals) > 100 and hi - lo > 1e-3:
        fr = [(v - lo) / (hi - lo) for v in vals]
        require(min(fr) > -1e-9 and max(fr) < 1 + 1e-9 and min(fr) < .3 and max(fr) > .7, "parameter values do not cover their range")


@scenario("C11", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3]), "count": g.choice([0, 1, 2, 3, 4])}, weight=2,
          fixed=[{"seed": s, "n": 2, "count": c} for s, c in ((1, 0), (2, 1), (3, 3))])
def layers(p):
    rs = np.random.RandomState(p["seed"])
    n, d = p["n"], 2 ** p["n"]
    specs = [s for s in mk_specs(rs, n, max(1, p["count"]), allow_empty=False)][:p["count"]]
    by = {s.name: s for s in specs}
    counts = {s.prim: int(rs.randint(0, 5)) for s in specs}
    cb = list(counts.items())
    before = prim_snap(specs)
    for _ in range(5):
        lay = ok(lambda: Compiler.create_random_layer(d, counts), "create_random_layer")
        names = [gate_name(e, n) for e in lay]
        for s in specs:
            require(names.count(s.name) == counts[s.prim], f"layer has {names.count(s.name)} of {s.name}, requested {counts[s.prim]}")
        require(len(lay) == sum(counts.values()), f"layer of {len(lay)} gates, requested {sum(counts.values())}")
        for e in lay:
            by[gate_name(e, n)].check(e, n, "layer")
    require(list(counts.items()) == cb and same_prims(before, prim_snap(specs)), "counts or primitives were modified")


@scenario("C11", lambda g: {"seed": g.seed(), "N": 600}, weight=.5, fixed=[{"seed": 5, "N": 1500}])
def layer_order(p):
    rs = np.random.RandomState(p["seed"])
    specs = [Spec(i, 1, 0, None, rs) for i in range(3)]
    counts = {specs[0].prim: 1, specs[1].prim: 2, specs[2].prim: 1}
    N = p["N"]
    pos = [{}, {}, {}, {}]
    params = []
    for _ in range(N):
        names = [gate_name(e, 2) for e in Compiler.create_random_layer(4, counts)]
        for i, nm in enumerate(names):
            pos[i][nm] = pos[i].get(nm, 0) + 1
        params.append(tuple(names))
    for i in range(4):
        freq(pos[i], {"P0": .25, "P1": .5, "P2": .25}, N, f"gate at place {i} of a random layer")
    require(len(set(params)) == 12, f"only {len(set(params))} of 12 orders occur")


# ---------------------------------------------------------------- compile helpers
def entry_keys(seq, n):
    out = []
    for e in seq.get_sequence_entries():
        f = e.get_full_unitary(2 ** n)
        out.append((f.get_operation_name(), tuple(int(q) for q in e.get_apply_to()), tuple((k, v[0]) for k, v in f.parameter_dict.items()), f.is_inverse))
    return out


def seq_matrix(seq, by, n):
    P = np.eye(2 ** n, dtype=complex)
    for e in seq.get_sequence_entries():
        s = by[gate_name(e, n)]
        f = e.get_full_unitary(2 ** n)
        v = [f.get_parameter_value(f"x{j}")[0] for j in range(len(s.ranges))]
        P = O.embed(np.array(s.matrix(v), dtype=complex), [int(q) for q in e.get_apply_to()], n) @ P
    return P


def gen_compile(g):
    return {"seed": g.seed(), "n": g.choice([1, 1, 2, 2, 3]), "count": g.choice([1, 2, 3, 4]), "steps": g.choice([0, 1, 2, 5, 12, 30, 60]),
            "thr": g.choice([None, None, 0.0, 0.3, 0.6, 0.8, 0.9, 0.97, 0.999, g.real(0, 1)]), "app": g.choice([0.5, 0.5, 0.8, 1.0, 0.0, 0.3]),
            "rate": g.choice([0.1, 0.1, 0.0, 1.0, 5.0, 100.0]), "probs": g.bool(.4), "layered": g.bool(.5), "reach": g.bool(.5), "empty": g.bool(.3)}


def setup(p):
    rs = np.random.RandomState(p["seed"])
    n, d = p["n"], 2 ** p["n"]
    specs = mk_specs(rs, n, p["count"], allow_empty=p["empty"] and not p["layered"], maxk=2)
    probs = [float(x) for x in mk_probs(rs, specs)] if p["probs"] else None
    if probs and sum(q for q, s in zip(probs, specs) if s.usable()) <= 0:
        probs = None
    T = O.haar(rs, d)
    if p["reach"]:
        T = np.eye(d, dtype=complex)
        for _ in range(rs.randint(0, 4)):
            s = specs[rs.randint(len(specs))]
            if s.usable():
                q = [int(x) for x in rs.permutation(n)[:s.k]] if s.allowed is None else s.allowed[0]
                v = [rs.uniform(lo, hi) for lo, hi, _ in s.ranges]
                T = O.embed(np.array(s.matrix(v), dtype=complex), q, n) @ T
    counts = {s.prim: int(rs.randint(0 if i else 1, 3)) for i, s in enumerate(specs)} if p["layered"] else None
    return rs, n, d, specs, probs, T, counts


def within(dist, thr):
    """Returns True/False, or None when too near the boundary to say."""
    lim = 1e-8 if thr is None else 1.0 - thr
    slack = 1e-10 if thr is None else 1e-9
    if thr == 0.0:
        return True
    return None if abs(dist - lim) < slack else dist < lim


def do_compile(p, specs, probs, target, counts, steps, seed, comp=None):
    seed_all(seed)
    comp = comp or ok(lambda: Compiler(2 ** p["n"], [s.prim for s in specs], probs, append_probability=p["app"], annealing_rate=p["rate"]), "Compiler")
    if counts is not None:
        return ok(lambda: comp.compile_layered(target, counts, p["thr"], steps), "compile_layered")
    return ok(lambda: comp.compile(target, p["thr"], steps), "compile")


def check_result(r, by, n, T, thr, steps, what):
    trace = list(r.cost_by_step)
    seq = r.compiled_sequence
    for e in seq.get_sequence_entries():
        nm = gate_name(e, n)
        require(nm in by, f"{what}: gate {nm} is none of the primitives")
        by[nm].check(e, n, what)
    P = seq_matrix(seq, by, n)
    require(O.same(seq.product().get_matrix(), P, 1e-6), f"{what}: product of the compiled sequence is wrong")
    dist = O.distance(T, P)
    require(len(trace) <= steps, f"{what}: {len(trace)} steps recorded, limit {steps}")
    w = within(dist, thr)
    require(w is not False or len(trace) == steps, f"{what}: stopped after {len(trace)} of {steps} steps at distance {dist}, threshold {thr}")
    if trace:
        require(abs(trace[-1] - dist) < 1e-7, f"{what}: last cost {trace[-1]}, but the distance is {dist}")
        d0 = O.distance(T, np.eye(2 ** n))
        require(within(d0, thr) is not True, f"{what}: steps made although the identity is within {thr} (distance {d0})")
        for i, c in enumerate(trace[:-1]):
            require(within(c, thr) is not True, f"{what}: continued after step {i + 1} at distance {c}, threshold {thr}")
    else:
        require(seq.get_length() == 0, f"{what}: no step recorded but {seq.get_length()} gates")
    for c in trace:
        require(-1e-9 <= c <= 1 + 1e-9, f"{what}: cost {c}")
    return P, dist


# ---------------------------------------------------------------- C12
@scenario("C12", gen_compile, weight=3)
def result_and_trace(p):
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    target = Unitary(d, T, "target", {"a": (1.0, True)})
    tb = target.get_matrix().copy()
    before = prim_snap(specs)
    cb = None if counts is None else list(counts.items())
    what = "layered" if p["layered"] else "compile"
    r = do_compile(p, specs, probs, target, counts, p["steps"], p["seed"])
    check_result(r, by, n, T, p["thr"], p["steps"], what)
    require(np.array_equal(tb, target.get_matrix()) and target.get_operation_name() == "target" and target.parameter_dict == {"a": (1.0, True)}, "target modified")
    require(same_prims(before, prim_snap(specs)), "primitives modified")
    require(counts is None or list(counts.items()) == cb, "counts modified")


@scenario("C12", gen_compile, weight=3)
def trace_is_distance_after_each_step(p):
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    K = min(p["steps"], 14)
    full = do_compile(p, specs, probs, Unitary(d, T), counts, K, p["seed"])
    again = do_compile(p, specs, probs, Unitary(d, T), counts, K, p["seed"])
    if entry_keys(full.compiled_sequence, n) != entry_keys(again.compiled_sequence, n):
        return
    tr = list(full.cost_by_step)
    for k in range(0, len(tr) + 1):
        r = do_compile(p, specs, probs, Unitary(d, T), counts, k, p["seed"])
        t = list(r.cost_by_step)
        require(np.allclose(t, tr[:k], atol=1e-12) if len(t) == k else False, f"trace with step limit {k} is {t}, with {K} it is {tr}")
        check_result(r, by, n, T, p["thr"], k, f"step limit {k}")


def other_counts(rs, specs):
    return {s.prim: int(rs.randint(0 if i else 1, 4)) for i, s in enumerate(specs)}


@scenario("C12", lambda g: dict(gen_compile(g), n=g.choice([1, 1, 2]), empty=False), weight=2)
def repeated_use(p):
    """One compiler, several targets (some twice, as the same object), both kinds of compilation: each result satisfies
    the guarantee and is left alone by the next."""
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    comp = Compiler(d, [s.prim for s in specs], probs, append_probability=p["app"], annealing_rate=p["rate"])
    targets = [Unitary(d, T), Unitary(d, O.haar(rs, d)), Unitary(d)]
    kept = []
    for i in range(5):
        u = targets[0 if i in (0, 1, 4) else rs.randint(3)]
        c = counts if i < 2 else other_counts(rs, specs) if rs.rand() < .5 else None
        steps = [p["steps"], p["steps"], 7, 3, p["steps"]][i]
        r = do_compile(p, specs, probs, u, c, steps, p["seed"] + i, comp)
        check_result(r, by, n, u.get_matrix(), p["thr"], steps, f"use {i + 1} of one compiler")
        kept.append((r, entry_keys(r.compiled_sequence, n), list(r.cost_by_step)))
    for r, keys, trace in kept:
        require(entry_keys(r.compiled_sequence, n) == keys and list(r.cost_by_step) == trace, "a result changed when the compiler was used again")


@scenario("C12", lambda g: {"seed": g.seed(), "layered": g.bool()}, weight=.5, fixed=[{"seed": 1, "layered": False}, {"seed": 2, "layered": True}])
def default_limits(p):
    """Without limits the compilation runs until it is close."""
    prims = [UnitaryPrimitive(UnitaryDefinitions.rx(np.pi / 2)), UnitaryPrimitive(UnitaryDefinitions.ry(np.pi / 2))]
    seed_all(p["seed"])
    comp = Compiler(2, prims)
    target = UnitaryDefinitions.sigmaz()
    r = ok(lambda: comp.compile_layered(target, {prims[0]: 1, prims[1]: 1}, 0.9) if p["layered"] else comp.compile(target), "compile without limits")
    dist = O.distance(target.get_matrix(), r.compiled_sequence.product().get_matrix())
    require(dist < (0.1 if p["layered"] else 1e-8) + 1e-9, f"stopped at distance {dist}")
    require(len(r.cost_by_step) > 0 and abs(r.cost_by_step[-1] - dist) < 1e-9, "last cost")
    refuses(lambda: comp.compile(None), "compiling None")
    refuses(lambda: comp.compile_layered(None, {prims[0]: 1}), "compiling None")
    refuses(lambda: Compiler(2, []).compile(target), "compiling without primitives")
    refuses(lambda: comp.compile_layered(target, [prims[0]]), "layered compilation without counts")


# ---------------------------------------------------------------- C13
@scenario("C13", lambda g: dict(gen_compile(g), thr=None, reach=False, steps=g.choice([6, 12, 18])), weight=3)
def one_move_per_step(p):
    rs, n, d, specs, probs, T, counts = setup(p)
    size = 1 if counts is None else sum(counts.values())
    K = p["steps"]
    prev = None
    a = do_compile(p, specs, probs, Unitary(d, T), counts, K, p["seed"])
    b = do_compile(p, specs, probs, Unitary(d, T), counts, K, p["seed"])
    if entry_keys(a.compiled_sequence, n) != entry_keys(b.compiled_sequence, n):
        return
    for k in range(0, len(a.cost_by_step) + 1):
        r = do_compile(p, specs, probs, Unitary(d, T), counts, k, p["seed"])
        cur, tr = entry_keys(r.compiled_sequence, n), list(r.cost_by_step)
        if prev is not None:
            x, y = prev
            ok_move = (cur == x or (len(cur) == len(x) + size and (cur[size:] == x or cur[:len(x)] == x))
                       or (len(cur) == len(x) - size and (x[size:] == cur or x[:len(cur)] == cur)))
            require(ok_move, f"step {k} turned {x} into {cur}")
        else:
            require(cur == [], "sequence before the first step is not empty")
        prev = (cur, tr)


def chain(costs, p, rate, max_beta, steps):
    """Exact law of the number of layers after some steps of the Metropolis chain."""
    dist = {0: 1.0}
    beta = 0.0
    for _ in range(steps):
        beta = min(beta + rate, max_beta)
        new = {}
        for m, q in dist.items():
            for to, w in ((m + 1, p), (max(0, m - 1), 1 - p)):
                acc = min(1.0, math.exp(-beta * (costs(to) - costs(m))))
                new[to] = new.get(to, 0) + q * w * acc
                new[m] = new.get(m, 0) + q * w * (1 - acc)
        dist = new
    return dist


CHAIN_FIXED = [
    # (angle, target angle, append probability, rate, steps, dimension, layered)
    (2.5, 5.0, 1.0, 1.0, 1, 1, False), (2.5, 5.0, 1.0, 0.7, 2, 1, False), (2.5, 5.0, 0.5, 0.5, 4, 1, False), (1.1, 3.0, 0.7, 2.0, 5, 1, False),
    (0.9, 1.2, 0.3, 3.0, 5, 1, False), (0.35, 5.9, 1.0, 1000.0, 2, 1, False), (1.1, 3.0, 0.6, 0.0, 5, 1, False), (0.8, 2.9, 0.5, 0.1, 6, 1, False),
    (2.5, 5.0, 1.0, 1.0, 1, 1, True), (1.1, 3.0, 0.7, 2.0, 4, 1, True), (0.35, 5.9, 1.0, 1000.0, 2, 1, True), (1.1, 3.0, 0.6, 0.0, 4, 1, True)]


@scenario("C13", lambda g: {"seed": g.seed(), "a": g.real(.2, 3), "t": g.real(.2, 6), "p": g.choice([1.0, .5, .8, .3, g.real(0, 1)]), "rate": g.choice([0.0, .1, .5, 1.0, 3.0, 50.0, 1000.0]),
                            "steps": g.choice([1, 1, 2, 3, 5]), "n": g.choice([1, 1, 1, 2]), "layered": g.bool(.4), "N": 250},
          weight=2, fixed=[{"seed": i, "a": c[0], "t": c[1], "p": c[2], "rate": c[3], "steps": c[4], "n": c[5], "layered": c[6], "N": 500}
                           for i, c in enumerate(CHAIN_FIXED)],
          thorough=[{"seed": i, "a": c[0], "t": c[1], "p": c[2], "rate": c[3], "steps": c[4], "n": c[5], "layered": c[6], "N": 4000}
                    for i, c in enumerate(CHAIN_FIXED)])
def metropolis_law(p):
    """One fixed rotation as only primitive: the number of gates is a Markov chain with a known law."""
    a, t, n, N = p["a"], p["t"], p["n"], p["N"]
    d = 2 ** n
    per = 2 if p["layered"] else 1
    prim = UnitaryPrimitive(Unitary(2, O.herm_exp(O.X, -a / 2), "G"), [[0]])
    T = O.embed(O.herm_exp(O.X, -t / 2), [0], n)

    def cost(m):
        return 1 - abs(math.cos((m * per * a - t) / 2))
    max_beta = float((2 ** d) ** 2)
    if any(cost(m) < 1e-3 for m in range(p["steps"] + 1)):
        return
    law = chain(cost, p["p"], p["rate"], max_beta, p["steps"])
    target = Unitary(d, T)
    cnt = {}
    for i in range(N):
        comp = Compiler(d, [prim], append_probability=p["p"], annealing_rate=p["rate"])
        r = comp.compile_layered(target, {prim: 2}, None, p["steps"]) if p["layered"] else comp.compile(target, None, p["steps"])
        m = r.compiled_sequence.get_length()
        require(m % per == 0, "partial layer")
        m //= per
        cnt[m] = cnt.get(m, 0) + 1
        require(abs(r.cost_by_step[-1] - cost(m)) < 1e-7, f"cost {r.cost_by_step[-1]} with {m} layers, expected {cost(m)}")
        tr = [1 - abs(math.cos(t / 2))] + list(r.cost_by_step)
        require(len(tr) == p["steps"] + 1, "one cost per step")
        _ = tr
    freq(cnt, {m: q for m, q in law.items() if q > 1e-14}, N, f"number of layers after {p['steps']} steps (append {p['p']}, rate {p['rate']})")


STEP_FIXED = [(1.3, .9, .5, .3, 24, False), (.31, 2.2, .5, .6, 24, False), (.31, 3.0, .6, 4.0, 20, False), (2.1, 1.0, .4, .1, 30, False), (.9, 1.7, .5, 1.0, 24, True),
              (.17, 2.6, .5, 5.0, 16, True), (1.9, .6, .7, .2, 24, True), (2.7, 2.9, .5, 0.02, 40, False)]


@scenario("C13", lambda g: {"seed": g.seed(), "a": g.real(.1, 3), "t": g.real(.2, 6), "p": g.choice([.5, .5, .7, .3, g.real(0, 1)]), "rate": g.choice([0.02, .1, .3, 1.0, 4.0]),
                            "steps": g.choice([12, 24, 40]), "layered": g.bool(.4), "N": 60},
          weight=2, fixed=[{"seed": i, "a": c[0], "t": c[1], "p": c[2], "rate": c[3], "steps": c[4], "layered": c[5], "N": 120} for i, c in enumerate(STEP_FIXED)])
def metropolis_steps(p):
    """Every single step of runs with one fixed rotation, read off the cost trace, against its transition probabilities."""
    a, t, N = p["a"], p["t"], p["N"]
    per = 2 if p["layered"] else 1
    prim = UnitaryPrimitive(Unitary(2, O.herm_exp(O.X, -a / 2), "G"), [[0]])
    target = Unitary(2, O.herm_exp(O.X, -t / 2))
    cost = [1 - abs(math.cos((m * per * a - t) / 2)) for m in range(p["steps"] + 2)]
    if min(cost) < 1e-4 or any(abs(x - y) < 1e-5 for m in range(1, len(cost) - 1) for x, y in ((cost[m], cost[m + 1]), (cost[m], cost[m - 1]), (cost[m - 1], cost[m + 1]))):
        return
    cells = {}
    for _ in range(N):
        comp = Compiler(2, [prim], append_probability=p["p"], annealing_rate=p["rate"])
        r = comp.compile_layered(target, {prim: 2}, None, p["steps"]) if p["layered"] else comp.compile(target, None, p["steps"])
        m, tr = 0, list(r.cost_by_step)
        require(len(tr) == p["steps"], f"{len(tr)} steps recorded, limit {p['steps']}, never close")
        for s, c in enumerate(tr, 1):
            beta = min(p["rate"] * s, 16.0)
            new = [k for k in {m - 1, m, m + 1} if k >= 0 and abs(cost[k] - c) < 1e-6]
            require(len(new) == 1, f"step {s} from {m} layers has cost {c}, expected one of {[cost[k] for k in (m - 1, m, m + 1) if k >= 0]}")
            for to, w in ((m + 1, p["p"]), (m - 1, 1 - p["p"])):
                if to < 0:
                    continue
                d = cost[to] - cost[m]
                q = w * min(1.0, math.exp(-beta * d))
                x = float(new[0] == to)
                b = 0 if s <= 2 else 1 if s <= 5 else 2 if s <= 10 else 3 if s <= 18 else 4
                for key in ((to > m, d > 0, b), (to > m, d > 0, "all"), (d > 0, "d%d" % min(4, int(abs(d) * 8)))):
                    o = cells.setdefault(key, [0.0, 0.0, 0.0, 0])
                    o[0] += x
                    o[1] += q
                    o[2] += q * (1 - q)
                    o[3] += 1
            m = new[0]
    for key, (x, mean, var, cnt) in cells.items():
        require(abs(x - mean) <= 7 * math.sqrt(var) + 8, f"steps of kind {key}: {x:.0f} of {cnt} taken, expected {mean:.1f} +- {math.sqrt(var):.1f} (append {p['p']}, rate {p['rate']})")


@scenario("C13", lambda g: {"seed": g.seed(), "p": g.choice([.5, .7, .3]), "layered": g.bool(), "runs": 12, "K": 12}, weight=1,
          fixed=[{"seed": 1, "p": .5, "layered": False, "runs": 40, "K": 12}, {"seed": 2, "p": .6, "layered": True, "runs": 30, "K": 10}])
def ends_are_even(p):
    """With annealing rate 0 every proposal is kept: count additions and removals per end."""
    rs = np.random.RandomState(p["seed"])
    spec = Spec(0, 1, 1, None, rs)
    spec.ranges = [(0.0, 3.0, False)]
    spec.prim = UnitaryPrimitive(ParameterizedUnitary(2, lambda x: O.herm_exp(O.X + .3 * O.Z, x), [ParameterizedUnitaryParameter("x0", 0, 3, False)], "P0"), [[0]])
    T = O.haar(rs, 2)
    q = {"n": 1, "thr": None, "app": p["p"], "rate": 0.0}
    counts = {spec.prim: 2} if p["layered"] else None
    size = 2 if p["layered"] else 1
    c = {"add first": 0, "add last": 0, "remove first": 0, "remove last": 0}
    adds = rems = 0
    for run in range(p["runs"]):
        prev = None
        for k in range(0, p["K"] + 1):
            r = do_compile(q, [spec], None, Unitary(2, T), counts, k, p["seed"] * 1000 + run)
            cur = entry_keys(r.compiled_sequence, 1)
            if prev:
                if len(cur) == len(prev) + size:
                    adds += 1
                    if cur[size:] == prev:
                        c["add first"] += 1
                    elif cur[:len(prev)] == prev:
                        c["add last"] += 1
                    else:
                        return   # not deterministic under the seed
                elif len(cur) == len(prev) - size:
                    rems += 1
                    if len(prev) > size:
                        if prev[size:] == cur:
                            c["remove first"] += 1
                        elif prev[:len(cur)] == cur:
                            c["remove last"] += 1
                        else:
                            return
                else:
                    return
            prev = cur
    N = adds + rems
    freq({"add": adds, "remove": rems}, {"add": p["p"], "remove": 1 - p["p"]}, N, "proposals on a non-empty sequence")
    for kind in ("add", "remove"):
        k = c[kind + " first"] + c[kind + " last"]
        if k > 30:
            freq({x: c[kind + " " + x] for x in ("first", "last")}, {"first": .5, "last": .5}, k, f"end of {kind}")


# ---------------------------------------------------------------- C14
def check_layers(seq, specs, counts, n, what):
    size = sum(counts.values())
    names = [gate_name(e, n) for e in seq.get_sequence_entries()]
    if size == 0:
        require(not names, f"{what}: gates although layers are empty")
        return 0
    require(len(names) % size == 0, f"{what}: {len(names)} gates, layers of {size}")
    for b in range(0, len(names), size):
        for s in specs:
            c = names[b:b + size].count(s.name)
            require(c == counts.get(s.prim, 0), f"{what}: layer {b // size} has {c} of {s.name}, requested {counts.get(s.prim, 0)}")
    return len(names) // size


@scenario("C14", lambda g: dict(gen_compile(g), layered=True), weight=3)
def whole_layers(p):
    rs, n, d, specs, probs, T, counts = setup(p)
    counts = {s.prim: int(rs.randint(0, 4)) for s in specs}
    if sum(counts.values()) == 0:
        counts[specs[0].prim] = 1
    by = {s.name: s for s in specs}
    r = do_compile(p, specs, probs, Unitary(d, T), counts, p["steps"], p["seed"])
    check_layers(r.compiled_sequence, specs, counts, n, f"after {len(r.cost_by_step)} steps")
    for e in r.compiled_sequence.get_sequence_entries():
        by[gate_name(e, n)].check(e, n, "layered")
    P = seq_matrix(r.compiled_sequence, by, n)
    require(O.same(r.compiled_sequence.product().get_matrix(), P, 1e-6), "product of the layered sequence")
    if r.cost_by_step:
        require(abs(r.cost_by_step[-1] - O.distance(T, P)) < 1e-7, "last cost")


@scenario("C14", lambda g: dict(gen_compile(g), layered=True, n=g.choice([1, 1, 2]), steps=g.choice([5, 12, 20]), app=g.choice([.5, .7])), weight=2)
def whole_layers_again(p):
    """One compiler, several layer specifications."""
    rs, n, d, specs, probs, T, counts = setup(p)
    comp = Compiler(d, [s.prim for s in specs], probs, append_probability=p["app"], annealing_rate=p["rate"])
    for i in range(4):
        counts = other_counts(rs, specs)
        r = do_compile(p, specs, probs, Unitary(d, T), counts, p["steps"], p["seed"] + i, comp)
        check_layers(r.compiled_sequence, specs, counts, n, f"use {i + 1} of one compiler")


@scenario("C14", lambda g: dict(gen_compile(g), layered=True, rate=g.choice([.1, 2.0, 50.0, 1000.0]), thr=None, reach=False), weight=2)
def whole_layers_each_step(p):
    rs, n, d, specs, probs, T, counts = setup(p)
    counts = {s.prim: int(rs.randint(1, 4)) for s in specs}
    for k in range(0, 12):
        r = do_compile(p, specs, probs, Unitary(d, T), counts, k, p["seed"])
        require(len(r.cost_by_step) == k, "step count")
        check_layers(r.compiled_sequence, specs, counts, n, f"after {k} steps")


# ---------------------------------------------------------------- C15
def gen_rav(g):
    return dict(gen_compile(g), len=g.choice([0, 1, 2, 3, 6, 10, g.small(0, 40)]), thr=g.choice([0.0, 0.3, 0.5, 0.7, 0.9, 0.97, g.real(0, 1)]), kw=g.bool(.5))


@scenario("C15", gen_rav, weight=3)
def rav(p):
    p = dict(p, layered=False)
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    L, thr, steps = p["len"], p["thr"], p["steps"]
    zero = {s.name for s, q in zip(specs, probs) if q == 0} if probs else set()
    before = prim_snap(specs)
    args = dict(stoq_append_probability=p["app"], unitary_primitive_probabilities=probs, max_step_count=steps)
    seed_all(p["seed"])
    r = ok(lambda: Verification.generate_rav_sequence(d, [s.prim for s in specs], L, thr, **args), "generate_rav_sequence")
    seq, trace = r.compiled_sequence, list(r.cost_by_step)
    for e in seq.get_sequence_entries():
        nm = gate_name(e, n)
        require(nm in by and nm not in zero, f"RAV uses gate {nm}")
        by[nm].check(e, n, "RAV")
    P = seq_matrix(seq, by, n)
    check_verification(p, n, d, seq, P, trace, L, thr, steps, "RAV")
    require(same_prims(before, prim_snap(specs)), "primitives modified")
    if p["app"] == 0.0:
        require(seq.get_length() == L, f"append probability 0, but {seq.get_length() - L} gates were compiled")
    if p["app"] == 1.0 and steps and thr and p["rate"] and trace:
        pass
    seed_all(p["seed"])
    r0 = Verification.generate_rav_sequence(d, [s.prim for s in specs], L, thr, **dict(args, max_step_count=0))
    seed_all(p["seed"])
    r1 = Verification.generate_rav_sequence(d, [s.prim for s in specs], L, thr, **dict(args, max_step_count=0))
    a, b = entry_keys(r0.compiled_sequence, n), entry_keys(r1.compiled_sequence, n)
    if a == b:
        require(entry_keys(seq, n)[:L] == a, "the RAV sequence does not begin with the random gates")


def check_verification(p, n, d, seq, P, trace, L, thr, steps, what):
    require(O.same(seq.product().get_matrix(), P, 1e-6), f"{what}: product of the sequence is wrong")
    if thr == 0.0 or steps == 0:
        require(seq.get_length() == L and trace == [], f"{what}: length {seq.get_length()} instead of {L}, or a trace, with threshold {thr} and {steps} steps")
        return
    require(seq.get_length() >= L, f"{what}: {seq.get_length()} gates, {L} requested")
    dist = O.distance(np.eye(d), P)
    require(len(trace) <= steps, f"{what}: {len(trace)} steps, limit {steps}")
    require(within(dist, thr) is not False or len(trace) == steps, f"{what}: product at distance {dist} from the identity after {len(trace)} of {steps} steps, threshold {thr}")
    if trace:
        require(abs(trace[-1] - dist) < 1e-7, f"{what}: trace ends at {trace[-1]}, distance from the identity is {dist}")
        for c in trace[:-1]:
            require(within(c, thr) is not True, f"{what}: continued at distance {c}, threshold {thr}")
    else:
        require(seq.get_length() == L, f"{what}: no steps, but {seq.get_length()} gates instead of {L}")


@scenario("C15", lambda g: dict(gen_rav(g), len=g.choice([0, 1, 2, 3, 5])), weight=3)
def layered_rav(p):
    p = dict(p, layered=True)
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    L, thr, steps = p["len"], p["thr"], p["steps"]
    size = sum(counts.values())
    seed_all(p["seed"])
    r = ok(lambda: Verification.generate_layered_rav_sequence(d, counts, L, thr, stoq_append_probability=p["app"], max_step_count=steps), "generate_layered_rav_sequence")
    seq, trace = r.compiled_sequence, list(r.cost_by_step)
    for e in seq.get_sequence_entries():
        nm = gate_name(e, n)
        require(nm in by, f"layered RAV uses gate {nm}")
        by[nm].check(e, n, "layered RAV")
    check_layers(seq, specs, counts, n, "layered RAV")
    P = seq_matrix(seq, by, n)
    check_verification(p, n, d, seq, P, trace, L * size, thr, steps, "layered RAV")
    if p["app"] == 0.0:
        require(seq.get_length() == L * size, "append probability 0, but layers were compiled")
    seed_all(p["seed"])
    r0 = Verification.generate_layered_rav_sequence(d, counts, L, thr, max_step_count=0)
    seed_all(p["seed"])
    r1 = Verification.generate_layered_rav_sequence(d, counts, L, thr, max_step_count=0)
    a, b = entry_keys(r0.compiled_sequence, n), entry_keys(r1.compiled_sequence, n)
    if a == b:
        require(entry_keys(seq, n)[:L * size] == a, "the layered RAV sequence does not begin with the random layers")


@scenario("C15", lambda g: dict(gen_rav(g), len=g.choice([0, 1, 2, 3, 5, 9])), weight=1)
def xeb(p):
    p = dict(p, layered=True)
    rs, n, d, specs, probs, T, counts = setup(p)
    by = {s.name: s for s in specs}
    r = ok(lambda: Verification.generate_xeb_sequence(d, counts, p["len"]), "generate_xeb_sequence")
    seq = r.compiled_sequence
    require(list(r.cost_by_step) == [], "XEB has a cost trace")
    require(seq.get_length() == p["len"] * sum(counts.values()), f"XEB has {seq.get_length()} gates")
    check_layers(seq, specs, counts, n, "XEB")
    for e in seq.get_sequence_entries():
        by[gate_name(e, n)].check(e, n, "XEB")
    require(O.same(seq.product().get_matrix(), seq_matrix(seq, by, n), 1e-6), "XEB product")


@scenario("C15", lambda g: {"seed": g.seed(), "N": 300}, weight=.5, fixed=[{"seed": 1, "N": 600}])
def rav_probabilities(p):
    """The given probabilities govern the random part and the compiled part."""
    rs = np.random.RandomState(p["seed"])
    specs = [Spec(i, 1, 0, None, rs) for i in range(3)]
    probs = [.7, .2, .1]
    r = Verification.generate_rav_sequence(2, [s.prim for s in specs], p["N"], 0.0, unitary_primitive_probabilities=probs)
    names = [gate_name(e, 1) for e in r.compiled_sequence.get_sequence_entries()]
    freq({k: names.count(k) for k in set(names)}, dict(zip(["P0", "P1", "P2"], probs)), p["N"], "random part")
    names = []
    for _ in range(8):
        r = Verification.generate_rav_sequence(2, [s.prim for s in specs], 0, 1.0 - 1e-13, unitary_primitive_probabilities=[0.0, 1.0, 0.0], max_step_count=20)
        r = Verification.generate_rav_sequence(2, [s.prim for s in specs], 3, 0.999999, unitary_primitive_probabilities=[0.0, 0.0, 1.0], max_step_count=30)
        names += [gate_name(e, 1) for e in r.compiled_sequence.get_sequence_entries()]
    require(set(names) <= {"P2"}, "a primitive of probability 0 was used")
    # append probability of the compiled part: a rate of growth
    for app, lo, hi in ((1.0, 1, 10 ** 9), (0.0, 0, 0)):
        extra = 0
        for _ in range(20):
            r = Verification.generate_rav_sequence(2, [s.prim for s in specs], 2, 1.0 - 1e-12, stoq_append_probability=app, max_step_count=5)
            extra += r.compiled_sequence.get_length() - 2
        require(lo <= extra <= hi, f"{extra} compiled gates with append probability {app}")


_ = UnitarySequence
