"""C06-C10 and C19 (sequences)."""
import numpy as np

from core import scenario, ok, refuses, require
import oracle as O
from scen_unitary import mk_unitary, mk_params, pick_name, exp_display, exp_qasm, exp_jaqal
from stoqcompiler.unitary import (
    Unitary, UnitaryDefinitions, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry, ParameterizedUnitary,
    ParameterizedUnitaryDefinitions, ParameterizedUnitaryParameter)
from stoqcompiler.compiler import Compiler
from stoqcompiler.verification import Verification


# ---------------------------------------------------------------- C06
@scenario("C06", fixed=[{"seed": 100 + n, "n": n} for n in (1, 2, 3, 4, 5)], thorough=[{"seed": 106, "n": 6}])
def every_placement(p):
    """Exhaustive: every ordered list of distinct qubits of an n-qubit system, one generic unitary per size."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    us = {k: O.haar(rs, 2 ** k) for k in range(1, n + 1)}
    for qs in O.ordered_subsets(n, n):
        k = len(qs)
        u = Unitary(2 ** k, us[k], "G", {"t": (1.5, False)}, is_inverse=bool(sum(qs) % 2))
        e = ok(lambda: UnitarySequenceEntry(u, list(qs)), f"entry on {qs}")
        f = ok(lambda: e.get_full_unitary(2 ** n), f"full operator of {qs} in {n} qubits")
        require(O.same(f.get_matrix(), O.embed(us[k], list(qs), n)), f"full operator on qubits {list(qs)} of {n} is wrong")
        require(list(f.apply_to) == list(qs) and f.is_inverse == u.is_inverse, f"qubits or marker lost for {qs}")


@scenario("C06", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3, 3, 4, 4, 5, 6]) if g.bool(.9) else g.int(1, 8), "kind": g.choice(O.KINDS),
                            "tuple": g.bool(.3)}, weight=2,
          fixed=[{"seed": 7, "n": n, "kind": "haar", "tuple": False} for n in (6, 7)])
def placement(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    k = rs.randint(1, min(n, 5) + 1)
    qs = [int(x) for x in rs.permutation(n)[:k]]
    M = O.rand_unitary(rs, 2 ** k, p["kind"])
    pd = mk_params(rs)
    u = Unitary(2 ** k, M, pick_name(rs), dict(pd), is_inverse=bool(rs.randint(2)))
    e = ok(lambda: UnitarySequenceEntry(u, tuple(qs) if p["tuple"] else list(qs)), f"entry on {qs}")
    require(list(e.get_apply_to()) == qs and e.get_dimension() == 2 ** k, "qubits or dimension of the entry")
    need = max(max(qs) + 1, k)
    sizes = [m for m in range(need, min(8, max(n, need) + 2) + 1)]
    history = [sizes[rs.randint(len(sizes))] for _ in range(rs.randint(1, 6))] + [n]
    keep = {}
    for m in history:
        d = 2 ** m
        f = ok(lambda: e.get_full_unitary(d), f"full operator of {qs} in {m} qubits")
        require(f.get_dimension() == d, f"dimension {f.get_dimension()} requested {d}")
        require(O.same(f.get_matrix(), O.embed(M, qs, m)), f"operator on qubits {qs} of {m} is wrong (requests so far {history})")
        require(f.get_operation_name() == u.get_operation_name(), "operation name lost")
        require(dict(f.parameter_dict) == pd and list(f.parameter_dict) == list(pd), "parameters lost")
        require([int(q) for q in f.apply_to] == qs, "qubit list lost")
        require(f.is_inverse == u.is_inverse, "inverse marker lost")
        if m in keep:
            require(np.allclose(keep[m], f.get_matrix(), atol=1e-12), "answer changed on repetition")
        keep[m] = f.get_matrix().copy()
        if rs.rand() < .3 and need > 1:
            refuses(lambda: e.get_full_unitary(2 ** rs.randint(0, need)), f"system too small for qubits {qs}")
    for m in range(0, need):
        refuses(lambda: e.get_full_unitary(2 ** m), f"a {m}-qubit system cannot contain qubits {qs}")
    require(O.same(u.get_matrix(), M) and list(e.get_apply_to()) == qs, "embedding changed the entry")
    f = ok(lambda: e.get_full_unitary(2 ** n), "again")
    require(O.same(f.get_matrix(), O.embed(M, qs, n)), "later answer differs")


@scenario("C06", lambda g: {"seed": g.seed(), "n": g.choice([2, 3, 4, 5])})
def two_entries_one_unitary(p):
    """Entries do not influence each other, even on one operation object."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    k = rs.randint(1, n + 1)
    u = mk_unitary(rs, 2 ** k)
    M = u.get_matrix().copy()
    es = []
    for _ in range(4):
        qs = [int(x) for x in rs.permutation(n)[:k]]
        es.append((qs, UnitarySequenceEntry(u, list(qs))))
    for _ in range(8):
        qs, e = es[rs.randint(4)]
        m = n + rs.randint(0, 2)
        require(O.same(e.get_full_unitary(2 ** m).get_matrix(), O.embed(M, qs, m)), f"operator on {qs} of {m}")
        require([int(q) for q in e.get_full_unitary(2 ** m).apply_to] == qs, "qubit list")


# ---------------------------------------------------------------- C07-C09: histories
class Ent:
    """Model of one entry."""

    def __init__(self, M, qs, name, pd, inv):
        self.M, self.qs, self.name, self.pd, self.inv = M, list(qs), name, dict(pd), inv

    def full(self, n):
        return O.embed(self.M, self.qs, n)

    def inverse(self):
        return Ent(self.M.conj().T, self.qs, self.name, self.pd, not self.inv)


def rand_entry(rs, n):
    k = rs.randint(1, min(n, 3) + 1)
    qs = [int(x) for x in rs.permutation(n)[:k]]
    kind = ["haar", "haar", "monomial", "real", "diag", "perm", "near"][rs.randint(7)]
    M = O.rand_unitary(rs, 2 ** k, kind)
    name, pd, inv = pick_name(rs), mk_params(rs, rs.randint(0, 3)), bool(rs.randint(4) == 0)
    u = Unitary(2 ** k, M, name, dict(pd), is_inverse=inv)
    return UnitarySequenceEntry(u, list(qs)), Ent(np.array(M, dtype=complex), qs, name, pd, inv), u


def check_entries(seq, model, n, what):
    got = ok(seq.get_sequence_entries, "get_sequence_entries")
    require(len(got) == len(model), lambda: f"{what}: {len(got)} entries, expected {len(model)}")
    require(ok(seq.get_length, "get_length") == len(model), f"{what}: get_length is {seq.get_length()}, expected {len(model)}")
    for i, (e, m) in enumerate(zip(got, model)):
        f = ok(lambda: e.get_full_unitary(2 ** n), "full operator")
        require([int(q) for q in e.get_apply_to()] == m.qs, f"{what}: entry {i} acts on {e.get_apply_to()}, expected {m.qs}")
        require(O.same(f.get_matrix(), m.full(n), 1e-6), f"{what}: entry {i} is another operation")
        require(f.get_operation_name() == m.name and dict(f.parameter_dict) == m.pd and f.is_inverse == m.inv,
                f"{what}: entry {i} has other name, parameters or marker")


def prod_of(model, n):
    P = np.eye(2 ** n, dtype=complex)
    for m in model:
        P = m.full(n) @ P
    return P


def check_product(seq, model, n, what):
    P = ok(seq.product, "product")
    require(isinstance(P, Unitary), f"{what}: product is {type(P)}")
    require(P.get_dimension() == 2 ** n, f"{what}: product dimension")
    d = O.phase_diff(P.get_matrix(), prod_of(model, n))
    require(d < 1e-6, f"{what}: product differs from the product of the {len(model)} current entries by {d:.3g}")


OPS = ["append_first", "append_last", "remove_first", "remove_last", "undo", "product", "entries", "text", "combine", "inverse", "ctor", "self", "mutlist", "append_shared", "append_handed"]


def history(p, focus):
    """A random history over a pool of sequences, compared with a list model after every step."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    d = 2 ** n
    pool = []   # [seq, model entries, undo entries or None]
    shared = []  # (entry object, model)

    def new_seq(length):
        es, ms = [], []
        for _ in range(length):
            if es and rs.rand() < .3:
                j = rs.randint(len(es))
                es.append(es[j])
                ms.append(ms[j])
            elif shared and rs.rand() < .3:
                j = rs.randint(len(shared))
                es.append(shared[j][0])
                ms.append(shared[j][1])
            else:
                e, m, _ = rand_entry(rs, n)
                es.append(e)
                ms.append(m)
                if rs.rand() < .5:
                    shared.append((e, m))
        if length == 0 and rs.rand() < .5:
            s = ok(lambda: UnitarySequence(d), "empty sequence")
        elif rs.rand() < .2:
            a = np.empty(len(es), dtype=object)
            a[:] = es
            s = ok(lambda: UnitarySequence(d, a), "sequence from an array")
        else:
            s = ok(lambda: UnitarySequence(d, es), "sequence from a list")
            # the caller's list stays the caller's
            if rs.rand() < .5:
                es.append(rand_entry(rs, n)[0])
            if rs.rand() < .3:
                es.clear()
        pool.append([s, ms, None])
        return pool[-1]

    new_seq(rs.randint(0, 4))
    log = []
    for step in range(p["steps"]):
        rec = pool[rs.randint(len(pool))] if rs.rand() < .5 else pool[-1]
        s = rec[0]
        weights = np.array([3, 3, 2, 2, 3, 2, .5, .3, .5, .5, .3, .3, .3, .7, .5]) if focus != "C09" else \
            np.array([2, 2, 1.5, 1.5, 1.5, 1, .5, .3, 2, 2, 1, .7, 1, 1, 1])
        op = OPS[rs.choice(len(OPS), p=weights / weights.sum())]
        if op == "ctor" and len(pool) >= 5 or op in ("combine", "inverse", "self") and len(rec[1]) > 40:
            op = "product"
        save = bool(rs.randint(4))
        args = {"save_undo": save} if (not save or rs.rand() < .5) else {}
        before_undo = rec[2]
        log.append(op + ("" if save else "-nosave"))
        where = "after " + ",".join(log[-12:])
        if op in ("append_first", "append_last", "append_shared", "append_handed"):
            first = op == "append_first" or (op != "append_last" and rs.rand() < .5)
            if op == "append_shared" and shared:
                e, m = shared[rs.randint(len(shared))]
            elif op == "append_handed" and rec[1]:
                j = rs.randint(len(rec[1]))
                e, m = s.get_sequence_entries()[j], rec[1][j]
            else:
                e, m, _ = rand_entry(rs, n)
                shared.append((e, m))
            old = list(rec[1])
            ok(lambda: (s.append_first if first else s.append_last)(e, **args), "append")
            rec[1] = [m] + old if first else old + [m]
            if save:
                rec[2] = old
        elif op in ("remove_first", "remove_last"):
            first = op == "remove_first"
            old = list(rec[1])
            ok(lambda: (s.remove_first if first else s.remove_last)(**args), "remove")
            if old:
                rec[1] = old[1:] if first else old[:-1]
                if save:
                    rec[2] = old
        elif op == "undo":
            if rec[2] is None:
                refuses(s.undo, f"undo without a saved state ({where})")
            else:
                ok(s.undo, f"undo with a saved state ({where})")
                rec[1], rec[2] = list(rec[2]), None
        elif op == "product":
            check_product(s, rec[1], n, where)
        elif op == "entries":
            check_entries(s, rec[1], n, where)
        elif op == "text":
            ok(s.get_qasm, "qasm"), ok(s.get_jaqal, "jaqal"), ok(s.get_display_output, "display")
        elif op == "mutlist":
            got = s.get_sequence_entries()
            kind = rs.randint(4)
            if kind == 0:
                got.append(rand_entry(rs, n)[0])
            elif kind == 1:
                got.clear()
            elif kind == 2:
                got.reverse()
            elif got:
                got[rs.randint(len(got))].get_apply_to().reverse()
        elif op == "ctor":
            new_seq(rs.randint(0, 4))
        elif op == "combine":
            parts = [pool[rs.randint(len(pool))] for _ in range(rs.randint(1, 4))]
            c = ok(lambda: UnitarySequence.combine(*[q[0] for q in parts]), "combine")
            pool.append([c, [m for q in parts for m in q[1]], None])
            if rs.rand() < .5:
                check_product(c, pool[-1][1], n, where + " (combined)")
        elif op == "self":
            c = ok(lambda: UnitarySequence.combine(s, s.inverse()), "combine with inverse")
            require(O.same(c.product().get_matrix(), np.eye(d), 1e-6), f"{where}: sequence followed by its inverse is not the identity")
            require(c.get_length() == 2 * len(rec[1]), "length of sequence followed by inverse")
        elif op == "inverse":
            c = ok(s.inverse, "inverse")
            pool.append([c, [m.inverse() for m in reversed(rec[1])], None])
            if rs.rand() < .5:
                check_product(c, pool[-1][1], n, where + " (inverted)")
        if len(pool) > 6:
            pool.pop(0)
        # observations at random times (asking for the product makes it cached, so not always)
        for r in pool:
            require(r[0].get_length() == len(r[1]), f"{where}: length {r[0].get_length()}, expected {len(r[1])}")
        if rs.rand() < p["obs"]:
            check_product(rec[0], rec[1], n, where)
        if rs.rand() < p["obs"] / 2:
            check_entries(rec[0], rec[1], n, where)
        _ = before_undo
    for i, r in enumerate(pool):
        check_entries(r[0], r[1], n, f"sequence {i} at the end of {','.join(log[-12:])}")
        check_product(r[0], r[1], n, f"sequence {i} at the end of {','.join(log[-12:])}")
        if r[2] is None:
            refuses(r[0].undo, "undo without a saved state")
        else:
            ok(r[0].undo, "final undo")
            r[1], r[2] = r[2], None
            if rs.rand() < .5:
                check_product(r[0], r[1], n, "after the final undo")
            check_entries(r[0], r[1], n, "after the final undo")
            check_product(r[0], r[1], n, "after the final undo")
            refuses(r[0].undo, "undoing twice")
        check_entries(r[0], r[1], n, "after a refused undo")
        check_product(r[0], r[1], n, "after a refused undo")


def gen_history(g):
    return {"seed": g.seed(), "n": g.choice([1, 1, 2, 2, 3]), "steps": g.choice([2, 4, 6, 8, 12, 20, 30]) if g.bool(.9) else g.small(1, 120), "obs": g.choice([0, 0, .2, .5, 1])}


@scenario("C07", gen_history, weight=4)
def product_history(p):
    history(p, "C07")


@scenario("C08", gen_history, weight=4)
def edit_history(p):
    history(p, "C08")


@scenario("C09", gen_history, weight=4)
def share_history(p):
    history(p, "C09")


@scenario("C07", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3, 4]), "k": g.small(0, 60)})
def long_product(p):
    """Products of one long list, asked once or after every append."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    pairs = [rand_entry(rs, n)[:2] for _ in range(p["k"])]
    model = [m for _, m in pairs]
    check_product(UnitarySequence(2 ** n, [e for e, _ in pairs]), model, n, "constructed list")
    a, b = UnitarySequence(2 ** n), UnitarySequence(2 ** n)
    if rs.randint(2):
        check_product(a, [], n, "empty"), check_product(b, [], n, "empty")
    for e, _ in pairs:
        a.append_last(e)
    for e, _ in reversed(pairs):
        b.append_first(e)
    check_product(a, model, n, "appended last"), check_product(b, model, n, "appended first")
    for i in range(len(model)):
        if rs.randint(2):
            a.remove_first(), b.remove_first()
            model = model[1:]
        else:
            a.remove_last(), b.remove_last()
            model = model[:-1]
        if rs.randint(3) == 0:
            check_product(a, model, n, "removed"), check_product(b, model, n, "removed")
    check_product(a, model, n, "removed"), check_product(b, model, n, "removed")


@scenario("C07", lambda g: {"seed": g.seed(), "n": g.choice([1, 2]), "ops": [g.int(0, 9) for _ in range(g.small(2, 14))]}, weight=2)
def small_op_words(p):
    """Short words over the editing operations with the product requested (or not) between them."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    s, model, undo = UnitarySequence(2 ** n), [], None
    for o in p["ops"]:
        save = o % 2 == 0
        if o < 4:
            e, m, _ = rand_entry(rs, n)
            old = list(model)
            if o < 2:
                s.append_first(e, save)
                model = [m] + model
            else:
                s.append_last(e, save_undo=save)
                model = model + [m]
            undo = old if save else undo
        elif o < 8:
            if model and save:
                undo = list(model)
            if o < 6:
                s.remove_first(save)
                model = model[1:]
            else:
                s.remove_last(save_undo=save)
                model = model[:-1]
        elif o == 8:
            if undo is not None:
                s.undo()
                model, undo = undo, None
            else:
                refuses(s.undo, "undo with nothing saved")
        else:
            check_product(s, model, n, f"word {p['ops']}")
    check_product(s, model, n, f"word {p['ops']}")
    check_entries(s, model, n, f"word {p['ops']}")


def all_words(k):
    import itertools
    return itertools.product(range(10), repeat=k)


@scenario("C08", fixed=[{"len": 4}])
def every_short_word(p):
    """Exhaustive: every word of 4 operations (2 appends, 2 removals, each saving or not; undo; product) on 1 qubit."""
    rs = np.random.RandomState(3)
    gates = [rand_entry(rs, 1) for _ in range(p["len"] + 1)]
    base = [g[0] for g in gates]
    for w in all_words(p["len"]):
        s = UnitarySequence(2, [base[-1]])
        model, undo = [p["len"]], None
        for i, o in enumerate(w):
            save = o % 2 == 0
            if o < 4:
                if save:
                    undo = list(model)
                if o < 2:
                    s.append_first(base[i], save)
                    model = [i] + model
                else:
                    s.append_last(base[i], save)
                    model = model + [i]
            elif o < 8:
                if model and save:
                    undo = list(model)
                if o < 6:
                    s.remove_first(save)
                    model = model[1:]
                else:
                    s.remove_last(save)
                    model = model[:-1]
            elif o == 8:
                if undo is None:
                    refuses(s.undo, f"undo with nothing saved in word {w}")
                else:
                    s.undo()
                    model, undo = undo, None
            else:
                s.product()
        require(s.get_length() == len(model), f"length {s.get_length()} after word {w}, expected {len(model)}")
        P = np.eye(2)
        for j in model:
            P = gates[j][1].M @ P
        require(O.same(s.product().get_matrix(), P, 1e-6), f"product wrong after word {w}")


@scenario("C09", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3]), "what": g.choice(["ctor", "handed", "combine", "inverse", "result"])}, weight=2)
def deep_independence(p):
    """Changing an operation or qubit list reachable from a source never changes the result, and conversely."""
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    trip = [rand_entry(rs, n) for _ in range(rs.randint(1, 4))]
    es, ms = [t[0] for t in trip], [t[1] for t in trip]

    def spoil(u):
        m = u.get_matrix()
        m[...] = O.haar(np.random.RandomState(9), m.shape[0]) @ m

    def spoil_entry(e):
        spoil(e.get_full_unitary(2 ** n))
        e.get_apply_to().reverse()
    if p["what"] == "ctor":
        s = UnitarySequence(2 ** n, es)
        if rs.randint(2):
            s.product()
        for e, _, u in trip:
            spoil(u)
            spoil_entry(e)
        check_entries(s, ms, n, "after changing the entries passed to the constructor")
        check_product(s, ms, n, "after changing the entries passed to the constructor")
    elif p["what"] == "handed":
        s = UnitarySequence(2 ** n, es)
        if rs.randint(2):
            s.product()
        for e in s.get_sequence_entries():
            spoil_entry(e)
        check_entries(s, ms, n, "after changing handed-out entries")
        check_product(s, ms, n, "after changing handed-out entries")
    else:
        s = UnitarySequence(2 ** n)
        for e in es:
            s.append_last(e)
        if p["what"] == "combine":
            c, cm = UnitarySequence.combine(s, UnitarySequence(2 ** n, es)), ms + ms
        elif p["what"] == "inverse":
            c, cm = s.inverse(), [m.inverse() for m in reversed(ms)]
        else:
            c, cm = s, ms
            for r in (s.inverse(), UnitarySequence.combine(s, s), UnitarySequence.combine(s)):
                r.remove_first()
                r.append_last(rand_entry(rs, n)[0])
                spoil(r.product())
                r.remove_last()
            check_entries(c, cm, n, "after changing results"), check_product(c, cm, n, "after changing results")
            return
        s.remove_last()
        for e, _, u in trip:
            spoil(u)
            spoil_entry(e)
        check_entries(c, cm, n, f"after changing the source of {p['what']}")
        check_product(c, cm, n, f"after changing the source of {p['what']}")


@scenario("C09", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3]), "k": g.choice([1, 2, 3, 5]), "bad": g.int(0, 4)})
def combine_rejects(p):
    rs = np.random.RandomState(p["seed"])
    seqs = []
    for i in range(p["k"]):
        seqs.append(UnitarySequence(2 ** p["n"], [rand_entry(rs, p["n"])[0] for _ in range(rs.randint(0, 3))]))
    ok(lambda: UnitarySequence.combine(*seqs), "combine of equal dimensions")
    odd = UnitarySequence(2 ** (p["n"] + 1), [rand_entry(rs, p["n"])[0] for _ in range(rs.randint(0, 2))])
    at = min(p["bad"], len(seqs))
    bad = seqs[:at] + [odd] + seqs[at:]
    refuses(lambda: UnitarySequence.combine(*bad), f"combine of different dimensions (odd one at {at} of {len(bad)})")
    refuses(lambda: UnitarySequence.combine(), "combine of nothing")
    refuses(lambda: UnitarySequence.combine(*(seqs + [None])), "combine with None")


@scenario("C09", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3]), "k": g.small(0, 12)})
def inverse_of_repeats(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    base = [rand_entry(rs, n)[:2] for _ in range(3)]
    pick = [base[rs.randint(3)] for _ in range(p["k"])]
    s = UnitarySequence(2 ** n, [e for e, _ in pick])
    ms = [m for _, m in pick]
    if rs.randint(2):
        s = UnitarySequence(2 ** n)
        for e, _ in pick:
            s.append_last(e)
    i = ok(s.inverse, "inverse")
    check_entries(i, [m.inverse() for m in reversed(ms)], n, "inverse")
    check_product(i, [m.inverse() for m in reversed(ms)], n, "inverse")
    require(O.same(i.product().get_matrix() @ s.product().get_matrix(), np.eye(2 ** n), 1e-6), "inverse product")
    ii = ok(i.inverse, "double inverse")
    check_entries(ii, ms, n, "double inverse")
    check_entries(s, ms, n, "source of the inverse")
    require(O.same(UnitarySequence.combine(i, s).product().get_matrix(), np.eye(2 ** n), 1e-6), "inverse followed by sequence")


# ---------------------------------------------------------------- C10
def qubit_list(g):
    k = g.choice([0, 1, 1, 2, 2, 3, 4])
    kind = g.choice(["good", "good", "dup", "neg", "good", "big"])
    hi = g.choice([k, k + 1, 6, 12]) or 1
    qs = [g.int(0, hi) for _ in range(k)]
    if kind in ("good", "big"):
        qs = g.r.sample(range(max(hi, k) + (20 if kind == "big" else 0)), k)
    if kind == "dup" and k >= 2:
        i, j = g.r.sample(range(k), 2)
        qs[i] = qs[j]
    if kind == "neg" and k:
        qs[g.int(0, k - 1)] = -g.int(1, 3)
    return qs


@scenario("C10", lambda g: {"seed": g.seed(), "qs": qubit_list(g), "d": g.choice([1, 2, 2, 4, 4, 8, 16, 3, 6]), "as": g.choice(["list", "tuple", "array"])},
          weight=3, fixed=[{"seed": 1, "qs": q, "d": d, "as": "list"} for q, d in
                           [([], 1), ([], 2), ([0], 1), ([0], 2), ([0], 4), ([0, 0], 4), ([-1], 2), ([0, -1], 4), ([0, 1], 2), ([0, 1], 4), ([0, 1], 8),
                            ([1, 2, 1], 8), ([2, 0, 1], 8), ([0, 1, 2], 4), ([0, 1], 3), ([5], 2), ([0, 5, 2], 8)]])
def entry_accepts(p):
    rs = np.random.RandomState(p["seed"])
    qs, d = p["qs"], p["d"]
    good = len(qs) >= 1 and len(set(qs)) == len(qs) and min(qs) >= 0 and 2 ** len(qs) == d
    u = Unitary(d, O.haar(rs, d))
    arg = {"list": list(qs), "tuple": tuple(qs), "array": np.array(qs, dtype=int)}[p["as"]]
    if good:
        e = ok(lambda: UnitarySequenceEntry(u, arg), f"entry of dimension {d} on {qs}")
        require([int(q) for q in e.get_apply_to()] == qs and e.get_dimension() == d, "entry qubits or dimension")
    else:
        refuses(lambda: UnitarySequenceEntry(u, arg), f"entry of dimension {d} on {qs}")


@scenario("C10", lambda g: {"seed": g.seed(), "qss": [qubit_list(g) for _ in range(g.small(0, 4))], "d": g.choice([1, 2, 2, 4, 4, 8]), "par": g.bool(.3)},
          weight=3, fixed=[{"seed": 1, "qss": q, "d": d, "par": f} for f in (False, True) for q, d in
                           [([], 2), ([[0]], 2), ([[0], [1]], 2), ([[0], [-1]], 2), ([[0, 1], [1, 1]], 4), ([[0, 1], [1]], 4), ([[1], [0, 1]], 4),
                            ([[1, 1], [0, 1]], 4), ([[-1, 1], [0, 1]], 4), ([[0, 1], [2, 0]], 4), ([[]], 2), ([[0], []], 2), ([[]], 1)]])
def primitive_accepts(p):
    rs = np.random.RandomState(p["seed"])
    d = p["d"]

    def okq(qs):
        return len(qs) >= 1 and len(set(qs)) == len(qs) and min(qs) >= 0 and 2 ** len(qs) == d
    u = Unitary(d, O.haar(rs, d))
    if p["par"]:
        M = O.haar(rs, d)
        u = ParameterizedUnitary(d, lambda x: M, [ParameterizedUnitaryParameter("x", 0, 1, False)], "P")
    good = all(okq(q) for q in p["qss"])
    if good:
        pr = ok(lambda: UnitaryPrimitive(u, [list(q) for q in p["qss"]]), f"primitive of dimension {d} allowed on {p['qss']}")
        require([list(map(int, q)) for q in pr.get_allowed_apply_to()] == p["qss"], "allowed lists changed")
        require(pr.get_unitary() is u or isinstance(pr.get_unitary(), type(u)), "unitary of the primitive")
    else:
        refuses(lambda: UnitaryPrimitive(u, [list(q) for q in p["qss"]]), f"primitive of dimension {d} allowed on {p['qss']}")
    pr = ok(lambda: UnitaryPrimitive(u), "unrestricted primitive")
    require(pr.get_allowed_apply_to() is None, "unrestricted primitive has a restriction")


@scenario("C10", lambda g: {"seed": g.seed(), "n": g.choice([1, 1, 2, 3, 4]), "k": g.small(0, 5), "cached": g.bool(), "undo": g.bool(), "hi": g.choice([0, 1, 2, 5])},
          weight=3, fixed=[{"seed": s, "n": n, "k": k, "cached": c, "undo": u, "hi": h} for s, n, k, c, u, h in
                           [(1, 1, 0, False, False, 1), (2, 2, 2, True, True, 1), (3, 3, 1, False, True, 2), (4, 2, 3, True, False, 1)]])
def sequence_accepts(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    pairs = [rand_entry(rs, n)[:2] for _ in range(p["k"])]
    model = [m for _, m in pairs]
    s = ok(lambda: UnitarySequence(2 ** n, [e for e, _ in pairs]), "sequence of entries inside the system")
    undo = None
    if p["undo"]:
        e, m, _ = rand_entry(rs, n)
        if p["cached"]:
            s.product()
        undo = list(model)
        s.append_last(e)
        model = model + [m]
    elif p["cached"]:
        s.product()
    # entries reaching outside
    for t in range(4):
        k = rs.randint(1, min(n + 2, 4) + 1)
        top = n + rs.randint(0, p["hi"] + 1)
        rest = [int(x) for x in rs.permutation(top)[:k - 1]]
        qs = rest + [top]
        rs.shuffle(qs)
        qs = [int(q) for q in qs]
        k = len(qs)
        bad = UnitarySequenceEntry(Unitary(2 ** k, O.haar(rs, 2 ** k)), qs)
        refuses(lambda: s.append_last(bad, save_undo=bool(t % 2)), f"appending last an entry on {qs} in a {n}-qubit system")
        refuses(lambda: s.append_first(bad, save_undo=bool(t % 2)), f"appending first an entry on {qs} in a {n}-qubit system")
        at = rs.randint(0, len(pairs) + 1)
        lst = [e for e, _ in pairs]
        lst.insert(at, bad)
        refuses(lambda: UnitarySequence(2 ** n, lst), f"constructing a {n}-qubit sequence with an entry on {qs} at {at}")
    refuses(lambda: s.append_last(None), "appending None")
    refuses(lambda: s.append_first(UnitaryDefinitions.rx(1.0)), "appending a bare operation")
    refuses(lambda: UnitarySequence(2 ** n, [UnitaryDefinitions.rx(1.0)]), "constructing from bare operations")
    check_entries(s, model, n, "after refused appends")
    check_product(s, model, n, "after refused appends")
    if undo is None:
        refuses(s.undo, "undo after refused appends only")
    else:
        ok(s.undo, "undo after refused appends")
        check_entries(s, undo, n, "undo after refused appends")
        check_product(s, undo, n, "undo after refused appends")
    # every list inside is accepted
    k = rs.randint(1, n + 1)
    qs = [int(x) for x in rs.permutation(n)[:k]]
    e = UnitarySequenceEntry(Unitary(2 ** k, O.haar(rs, 2 ** k)), qs)
    ok(lambda: s.append_last(e), f"appending an entry on {qs} in a {n}-qubit system")
    ok(lambda: UnitarySequence(2 ** n, [e]), "constructing")


@scenario("C10", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 2, 3]), "sizes": [g.choice([1, 1, 2, 3, 4]) for _ in range(g.small(1, 4))],
                            "len": g.choice([0, 1, 2, -1, -3, g.int(-5, 5)]), "thr": g.choice([0.0, 0.5, 1.0, -0.1, 1.1, g.real(-.5, 1.5), 1.0000001, -1e-9]), "par": g.bool(.3)},
          weight=2, fixed=[{"seed": 1, "n": 1, "sizes": s, "len": ln, "thr": t, "par": f} for f in (False, True) for s, ln, t in
                           [([1], 0, 0.0), ([1], 1, 0.0), ([1], -1, 0.0), ([1], 1, -0.1), ([1], 1, 1.1), ([2], 1, 0.0), ([1, 2], 1, 0.0), ([2, 1], 0, 0.0), ([1], 0, 1.0),
                            ([1, 1, 2], 0, 0.5), ([1], -1, 0.5), ([1], 0, 1.5)]])
def compiler_and_generators_accept(p):
    rs = np.random.RandomState(p["seed"])
    n, d = p["n"], 2 ** p["n"]

    def mk(k):
        M = O.haar(rs, 2 ** k)
        if p["par"]:
            return UnitaryPrimitive(ParameterizedUnitary(2 ** k, lambda x: M, [ParameterizedUnitaryParameter("x", 0, 1, False)], "P"))
        return UnitaryPrimitive(Unitary(2 ** k, M))
    prims = [mk(k) for k in p["sizes"]]
    fits = all(k <= n for k in p["sizes"])
    if fits:
        ok(lambda: Compiler(d, prims), "Compiler")
        ok(lambda: Compiler(d, np.array(prims, dtype=object)), "Compiler with an array of primitives")
    else:
        refuses(lambda: Compiler(d, prims), f"Compiler of {n} qubits with primitives on {p['sizes']} qubits")
    refuses(lambda: Compiler(d, prims + [UnitaryDefinitions.rx(0.3)]), "Compiler with a bare operation")
    refuses(lambda: Compiler(0, prims), "Compiler of dimension 0")
    ln, thr = p["len"], p["thr"]
    good = fits and ln >= 0 and 0 <= thr <= 1
    counts = {pr: int(rs.randint(1, 3)) for pr in prims}
    calls = [("RAV", lambda: Verification.generate_rav_sequence(d, prims, ln, thr, max_step_count=3)),
             ("RAV without compilation", lambda: Verification.generate_rav_sequence(d, prims, ln, thr, max_step_count=0)),
             ("layered RAV", lambda: Verification.generate_layered_rav_sequence(d, counts, ln, thr, max_step_count=3)),
             ("layered RAV without compilation", lambda: Verification.generate_layered_rav_sequence(d, counts, ln, thr, max_step_count=0))]
    for what, f in calls:
        args = f"{what} with {n} qubits, primitives on {p['sizes']}, length {ln}, threshold {thr}"
        if good:
            r = ok(f, args)
            require(r.compiled_sequence.get_length() >= ln, f"{args}: too short")
        else:
            refuses(f, args)
    args = f"XEB with {n} qubits, primitives on {p['sizes']}, {ln} layers"
    if fits and ln >= 0:
        ok(lambda: Verification.generate_xeb_sequence(d, counts, ln), args)
    else:
        refuses(lambda: Verification.generate_xeb_sequence(d, counts, ln), args)
    refuses(lambda: Verification.generate_rav_sequence(d, prims + [None], abs(ln), 0.5, max_step_count=3), "RAV with a non-primitive")
    refuses(lambda: Verification.generate_layered_rav_sequence(d, list(prims), abs(ln), 0.5, max_step_count=3), "layered RAV without counts")


# ---------------------------------------------------------------- C19, sequences
@scenario("C19", lambda g: {"seed": g.seed(), "n": g.choice([1, 2, 3, 4]), "k": g.small(0, 12), "ops": g.bool()}, weight=3,
          fixed=[{"seed": 2, "n": 2, "k": 0, "ops": False}, {"seed": 2, "n": 3, "k": 7, "ops": True}])
def sequence_text(p):
    rs = np.random.RandomState(p["seed"])
    n = p["n"]
    d = 2 ** n
    es, us = [], []
    for i in range(p["k"]):
        if us and rs.rand() < .2:
            j = rs.randint(len(us))
            es.append(es[j])
            us.append(us[j])
            continue
        k = rs.randint(1, min(n, 3) + 1)
        qs = [int(x) for x in rs.permutation(n)[:k]]
        pd = {a: (v if rs.rand() < .8 else float(rs.uniform(-1e-6, 1e-6)), f) for a, (v, f) in mk_params(rs, rs.randint(0, 4)).items()}
        M = O.haar(rs, 2 ** k)
        u = Unitary(2 ** k, M, pick_name(rs), dict(pd), is_inverse=bool(rs.randint(3) == 0))
        if rs.rand() < .2:
            t = float(rs.uniform(-9, 9))
            u = [UnitaryDefinitions.rx(t), UnitaryDefinitions.rphi(t, t / 3), UnitaryDefinitions.sigmay(),
                 ParameterizedUnitaryDefinitions.time_evolution(np.eye(2), -10, 10, "0").as_unitary([t])][rs.randint(4)]
            qs, M, pd = [int(rs.randint(n))], u.get_matrix().copy(), dict(u.parameter_dict)
        es.append(UnitarySequenceEntry(u, list(qs)))
        us.append(Unitary(len(M), M, u.get_operation_name(), dict(pd), is_inverse=u.is_inverse, apply_to=list(qs)))
    s, pool = UnitarySequence(d, es), list(zip(es, us))
    if p["ops"]:
        s.product()
        if es:
            s = UnitarySequence(d)
            for e in es:
                s.append_last(e)
        if rs.randint(2):
            s = s.inverse()
            us = [u.inverse() for u in reversed(us)]
        if rs.randint(2):
            s = UnitarySequence.combine(s, s.inverse())
            us = us + [u.inverse() for u in reversed(us)]
    for rep in range(4):
        for what, got, f in (("display", ok(s.get_display_output, "display"), exp_display), ("QASM", ok(s.get_qasm, "qasm"), exp_qasm),
                             ("JAQAL", ok(s.get_jaqal, "jaqal"), exp_jaqal)):
            head, _, body = got.partition("\n")
            lines = body.split("\n") if us else ([] if body == "" else [body])
            require(head.strip() and head.lstrip()[0] in "#/", f"{what}: first line {head!r} is no header")
            want = [f(u) for u in us]
            require(lines == want, lambda: f"{what}: lines {lines!r}, expected {want!r}")
        if pool and rep == 1:
            # as many gates as before, but others
            e, u = pool[rs.randint(len(pool))]
            if rs.randint(2):
                s.append_last(e)
                s.remove_first()
                us = us[1:] + [u]
            else:
                s.append_first(e)
                s.remove_last()
                us = [u] + us[:-1]
        elif pool and rep == 2:
            e, u = pool[rs.randint(len(pool))]
            s.append_last(e)
            s.get_display_output(), s.get_qasm(), s.get_jaqal()
            s.undo()
