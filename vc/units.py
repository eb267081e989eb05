"""Verification units: one per function under contract. A unit runs the real body on arbitrary arguments, path by path,
and discharges its named obligations (postconditions) on every path."""
import re
import time
import traceback

import z3

from . import alg, lib as L, mat as M, numeric
from .alg import X
from .engine import Ctx, FrameWrite, Infeasible, NeedPeel, PyRaise, Stats, Unsupported, explore, pow2 as POW2
from .interp import Interp
from .spec import *

UNITS = {}


LOOP = r"^(does not fail|compiler accepted|what the loop relies on is kept|leaves without a further change|returns the sequence|starts with the empty sequence)$"
# which clauses of a unit a property consists of, where these are not all of them
ONLY = {
    ("Entry.full_unitary", "C19"): r"carries",
    ("Unitary.inverse", "C19"): r"^keeps|marker",
    ("Entry.init", "C10"): r"^(accepts|refuses)",
    ("Entry.init", "C06"): r"^(?!accepts|refuses)",
    ("Primitive.init", "C10"): r"^(accepts|refuses)",
    ("Primitive.init", "C11"): r"^(?!refuses)",
    ("Seq.append", "C10"): r"^(accepts|refuses|refused|takes place)",
    ("Seq.append", "C07"): r"^(?!refuses|refused)",
    ("Seq.append", "C08"): r"^(?!refuses|refused)",
    ("Seq.history", "C10"): r"refused|^append_(first|last): same outcome",
    ("Seq.init", "C10"): r"accept|refuses",
    ("Seq.init", "C09"): r"^(?!refuses)",
    ("Seq.combine", "C10"): r"^(accepts|refuses)",
    ("Seq.combine", "C07"): r"^(accepts|contract|dimension|later products)",
    ("Seq.inverse", "C07"): r"product|^dimension|does not fail|^source|^accepts",
    ("Seq.observers", "C19"): r"^get_(qasm|jaqal|display_output)",
    ("Seq.observers", "C09"): r"^get_sequence_entries|^accepts",
    ("Seq.observers", "C07"): r"^(?!get_(qasm|jaqal|display_output): answer)",
    ("Random.layer", "C14"): r"^(does not fail|exactly the requested|only generated)",
    ("Random.layer", "C15"): r"^(does not fail|exactly the requested|only generated)",
    ("Compile.", "C12"): LOOP + r"|trace|stops only|no step once|only generated|come from the",
    ("Compile.", "C13"): r"^(?!.*trace|stops only|no step once)",
    ("Compile.", "C14"): LOOP + r"|layers have|only generated|proposal|a removal from",
    ("Compile.", "C15"): LOOP + r"|trace|stops only|no step once|layers have|only generated|come from the",
    ("Compile.", "C18"): LOOP + r"|stops only|no step once|only generated|come from the",
}


def decides(name, prop, clause):
    """Does this clause of this unit belong to the property?"""
    if clause.startswith("frame:"):
        return True
    for (n, p), pat in ONLY.items():
        if p == prop and name.startswith(n):
            return bool(re.search(pat, clause))
    return True


def unit(name, function, props):
    def deco(fn):
        UNITS[name] = (function, props, fn)
        return fn
    return deco


class Outcome:
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc


class H:
    """A harness on one path."""

    def __init__(self, cx, rec):
        self.cx, self.rec = cx, rec
        self.it = Interp(cx)
        self.world, self.spec = cx.world, cx.world.spec
        cx.interp = self.it
        self.objects = []

    # arbitrary values
    def const(self, name, sort):
        return z3.Const(name, sort)

    def ent(self, cls, name, tag="arg"):
        return Ent(z3.Const(name, U), self.spec.cls(cls), tag)

    def int(self, name, lo=None):
        t = z3.Int(name)
        if lo is not None:
            self.cx.assume(t >= lo)
        return t

    def real(self, name):
        return z3.Real(name)

    def choose(self, name, n=2):
        """A case split that every value of the split is verified for."""
        t = z3.Int("case " + name)
        self.cx.assume(z3.And(t >= 0, t < n))
        for i in range(n - 1):
            if self.cx.decide(t == i):
                return i
        return n - 1

    def func(self, qual):
        f = self.world.functions.get(qual)
        if f is None:
            raise Unsupported(f"{qual} not found")
        return f

    def member(self, cls, name):
        m = self.world.member(self.spec.cls(cls), name)
        if m is None:
            raise Unsupported(f"{cls}.{name} not found")
        return m

    # running code
    def run(self, fn):
        try:
            return Outcome("ok", fn())
        except PyRaise as e:
            return Outcome("raise", exc=e)

    def call(self, o, name, *args, **kw):
        return self.run(lambda: self.it.call(self.it.getattr(o, name), list(args), kw))

    def static(self, cls, name, *args, **kw):
        return self.run(lambda: self.it.call(self.it.getattr(self.spec.cls(cls), name), list(args), kw))

    def new(self, cls, *args, **kw):
        r = self.run(lambda: self.it.instantiate(self.spec.cls(cls), list(args), kw))
        if r.kind == "ok" and cls not in ("UnitarySequence", "UnitarySequenceEntry"):
            self.any_history(r.value)
        return r

    def any_history(self, o):
        """Earlier calls may have been made on the object: what they change has any value (numbers that start out and stay
        non-negative: any such number)."""
        cx = self.cx
        c = cx.get(o) if isinstance(o, Ref) else None
        if not isinstance(c, ObjC):
            return
        world = self.world
        names = [k.name for k in world.mro(c.cls) if isinstance(k, ClassVal)]
        fields, free = dict(c.fields), {}
        own = set().union(*(world.own_history.get(n, set()) for n in names))
        for f in sorted(own | {f for f in world.history if f in fields or world.member(c.cls, f) is not None}):
            v = fields.get(f)
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool) or is_z3(v) and v.sort() != B:
                free[f] = "number"
                sign = cx.entails(zreal(v) >= 0)
                fields[f] = z3.Real(f"{f} after earlier calls")
                if sign:
                    free[f] = "non-negative"
                    cx.assume(fields[f] >= 0)
            else:
                free[f] = None
                fields[f] = Undef("changed by earlier calls")
        if self.world.new_objects:
            fields = dict(c.fields)
        elif free:
            self.world.used_objects = True
        cx.put(o, ObjC(c.cls, fields, c.tag))
        self.objects.append((o, free, cx.freeze(o)))

    def check_objects(self):
        """What any_history did not see as changing did not change."""
        cx = self.cx
        for o, free, before in self.objects:
            after = cx.freeze(o)
            for f in set(before.fields) | set(after.fields):
                a, b = before.fields.get(f), after.fields.get(f)
                if f in free:
                    ok = free[f] != "non-negative" or not isinstance(b, (bool, str, Undef)) and (isinstance(b, (int, Fraction)) or is_z3(b)) and cx.entails(zreal(b) >= 0)
                else:
                    ok = f in before.fields and f in after.fields and cx.same(a, b)
                if not ok and cx.check()[0] != z3.unsat:
                    raise Unsupported(f"a {before.cls.name} that keeps {f} from call to call")

    def spec_run(self, qual, bound):
        """The contract of a function on the given arguments."""
        return self.run(lambda: self.spec.contracts[qual](self.it, bound))

    def py(self, name, *args):
        """A specification function of spectext.py."""
        return self.it.call(self.world.modules["vcspec"][name], list(args), {})

    def field(self, o, name):
        """An attribute that is not part of what is documented: under another name it is out of reach."""
        try:
            return self.it.getattr(o, name)
        except PyRaise:
            raise Unsupported(f"no attribute {name}")

    def attrs(self, u):
        return {r: self.cx.freeze(self.role(u, r)) for r in self.spec.ROLES}

    def same_attrs(self, u, before):
        return all(self.same(self.cx.freeze(self.role(u, r)), before[r]) for r in before)

    # obligations
    def req(self, clause, ok, detail="", definite=True):
        """definite: a false clause is a violation (not so for clauses about the private representation). ok: True/False, a formula, or a thunk returning one of these. Discharged: valid on this path. Failed: an evaluation
        in which the path is taken and the clause is false. Undecided otherwise."""
        cx = self.cx
        t = time.time()
        self.refutation = None
        status, why, hint = "discharged", "", {}
        try:
            b = ok() if callable(ok) else ok
        except Unsupported as e:
            if cx.check()[0] == z3.unsat:
                raise Infeasible()
            if self.world.debug:
                traceback.print_exc()
            self.rec(clause, "undecided", f"{detail}: {e}", time.time() - t, {})
            return False
        except PyRaise as e:
            b = False
            detail = f"{detail}: raises {e.kind}"
        b = cx.bsimp(b)
        if b is not True and not (cx.entails(b, True) if b is not False else cx.check()[0] == z3.unsat):
            status = "undecided"
            try:
                r = self.refutation if b is False and self.refutation else numeric.reachable(cx, None if b is False else z3.Not(b))
            except Unsupported as e:
                r, why = None, str(e)
            if r is not None:
                status, why = "failed" if definite else "undecided", r[1]
                hint = model_hints(r[0])
            else:
                why = why or f"not proved, not refuted ({getattr(cx, 'numeric_note', '')})"
        self.rec(clause, status, (f"{detail} " if detail else "") + why, time.time() - t, hint)
        return status == "discharged"

    def same(self, a, b, phase=False):
        cx = self.cx
        a, b = cx.freeze(a), cx.freeze(b)
        if phase:
            a, b = self.spec.settled(self.it, a), self.spec.settled(self.it, b)
            if cx.same_mat(a, M.Mat(b.rows, b.cols, b.terms, True)):
                return True
        elif cx.same(a, b):
            return True
        r = numeric.different(cx, a, b, phase)
        if r is None:
            raise Unsupported(f"not proved equal, not separated ({getattr(cx, 'numeric_note', '')}): {M.show(a)[:400]} AND {M.show(b)[:400]}")
        self.refutation = r
        return False

    def up_to_phase(self, m, n):
        return self.same(m, n, True)

    def mat(self, v):
        return L.mat_of(self.it, v)

    def umat(self, u):
        return self.spec.unitary_mat(self.it, u)

    def role(self, u, r):
        return self.spec.role(self.it, u, r)


def model_text(m):
    if m is None:
        return ""
    out = []
    for d in m.decls():
        if "!" in d.name() or d.arity() > 0 or len(out) > 14:
            continue
        out.append(f"{d.name()}={m[d]}")
    return "countermodel: " + ", ".join(out)


def model_hints(m):
    ints, reals = [], []
    if m is None:
        return {}
    for d in m.decls():
        if d.arity():
            continue
        v = m[d]
        if z3.is_int_value(v) and abs(v.as_long()) < 64:
            ints.append(v.as_long())
        elif z3.is_rational_value(v):
            reals.append(float(v.as_fraction()))
    return {"ints": sorted(set(ints))[:20], "reals": reals[:20]}


def run_unit(world, name, budget):
    """First for objects that have been used before; where that fails, the failure counts if it also occurs for new ones."""
    world.new_objects = world.used_objects = False
    r = run_unit_(world, name, budget)
    if world.used_objects and any(o["status"] != "discharged" for o in r["obligations"]):
        world.new_objects = True
        first, r = r, run_unit_(world, name, budget)
        world.new_objects = False
        if r["problem"] is None and all(o["status"] == "discharged" for o in r["obligations"]):
            bad = next(o for o in first["obligations"] if o["status"] != "discharged")
            r["problem"] = f"out of reach: holds for a new object, not decided for one that has been used before ({bad['id']}: {bad['detail'][:200]})"
    return r


def run_unit_(world, name, budget):
    """-> dict with the unit's obligations"""
    function, props, fn = UNITS[name]
    stats = Stats()
    obl, covers, t0 = {}, {}, time.time()
    problem = None

    def rec(clause, status, detail, secs, hints):
        o = obl.setdefault(clause, {"id": f"{name}/{clause}", "status": "discharged", "paths": 0, "s": 0.0, "detail": "", "hints": {}})
        o["paths"] += 1
        o["s"] += secs
        rank = {"discharged": 0, "undecided": 1, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o.update(status=status, detail=detail, hints=hints)
    finished = 0
    cover = {}

    def h(cx):
        hh = H(cx, rec)
        hh.cover = lambda k: cover.__setitem__(k, cover.get(k, 0) + 1)
        try:
            fn(hh)
            hh.check_objects()
        except FrameWrite as e:
            hh.req("frame: changes nothing it does not own", False, str(e))
        except PyRaise as e:
            raise Unsupported(f"exception {e.kind} ({e.detail}) in the specification")
    try:
        if world.unparsed:
            raise Unsupported("not read: " + "; ".join(f"{m}: {w}" for m, w in world.unparsed[:3]))
        for cx in explore(world, h, stats, 3000, budget):
            finished += cx.finished
    except Unsupported as e:
        problem = f"out of reach: {e}"
        if world.debug:
            traceback.print_exc()
    except RecursionError:
        problem = "out of reach: recursion limit"
    except z3.Z3Exception as e:
        problem = f"solver: {e}"
    except Exception as e:  # noqa: BLE001
        problem = f"verifier error: {type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1].name}"
        if world.debug:
            traceback.print_exc()
    if problem is None and not finished:
        problem = "no path reaches the end"
    return {"unit": name, "function": function, "obligations": list(obl.values()), "problem": problem, "paths": finished, "covers": cover,
            "solver_s": stats.solver_s, "checks": stats.checks, "unknown": stats.unknown, "s": time.time() - t0, "used": sorted(world.used), "assumed": sorted(world.assumed)}


from . import units_unitary, units_param, units_entry, units_sequence, units_hamiltonian, units_compiler, units_compile, units_verification  # noqa: E402,F401
