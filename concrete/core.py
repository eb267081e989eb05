"""Bounded run-time leg: executes the real code of /repo against run-time contracts.

A *scenario* is a deterministic function of a JSON-able parameter dictionary. It drives the public API of
stoqcompiler and raises Violation when an observed behaviour contradicts the property. Generators draw the
parameters; replaying a violation means calling the scenario again with the recorded parameters.
"""
import ast
import json
import math
import os
import random
import traceback
import warnings

import numpy as np

warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


SCENARIOS = {}   # property -> list of (name, gen, run, weight, exhaustive)


def scenario(prop, gen=None, weight=1.0, fixed=None, thorough=None):
    """gen(G) -> params; fixed: list of parameter dicts that are always run first (deterministic part);
    thorough: further ones, run in the thorough tier only."""
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(
            {"name": fn.__name__, "gen": gen, "run": fn, "weight": weight, "fixed": fixed, "thorough": thorough})
        return fn
    return deco


def ok(fn, what):
    """Call the real code where the property demands that it succeeds."""
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:200]}") from e


def refuses(fn, what):
    """Call the real code where the property demands a refusal (any exception)."""
    try:
        r = fn()
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what}: accepted, returned {r!r:.200}")


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def mine_literals(repo=REPO):
    """Integer and float literals of the package: boundary values worth trying (as fuzzers do)."""
    ints, reals = set(), set()
    for root, _, files in os.walk(os.path.join(repo, "stoqcompiler")):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.Constant) and not isinstance(node.value, bool):
                        if isinstance(node.value, int) and abs(node.value) < 10 ** 6:
                            ints.add(node.value)
                        elif isinstance(node.value, float) and math.isfinite(node.value):
                            reals.add(node.value)
    return sorted(ints), sorted(reals)


def mine_names(repo=REPO):
    """Short string literals of the package: operation names worth trying."""
    out = set()
    for root, _, files in os.walk(os.path.join(repo, "stoqcompiler")):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
                except SyntaxError:
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.Constant) and isinstance(node.value, str) and 0 < len(node.value) <= 10 and "\n" not in node.value and "\t" not in node.value:
                        out.add(node.value)
                    elif isinstance(node, ast.FunctionDef) and len(node.name) <= 10:
                        out.add(node.name)
    return sorted(out)


PLAIN_NAMES = ["U", "V", "I", "X", "Z", "CNOT", "Rx", "H", "identity", ""]
CODE_NAMES = mine_names()


def pick_name(rs):
    """An operation name, from literals of the code in half of the cases."""
    names = CODE_NAMES if rs.randint(2) and CODE_NAMES else PLAIN_NAMES
    return names[rs.randint(len(names))]


class G:
    """Random choices, biased towards solver hints and literals of the code."""

    def __init__(self, seed, hints=None):
        self.r = random.Random(seed)
        hints = hints or {}
        li, lr = mine_literals()
        self.hint_ints = [int(x) for x in hints.get("ints", [])]
        self.hint_reals = [float(x) for x in hints.get("reals", [])]
        self.lit_ints = li
        self.lit_reals = lr

    def seed(self):
        return self.r.randrange(2 ** 31)

    def int(self, lo, hi):
        cand = []
        p = self.r.random()
        if p < 0.25 and self.hint_ints:
            cand = [x + d for x in self.hint_ints for d in (-1, 0, 1)]
        elif p < 0.4:
            cand = [x + d for x in self.lit_ints for d in (-1, 0, 1)]
        elif p < 0.5:
            cand = [lo, hi]
        cand = [c for c in cand if lo <= c <= hi]
        return self.r.choice(cand) if cand else self.r.randint(lo, hi)

    def small(self, lo, hi):
        """Integer biased towards the low end, but reaching hi."""
        if self.r.random() < 0.15:
            return self.int(lo, hi)
        return min(hi, lo + int(self.r.expovariate(1.0 / max(1, (hi - lo) / 4))))

    def real(self, lo, hi):
        p = self.r.random()
        cand = []
        if p < 0.2 and self.hint_reals:
            cand = list(self.hint_reals)
        elif p < 0.3:
            cand = [x * s + d for x in self.lit_reals + self.lit_ints for s in (1, -1) for d in (0, 1e-9, -1e-9)]
        elif p < 0.36:
            cand = [lo, hi]
        cand = [c for c in cand if lo <= c <= hi]
        return float(self.r.choice(cand)) if cand else self.r.uniform(lo, hi)

    def angle(self):
        p = self.r.random()
        if p < 0.15:
            return self.r.choice([k * math.pi / m for k in range(-8, 9) for m in (1, 2, 3, 4, 8)])
        if p < 0.25:
            return self.r.choice([0.0, 1e-3, -1e-3, 1e-5, 1.0, -1.0, 2, -3, 7, 1e-2])
        if p < 0.35:
            return self.r.uniform(-60, 60)
        if p < 0.5:
            return self.real(-100, 100)
        return self.r.uniform(-2 * math.pi, 2 * math.pi)

    def choice(self, xs):
        return self.r.choice(list(xs))

    def bool(self, p=0.5):
        return self.r.random() < p

    def perm(self, n):
        x = list(range(n))
        self.r.shuffle(x)
        return x


def params_key(name, params):
    return name + json.dumps(params, sort_keys=True, default=str)


def run_one(scn, params):
    """Returns None, or a message. Raises HarnessError if the scenario itself is broken."""
    try:
        np.random.seed(params.get("seed", 0) % 2 ** 32)
        random.seed(params.get("seed", 0))
        scn["run"](params)
    except Violation as v:
        return str(v)
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        # an exception raised inside the code under test while the scenario observes it is a violation;
        # one raised in the scenario itself is a harness error
        tb = traceback.extract_tb(e.__traceback__)
        if any(fr.filename.startswith(os.path.join(REPO, "stoqcompiler")) for fr in tb):
            return f"unexpected {type(e).__name__} from the library: {str(e)[:200]}"
        raise HarnessError("".join(traceback.format_exception(e))) from e
    return None
