"""Two solvers side by side: the full one, and one in which real-valued terms that only the full one can reason about (nonlinear
arithmetic, functions of whole structures) are replaced by constants. What the second refutes is refuted."""
import z3

ABST = {}
LOG = None
WORK = 12000000      # work limit of a check: about four seconds, but the same on a busy machine
LAST_MS = 90000
FIRST = 3000000      # of the incremental solver, before a fresh one is tried
HURRY = 200000       # work limit of a check that only saves work if it succeeds


def hard(t):
    if t.sort_kind() != z3.Z3_REAL_SORT:
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(not z3.is_rational_value(c) for c in t.children()) > 1
    if k == z3.Z3_OP_DIV:
        return not z3.is_rational_value(t.arg(1))
    if k == z3.Z3_OP_POWER:
        return True
    return k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and any(c.sort_kind() == z3.Z3_REAL_SORT for c in t.children()) or \
        k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 2


def abstract(f):
    """-> (f with its hard terms replaced by constants, were there any)"""
    i = f.get_id()
    r = ABST.get(i)
    if r is not None:
        return r[1], r[2]
    if z3.is_quantifier(f) or z3.is_var(f) or not z3.is_app(f):
        r = (f, f, False)
    elif hard(f):
        r = (f, z3.Const(f"hard{i}", f.sort()), True)
    elif f.num_args() == 0:
        r = (f, f, False)
    else:
        cs = [abstract(c) for c in f.children()]
        if any(h for _, h in cs):
            r = (f, f.decl()(*[c for c, _ in cs]), True)
        else:
            r = (f, f, False)
    ABST[i] = r
    return r[1], r[2]


class Solver:
    def __init__(self):
        self.full, self.lite = z3.Solver(), z3.Solver()
        for s in (self.full, self.lite):
            s.set("rlimit", FIRST)
            s.set("timeout", LAST_MS)
            s.set("random_seed", 0)
        self.any_hard, self.stack = False, []
        self.state, self.moves, self.known, self.keep, self.asserted = 0, {}, {}, [], set()
        self.added = []

    def add(self, *fs):
        for f in fs:
            if not isinstance(f, bool):
                i = f.get_id()
                if i in self.asserted:
                    continue
                self.asserted.add(i)
                self.keep.append(f)
                self.added.append(i)
                self.state = self.moves.setdefault((self.state, i), len(self.moves) + 1)
            else:
                self.state = self.moves.setdefault((self.state, f), len(self.moves) + 1)
            self.full.add(f)
            if isinstance(f, bool):
                self.lite.add(f)
                continue
            g, h = abstract(f)
            self.any_hard = self.any_hard or h
            self.lite.add(g)

    def push(self):
        self.full.push()
        self.lite.push()
        self.stack.append((self.any_hard, self.state, self.added))
        self.added = []

    def pop(self):
        self.full.pop()
        self.lite.pop()
        self.asserted.difference_update(self.added)
        self.any_hard, self.state, self.added = self.stack.pop()

    def check_under(self, assump, model):
        """Is the state with the assumptions satisfiable? -> (result, model or None)"""
        if model:
            return self.check_now(assump, True)
        key = (self.state, tuple(a.get_id() for a in assump))
        r = self.known.get(key)
        if r is None:
            self.keep.extend(assump)
            r = self.known[key] = self.check_now(assump, False)
        return r

    def check_now(self, assump, model):
        if self.any_hard or any(abstract(a)[1] for a in assump):
            self.lite.push()
            h = False
            for a in assump:
                g, x = abstract(a)
                h = h or x
                self.lite.add(g)
            r = self.lite.check()
            self.lite.pop()
            if r == z3.unsat:
                return r, None
            if r == z3.sat and not model and not h:
                return r, None
        self.full.push()
        for a in assump:
            self.full.add(a)
        hurry = not model and self.any_hard
        if hurry:
            self.full.set("rlimit", HURRY)
        r = self.full.check()
        if LOG is not None and r == z3.unknown:
            LOG.append((hurry, self.full.reason_unknown()))
        if hurry:
            self.full.set("rlimit", FIRST)
        if r == z3.unknown and not hurry:
            # the incremental solver gives up on some formulas that a fresh one, which simplifies the whole formula first, decides
            r, m = self.afresh(model)
            self.full.pop()
            return r, m
        m = self.full.model() if r == z3.sat and model else None
        self.full.pop()
        return r, m

    def afresh(self, model):
        for seed in (0, 1):
            s = z3.Solver()
            s.set("rlimit", WORK)
            s.set("timeout", LAST_MS)
            s.set("random_seed", seed)
            s.add(self.full.assertions())
            r = s.check()
            if r != z3.unknown:
                return r, s.model() if r == z3.sat and model else None
        return r, None

    def check(self):
        return self.full.check()

    def model(self):
        return self.full.model()

    def num_scopes(self):
        return self.full.num_scopes()
