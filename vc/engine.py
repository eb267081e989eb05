"""Path exploration: a harness is run once per path; decisions are replayed from a prefix. Holds the solver, the heap,
axiom instantiation for the few uninterpreted functions (pow2, min/max, quantified atoms), and equality of values."""
import contextlib
import time
from fractions import Fraction

import z3

from . import alg, mat as M
from .alg import X, canon, to_poly
from .lite import Solver
from .values import *


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, kind, detail=""):
        super().__init__(kind)
        self.kind, self.detail = kind, detail


class Unsupported(Exception):
    """Outside the verifier's subset: the function is out of reach (never a violation)."""


class NeedPeel(Unsupported):
    pass


class Infeasible(Exception):
    pass


class FrameWrite(Exception):
    """The program writes to an object it must not change."""


class Stats:
    def __init__(self):
        self.solver_s, self.checks, self.paths, self.unknown = 0.0, 0, 0, 0


ilog2 = z3.Function("ilog2", I, I)
pow2 = z3.Function("pow2", I, I)
TIMES = z3.Function("times", I, I, I)


def captured(f):
    """The values of a function's default arguments."""
    d = f.defaults
    return tuple(x for kv in sorted(d.items()) for x in kv) if isinstance(d, dict) else tuple(d or ())


class SubPath:
    __slots__ = ("conds", "status", "value", "heap", "draws", "exc", "notes")

    def __init__(self, conds, status, value, heap, draws, exc, notes):
        self.conds, self.status, self.value, self.heap, self.draws, self.exc, self.notes = conds, status, value, heap, draws, exc, notes


def names_in(f):
    out, stack, seen = set(), [f], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            out.add(t.decl().name())
        stack.extend(t.children())
    return out


POW_FACTS = {}


def pow_facts(t):
    r = POW_FACTS.get(t.get_id())
    if r is None:
        k = t.arg(0)
        f = [z3.Implies(k >= 0, t >= 1), z3.Implies(k >= 1, t >= 2), (k == 0) == (t == 1)]
        for c in range(0, 6):
            f += [z3.Implies(k == c, t == 2 ** c), z3.Implies(z3.And(k >= 0, t == 2 ** c), k == c), z3.Implies(k > c, t >= 2 ** (c + 1))]
        r = POW_FACTS[t.get_id()] = (t, f)
    return r[1]


def pow_pair(t, s):
    key = (t.get_id(), s.get_id())
    r = POW_FACTS.get(key)
    if r is None:
        k, j = t.arg(0), s.arg(0)
        d = simp_int(z3.simplify(k - j, som=True))
        if isinstance(d, int):
            f = [t == (2 ** d) * s if d >= 0 else s == (2 ** -d) * t]
        else:
            f = [z3.Implies(z3.And(j >= 0, k > j), t >= 2 * s), z3.Implies(z3.And(k >= 0, j > k), s >= 2 * t), z3.Implies(k == j, s == t)]
        r = POW_FACTS[key] = (t, s, f)
    return r[-1]


def entities(t):
    """The objects that a number belongs to."""
    r = POW_FACTS.get(("ent", t.get_id()))
    if r is None:
        out, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.sort() == U:
                out.add(x.get_id())
            else:
                stack.extend(x.children())
        r = POW_FACTS[("ent", t.get_id())] = (t, out)
    return r[1]


def unrelated(t, s):
    a, b = entities(t), entities(s)
    return bool(a) and bool(b) and not (a & b)


class Restart(Exception):
    """Run the path again, with what is now remembered."""


class Ctx:
    def __init__(self, world, prefix, stats, memo):
        self.world, self.stats, self.memo = world, stats, memo
        self.prefix, self.pos, self.trail = list(prefix), 0, []
        self.alternatives = []
        self.solver = Solver()
        self.pc, self.axioms = [], []
        self.axiom_keys = set()
        self.heap, self.next_id = {}, 0
        self.counter = {}
        self.loops = []            # active generic loop indices (z3 Int constants)
        self.pow_terms, self.log_terms = [], []
        self.quants, self.reds = [], []
        self.touched = {}
        self.draws = []
        self.notes = []
        self.depth = 0
        self.frames = []
        self.subdepth = 0
        self.obligations = []
        self.mats = {}
        self.inline = set()
        self.laws = {}
        self.multiplied = None     # contents of the sequences whose product was taken
        self.perm_length = {}      # length of the list each random arrangement is of
        self.interp, self.while_handler, self.clock = None, None, None
        self.claims = None         # what the body of a while loop expects before each iteration
        self.traces, self.norms, self.exps, self.arg_syms = [], [], [], {}
        self.revealed, self.fact_terms, self.preds = {}, {}, {}
        self.concrete_sequences = False
        self.defs, self.names, self.witness, self.levels, self.index_level = {}, [], {}, {}, {}
        self.products = False
        self.stamps, self.sliced = {}, False
        self.reg_defs, self.registered, self.pow_ids = {}, {}, set()
        self.ax(z3.And(alg.PI > z3.RealVal("3.14159265"), alg.PI < z3.RealVal("3.14159266")))

    # ------------------------------------------------------------ solver
    def ax(self, f):
        """A definitional fact: stays valid when the path condition is popped."""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        k = f.get_id()
        if k in self.axiom_keys:
            return
        self.axiom_keys.add(k)
        self.axioms.append(f)
        self.solver.add(f)

    def check(self, *assump, model=True):
        t = time.time()
        r, m = self.solver.check_under(assump, model)
        self.stats.solver_s += time.time() - t
        self.stats.checks += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def feasible(self, *assump):
        return self.check(*assump, model=False)[0] != z3.unsat

    def possible(self):
        """Checked once after assumptions were added without a check."""
        if self.unchecked:
            self.unchecked = False
            return self.feasible()
        return True

    unchecked = True

    def entails(self, b, full=False):
        b = self.bsimp(b)
        if isinstance(b, bool):
            return b
        self.register(b)
        return self.check(z3.Not(b), model=full)[0] == z3.unsat

    def refute(self, b):
        """A model of the path condition in which b is false, or None (b holds, or unknown)."""
        b = self.bsimp(b)
        if b is True:
            return None
        if b is False:
            return self.check()[1]
        self.register(b)
        return self.check(z3.Not(b))[1]

    def bsimp(self, b):
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return b

    def assume(self, b):
        b = self.bsimp(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.register(b)
        self.pc.append(b)
        self.solver.add(b)
        self.unchecked = True

    def decide(self, b):
        """Fork on a formula."""
        b = self.bsimp(b)
        if isinstance(b, bool):
            return b
        self.register(b)
        if self.pos < len(self.prefix):
            choice, forced = self.prefix[self.pos]
        else:
            f = self.feasible(z3.Not(b))
            t = not f or self.feasible(b)      # a path that is left is possible
            if not f and not self.possible():
                raise Infeasible()
            forced = not (t and f)
            choice = t
            if not forced:
                self.alternatives.append(self.trail[:] + [(False, False)])
        self.pos += 1
        self.trail.append((choice, forced))
        c = b if choice else z3.Not(b)
        if not forced:
            self.pc.append(c)
        self.solver.add(c)
        return choice

    # ------------------------------------------------------------ names and terms
    def n(self, name):
        self.counter[name] = self.counter.get(name, 0) + 1
        return self.counter[name]

    def fresh(self, name, sort):
        nm = f"{name}!{self.n(name)}"
        if self.loops:
            f = z3.Function(nm, *[x.sort() for x in self.loops], sort)
            return f(*self.loops)
        return z3.Const(nm, sort)

    def law(self, t, f):
        """A fact about a draw, for every value of the loop indices it depends on."""
        self.ax(f)
        self.register(f)
        args = t.children()
        if args and not any(n.startswith("hole") for n in names_in(f)):
            self.laws[t.decl().name()] = (args, f)

    def _reg_law(self, t):
        args, f = self.laws[t.decl().name()]
        if not all(a.eq(b) for a, b in zip(args, t.children())):
            f = z3.substitute(f, *zip(args, t.children()))
            n = len(self.axioms)
            self.ax(f)
            if len(self.axioms) > n:
                self.register(f)

    def fresh_index(self):
        return z3.Int(f"ix{self.n('ix')}z")

    def pow2(self, k):
        k = simp_int(zint(k)) if is_z3(zint(k)) else k
        if isinstance(k, int):
            return 2 ** k if k >= 0 else Fraction(1, 2 ** -k)
        return pow2(z3.simplify(k, som=True))

    def ilog2(self, d):
        if isinstance(d, int):
            return d.bit_length() - 1
        if d.decl().name() == "pow2":
            return d.arg(0)
        return ilog2(d)

    def register(self, *vals):
        """Instantiate axioms for the special terms occurring in formulas about to be used."""
        stack = [v for v in vals if is_z3(v)]
        seen = self.registered
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen[i] = t
            if z3.is_app(t):
                nm = t.decl().name()
                if nm == "pow2":
                    self._reg_pow(t)
                elif nm == "ilog2":
                    self._reg_log(t)
                elif nm == "*" and not self.products and z3.is_int(t) and sum(not z3.is_int_value(c) and not z3.is_rational_value(c) for c in t.children()) > 1:
                    self.products = True
                    self._pow_products()
                elif nm.startswith("forall!"):
                    if t.children():
                        self._reg_atom(t)
                elif nm.startswith(("min<", "max<")):
                    self._reg_red(t)
                elif nm.startswith(("setlen<", "distinct<")):
                    self._reg_def(t)
                elif nm in self.laws:
                    self._reg_law(t)
                elif nm == "binom":
                    self.ax(z3.And(t >= 0, z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) <= t.arg(0)), t >= 1)))
                elif nm == "comb":
                    n, r, m, j = t.children()
                    self.ax(z3.Implies(z3.And(j >= 0, j < r, r <= n), z3.And(t >= 0, t < n)))
                elif "." in nm or nm == "maxq":
                    self.world.spec.facts(self, t)
                stack.extend(t.children())

    def _reg_pow(self, t):
        if t.get_id() in self.pow_ids:
            return
        self.pow_ids.add(t.get_id())
        for f in pow_facts(t):
            self.ax(f)
        for s in self.pow_terms:
            if not unrelated(t, s):
                for f in pow_pair(t, s):
                    self.ax(f)
        self.pow_terms.append(t)
        if self.products:
            self._pow_products(t)

    def _pow_products(self, t=None):
        """2^j 2^k = 2^(j+k) for the sums that occur."""
        for i, p in enumerate(self.pow_terms):
            for q in self.pow_terms[i:]:
                r = pow2(z3.simplify(p.arg(0) + q.arg(0), som=True))
                for w in self.pow_terms:
                    if w.eq(r) and (t is None or w.eq(t) or p.eq(t) or q.eq(t)):
                        self.ax(z3.Implies(z3.And(p.arg(0) >= 0, q.arg(0) >= 0), p * q == w))

    def _reg_log(self, t):
        if any(t.eq(x) for x in self.log_terms):
            return
        self.log_terms.append(t)
        d = t.arg(0)
        self.ax(z3.Implies(d >= 1, t >= 0))
        p = pow2(t)
        self._reg_pow(p)
        self.register(d)
        self.ax(z3.Implies(d >= 1, z3.And(p <= d, d < 2 * p)))

    # ------------------------------------------------------------ quantified atoms over a list chunk
    def qatom(self, var, lo, hi, body):
        """A Boolean constant meaning: for all var in [lo, hi): body."""
        body = self.bsimp(body)
        if isinstance(body, bool):
            return True if body else z3.simplify(zint(hi) <= zint(lo))
        k = f"{M._key(body, {var.decl().name(): '%0'})}|{M.key(lo)}|{M.key(hi)}"
        for q in self.quants:
            if q[0] == k:
                return q[1]
        nm = f"forall!{self.n('forall')}"
        if self.loops:
            # inside a generic iteration: the atom may depend on the iteration
            b = z3.Function(nm, *[x.sort() for x in self.loops], B)(*self.loops)
        else:
            b = z3.Bool(nm)
        sk = self.fresh("sk", I)
        self.witness[b.decl().name()] = sk
        self.ax(z3.Implies(z3.Not(b), z3.And(zint(lo) <= sk, sk < zint(hi), z3.Not(z3.substitute(body, (var, sk))))))
        self.ax(z3.Implies(zint(hi) <= zint(lo), b))
        q = (k, b, var, zint(lo), zint(hi), body, [])
        self.levels[b.decl().name()] = len(self.loops)
        self.quants.append(q)
        self.levels[b.decl().name()] = len(self.loops)
        self.add_index(sk)
        for idx in self.indices_for(b.decl().name()) + [z3.simplify(zint(hi) - 1), zint(lo)]:
            self._inst(q, idx)
        return b

    def _reg_atom(self, t):
        """An instance of a quantified atom created under a generic index."""
        if any(q[1].eq(t) for q in self.quants) or nested_witness(t):
            return
        for q in self.quants:
            if q[1].decl().eq(t.decl()):
                break
        else:
            return
        pairs = list(zip(q[1].children(), t.children()))
        sub = lambda x: z3.substitute(x, *pairs)
        sk = sub(self.witness[t.decl().name()])
        r = (f"{q[0]} at {t.sexpr()}", t, q[2], sub(q[3]), sub(q[4]), sub(q[5]), [])
        self.quants.append(r)
        self.ax(z3.Implies(z3.Not(t), z3.And(r[3] <= sk, sk < r[4], z3.Not(z3.substitute(r[5], (r[2], sk))))))
        self.ax(z3.Implies(r[4] <= r[3], t))
        nm = t.decl().name()
        self.add_index(sk, self.levels[nm])
        for idx in self.indices_for(nm) + [z3.simplify(r[4] - 1), r[3]]:
            self._inst(r, idx)

    def _reg_def(self, t):
        if t.get_id() in self.reg_defs or nested_witness(t):
            return
        self.reg_defs[t.get_id()] = t
        d = self.defs.get(t.decl().name())
        if d is None:
            return
        name, args, value = d
        value = subst(value, [(a, b) for a, b in zip(args, t.children()) if not a.eq(b)])
        from . import lib2
        (lib2.setlen_axioms if name == "setlen" else lib2.distinct_axioms)(self.interp, t, value)

    def _reg_red(self, t):
        if any(r[1].eq(t) for r in self.reds) or nested_witness(t):
            return
        d = self.defs.get(t.decl().name())
        if d is None:
            return
        name, args, value = d
        pairs = [(a, b) for a, b in zip(args, t.children()) if not a.eq(b)]
        self.reduction(name, subst(value, pairs))

    indices = ()
    outer = None                         # where the enclosing nested explorations started, for the memo

    def add_index(self, t, level=None):
        """A term at which universally quantified facts are instantiated. Level: nesting depth of the lists it indexes
        (positions in inner lists are not tried as positions in the outer one)."""
        if isinstance(t, int):
            t = z3.IntVal(t)
        if any(t.eq(x) for x in self.indices):
            return
        if level is None:
            level = len([x for x in self.loops if not x.eq(t)])
        self.indices = tuple(self.indices) + (t,)
        self.index_level[t.get_id()] = (t, level)
        for q in self.quants:
            if level <= self.levels[q[1].decl().name()]:
                self._inst(q, t)
        for r in self.reds:
            if level <= self.levels[r[1].decl().name()]:
                self._inst_red(r, t)

    def indices_for(self, name):
        return [t for t in self.indices if self.index_level[t.get_id()][1] <= self.levels[name]]

    def _inst(self, q, t):
        k, b, var, lo, hi, body, done = q
        if any(t.eq(x) for x in done):
            return
        done.append(t)
        f = z3.Implies(z3.And(b, lo <= t, t < hi), z3.substitute(body, (var, t)))
        self.register(f)
        self.ax(f)

    def reduction(self, kind, sl):
        """min/max of a non-empty numeric chunk."""
        t = sl.tab.template
        key = f"{kind}|{M.key(sl)}"
        for r in self.reds:
            if r[0] == key:
                return r[1]
        sort = zint(t).sort() if is_int(t) else zreal(t).sort()
        m = self.skolem(f"{kind}", M.key(sl), walk_terms((sl.lo, sl.hi), []), sort, sl)
        lo, hi = zint(sl.lo), zint(sl.hi)
        w = self.skolem("arg" + kind, None, None, I, sl)
        body = zint(t) if is_int(t) else zreal(t)
        self.ax(z3.Implies(lo < hi, z3.And(lo <= w, w < hi, m == z3.substitute(body, (sl.tab.var, w)))))
        for f in sl.tab.facts:
            g = z3.substitute(f, (sl.tab.var, w))
            self.register(g)
            self.ax(g)
        r = (key, m, kind, sl.tab.var, lo, hi, body, [])
        nm = m.decl().name()
        self.levels.setdefault(nm, len(self.loops))
        self.reds.append(r)
        self.register(z3.substitute(body, (sl.tab.var, w)))
        self.add_index(w, self.levels[nm])
        for idx in self.indices_for(nm):
            self._inst_red(r, idx)
        return m

    def _inst_red(self, r, t):
        key, m, kind, var, lo, hi, body, done = r
        if any(t.eq(x) for x in done):
            return
        done.append(t)
        v = z3.substitute(body, (var, t))
        self.ax(z3.Implies(z3.And(lo <= t, t < hi), m <= v if kind == "min" else v <= m))

    def str_const(self, s):
        """The Name constant of a literal string; different literals are different names."""
        t = z3.Const("str:" + s, NAME)
        if not any(t.eq(x) for x in self.names):
            for x in self.names:
                self.ax(t != x)
            self.names.append(t)
        return t

    def skolem(self, name, key, terms, sort, value):
        """A function symbol named by the shape of `value`, applied to its free terms: equal arguments, equal results."""
        skel, args = skeleton(value)
        nm = f"{name}<{skel}>"
        self.defs.setdefault(nm, (name, args, value))
        if not args:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[a.sort() for a in args], sort)
        return f(*args)

    # ------------------------------------------------------------ heap
    def new(self, content):
        self.next_id += 1
        self.heap[self.next_id] = content
        return Ref(self.next_id)

    def get(self, ref):
        return self.heap[ref.id]

    def put(self, ref, content):
        self.heap[ref.id] = content

    def freeze(self, v, memo=None):
        """The value of an object graph."""
        memo = {} if memo is None else memo
        if isinstance(v, Ref):
            if v.id in memo:
                if memo[v.id] is None:
                    raise Unsupported("cyclic object graph")
                return memo[v.id]
            memo[v.id] = None
            c = self.heap[v.id]
            if isinstance(c, ListC):
                r = LVal(tuple(self.freeze(x, memo) for x in c.content), c.kind, (c.tag, v.id) if c.tag == "new" else c.tag)
            elif isinstance(c, DictC):
                r = DVal(tuple(self.freeze(x, memo) for x in c.content), (c.tag, v.id) if c.tag == "new" else c.tag)
            elif isinstance(c, ObjC):
                r = OVal(c.cls, {k: self.freeze(x, memo) for k, x in c.fields.items()}, (c.tag, v.id) if c.tag == "new" else c.tag)
            elif isinstance(c, ArrC):
                r = MVal(c.mat, c.dtype, ("buf", c.buffer if c.buffer is not None else v.id) if c.tag == "new" else c.tag)
            else:
                raise Unsupported(f"freeze {type(c).__name__}")
            memo[v.id] = r
            return r
        if isinstance(v, FuncVal):
            if isinstance(v.env, Ref):
                names = free_names(v.node)
                env, out = v.env, {}
                while env is not None:
                    c = self.heap[env.id]
                    for k, x in c.vars.items():
                        if k in names and k not in out and not (isinstance(x, FuncVal) and x.node is v.node):
                            out[k] = x
                    env = c.parent
                fz = OVal(self.world.env_class, {k: self.freeze(x, memo) for k, x in out.items()}, "env")
                w = FuncVal()
                for s in FuncVal.__slots__:
                    setattr(w, s, getattr(v, s, None))
                w.env = fz
                return w.map(lambda x: self.freeze(x, memo))
            return v.map(lambda x: self.freeze(x, memo))
        if v is None or isinstance(v, (bool, int, str, Fraction, ClassVal, Native, ModVal, EnumMember, Undef, X)) or is_z3(v):
            return v
        if isinstance(v, (M.Mat, M.Factor, Ent, Tab)):
            return v
        if isinstance(v, (OVal, LVal, DVal, MVal)):
            return children_map(v, lambda x: self.freeze(x, memo))
        return children_map(v, lambda x: self.freeze(x, memo))

    # ------------------------------------------------------------ nested exploration
    def sub(self, fn, assumptions=()):
        """Run fn on every path from the current state; the state is unchanged afterwards. -> [SubPath]"""
        memo_key = (self.outer, tuple(self.trail), self.n("sub"))
        outer0 = self.outer
        known = self.memo.get(memo_key)
        leaves = []
        todo = list(known) if known is not None else [[]]
        heap0, pc0, draws0, notes0 = dict(self.heap), len(self.pc), list(self.draws), list(self.notes)
        trail0, pos0, prefix0, alt0 = self.trail, self.pos, self.prefix, self.alternatives
        revealed0, preds0 = dict(self.revealed), dict(self.preds)
        counter0, next0, touched0, loops0, frames0, depth0 = dict(self.counter), self.next_id, dict(self.touched), list(self.loops), list(self.frames), self.depth
        out = []
        maxid, maxcount = next0, dict(counter0)
        while todo:
            pre = todo.pop()
            nax = len(self.axioms)
            self.solver.push()
            self.trail, self.pos, self.prefix, self.alternatives = [], 0, list(pre), []
            self.heap, self.draws, self.notes = dict(heap0), [], []
            self.counter, self.next_id, self.touched = dict(counter0), next0, dict(touched0)
            self.loops, self.frames, self.depth = list(loops0), list(frames0), depth0
            self.revealed, self.preds = dict(revealed0), dict(preds0)
            self.subdepth += 1
            self.outer = memo_key
            status, value, exc, bad = None, None, None, None
            try:
                for a in assumptions:
                    self.assume(a)
                value = fn()
                status = "ok"
            except PyRaise as e:
                status, exc = "raise", e
            except Infeasible:
                status = "infeasible"
            except BaseException as e:  # noqa: BLE001
                bad = e
            self.subdepth -= 1
            self.outer = outer0
            if bad is None and self.pos < len(pre):
                bad = Unsupported("verifier: a path does not repeat its decisions")
            if known is None:
                todo.extend(self.alternatives)
            leaves.append(self.trail)
            conds = self.pc[pc0:]
            sub_heap, sub_draws, sub_notes = self.heap, self.draws, self.notes
            maxid = max(maxid, self.next_id)
            for k, c in self.counter.items():
                maxcount[k] = max(maxcount.get(k, 0), c)
            del self.pc[pc0:]
            self.solver.pop()
            for f in self.axioms[nax:]:
                self.solver.add(f)
            self.heap, self.draws, self.notes = dict(heap0), list(draws0), list(notes0)
            self.trail, self.pos, self.prefix, self.alternatives = trail0, pos0, prefix0, alt0
            self.touched, self.loops, self.frames, self.depth = dict(touched0), list(loops0), list(frames0), depth0
            self.revealed, self.preds = dict(revealed0), dict(preds0)
            if bad is not None:
                self.counter, self.next_id = maxcount, maxid
                raise bad
            if status != "infeasible":
                out.append(SubPath(conds, status, value, sub_heap, sub_draws, exc, sub_notes))
            if len(out) > 400:
                raise Unsupported("too many paths")
        self.counter, self.next_id = maxcount, maxid
        if known is None:
            self.memo[memo_key] = leaves
        return out

    def adopt(self, p):
        """Continue in the state at the end of a sub-path (whose conditions have been assumed)."""
        self.heap = dict(p.heap)

    # ------------------------------------------------------------ equality of values
    def eqz(self, a, b):
        """Are two z3 terms / Python numbers equal under the path condition?"""
        if is_z3(a) or is_z3(b):
            if is_z3(a) and is_z3(b) and a.eq(b):
                return True
            if is_bool(a) != is_bool(b):
                return False
            if is_bool(a):
                return self.entails(zbool(a) == zbool(b))
            if is_num(a) and is_num(b):
                if is_int(a) and is_int(b):
                    return self.entails(zint(a) == zint(b))
                x, y = X.of(zreal(a)), X.of(zreal(b))
                if x == y:
                    return True
                return self.entails(canon(zreal(a)) == canon(zreal(b)))
            if not (is_z3(a) and is_z3(b)) or a.sort() != b.sort():
                return False
            return self.entails(a == b)
        return a == b

    def same(self, a, b):
        """Provable equality of two (frozen) values under the path condition. Ownership tags do not matter."""
        if a is b:
            return True
        if isinstance(a, (Undef,)) or isinstance(b, (Undef,)):
            return False
        if isinstance(a, NpInt) != isinstance(b, NpInt):
            return False
        if isinstance(a, NpInt):
            return self.eqz(a.v, b.v)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                return self.same_str(a, b)
            return a is None and b is None
        if is_num(a) and is_num(b):
            return self.same_num(a, b)
        if type(a) is not type(b):
            if isinstance(a, (Ent, OVal)) and isinstance(b, (Ent, OVal)):
                return self.same(self.reveal(a), self.reveal(b)) if (a.cls is None or b.cls is None or a.cls.qual == b.cls.qual) else False
            if isinstance(a, Str) or isinstance(b, Str):
                return False
            return False
        try:
            if M.key(a) == M.key(b):
                return True
        except TypeError:
            pass
        if isinstance(a, Ent):
            if self.entails(a.term == b.term):
                return True
            return False
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, OVal):
            return a.cls.qual == b.cls.qual and a.fields.keys() == b.fields.keys() and all(self.same(a.fields[k], b.fields[k]) for k in a.fields)
        if isinstance(a, LVal):
            return a.kind == b.kind and self.same_content(a.content, b.content)
        if isinstance(a, DVal):
            return self.same_content(a.content, b.content)
        if isinstance(a, MVal):
            return self.same_mat(a.mat, b.mat)
        if isinstance(a, M.Mat):
            return self.same_mat(a, b)
        if isinstance(a, Str):
            return self.same_str(a, b)
        if isinstance(a, Opaque):
            return a.kind == b.kind and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, M.Factor):
            p, q = a.parts(), b.parts()
            return len(p) == len(q) and all(self.same(x, y) for x, y in zip(p, q))
        if isinstance(a, (SName, SOf, SJoin)):
            return self.same_part(a, b)
        if isinstance(a, FuncVal):
            return a.qual == b.qual and a.node is b.node and self.same(a.env, b.env) and self.same(captured(a), captured(b))
        if isinstance(a, (El, Sl)):
            return self.same_content((a,), (b,))
        return False

    def same_num(self, a, b):
        if isinstance(a, bool) != isinstance(b, bool) and not (is_z3(a) or is_z3(b)):
            return False
        if isinstance(a, X) or isinstance(b, X):
            return self.zero_x(X.of(a if isinstance(a, X) else (zreal(a) if is_z3(a) else a)) - X.of(b if isinstance(b, X) else (zreal(b) if is_z3(b) else b)))
        return self.eqz(a, b)

    def zero_x(self, x):
        if x.is_zero():
            return True
        # the path condition may fix symbols (an angle equal to zero, say)
        syms = [s for s in x.symbols() if s != alg.PIK]
        pairs = []
        for s in syms:
            t = alg.SYM[s]
            r, m = self.check()
            if m is None:
                continue
            v = m.eval(t, model_completion=True)
            if (z3.is_rational_value(v) or z3.is_int_value(v)) and self.entails(t == v):
                pairs.append((t, v))
                continue
            for q in (Fraction(k, d) for d in (1, 2, 4) for k in range(-8, 9)):
                if t.sort() == R and self.entails(t == alg.PI * z3.RealVal(str(q))):
                    pairs.append((t, alg.PI * z3.RealVal(str(q))))
                    break
        if pairs and x.subst(lambda t: z3.substitute(t, *pairs)).is_zero():
            return True
        if x.is_poly():
            p = x.z3()
            return self.entails(p == 0)
        return False

    # strings
    def same_str(self, a, b):
        a = Str([a]) if isinstance(a, str) else a
        b = Str([b]) if isinstance(b, str) else b
        p, q = self.expanded(a).parts, self.expanded(b).parts
        if len(p) != len(q):
            return False
        return all(self.same_part(x, y) for x, y in zip(p, q))

    def expanded(self, s):
        """Joins over an empty list or over single elements written out, as far as the path condition knows them."""
        out = []
        for x in s.parts:
            if isinstance(x, SJoin):
                c = self.norm_content(x.content)
                if all(isinstance(e, El) or self.entails(zint(self.length((e,))) <= 0) for e in c):
                    for i, e in enumerate([e for e in c if isinstance(e, El)]):
                        out += ([x.sep] if i else []) + [e.v]
                    continue
            out.append(x)
        return Str(out)

    def same_part(self, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        if type(x) is not type(y):
            return False
        if isinstance(x, SName):
            return self.eqz(x.term, y.term)
        if isinstance(x, SOf):
            return x.kind == y.kind and len(x.args) == len(y.args) and all(self.same(u, v) for u, v in zip(x.args, y.args))
        if isinstance(x, SJoin):
            return self.same_str(x.sep, y.sep) and self.same_content(x.content, y.content)
        return False

    # list contents
    def same_content(self, a, b):
        a, b = self.norm_content(a), self.norm_content(b)
        return self._same_content(list(a), list(b), 0)

    def _same_content(self, a, b, depth):
        if depth > 40:
            return False
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, El) and isinstance(y, El):
                if not self.same(x.v, y.v):
                    return False
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, Shuf) and isinstance(y, Shuf):
                if not (self.same(x.tag, y.tag) and self.same_content(x.content, y.content)):
                    return False
                a, b = a[1:], b[1:]
                continue
            if isinstance(x, Sl) and isinstance(y, Sl):
                if x.cond is not None or y.cond is not None or x.flat or y.flat:
                    if x.flat != y.flat or x.rev != y.rev:
                        if self.entails(zint(x.hi) <= zint(x.lo)):
                            a = a[1:]
                        elif self.entails(zint(y.hi) <= zint(y.lo)):
                            b = b[1:]
                        else:
                            return False
                        continue
                    if not (self.entails(zint(x.hi) - zint(x.lo) == zint(y.hi) - zint(y.lo)) and self.same_tab(x, y)):
                        return False
                    a, b = a[1:], b[1:]
                    continue
                lx, ly = zint(x.hi) - zint(x.lo), zint(y.hi) - zint(y.lo)
                if self.entails(lx == ly):
                    if not self.same_tab(x, y):
                        return False
                    a, b = a[1:], b[1:]
                    continue
                if x.rev != y.rev:
                    return False
                if self.entails(lx < ly):
                    if y.rev:
                        mid = simp_int(z3.simplify(zint(y.hi) - lx, som=True))
                        head, tail = Sl(y.tab, mid, y.hi, True), Sl(y.tab, y.lo, mid, True)
                    else:
                        mid = simp_int(z3.simplify(zint(y.lo) + lx, som=True))
                        head, tail = Sl(y.tab, y.lo, mid), Sl(y.tab, mid, y.hi)
                    if not self.same_tab(x, head):
                        return False
                    a, b = a[1:], [tail] + b[1:]
                    continue
                if self.entails(ly < lx):
                    a, b = b, a
                    continue
                return False
            if isinstance(x, El):
                a, b = b, a
                continue
            # x is a chunk, y an element
            if isinstance(x, Sl) and not x.flat and x.cond is None and self.entails(zint(x.hi) > zint(x.lo)):
                first, rest = self.split_first(x)
                if not self.same(first, y.v):
                    return False
                a, b = ([] if self.entails(zint(rest.hi) <= zint(rest.lo)) else [rest]) + a[1:], b[1:]
                a = list(self.norm_content(a))
                continue
            return False
        for rest in (a, b):
            for c in rest:
                if not (isinstance(c, Sl) and self.entails(zint(c.hi) <= zint(c.lo))):
                    return False
        return True

    def same_tab(self, x, y):
        """Pointwise equality of two chunks of equal length."""
        if x.rev != y.rev:
            return self.entails(zint(x.hi) - zint(x.lo) <= 1) and self.same_tab(Sl(x.tab, x.lo, x.hi), Sl(y.tab, y.lo, y.hi))
        k = self.fresh_index()
        i, j = zint(x.lo) + k, zint(y.lo) + k
        n = zint(x.hi) - zint(x.lo)
        self.solver.push()
        nax, npc = len(self.axioms), len(self.pc)
        try:
            self.solver.add(k >= 0, k < n)
            i, j = z3.simplify(i, som=True), z3.simplify(j, som=True)
            self.add_index(i)
            self.add_index(j)
            if (x.cond is None) != (y.cond is None):
                c = x.cond if x.cond is not None else y.cond
                v = x.tab.var if x.cond is not None else y.tab.var
                if not self.entails(z3.substitute(c, (v, i if x.cond is not None else j))):
                    return False
            if x.cond is not None and y.cond is not None:
                ci = z3.substitute(x.cond, (x.tab.var, i))
                if not self.entails(ci == z3.substitute(y.cond, (y.tab.var, j))):
                    return False
                self.solver.add(ci)
            a, b = self.tab_at(x.tab, i), self.tab_at(y.tab, j)
            return self.same(a, b)
        finally:
            self.solver.pop()
            for f in self.axioms[nax:]:
                self.solver.add(f)

    @contextlib.contextmanager
    def within(self, c, k):
        """Under the assumption that k is an index of the chunk."""
        self.solver.push()
        nax = len(self.axioms)
        try:
            self.solver.add(zint(c.lo) <= k, k < zint(c.hi))
            self.add_index(k)
            for f in c.tab.facts:
                self.solver.add(z3.substitute(f, (c.tab.var, k)))
            if c.cond is not None:
                self.solver.add(z3.substitute(c.cond, (c.tab.var, k)))
            yield
        finally:
            self.solver.pop()
            for f in self.axioms[nax:]:
                self.solver.add(f)

    def tab_at(self, tab, i):
        i = zint(i)
        for f in tab.facts:
            g = z3.substitute(f, (tab.var, i))
            self.register(g)
            self.ax(g)
        self.add_index(i)
        return subst(tab.template, [(tab.var, i)])

    def split_first(self, sl):
        if sl.rev:
            i = simp_int(z3.simplify(zint(sl.hi) - 1))
            return self.tab_at(sl.tab, i), Sl(sl.tab, sl.lo, i, True)
        return self.tab_at(sl.tab, sl.lo), Sl(sl.tab, simp_int(z3.simplify(zint(sl.lo) + 1)), sl.hi)

    def split_last(self, sl):
        if sl.rev:
            return self.tab_at(sl.tab, sl.lo), Sl(sl.tab, simp_int(z3.simplify(zint(sl.lo) + 1)), sl.hi, True)
        i = simp_int(z3.simplify(zint(sl.hi) - 1))
        return self.tab_at(sl.tab, i), Sl(sl.tab, sl.lo, i)

    def norm_content(self, content):
        out = []
        for c in content:
            if isinstance(c, Sl):
                d = simp_int(z3.simplify(zint(c.hi) - zint(c.lo)))
                if isinstance(d, int):
                    if d <= 0:
                        continue
                    if d <= 8 and isinstance(c.lo, int) or d == 1:
                        rng = range(d - 1, -1, -1) if c.rev else range(d)
                        done = True
                        items = []
                        for k in rng:
                            i = simp_int(z3.simplify(zint(c.lo) + k))
                            if c.cond is not None:
                                cd = self.bsimp(z3.substitute(c.cond, (c.tab.var, zint(i))))
                                if cd is False:
                                    continue
                                if cd is not True:
                                    done = False
                                    break
                            v = self.tab_at(c.tab, i)
                            if c.flat:
                                items.extend(v.content)
                            else:
                                items.append(El(v))
                        if done:
                            out.extend(self.norm_content(items))
                            continue
                if c.flat and c.cond is not None and isinstance(c.tab.template, LVal) and self.cond_redundant(c):
                    c = Sl(c.tab, c.lo, c.hi, c.rev, None, True)
                if c.flat and c.cond is None and isinstance(c.tab.template, LVal) and len(c.tab.template.content) == 1 and isinstance(c.tab.template.content[0], El):
                    c = Sl(Tab(c.tab.var, c.tab.template.content[0].v, c.tab.facts), c.lo, c.hi, c.rev)
                # adjacent slices of the same table
                if out and isinstance(out[-1], Sl) and not c.rev and not out[-1].rev and c.flat == out[-1].flat and M.key(out[-1].tab) == M.key(c.tab) \
                        and (c.cond is None) == (out[-1].cond is None) and M.key(zint(out[-1].hi)) == M.key(zint(c.lo)) \
                        and (c.cond is None or M.key(Sl(c.tab, 0, 1, False, c.cond)) == M.key(Sl(out[-1].tab, 0, 1, False, out[-1].cond))):
                    out[-1] = Sl(c.tab, out[-1].lo, c.hi, False, c.cond, c.flat)
                    continue
            out.append(c)
        return tuple(out)

    def cond_redundant(self, c):
        """Do the indices that the condition excludes contribute empty lists only?"""
        if not all(isinstance(x, Sl) and not x.rev for x in c.tab.template.content):
            return False
        v = c.tab.var
        empty = z3.And([zint(x.hi) <= zint(x.lo) for x in c.tab.template.content] or [z3.BoolVal(True)])
        return self.entails(z3.Implies(z3.And(zint(c.lo) <= v, v < zint(c.hi), z3.Not(zbool(c.cond))), empty))

    def times(self, m, k):
        """Product of lengths."""
        m, k = simp_int(z3.simplify(zint(m), som=True)), simp_int(k)
        if not (is_z3(m) and is_z3(k)):
            return m * k
        off = 0
        if z3.is_add(m):
            off = sum(c.as_long() for c in m.children() if z3.is_int_value(c))
        base = z3.simplify(m - off, som=True)
        t = TIMES(base, k)
        self.ax(z3.Implies(z3.And(base >= 1, k >= 1), z3.And(t >= k, t >= base)))
        self.ax(z3.Implies(z3.Or(base == 0, k == 0), t == 0))
        return t + off * k

    def length(self, content):
        n, extra = 0, None
        for c in content:
            if isinstance(c, El):
                n += 1
            elif isinstance(c, Shuf):
                m = self.length(c.content)
                extra = m if extra is None else extra + m
                continue
            else:
                m = zint(c.hi) - zint(c.lo)
                if c.flat:
                    k = self.length(c.tab.template.content)
                    if mentions(k, {c.tab.var.decl().name()}) if is_z3(k) else False:
                        m = self.skolem("lensum", None, None, I, c)
                        first = z3.substitute(k, (c.tab.var, zint(c.lo)))
                        self.register(first)
                        self.ax(z3.And(m >= 0, z3.Implies(z3.And(zint(c.lo) < zint(c.hi), first >= 0), m >= first)))
                    else:
                        m = self.times(m, k)
                    if c.cond is not None:
                        raise Unsupported("length of a filtered nested list")
                elif c.cond is not None:
                    full = m
                    m = self.skolem("count", None, None, I, Sl(Tab(c.tab.var, 0), c.lo, c.hi, False, c.cond))
                    self.ax(z3.And(m >= 0, z3.Implies(zint(c.lo) <= zint(c.hi), m <= full)))
                    qa = self.qatom(c.tab.var, c.lo, c.hi, z3.Not(c.cond))
                    self.ax((m == 0) == zbool(qa))
                    qb = self.qatom(c.tab.var, c.lo, c.hi, c.cond)
                    self.ax(z3.Implies(zint(c.lo) <= zint(c.hi), (m == full) == zbool(qb)))
                else:
                    s = simp_int(z3.simplify(m))
                    if not isinstance(s, int) and not self.entails(m >= 0):
                        m = z3.If(m >= 0, m, z3.IntVal(0))
                    elif isinstance(s, int):
                        m = z3.IntVal(max(s, 0))
                extra = m if extra is None else extra + m
        if extra is None:
            return n
        return simp_int(z3.simplify(extra + n))

    # ------------------------------------------------------------ matrices
    def same_mat(self, a, b):
        if not (self.eqz(a.rows, b.rows) and self.eqz(a.cols, b.cols)):
            return False
        return self.same_mat_(a, b)

    def open_sums(self, m):
        """Sums of no or one matrix written out."""
        if not any(len(w) == 1 and isinstance(w[0], M.FSum) for _, _, w in m.terms):
            return m
        out = M.Mat(m.rows, m.cols, [], m.phase)
        for s, d, w in m.terms:
            t = M.Mat(m.rows, m.cols, [(s, d, w)], m.phase)
            if len(w) == 1 and isinstance(w[0], M.FSum) and w[0].sl.cond is None and not w[0].sl.flat:
                sl = w[0].sl
                if self.entails(zint(sl.hi) <= zint(sl.lo)):
                    continue
                if self.entails(zint(sl.hi) == zint(sl.lo) + 1):
                    f = self.tab_at(sl.tab, sl.lo)
                    t = M.Mat(m.rows, m.cols, f.terms, m.phase).scale(s, d)
            out = out.plus(t)
        return out

    def same_mat_(self, a, b):
        a, b = self.open_sums(a), self.open_sums(b)
        ph = a.phase or b.phase
        if a.single() and b.single():
            (s, d, w), (s2, d2, w2) = a.terms[0], b.terms[0]
            if all(f.unitary() for f in w) and all(f.unitary() for f in w2):
                rest = self.reduce_word(list(w) + [g for f in reversed(w2) for g in f.flip(True, True)])
                return self.scalar_word(rest, s, d, s2, d2, ph)
            if self.same_word(w, w2):
                return self.same_scal(s, d, s2, d2, ph)
            return False
        if ph or len(a.terms) != len(b.terms):
            return False
        left = list(b.terms)
        for s, d, w in a.terms:
            for k, (s2, d2, w2) in enumerate(left):
                if self.same_word(w, w2) and self.same_scal(s, d, s2, d2, False):
                    del left[k]
                    break
            else:
                return False
        return True

    def scalar_word(self, rest, s, d, s2, d2, ph):
        """Is s*d*rest equal to s2*d2 (times identity), up to phase if ph?"""
        if not rest:
            return self.same_scal(s, d, s2, d2, ph)
        if len(rest) == 1 and isinstance(rest[0], M.FExpl):
            f = rest[0]
            c = f.at(0, 0)
            for i in range(f.n):
                for j in range(f.n):
                    if not self.zero_x(f.at(i, j) - (c if i == j else X({}))):
                        return False
            return True if ph else self.same_scal(s * c, d, s2, d2, ph)
        if len(rest) == 1 and isinstance(rest[0], (M.FEmb,)) and rest[0].mat.single():
            t, e, w = rest[0].mat.terms[0]
            return self.scalar_word(self.reduce_word(list(w)), s * t, M.dets_mul(d, e), s2, d2, ph or rest[0].mat.phase)
        if len(rest) == 1 and isinstance(rest[0], M.FExpI):
            h = rest[0].h
            if all(not w and not dd for _, dd, w in h.terms):
                return ph
            return all(self.zero_x(x) for x, _, _ in h.terms)
        return False

    def same_scal(self, s, d, s2, d2, ph):
        dd = M.dets_mul(d, tuple((f, -e) for f, e in d2))
        dd = tuple((f, e) for f, e in dd if not self.zero_x(e))
        if dd:
            return ph and M.unimodular(dd)
        if ph:
            q = s * s.conj() - s2 * s2.conj()
            return self.zero_x(q)
        return self.zero_x(s - s2)

    def same_word(self, w, w2):
        w, w2 = self.reduce_word(list(w)), self.reduce_word(list(w2))
        return len(w) == len(w2) and all(self.same_factor(f, g) for f, g in zip(w, w2))

    def same_factor(self, f, g):
        if M.key(f) == M.key(g):
            return True
        if type(f) is not type(g):
            return False
        if isinstance(f, M.FAtom):
            return (f.t, f.c) == (g.t, g.c) and self.eqz(f.term, g.term)
        if isinstance(f, M.FExpl):
            return (f.n, f.m) == (g.n, g.m) and all(self.zero_x(x - y) for x, y in zip(f.e, g.e))
        if isinstance(f, M.FKron):
            return self.same_mat(f.a, g.a) and self.same_mat(f.b, g.b)
        if isinstance(f, M.FExpI):
            return (f.t, f.c) == (g.t, g.c) and self.same_lin(f.h, g.h)
        if isinstance(f, M.FEmb):
            return self.eqz(f.D, g.D) and self.same_content(f.qubits, g.qubits) and self.same_mat(f.mat, g.mat)
        if isinstance(f, M.FProd):
            return (f.dag, f.t) == (g.dag, g.t) and self.eqz(f.D, g.D) and self.same_content((f.sl,), (g.sl,))
        if isinstance(f, M.FSum):
            return self.same_content((f.sl,), (g.sl,))
        if isinstance(f, M.FClean):
            return self.eqz(f.eps, g.eps) and f.which == g.which and self.same_mat(f.mat, g.mat)
        p, q = f.parts(), g.parts()
        return len(p) == len(q) and all(self.same(x, y) for x, y in zip(p, q))

    def same_lin(self, h, k):
        """Equality of linear combinations; sums over the same index range are compared termwise."""
        return self.same_mat(self.pull_sums(h), self.pull_sums(k))

    def pull_sums(self, h):
        return h

    def reduce_word(self, word):
        """Cancellation under the path condition."""
        changed = True
        word = list(M.simplify(word))
        while changed:
            changed = False
            word = list(M.simplify(self.flatten_full(word)))
            for i in range(len(word) - 1):
                r = self.merge(word[i], word[i + 1])
                if r is not None:
                    word[i:i + 2] = r
                    changed = True
                    break
        return word

    def flatten_full(self, word):
        out = []
        for f in word:
            if isinstance(f, M.FEmb) and f.mat.single() and not f.mat.terms[0][1] and self.all_qubits(f.qubits, f.D):
                if f.mat.terms[0][0] == X.of(1) or f.mat.phase:
                    out.extend(f.mat.word)
                    continue
            if isinstance(f, M.FProd) and self.entails(zint(f.sl.hi) <= zint(f.sl.lo)):
                continue
            if isinstance(f, M.FProd) and isinstance(f.sl.tab.template, M.Mat) and not f.sl.flat:
                # a product of products is the product of the concatenated lists
                t = f.sl.tab.template
                if t.single() and len(t.word) == 1 and isinstance(t.word[0], M.FProd) and not t.word[0].dag and not t.word[0].t and not t.terms[0][1] \
                        and (t.phase or t.terms[0][0] == X.of(1)):
                    s = f.sl
                    f = M.FProd(Sl(Tab(s.tab.var, LVal((t.word[0].sl,)), s.tab.facts), s.lo, s.hi, False, s.cond, True), f.D, f.dag, f.t)
            if isinstance(f, M.FProd) and isinstance(f.sl.tab.template, M.Mat):
                f = self.reduce_template(f)
                t = f.sl.tab.template
                if t.single() and len(t.word) == 1 and isinstance(t.word[0], M.FExpI) and not f.t and f.sl.cond is None and not f.sl.flat \
                        and not mentions(t, {f.sl.tab.var.decl().name()}):
                    e = t.word[0]
                    if not e.t and not e.c:
                        n = zint(f.sl.hi) - zint(f.sl.lo)
                        h = e.h.scale(X.of(z3.ToReal(z3.simplify(n))))
                        out.append(M.FExpI(h.scale(X.of(-1)) if f.dag else h))
                        continue
            out.append(f)
        return out

    def reduce_template(self, f):
        """Simplify the factors of a product over a list."""
        s = f.sl
        t = s.tab.template
        if s.flat or not t.single() or not any(isinstance(g, M.FEmb) and g.mat.single() and len(g.mat.word) == 1 and isinstance(g.mat.word[0], M.FExpI) for g in t.word):
            return f
        k = self.fresh_index()
        with self.within(s, k):
            m = self.tab_at(s.tab, k)
            m = M.Mat(m.rows, m.cols, [(x, d, tuple(self.reduce_word(list(w)))) for x, d, w in m.terms], m.phase)
        return M.FProd(Sl(Tab(k, m, [z3.substitute(g, (s.tab.var, k)) for g in s.tab.facts]), s.lo, s.hi, s.rev, None if s.cond is None else z3.substitute(s.cond, (s.tab.var, k))), f.D, f.dag, f.t)

    def all_qubits(self, qubits, D):
        """Is the list exactly 0, 1, ..., n-1 with D = 2^n?"""
        q = self.norm_content(qubits)
        n = self.length(q)
        k = z3.Int("ixQz")
        ident = (Sl(Tab(k, k), 0, n),)
        if isinstance(n, int) and n > 12:
            return False
        if not self.eqz(D, self.pow2(n) if not isinstance(n, int) else 2 ** n):
            return False
        return self.same_content(q, ident if not isinstance(n, int) else tuple(El(j) for j in range(n)))

    def merge(self, f, g):
        """Replace two adjacent factors, or None."""
        if f.unitary():
            fd = f.flip(True, True)[0]
            if type(fd) is type(g) and self.same_factor(fd, g):
                return []
        if isinstance(f, M.FEmb) and isinstance(g, M.FEmb) and self.eqz(f.D, g.D) and self.same_content(f.qubits, g.qubits):
            return list(M.single_factor(M.FEmb(self.reduce_mat(f.mat.times(g.mat)), f.qubits, f.D)))
        if isinstance(f, M.FExpI) and isinstance(g, M.FExpI) and not (f.t or f.c or g.t or g.c) and f.h.single() and g.h.single() and self.same_word(f.h.word, g.h.word):
            (s, d, w), (s2, d2, _) = f.h.terms[0], g.h.terms[0]
            if not d and not d2:
                t = s + s2
                return [] if self.zero_x(t) else [M.FExpI(M.Mat(f.h.rows, f.h.cols, [(t, (), w)]))]
        if isinstance(f, M.FExpI) and isinstance(g, M.FExpI) and not (f.t or f.c or g.t or g.c):
            if self.same_mat(f.h, g.h.scale(X.of(-1))):
                return []
        if isinstance(f, M.FProd) and isinstance(g, M.FProd):
            return self.merge_prods(f, g)
        if isinstance(f, M.FProd) and f.sl.cond is None and not f.sl.flat and not f.t:
            return self.merge_prod_one(f, g)
        if isinstance(g, M.FProd) and g.sl.cond is None and not g.sl.flat and not g.t:
            r = self.merge_prod_one(g.flip(True, True)[0], f.flip(True, True)[0]) if len(f.flip(True, True)) == 1 else None
            return None if r is None else [y for x in reversed(r) for y in x.flip(True, True)]
        return None

    def reduce_mat(self, m):
        if m.single():
            s, d, w = m.terms[0]
            return M.Mat(m.rows, m.cols, [(s, d, tuple(self.reduce_word(list(w))))], m.phase)
        return m

    def tab_word(self, sl, i):
        t = self.tab_at(sl.tab, i)
        return t

    def _is(self, m, g, dag):
        """Does the single-term unitary template m (dagger if dag) equal the factor g up to phase?"""
        if dag:
            m = m.dagger()
        return m.single() and len(m.word) == 1 and self.same_factor(m.word[0], g)

    def merge_prod_one(self, f, g):
        """f = product over a slice, g a single factor to its right."""
        sl, lo, hi = f.sl, zint(f.sl.lo), zint(f.sl.hi)
        if not isinstance(sl.tab.template, M.Mat) or not sl.tab.template.single():
            return None
        if len(sl.tab.template.word) != 1 or type(sl.tab.template.word[0]) is not type(g):
            return None
        mk = lambda a, b: M.FProd(Sl(sl.tab, simp_int(z3.simplify(a)), simp_int(z3.simplify(b))), f.D, f.dag)
        if not f.dag:
            # P[lo:hi] = W(hi-1)...W(lo);  P * W(lo-1) = P[lo-1:hi];  P * W(lo)^dagger = P[lo+1:hi]
            if self.entails(hi > lo) and self._is(self.tab_at(sl.tab, lo), g, True):
                return [mk(lo + 1, hi)]
            if self._is(self.tab_at(sl.tab, lo - 1), g, False):
                return [mk(lo - 1, hi)]
        else:
            # P^dagger = W(lo)^d ... W(hi-1)^d;  P^d * W(hi-1) = P[lo:hi-1]^d;  P^d * W(hi)^d = P[lo:hi+1]^d
            if self.entails(hi > lo) and self._is(self.tab_at(sl.tab, hi - 1), g, False):
                return [mk(lo, hi - 1)]
            if self._is(self.tab_at(sl.tab, hi), g, True):
                return [mk(lo, hi + 1)]
        return None

    def same_template(self, a, b):
        if a.flat != b.flat or (a.cond is None) != (b.cond is None):
            return False
        if M.key(Sl(a.tab, 0, 1, False, a.cond)) == M.key(Sl(b.tab, 0, 1, False, b.cond)):
            return True
        if a.cond is not None:
            return False
        k = self.fresh_index()
        return self.same(subst(a.tab.template, [(a.tab.var, k)]), subst(b.tab.template, [(b.tab.var, k)]))

    def merge_prods(self, f, g):
        if f.t or g.t or not self.same_template(f.sl, g.sl):
            return None
        a, b, c, d = (zint(x) for x in (f.sl.lo, f.sl.hi, g.sl.lo, g.sl.hi))
        mk = lambda lo, hi, dag: M.FProd(Sl(f.sl.tab, simp_int(z3.simplify(lo)), simp_int(z3.simplify(hi)), False, f.sl.cond, f.sl.flat), f.D, dag)
        if not f.dag and not g.dag:
            if self.entails(a == d):
                return [mk(c, b, False)]
        elif f.dag and g.dag:
            if self.entails(b == c):
                return [mk(a, d, True)]
        elif not f.dag and g.dag:
            # P[a:b] P[c:d]^dagger with a == c
            if self.entails(a == c):
                if self.entails(d <= b):
                    return [mk(d, b, False)]
                if self.entails(b <= d):
                    return [mk(b, d, True)]
        else:
            # P[a:b]^dagger P[c:d] with b == d
            if self.entails(b == d):
                if self.entails(a <= c):
                    return [mk(a, c, True)]
                if self.entails(c <= a):
                    return [mk(c, a, False)]
        return None

    def reveal(self, v):
        """Ent -> OVal with its fields."""
        return self.world.spec.reveal(self.interp, v) if isinstance(v, Ent) and v.cls is not None else v

    def generic(self, chunk, k, fn):
        from .loops import generic
        return generic(self, chunk, k, fn)


def nested_witness(t):
    """Is an argument the witness of an atom that was itself instantiated? (Stops instantiation from feeding itself.)"""
    stack = list(t.children())
    while stack:
        x = stack.pop()
        if x.children() and x.decl().name().startswith(("sk!", "argmin<", "argmax<", "twin")):
            return True
        stack.extend(x.children())
    return False


def free_names(node):
    import ast
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def skeleton(v):
    """(shape string, list of free z3 terms) of a value, bound variables by depth."""
    args = []

    def z(t, bound):
        names = {n for n in bound}
        if not has_any(t, names):
            for k, a in enumerate(args):
                if a.eq(t):
                    return f"${k}"
            if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                return t.sexpr()
            args.append(t)
            return f"${len(args) - 1}"
        if z3.is_const(t):
            return bound[t.decl().name()]
        return "(" + t.decl().name() + " " + " ".join(z(c, bound) for c in t.children()) + ")"

    def go(v, bound):
        if isinstance(v, Tab):
            b = dict(bound)
            b[v.var.decl().name()] = f"%{len(bound)}"
            return f"({b[v.var.decl().name()]}:{go(v.template, b)})"
        if isinstance(v, Sl) and v.cond is not None:
            b = dict(bound)
            b[v.tab.var.decl().name()] = f"%{len(bound)}"
            return f"(sl {v.rev} {v.flat} {go(v.lo, bound)} {go(v.hi, bound)} {go(v.tab, bound)} if {go(v.cond, b)})"
        if is_z3(v):
            s = z3.simplify(v, som=True) if v.sort() in (I, R) else v
            return z(s, bound)
        if isinstance(v, X):
            return "{" + " + ".join(f"{sorted(alg.cyc_norm(c).items())}" + "".join(f"*{go(alg.SYM[s], bound)}^{e}" for s, e in m) + "E" + "".join(f"+{q}" + "".join(f"*{go(alg.SYM[s], bound)}^{e}" for s, e in n) for n, q in ex)
                                    for (m, ex), c in sorted(v.d.items())) + "}"
        p = M.parts_of(v)
        if p is None:
            return repr(v)
        return "(" + " ".join(go(x, bound) if not isinstance(x, (str, bool)) else repr(x) for x in p) + ")"
    s = go(v, {})
    return s, args


def has_any(t, names):
    if not names:
        return False
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in names:
            return True
        stack.extend(x.children())
    return False


def explore(world, harness, stats, max_paths=3000, budget=None):
    """Run harness(cx) on every path. Yields the Ctx of each finished path."""
    todo, memo, n = [[]], {}, 0
    t0 = time.time()
    while todo:
        prefix = todo.pop()
        cx = Ctx(world, prefix, stats, memo)
        try:
            harness(cx)
            if cx.pos < len(prefix):
                raise Unsupported("verifier: a path does not repeat its decisions")
            cx.finished = True
        except Restart:
            todo.append(prefix)
            continue
        except Infeasible:
            cx.finished = False
        except Unsupported:
            if cx.check()[0] != z3.unsat:
                raise
            cx.finished = False
        todo.extend(cx.alternatives)
        n += 1
        stats.paths += cx.finished
        if n > max_paths or (budget and time.time() - t0 > budget):
            raise Unsupported(f"path budget exceeded ({n} paths, {time.time() - t0:.0f} s)")
        yield cx
