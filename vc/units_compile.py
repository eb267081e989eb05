"""Units for compilation. The loop of a compilation is verified by its invariant: the sequence holds arbitrary generated gates
(whole layers), the cost trace arbitrary numbers, the annealing value any number; one iteration is run from there on every
path, and every path is compared with one Metropolis move. What follows the loop is run from the state in which it is left."""
from . import contracts
from .interp import Break, Continue, Return
from .loops import changed, read, write
from .engine import Restart
from .sequences import *
from .spec import *
from .spec import fits
from .units import *
from .units_compiler import counts_dict, ent_v

Tr = fn("trace", I, R)


class Loop:
    """The while rule for one compilation."""

    def __init__(self, h, setup):
        self.h, self.cx, self.it = h, h.cx, h.it
        self.setup = setup
        self.seen = 0
        self.left = False

    # ------------------------------------------------------------ parts of the state
    def find(self):
        """The sequence under construction and the cost trace: the one empty sequence and the one empty list of the state."""
        cx = self.cx
        seqs = [Ref(i) for i, c in cx.heap.items() if isinstance(c, ObjC) and c.cls.name == "UnitarySequence" and "%entries" in c.fields]
        if len(seqs) != 1:
            raise Unsupported(f"{len(seqs)} sequences before the loop")
        return seqs[0]

    def content(self):
        return entries(self.it, self.seq)

    def product(self):
        return product(self.it, {"self": self.seq})

    def distance(self):
        """The code's own distance (its contract is C03) of the target from the product."""
        return self.it.call(self.it.getattr(self.setup.target, "distance_from"), [self.product()], {})

    def close(self):
        return L.truth(self.it, self.it.call(self.it.getattr(self.product(), "close_to"), [self.setup.target, self.setup.threshold], {}))

    CANDIDATES = ("steps", "distance", "close", "product", "length")

    def candidate(self, name):
        it, cx = self.it, self.cx
        if name == "steps":
            return cx.length(self.trace())
        if name == "length":
            return cx.length(self.content())
        if name == "distance":
            return self.distance()
        if name == "close":
            return self.close()
        return self.product()

    def fits(self, name, v):
        """Could the value be the candidate's?"""
        if name in ("steps", "length"):
            return is_int(v)
        if name == "distance":
            return is_num(v) and not isinstance(v, Undef)
        if name == "close":
            return is_bool(v)
        o = self.cx.get(v) if isinstance(v, Ref) else v
        return isinstance(o, (Ent, OVal, ObjC)) and o.cls.name == "Unitary"

    def agrees(self, name, v):
        if not self.fits(name, v):
            return False
        w = self.candidate(name)
        cx = self.cx
        if name == "product":
            a, b = self.h.umat(v), self.h.umat(w)
            return cx.same_mat(M.Mat(a.rows, a.cols, a.terms, True), M.Mat(b.rows, b.cols, b.terms, True))
        if name == "close":
            return cx.entails(zbool(L.truth(self.it, v)) == zbool(w))
        return cx.eqz(v.v if isinstance(v, NpInt) else v, w)

    def trace(self):
        if self.trace_loc is None:
            return ()
        v = read(self.cx, self.cx.heap, self.trace_loc)
        return self.cx.norm_content((v if isinstance(v, ListC) else self.cx.get(v)).content)

    # ------------------------------------------------------------ the rule
    def __call__(self, it, st, env):
        cx = self.cx
        if self.seen:
            raise Unsupported("more than one loop in a compilation")
        self.seen += 1
        self.seq = self.find()
        self.elist = fields(it, self.seq)["%entries"]
        self.trace_loc = None
        self.h.req("starts with the empty sequence", not self.content())
        self.n0 = dict(cx.heap)
        self.entry = dict(cx.heap)
        key = ("loop", tuple(cx.trail))
        if key in cx.memo:
            locs, self.trace_loc, cx.next_id, counter, seg = cx.memo[key]
            cx.counter = dict(counter)
            cx.trail.extend(seg)
            cx.pos += len(seg)
        else:
            n = len(cx.trail)
            locs = self.discover(it, st, env)
            seg = cx.trail[n:]
            if all(forced for _, forced in seg):
                cx.memo[key] = (locs, self.trace_loc, cx.next_id, dict(cx.counter), seg)
                raise Restart()
        self.establish(locs)
        self.havoc(locs)
        draws0 = cx.draws
        cx.draws = []
        before = Before(self)
        cx.multiplied = []
        try:
            go = it.truth(it.ev(st.test, env))
            if go:
                try:
                    it.block(st.body, env)
                except Continue:
                    pass
                self.step(before, locs)
                raise Infeasible()
            it.block(st.orelse, env)
        except Break:
            pass
        except PyRaise as e:
            self.h.req("no step fails", False, f"{e.kind} {e.detail}")
            raise Infeasible()
        except Return:
            self.leave(before)
            raise
        self.leave(before)
        return True

    def leave(self, before):
        """The loop is left in the state it had before its last, unfinished iteration."""
        h, cx = self.h, self.cx
        h.cover("stops")
        self.left = True
        h.req("leaves without a further change", lambda: not cx.draws and cx.same(self.frozen(self.content()), before.content) and cx.same(self.frozen(self.trace()), before.trace))
        h.req("stops only when close or out of steps", lambda: L.or_(before.close, L.compare_nums(self.it, "==", before.steps, self.setup.max_steps)))

    def frozen(self, content):
        return LVal(tuple(self.cx.freeze(x) for x in content))

    def discover(self, it, st, env):
        """The places the loop changes, and which of them hold a known function of the rest of the state throughout."""
        cx = self.cx
        locs = {}

        def iteration():
            if not it.truth(it.ev(st.test, env)):
                raise Infeasible()
            try:
                it.block(st.body, env)
            except Continue:
                pass
            except (Break, Return):
                return None
            return {loc: n for loc, n in locs.items() if n in self.CANDIDATES and not self.agrees(n, read(cx, cx.heap, loc))}
        for _ in range(12):
            saved, nid = dict(cx.heap), cx.next_id
            self.havoc(locs)
            start = dict(cx.heap)
            paths = cx.sub(iteration, [])
            again = False
            for p in paths:
                if p.status != "ok":
                    continue
                for loc in changed(start, p.heap):
                    if loc[1] in saved and loc not in locs:
                        again = True
                        if self.is_trace(saved, p.heap, loc):
                            if self.trace_loc is not None:
                                raise Unsupported("two lists of numbers grow in the loop")
                            self.trace_loc, locs[loc] = loc, "trace"
                        else:
                            locs[loc] = None
                for loc, n in (p.value or {}).items():
                    again = True
                    k = self.CANDIDATES.index(n)
                    locs[loc] = self.next_candidate(saved, loc, k + 1)
            cx.heap, cx.next_id = saved, max(nid, cx.next_id)
            if not again:
                return locs
            for loc, n in locs.items():
                if n is None:
                    locs[loc] = self.kind(saved, loc)
        raise Unsupported("what the loop keeps unchanged is not found")

    def is_trace(self, before, after, loc):
        if loc[0] != "cell" or loc[1] == self.elist.id:
            return False
        a, b = before[loc[1]], after[loc[1]]
        return isinstance(a, ListC) and isinstance(b, ListC) and len(b.content) > len(a.content) and all(isinstance(c, El) and is_num(c.v) for c in b.content)

    def kind(self, heap, loc):
        v = read(self.cx, heap, loc)
        if loc[0] == "cell":
            if loc[1] == self.elist.id:
                return "entries"
            raise Unsupported("the loop changes an object")
        if loc[2] == "%undo":
            return "undo"
        return self.next_candidate(heap, loc, 0)

    def next_candidate(self, heap, loc, k):
        cx = self.cx
        v = read(cx, heap, loc)
        saved = cx.heap
        cx.heap = dict(heap)
        try:
            if not isinstance(v, Undef):
                for n in self.CANDIDATES[k:]:
                    if self.agrees(n, v):
                        return n
        finally:
            cx.heap = saved
        return "number" if is_num(v) and not is_bool(v) else "any"

    def establish(self, locs):
        self.h.req("starts with an empty trace", self.trace_loc is not None and not self.trace())

    def havoc(self, locs):
        cx, it = self.cx, self.it
        s = z3.Const("S", U)
        n = Sn(s)
        cx.assume(Sdim(s) == self.setup.D)
        for loc, k in locs.items():
            if k == "entries":
                write(cx, loc, ListC(self.setup.any_content(s), "list"))
            elif k == "trace":
                m = z3.Int("steps")
                cx.assume(z3.And(m >= 0, m <= zint(self.setup.max_steps)))
                write(cx, loc, ListC((tab(m, lambda i: Tr(i)),), "list"))
            elif k == "undo":
                write(cx, loc, Undef("saved in an earlier step"))
            elif k == "number":
                pre = read(cx, cx.heap, loc)
                nm = f"before {loc[2]}"
                t = z3.Int(nm) if is_int(pre) else z3.Real(nm)
                pos = cx.entails(zbool(L.compare_nums(it, ">=", pre, 0)))
                if pos:
                    cx.assume(t >= 0)
                self.numbers[loc] = (t, pos)
                write(cx, loc, t)
            elif k == "any" or k is None:
                write(cx, loc, Undef("from an earlier step"))
        for loc, k in locs.items():
            if k in self.CANDIDATES:
                write(cx, loc, self.candidate(k))
        if "trace" in locs.values() and "entries" in locs.values():
            m = z3.Int("steps")
            cx.assume(z3.Implies(m > 0, Tr(m - 1) == zreal(L.to_num(self.distance()))))

    numbers = {}

    # ------------------------------------------------------------ one step
    def step(self, before, locs):
        h, cx, it, s = self.h, self.cx, self.it, self.setup
        h.cover("step")
        h.req("no step once close, or after the last step", lambda: L.and_(L.not_(before.close), L.compare_nums(it, "<", before.steps, s.max_steps)))
        draws, multiplied, cx.multiplied = list(cx.draws), list(cx.multiplied), None
        after = self.frozen(self.content())
        a, e, u = self.pattern(draws)
        # the proposal
        act = self.action(draws[0], a)
        proposals = {"AppendFirst": lambda: [x + before.raw for x in s.arrangements(e)], "AppendLast": lambda: [before.raw + x for x in s.arrangements(e)],
                     "RemoveFirst": lambda: [s.without(before.raw, True)], "RemoveLast": lambda: [s.without(before.raw, False)]}[act]
        h.cover(act)
        h.req("a gate is drawn exactly to be added", (e is not None) == act.startswith("Append"))
        if (e is not None) != act.startswith("Append"):
            raise Infeasible()
        proposed = [self.frozen(p) for p in proposals()]
        old = before.distance
        # the arrangement the step used, in the form in which it kept it or took its product
        proposed = [x for p in proposed for x in [after] + multiplied if cx.same(x, p)][:1] or proposed
        self.set_content(proposed[0])
        new = self.distance()
        self.set_content(after)
        if cx.same(proposed[0], before.content):
            old = new
        beta = s.next_beta(self, before)
        diff = L.arith(it, "-", new, old)
        bound = it.call(L.lookup("numpy.exp"), [L.arith(it, "*", L.arith(it, "-", 0, beta), diff)], {})
        accept = L.or_(L.compare_nums(it, "<=", diff, 0), L.compare_nums(it, "<", u, bound))
        accept = accept if isinstance(accept, bool) else cx.decide(accept)
        if cx.same(proposed[0], before.content):
            h.req("a removal from the empty sequence changes nothing", lambda: h.same(after, before.content))
        elif accept:
            h.req("an accepted proposal is carried out", lambda: h.same(after, proposed[0]))
        else:
            h.req("a rejected proposal leaves the sequence as it was", lambda: h.same(after, before.content))
        cost = new if accept else old
        h.req("the trace grows by the distance after the step", lambda: h.same(self.frozen(self.trace()), LVal(before.trace.content + (El(L.to_num(cost)),))))
        h.req("the annealing value rises by its rate up to its maximum", lambda: h.same(L.to_num(s.beta(self)), L.to_num(beta)))
        for loc, k in locs.items():
            if k in self.CANDIDATES:
                h.req("what the loop relies on is kept", lambda: self.agrees(k, read(cx, cx.heap, loc)), definite=False)
            elif k == "number" and self.numbers[loc][1]:
                h.req("what the loop relies on is kept", lambda: L.compare_nums(it, ">=", read(cx, cx.heap, loc), 0), definite=False)
        h.req("keeps only generated gates", lambda: s.whole(self, after), definite=False)

    def set_content(self, v):
        self.cx.put(self.elist, ListC(v.content, "list"))

    def pattern(self, draws):
        """The random draws of one step: the action, the gate or layer if one is added, and the acceptance."""
        names = [d[0] for d in draws]
        if names == ["choice", "u01"]:
            return draws[0][2], None, draws[1][2]
        if names == ["choice", self.setup.drawn, "u01"]:
            return draws[0][2], self.setup.added(self, draws[1]), draws[2][2]
        if names in (["choice"], ["choice", self.setup.drawn]):
            # accepted or rejected without a draw: right only if a draw of any value would have decided the same
            u = self.cx.fresh("unused draw", R)
            self.cx.law(u, z3.And(u >= 0, u < 1))
            return draws[0][2], self.setup.added(self, draws[1]) if len(names) > 1 else None, u
        raise Unsupported(f"random draws of an unknown pattern: {names}")

    def action(self, d, a):
        """Checks how the action is drawn. -> its name on this path"""
        h, cx, it = self.h, self.cx, self.it
        content = d[1][0].content
        names = []
        for c in content:
            if not isinstance(c, El) or not hasattr(c.v, "name"):
                raise Unsupported("draw of something other than an action")
            names.append(c.v.name)
        h.req("chooses among the four actions", sorted(names) == ["AppendFirst", "AppendLast", "RemoveFirst", "RemoveLast"], definite=False)
        p = self.setup.p
        if d[1][1] is None:
            ws = [Fraction(1, len(names))] * len(names)
        else:
            if len(d[1][1].content) != len(names) or not all(isinstance(c, El) for c in d[1][1].content):
                raise Unsupported("weights of the actions")
            ws = [L.to_num(c.v) for c in d[1][1].content]
        for n, w in zip(names, ws):
            half = p / 2 if n.startswith("Append") else (1 - p) / 2
            h.req("adds with the append probability, evenly at both ends, and removes otherwise", lambda: cx.eqz(w, half) or h.same(w, half))
        for i in range(len(names) - 1):
            if cx.decide(a == i):
                return names[i]
        return names[-1]


class Before:
    """The state at the start of an iteration."""

    def __init__(self, loop):
        self.raw = tuple(loop.content())
        self.content = loop.frozen(self.raw)
        self.trace = loop.frozen(loop.trace())
        self.steps = loop.cx.length(loop.trace())
        self.distance = loop.distance()
        self.close = loop.close()
        self.beta = loop.setup.beta(loop)


class Plain:
    """An arbitrary compilation from gates."""
    drawn = "entry"

    def __init__(self, h, given, threshold):
        self.h = h
        cx = h.cx
        N = h.int("N", 1)
        self.D = D = cx.pow2(N)
        self.n, self.at = h.int("n_prims", 1), fn("a.prims", I, U)
        i = cx.fresh_index()
        cx.assume(cx.qatom(i, 0, self.n, vdim(self.at(i)) <= D))
        self.prims = LVal((tab(self.n, lambda i: ent_v(h, self.at(i))),), "list", "arg")
        w = fn("a.w", I, R)
        self.probs = LVal((tab(self.n, lambda i: w(i)),), "list", "arg") if given else None
        self.p, self.rate = h.real("p"), h.real("rate")
        cx.assume(z3.And(self.p >= 0, self.p <= 1, self.rate >= 0))
        t = z3.Const("target", U)
        cx.assume(Udim(t) == D)
        self.target = Ent(t, h.spec.cls("Unitary"), "arg")
        self.threshold = h.real("threshold") if threshold else None
        self.max_steps = h.int("max_steps", 0)
        cx.inline.add("Compiler.__init__")
        self.compiler = h.new("Compiler", D, self.prims, self.probs, self.p, self.rate)
        cx.inline.discard("Compiler.__init__")
        h.req("compiler accepted", self.compiler.kind == "ok")
        if self.compiler.kind != "ok":
            raise Infeasible()

    def any_content(self, s):
        ec = self.h.spec.cls("UnitarySequenceEntry")
        return (tab(Sn(s), lambda i: Ent(Se(s, i), ec, "new")),)

    def beta(self, loop):
        """The number that changes from step to step (and is kept from call to call)."""
        o, free, _ = next(x for x in self.h.objects if x[0] is self.compiler.value)
        names = ["beta"] if "beta" in free else [f for f in free if free[f]]
        if len(names) != 1:
            raise Unsupported("which attribute is the annealing parameter")
        return self.h.it.getattr(o, names[0])

    def next_beta(self, loop, before):
        it = self.h.it
        return L.minmax(it, "min", [L.arith(it, "+", before.beta, self.rate), self.max_beta()], {})

    def max_beta(self):
        h, cx = self.h, self.h.cx
        o, free, before = next(x for x in h.objects if x[0] is self.compiler.value)
        if "max_beta" in before.fields and "max_beta" not in free:
            return h.it.getattr(o, "max_beta")
        usual = h.py("spec_max_beta", self.D)
        if not any(f not in free and is_num(v) and not is_bool(v) and cx.same(v, usual) for f, v in before.fields.items()):
            raise Unsupported("which attribute is the maximum of the annealing parameter")
        return usual

    def added(self, loop, d):
        """The generated gate: drawn from the compiler's primitives with their probabilities."""
        h = self.h
        dd, prims, probs = d[1]
        h.req("gates come from the compiler's primitives", lambda: h.same(LVal((El(dd), El(prims))), LVal((El(self.D), El(self.prims)))))
        h.req("with the compiler's probabilities", lambda: h.same(LVal((El(probs),)), LVal((El(self.probs),))))
        return (El(d[2]),)

    def without(self, content, first):
        it, cx = self.h.it, self.h.cx
        n = cx.length(cx.norm_content(content))
        t = L.compare_nums(it, ">", n, 0)
        if t is False or (t is not True and not cx.decide(t)):
            return content
        return (L.take_first if first else L.take_last)(it, cx.norm_content(content))[1]

    def arrangements(self, e):
        return [e]

    def whole(self, loop, content):
        return True

    def run(self, loop):
        return self.h.call(self.compiler.value, "compile", self.target, self.threshold, self.max_steps)


class Layered(Plain):
    """An arbitrary compilation from layers. The sequence is a list of blocks, each of them a whole layer in some order."""
    drawn = "layer"

    def __init__(self, h, threshold, empty=False):
        super().__init__(h, False, threshold)
        cx = h.cx
        n, at, c, self.counts = counts_dict(h)
        i = cx.fresh_index()
        cx.assume(cx.qatom(i, 0, n, vdim(at(i)) <= self.D))
        self.L = contracts.layer_length(h.it, self.counts)
        cx.assume(zint(self.L) == 0 if empty else zint(self.L) >= 1)
        self.empty = empty

    def any_content(self, s):
        if self.empty:
            return ()
        return contracts.blocks(self.h.it, s, self.D, self.L)

    def added(self, loop, d):
        """The generated layer: drawn with the given counts."""
        h = self.h
        dd, counts = d[1]
        h.req("layers have the given counts", lambda: h.same(LVal((El(dd), El(counts))), LVal((El(self.D), El(self.counts)))))
        return d[2].content

    def arrangements(self, e):
        return [e, L.rev_content(self.h.it, e)]

    def without(self, content, first):
        """One block less."""
        it, cx = self.h.it, self.h.cx
        if not content:
            return content
        (c,) = content
        if not cx.decide(zint(c.hi) > zint(c.lo)):
            return content
        _, r = cx.split_first(c) if first else cx.split_last(c)
        return (Sl(r.tab, r.lo, r.hi, r.rev, None, True),)

    def run(self, loop):
        return self.h.call(self.compiler.value, "compile_layered", self.target, self.counts, self.threshold, self.max_steps)


def compilation(kind, *args):
    def unit_(h):
        cx, it = h.cx, h.it
        s = kind(h, *args)
        loop = Loop(h, s)
        cx.while_handler = loop
        r = s.run(loop)
        cx.while_handler = None
        h.req("does not fail", r.kind == "ok")
        if r.kind != "ok":
            return
        if not loop.left:
            raise Unsupported("no loop found")
        q = it.getattr(r.value, "compiled_sequence")
        h.req("returns the sequence", lambda: h.same(entry_list(h, entries(it, q)), loop.frozen(loop.content())))
        tr = it.getattr(r.value, "cost_by_step")
        h.req("returns the trace", lambda: h.same(entry_list(h, L.content_of(it, tr)), loop.frozen(loop.trace())))
        m = cx.length(loop.trace())
        h.req("the trace ends with the distance of the returned sequence", lambda: L.or_(L.compare_nums(it, "==", m, 0), L.compare_nums(it, "==", L.item_at(it, L.content_of(it, tr), -1) if cx.entails(zint(m) > 0) else 0, loop.distance()) if cx.entails(zint(m) > 0) else True))
    return unit_


def entry_list(h, content):
    return LVal(tuple(h.cx.freeze(x) for x in content))


for _g in (False, True):
    for _t in (False, True):
        unit(f"Compile.{'weighted' if _g else 'uniform'}.{'threshold' if _t else 'exact'}", "Compiler.compile", ["C12", "C13"] + (["C15", "C18"] if _t else []))(compilation(Plain, _g, _t))
for _t in (False, True):
    _n = "threshold" if _t else "exact"
    unit(f"Compile.layered.{_n}", "Compiler.compile_layered", ["C12", "C13", "C14"] + (["C15"] if _t else []))(compilation(Layered, _t))
    unit(f"Compile.layered.empty.{_n}", "Compiler.compile_layered", ["C12", "C13", "C14"])(compilation(Layered, _t, True))
