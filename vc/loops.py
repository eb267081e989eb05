"""Loops. A loop over a list of known length is unrolled; a loop over a list of unknown length is verified inductively:
the places its body changes are replaced by arbitrary values, one generic iteration is executed on every path, the
change of each place is read off as a function of the arbitrary value, and the closed form that this step defines is
used afterwards. Nothing is bounded."""
import ast

import z3

from . import lib as L, mat as M
from .alg import X
from .engine import FrameWrite, Infeasible, NeedPeel, PyRaise, Unsupported
from .interp import Break, Continue, Env, Return
from .values import *


# ---------------------------------------------------------------- comprehensions
def comprehension(it, e, env):
    cx = it.cx
    child = it.new_env(env.ref, env.module, env.func)
    if isinstance(e, ast.DictComp):
        content = gen(it, e.generators, 0, child, lambda en: (El((it.ev(e.key, en), it.ev(e.value, en))),))
        out = []
        for c in cx.norm_content(content):
            if isinstance(c, El):
                out = L.dict_put(it, out, *c.v)
            elif not out and isinstance(c, Sl):
                out = [c]
            else:
                raise Unsupported("dictionary comprehension")
        return cx.new(DictC(out))
    content = gen(it, e.generators, 0, child, lambda en: (El(it.ev(e.elt, en)),))
    if isinstance(e, ast.GeneratorExp):
        return L.lazy(it, content, env, {x.id for x in ast.walk(e) if isinstance(x, ast.Name)})
    return cx.new(ListC(content, "set" if isinstance(e, ast.SetComp) else "list"))


def gen(it, gens, n, env, emit):
    """Content produced by the generators from n on."""
    cx = it.cx
    if n == len(gens):
        return emit(env)
    g = gens[n]
    content = cx.norm_content(L.content_of(it, it.ev(g.iter, env)))
    out = []
    for c in content:
        out.extend(gen_chunk(it, g, gens, n, env, emit, c))
    return tuple(out)


def gen_one(it, g, gens, n, env, emit, v):
    it.assign(g.target, v, env)
    for test in g.ifs:
        if not it.truth(it.ev(test, env)):
            return None
    return gen(it, gens, n + 1, env, emit)


def gen_chunk(it, g, gens, n, env, emit, c):
    cx = it.cx
    if isinstance(c, El):
        r = gen_one(it, g, gens, n, env, emit, c.v)
        return r or ()
    if isinstance(c, Shuf):
        inner = []
        for x in c.content:
            inner.extend(gen_chunk(it, g, gens, n, env, emit, x))
        return (Shuf(tuple(cx.freeze(x) for x in inner), c.tag),)
    if c.flat:
        # one generic outer index, then the inner list
        k = cx.fresh_index()

        def inner(v):
            out = []
            for x in v.content:
                out.extend(gen_chunk(it, g, gens, n, env, emit, x))
            return LVal(tuple(cx.freeze(x) for x in out), "list", "new")
        v = generic(cx, c, k, inner)
        return (Sl(Tab(k, v, [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]), c.lo, c.hi, c.rev, None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k)), True),)
    k = cx.fresh_index()
    paths = run_generic(cx, c, k, lambda v: wrap(it, gen_one(it, g, gens, n, env, emit, v)))
    keep = [p for p in paths if p.value is not None]
    skip = [p for p in paths if p.value is None]
    facts = [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]
    cond = None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k))
    if not keep:
        return ()
    if skip:
        kc = cx.bsimp(disj([p.conds for p in keep]))
        cond = kc if cond is None else z3.And(cond, kc)
    v = merge_paths(cx, keep)
    if isinstance(v, LVal) and len(v.content) == 1 and isinstance(v.content[0], El):
        return (Sl(Tab(k, v.content[0].v, facts), c.lo, c.hi, c.rev, cond),)
    return (Sl(Tab(k, v, facts), c.lo, c.hi, c.rev, cond, True),)


def disj(cases):
    """The disjunction of conjunctions, cases that differ in one complementary literal joined."""
    cases = [{f.get_id(): f for f in c} for c in cases]

    def neg(f):
        return f.arg(0) if z3.is_not(f) else z3.Not(f)
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(cases):
            for j, b in enumerate(cases):
                if i == j:
                    continue
                if a.keys() <= b.keys():
                    cases.pop(j)
                    changed = True
                    break
                d = [k for k in a if k not in b]
                if len(d) == 1 and neg(a[d[0]]).get_id() in b:
                    k = neg(a[d[0]]).get_id()
                    if all(x in b for x in a if x != d[0]):
                        # (R and l) or (R' and not l) with R a subset of R': not l is redundant in the second
                        cases[j] = {x: f for x, f in b.items() if x != k}
                        changed = True
                        break
            if changed:
                break
    return z3.Or([z3.And(list(c.values())) if c else z3.BoolVal(True) for c in cases])


def wrap(it, r):
    return None if r is None else LVal(tuple(r), "list", "new")


# ---------------------------------------------------------------- generic elements
def run_generic(cx, c, k, fn):
    """All paths of fn on the element at index k; raising paths become a quantified condition."""
    def run():
        cx.loops.append(k)
        cx.add_index(k)
        v = cx.tab_at(c.tab, k) if not (isinstance(c.tab.template, tuple) and len(c.tab.template) == 1 and isinstance(c.tab.template[0], Opaque) and c.tab.template[0].kind == "i") else None
        for f in c.tab.facts:
            cx.assume(z3.substitute(f, (c.tab.var, k)))
        r = fn(v)
        return cx.freeze(r)
    assump = [zint(c.lo) <= k, k < zint(c.hi)]
    if c.cond is not None:
        assump.append(z3.substitute(c.cond, (c.tab.var, k)))
    heap0 = dict(cx.heap)
    outer, cx.claims = cx.claims, None
    try:
        paths = cx.sub(run, assump)
    finally:
        cx.claims = outer
    na = len(assump)
    ok = []
    bad = []
    for p in paths:
        p.conds = [x for x in p.conds if not any(x.eq(cx.bsimp(a)) if not isinstance(cx.bsimp(a), bool) else False for a in assump)]
        for i, content in p.heap.items():
            if i in heap0 and content is not heap0[i] and not isinstance(content, EnvC):
                raise Unsupported("a generic element changes an object")
        (ok if p.status == "ok" else bad).append(p)
    if bad:
        rc = disj([p.conds for p in bad])
        body = z3.Not(rc)
        if c.cond is not None:
            body = z3.Implies(z3.substitute(c.cond, (c.tab.var, k)), body)
        q = cx.qatom(k, c.lo, c.hi, body)
        if not (q is True or (q is not False and cx.decide(q))):
            raise bad[0].exc
    draws = [p for p in ok if p.draws]
    if draws:
        if len(ok) != 1:
            raise Unsupported("random draws on some paths of a generic element only")
        cx.draws.append(("each", (k, c.lo, c.hi, c.rev, None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k))), list(ok[0].draws)))
    return ok


def generic(cx, c, k, fn):
    ok = run_generic(cx, c, k, fn)
    if not ok:
        return Undef("no element")
    return merge_paths(cx, ok)


def merge_paths(cx, paths):
    vals = [p.value for p in paths]
    if len(vals) == 1:
        return vals[0]
    return merge_vals(cx, [(p.conds, p.value) for p in paths])


def merge_vals(cx, items):
    k0 = None
    try:
        keys = [M.key(v) if not is_z3(v) else v.sexpr() for _, v in items]
        if len(set(keys)) == 1:
            return items[0][1]
    except TypeError:
        pass
    vals = [v for _, v in items]
    cond = lambda cs: z3.And(cs) if cs else z3.BoolVal(True)
    if all(is_bool(v) for v in vals):
        return cx.bsimp(disj([list(cs) + ([] if v is True else [zbool(v)]) for cs, v in items if v is not False]))
    if all(is_int(v) for v in vals):
        np_ = any(isinstance(v, NpInt) for v in vals)
        t = zint(vals[-1])
        for cs, v in reversed(items[:-1]):
            t = z3.If(cond(cs), zint(v), t)
        return NpInt(t) if np_ else t
    if all(is_num(v) and not isinstance(v, X) for v in vals):
        t = zreal(vals[-1])
        for cs, v in reversed(items[:-1]):
            t = z3.If(cond(cs), zreal(v), t)
        return t
    if all(isinstance(v, (str, Str)) for v in vals):
        t = vals[-1]
        for cs, v in reversed(items[:-1]):
            c = cx.bsimp(cond(cs))
            if z3.is_not(c):
                t = Str([SOf("ite", [c.arg(0), t, v])])
            else:
                t = Str([SOf("ite", [c, v, t])])
        return t
    if all(isinstance(v, LVal) for v in vals) and len({len(v.content) for v in vals}) == 1 and all(isinstance(c, El) for v in vals for c in v.content):
        n = len(vals[0].content)
        return LVal(tuple(El(merge_vals(cx, [(cs, v.content[i].v) for cs, v in items])) for i in range(n)), vals[0].kind, vals[0].tag)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge_vals(cx, [(cs, v[i]) for cs, v in items]) for i in range(len(vals[0])))
    if all(isinstance(v, OVal) for v in vals) and len({v.cls.qual for v in vals}) == 1:
        return OVal(vals[0].cls, {f: merge_vals(cx, [(cs, v.fields[f]) for cs, v in items]) for f in vals[0].fields}, vals[0].tag)
    raise Unsupported("values that differ between paths of a generic element")


# ---------------------------------------------------------------- for loops
def dead_after(st, func):
    """Variables that nothing outside the loop reads (its own iterations set them before they read them, or the rule fails)."""
    node = getattr(func, "node", None)
    if node is None:
        return frozenset()
    live = set()

    def reads(n, bound):
        if n is st:
            return
        if isinstance(n, ast.Name):
            if not isinstance(n.ctx, ast.Store) and n.id not in bound:
                live.add(n.id)
            return
        if isinstance(n, ast.For) and not any(x is st for x in ast.walk(n)):
            # its own iterations set its variables before they read them
            reads(n.iter, bound)
            own = bound | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            for x in n.body:
                reads(x, own)
            for x in n.orelse:
                reads(x, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # the variables of a comprehension are its own
            inner = bound
            for g in n.generators:
                reads(g.iter, inner)
                inner = inner | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for x in g.ifs:
                    reads(x, inner)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                reads(x, inner)
            return
        if isinstance(n, ast.Lambda):
            for x in n.args.defaults + n.args.kw_defaults:
                if x is not None:
                    reads(x, bound)
            reads(n.body, bound | {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs})
            return
        for x in ast.iter_child_nodes(n):
            reads(x, bound)
    reads(node, frozenset())
    return frozenset(x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) - live


def breaks(body):
    """Does a break of the loop itself, or a return, occur?"""
    for st in body:
        if isinstance(st, (ast.Break, ast.Return)):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if breaks(st.orelse) or any(isinstance(x, ast.Return) for x in ast.walk(st)):
                return True
        elif not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if any(breaks(getattr(st, f, [])) for f in ("body", "orelse", "finalbody")):
                return True
    return False


def as_while(it, st, env):
    """for x in range(n): body, with the counter written out (for a loop that an invariant is given for)."""
    e = st.iter
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred) and breaks(st.body)):
        return None
    if it.ev(e.func, env) is not L.builtin("range"):
        return None
    n = it.ev(e.args[0], env)
    if not (isinstance(n, int) and not isinstance(n, bool) or is_z3(n) and is_int(n)):
        return None
    key = id(st)
    if key not in it.world.desugared:
        i, m = f"%count{st.lineno}", f"%limit{st.lineno}"
        name = lambda x, c: ast.Name(id=x, ctx=c())
        head = [ast.Assign(targets=[st.target], value=name(i, ast.Load)),
                ast.AugAssign(target=name(i, ast.Store), op=ast.Add(), value=ast.Constant(value=1))]
        test = ast.Compare(left=name(i, ast.Load), ops=[ast.Lt()], comparators=[name(m, ast.Load)])
        w = ast.While(test=test, body=head + list(st.body), orelse=st.orelse)
        ast.copy_location(w, st)
        ast.fix_missing_locations(w)
        it.world.desugared[key] = (st, w, i, m)
    _, w, i, m = it.world.desugared[key]
    it.assign(ast.Name(id=i, ctx=ast.Store()), 0, env)
    it.assign(ast.Name(id=m, ctx=ast.Store()), n, env)
    return w


def for_stmt(it, st, env):
    cx = it.cx
    if cx.while_handler is not None and not cx.while_handler.seen:
        w = as_while(it, st, env)
        if w is not None:
            return while_stmt(it, w, env)
    dead = (env.ref.id, dead_after(st, env.func))
    content = list(cx.norm_content(L.content_of(it, it.ev(st.iter, env))))

    def body(v):
        it.assign(st.target, v, env)
        try:
            it.block(st.body, env)
        except Continue:
            pass
    try:
        for c in content:
            run_chunk(it, c, body, dead=dead)
    except Break:
        return
    it.block(st.orelse, env)


def fold(it, content, acc, fn):
    """functools.reduce"""
    cx = it.cx
    env = cx.new(EnvC({"%acc": acc}, None))

    def body(v):
        a = cx.get(env).vars["%acc"]
        cx.put(env, EnvC({"%acc": fn(a, v)}, None))
    for c in content:
        run_chunk(it, c, body)
    return cx.get(env).vars["%acc"]


def run_chunk(it, c, body, depth=0, dead=None):
    cx = it.cx
    if isinstance(c, El):
        body(c.v)
        return
    if isinstance(c, Shuf):
        shuffled_loop(it, c, body, dead)
        return
    if c.flat:
        inner_loop(it, c, body, dead)
        return
    if not cx.entails(zint(c.hi) > zint(c.lo)):
        if cx.entails(zint(c.hi) >= zint(c.lo)):
            # the closed forms may also hold when there is nothing to go through
            try:
                symbolic(it, c, lambda i: body(cx.tab_at(c.tab, i)), dead, True)
                return
            except Split as e:
                run_split(it, c, e.at, body, depth, dead)
                return
            except NeedPeel:
                pass
        if not cx.decide(zint(c.hi) > zint(c.lo)):
            return
    try:
        symbolic(it, c, lambda i: body(cx.tab_at(c.tab, i)), dead)
        return
    except Split as e:
        run_split(it, c, e.at, body, depth, dead)
        return
    except NeedPeel as e:
        if depth >= 2 or c.cond is not None:
            raise Unsupported(f"loop: {e}")
    # execute the first iteration on its own
    first, rest = cx.split_first(c)
    body(first)
    if cx.decide(zint(rest.hi) > zint(rest.lo)):
        run_chunk(it, rest, body, depth + 1, dead)


def run_split(it, c, m, body, depth, dead):
    parts = [Sl(c.tab, c.lo, m, c.rev, c.cond, c.flat), Sl(c.tab, m, c.hi, c.rev, c.cond, c.flat)]
    for x in reversed(parts) if c.rev else parts:
        for y in it.cx.norm_content((x,)):
            run_chunk(it, y, body, depth, dead)


def inner_loop(it, c, body, dead=None):
    """for each index: for each element of the list found there"""
    cx = it.cx
    if not cx.entails(zint(c.hi) > zint(c.lo)):
        if not cx.decide(zint(c.hi) > zint(c.lo)):
            return

    def outer(i):
        inner = cx.tab_at(c.tab, i)
        for x in (L.rev_content(it, inner.content) if False else inner.content):
            run_chunk(it, x, body, dead=dead)
    symbolic(it, c, outer, dead)


def shuffled_loop(it, c, body, dead=None):
    """Elements in an unknown order: position p holds element perm(p)."""
    cx = it.cx
    n = cx.length(c.content)
    content = cx.norm_content(c.content)
    if len(content) != 1 or not isinstance(content[0], Sl) or content[0].flat or content[0].cond is not None:
        p = cx.fresh_index()
        tab = Tab(p, Opaque("nth", LVal((c,), "list"), p))
        run_chunk(it, Sl(tab, 0, n), body, dead=dead)
        return
    s = content[0]
    p = cx.fresh_index()
    perm = z3.Function("perm", I, I, I)
    pos = perm(zint(c.tag), p)
    if is_z3(c.tag):
        m = cx.perm_length.setdefault(c.tag.decl().name(), n)
        if m is not n and not cx.entails(zint(m) == zint(n)):
            raise Unsupported("one arrangement of lists of different lengths")
    facts = [z3.Implies(z3.And(p >= 0, p < zint(n)), z3.And(pos >= 0, pos < zint(n)))]
    i = z3.simplify(zint(s.lo) + pos, som=True)
    run_chunk(it, Sl(Tab(p, subst(s.tab.template, [(s.tab.var, i)]), facts), 0, n), body, dead=dead)


def as_shuffle(cx, c):
    """A list that takes its elements through a permutation is a rearrangement of the list that takes them in order."""
    if c.flat or c.rev or c.cond is not None or c.lo != 0:
        return c
    name = c.tab.var.decl().name()
    seen = {}
    collect_perm(c.tab.template, name, seen)
    if len(seen) != 1:
        return c
    (p,) = seen.values()
    j = cx.fresh_index()
    t = subst(c.tab.template, [(p, j)])
    if mentions(t, {name}) or mentions(p.arg(0), {name}):
        return c
    n = cx.perm_length.get(p.arg(0).decl().name())
    if n is None or not cx.entails(zint(n) == zint(c.hi)):
        return c
    return Shuf((Sl(Tab(j, t), 0, c.hi),), p.arg(0))


def collect_perm(v, name, seen):
    stack = list(walk_terms(v, []))
    while stack:
        t = stack.pop()
        if z3.is_app(t):
            if t.decl().name() == "perm" and t.num_args() == 2 and z3.is_const(t.arg(1)) and t.arg(1).decl().name() == name:
                seen[t.sexpr()] = t
                continue
            stack.extend(t.children())


# ---------------------------------------------------------------- the inductive rule
class Slot:
    """A place in the state: path = ("env", id, var) | ("heap", id, field...)."""
    __slots__ = ("loc", "pre", "hole", "kind", "atom")


def read(cx, heap, loc):
    kind, i, name = loc
    c = heap[i]
    if kind == "env":
        return c.vars.get(name, Undef("not assigned yet"))
    if kind == "obj":
        return c.fields.get(name, Undef("not assigned yet"))
    return c


def write(cx, loc, v):
    kind, i, name = loc
    c = cx.heap[i]
    if kind == "env":
        d = dict(c.vars)
        d[name] = v
        cx.heap[i] = EnvC(d, c.parent)
    elif kind == "obj":
        d = dict(c.fields)
        d[name] = v
        cx.heap[i] = ObjC(c.cls, d, c.tag)
    else:
        cx.heap[i] = v


def changed(before, after):
    """Locations of `before` that differ in `after`."""
    out = []
    for i, c in before.items():
        d = after.get(i)
        if d is c or d is None:
            continue
        if isinstance(c, EnvC):
            for n in sorted(set(c.vars) | set(d.vars)):
                if c.vars.get(n, None) is not d.vars.get(n, None) or (n in d.vars) != (n in c.vars):
                    out.append(("env", i, n))
        elif isinstance(c, ObjC):
            for n in sorted(set(c.fields) | set(d.fields)):
                if c.fields.get(n) is not d.fields.get(n) or (n in d.fields) != (n in c.fields):
                    out.append(("obj", i, n))
        else:
            out.append(("cell", i, None))
    return out


def deref(cx, heap, v):
    return heap[v.id] if isinstance(v, Ref) else None


def reordered(cx, before, after, loc):
    """Does the list hold its old elements in another order?"""
    if loc[0] != "cell" or not isinstance(before[loc[1]], ListC):
        return False
    a, b = before[loc[1]].content, after[loc[1]].content
    while len(a) == 1 and isinstance(a[0], Shuf):
        a = a[0].content
    if not (len(b) == 1 and isinstance(b[0], Shuf)):
        return False
    return [M.key(cx.freeze(x)) for x in cx.norm_content(a)] == [M.key(x) for x in b[0].content]


class Split(NeedPeel):
    """The iterations before and from a bound do different things."""

    def __init__(self, at, why):
        super().__init__(why)
        self.at = at


def split_point(cx, c, k, ok):
    """A bound m with lo <= m <= hi such that the paths are told apart by k < m, or None."""
    if c.cond is not None:
        return None
    name = k.decl().name()
    for p in ok:
        for x in p.conds:
            a = x
            while z3.is_not(a):
                a = a.arg(0)
            if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) or a.arg(0).sort() != I:
                continue
            d = z3.simplify(a.arg(0) - a.arg(1), som=True)
            for sign in (1, -1):
                rest = z3.simplify(sign * d - k, som=True)
                if mentions(rest, {name}):
                    continue
                for m in (z3.simplify(-rest, som=True), z3.simplify(1 - rest, som=True)):
                    if cx.entails(z3.And(zint(c.lo) <= m, m <= zint(c.hi))) and not cx.entails(z3.Or(m == zint(c.lo), m == zint(c.hi))):
                        return simp_int(m)
    return None


class Reorder(Exception):
    """A list is only reordered by the body of a loop."""


def symbolic(it, c, step, dead=None, maybe_empty=False):
    """Execute step(i) for i = lo .. hi-1 (downwards if c.rev; only where c.cond)."""
    modes = {}
    for _ in range(4):
        heap, nid, draws = dict(it.cx.heap), it.cx.next_id, list(it.cx.draws)
        try:
            return symbolic_(it, c, step, modes, dead, maybe_empty)
        except Reorder as e:
            it.cx.heap, it.cx.next_id = heap, max(nid, it.cx.next_id)
            it.cx.draws = list(draws)
            modes[e.args[0]] = "order"
        except NeedPeel:
            it.cx.heap, it.cx.next_id = heap, max(nid, it.cx.next_id)
            it.cx.draws = list(draws)
            raise
        except Unsupported as e:
            # a value carried from one iteration to the next: after the first one it may be a constant (a flag)
            if not str(e).endswith("changes in the loop"):
                raise
            it.cx.heap, it.cx.next_id = heap, max(nid, it.cx.next_id)
            it.cx.draws = list(draws)
            raise NeedPeel(str(e))
    raise Unsupported("loop that reorders lists")


def symbolic_(it, c, step, modes, dead, maybe_empty):
    cx = it.cx
    k = cx.fresh_index()
    lo, hi = zint(c.lo), zint(c.hi)
    assump = [lo <= k, k < hi]
    if c.cond is not None:
        assump.append(z3.substitute(c.cond, (c.tab.var, k)))
    base = dict(cx.heap)
    state = {"slots": {}}

    def iteration():
        cx.loops.append(k)
        cx.add_index(k)
        for f in c.tab.facts:
            cx.assume(z3.substitute(f, (c.tab.var, k)))
        try:
            step(k)
        except (Break, Return) as e:
            return ("exit", e)
        return ("next", None)

    # find the places the body changes, until stable
    locs = {}
    holes = {}
    for _ in range(6):
        saved_heap, saved_id = dict(cx.heap), cx.next_id
        holes = {}
        for loc in locs:
            if locs[loc]:
                havoc(it, loc, holes, modes.get(loc, "hole"))
        start = dict(cx.heap)
        outer, cx.claims = cx.claims, []
        try:
            paths = cx.sub(iteration, assump)
        finally:
            claims, cx.claims = cx.claims, outer
        new = []
        for p in paths:
            if p.status == "ok":
                for loc in changed(start, p.heap):
                    if loc[1] in base and loc not in locs:
                        new.append(loc)
                        if reordered(cx, start, p.heap, loc):
                            modes[loc] = "order"
        cx.heap, cx.next_id = saved_heap, max(saved_id, cx.next_id)
        if not new:
            break
        for loc in new:
            locs[loc] = "hole"
    else:
        raise Unsupported("loop: places changed by the body do not settle")
    facts_k = [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]
    strip = [cx.bsimp(a) for a in assump + facts_k]
    for p in paths:
        p.conds = [x for x in p.conds if not any(not isinstance(s, bool) and x.eq(s) for s in strip)]
    ok = [p for p in paths if p.status == "ok" and p.value[0] == "next"]
    bad = [p for p in paths if p.status == "raise"]
    exits = [p for p in paths if p.status == "ok" and p.value[0] == "exit"]
    # closed forms
    forms = {}
    env_closed = []
    plans = {}
    for loc, h in holes.items():
        is_dead = dead is not None and loc[0] == "env" and loc[1] == dead[0] and loc[2] in dead[1]
        try:
            plans[loc] = plan(it, c, k, loc, h, ok, start, holes)
        except NeedPeel as e:
            if not is_dead:
                m = split_point(cx, c, k, ok) if len(ok) > 1 else None
                if m is not None:
                    raise Split(m, str(e))
                raise
            plans[loc] = ("dead", None)
        if maybe_empty and plans[loc][0] == "last":
            if not is_dead:
                raise NeedPeel("the value of the last iteration of a loop that may have none")
            plans[loc] = ("dead", None)
        if plans[loc][0] == "shuffle":
            # the loop keeps the elements of the list and changes their order only
            raise Reorder(loc)
    # numbers first: others may mention them
    pairs = []
    for loc, (kind, data) in plans.items():
        h = holes[loc]
        if kind == "count":
            at = closed_count(it, c, h, data, k)
            pairs.append((h.hole, at))
        elif kind in ("append", "prepend") and len(data) == 1 and h.kind in ("list", "listref") and all(isinstance(x, El) for x in data[0][1][1]) and not c.rev and c.cond is None:
            old = (h.pre if h.kind == "list" else h.extra).content
            pairs.append((zint(h.hole[0].hi), z3.simplify(zint(cx.length(old)) + (k - lo) * len(data[0][1][1]), som=True)))
    # every remaining hole must be gone
    forbidden = {}
    for loc, h in holes.items():
        for name in h.atom:
            forbidden[name] = loc

    def settle(v):
        v = subst(v, pairs)
        bad_ = [n for n in forbidden if mentions(v, {n})]
        if bad_:
            raise NeedPeel(f"value depends on {forbidden[bad_[0]][2]}")
        return v
    used = {n for n in forbidden}
    for loc, (kind, data) in plans.items():
        if kind in ("dropfirst", "droplast"):
            for p, _ in data:
                p.conds = []
    for p in ok + bad + exits:
        p.conds = [subst(x, pairs) for x in p.conds]
        for x in p.conds:
            if mentions(x, used - {a.decl().name() for a, _ in pairs}):
                raise NeedPeel("a branch depends on a value carried by the loop")
    if bad:
        rc = disj([p.conds for p in bad])
        body = z3.Not(rc)
        if c.cond is not None:
            body = z3.Implies(z3.substitute(c.cond, (c.tab.var, k)), body)
        q = cx.qatom(k, c.lo, c.hi, body)
        if not (q is True or (q is not False and cx.decide(q))):
            raise bad[0].exc
    for b in claims:
        b = subst(b, pairs)
        if mentions(b, used - {a.decl().name() for a, _ in pairs}):
            raise Unsupported("while loop without an invariant")
        q = cx.qatom(k, c.lo, c.hi, b)
        if not (q is True or q is not False and cx.entails(q)):
            raise Unsupported("while loop without an invariant")
    draws = [p for p in ok + exits if p.draws]
    if draws:
        if len(ok) != 1 or exits:
            raise NeedPeel("random draws on some paths only")
        cx.draws.append(("each", (k, c.lo, c.hi, c.rev, None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k))), [settle_draw(d, settle) for d in ok[0].draws]))
    if exits:
        ec = disj([p.conds for p in exits])
        body = z3.Not(ec)
        if c.cond is not None:
            body = z3.Implies(z3.substitute(c.cond, (c.tab.var, k)), body)
        q = cx.qatom(k, c.lo, c.hi, body)
        if not (q is True or (q is not False and cx.decide(q))):
            if c.rev:
                raise Unsupported("early exit from a reversed loop")
            w = cx.fresh("exit", I)
            cx.ax(z3.Implies(z3.Not(q) if not isinstance(q, bool) else z3.BoolVal(True), z3.And(lo <= w, w < hi, z3.substitute(ec, (k, w)))))
            cx.add_index(w)
            q2 = cx.qatom(k, c.lo, w, body)
            cx.assume(q2 if not isinstance(q2, bool) else q2)
            for loc, h in holes.items():
                write(cx, loc, final(it, c, k, loc, h, plans[loc], settle, w))
            step(w)
            raise Unsupported("early exit")
    for loc, h in holes.items():
        write(cx, loc, final(it, c, k, loc, h, plans[loc], settle, None))
    # variables that the body defines anew hold the last iteration's value
    cx.add_index(z3.simplify(hi - 1))


def settle_draw(d, settle):
    kind, params, result = d
    if kind == "each":
        return ("each", params, [settle_draw(x, settle) for x in result])
    return (kind, tuple(settle(x) for x in params), settle(result) if not isinstance(result, Ref) else result)


class Hole:
    __slots__ = ("hole", "pre", "kind", "atom", "extra")

    def __init__(self, hole, pre, kind, atom, extra=None):
        self.hole, self.pre, self.kind, self.atom, self.extra = hole, pre, kind, atom, extra


def havoc(it, loc, holes, mode):
    """Replace the content of a place by an arbitrary value of its shape."""
    cx = it.cx
    pre = read(cx, cx.heap, loc)
    n = cx.n("hole")
    if loc[0] == "cell":
        if isinstance(pre, ListC) and mode == "order":
            t = z3.Int(f"hole!{n}")
            base = pre.content
            while len(base) == 1 and isinstance(base[0], Shuf):
                base = base[0].content
            holes[loc] = Hole((Shuf(tuple(cx.freeze(x) for x in cx.norm_content(base)), t),), pre, "list", {f"hole!{n}"}, "order")
            write(cx, loc, ListC(holes[loc].hole, pre.kind, pre.tag))
            return
        if isinstance(pre, ListC):
            h = list_hole(it, n, pre)
            holes[loc] = h
            write(cx, loc, ListC(h.hole, pre.kind, pre.tag))
            return
        if isinstance(pre, ArrC):
            a = z3.Const(f"hole!{n}", M.MS)
            at = M.FAtom(a, pre.mat.rows, pre.mat.cols, {"unitary"} if "unitary" in pre.mat.props() else ())
            holes[loc] = Hole(at, pre, "mat", {f"hole!{n}"})
            write(cx, loc, ArrC(M.Mat.of(at), pre.dtype, pre.tag, pre.buffer))
            return
        if isinstance(pre, DictC) and not pre.content and getattr(pre, "inv", None) is None:
            h = list_hole(it, n, pre)
            h.kind = "dict"
            holes[loc] = h
            write(cx, loc, DictC(h.hole, pre.tag))
            return
        raise Unsupported("loop changes a dictionary")
    if is_int(pre):
        t = z3.Int(f"hole!{n}")
        holes[loc] = Hole(t, pre, "int", {f"hole!{n}"})
        write(cx, loc, NpInt(t) if isinstance(pre, NpInt) else t)
        return
    if is_real(pre) or isinstance(pre, X):
        t = z3.Real(f"hole!{n}")
        holes[loc] = Hole(t, pre, "real", {f"hole!{n}"})
        write(cx, loc, t)
        return
    obj = None
    if isinstance(pre, Ref):
        obj = cx.get(pre)
    if isinstance(pre, (Ent, OVal)) or isinstance(obj, ObjC):
        cls = obj.cls if obj is not None else pre.cls
        if cls.name == "Unitary":
            m = it.world.spec.unitary_mat(it, pre)
            a = z3.Const(f"hole!{n}", M.MS)
            at = M.FAtom(a, m.rows, m.cols, {"unitary"})
            holes[loc] = Hole(at, pre, "unitary", {f"hole!{n}"}, m)
            write(cx, loc, it.world.spec.unitary_with(it, M.Mat.of(at, True), Undef("changes in the loop")))
            return
    if isinstance(obj, ListC):
        h = list_hole(it, n, obj)
        h.kind = "listref"
        h.extra = obj
        holes[loc] = h
        write(cx, loc, cx.new(ListC(h.hole, obj.kind, "new")))
        return
    if isinstance(obj, ArrC) or isinstance(pre, MVal):
        m = obj if obj is not None else pre
        a = z3.Const(f"hole!{n}", M.MS)
        at = M.FAtom(a, m.mat.rows, m.mat.cols, {"unitary"} if "unitary" in m.mat.props() else ())
        holes[loc] = Hole(at, pre, "matref", {f"hole!{n}"}, m)
        write(cx, loc, cx.new(ArrC(M.Mat.of(at), m.dtype)))
        return
    holes[loc] = Hole(None, pre, "last", set())
    write(cx, loc, Undef(f"{loc[2]} changes in the loop"))


def list_hole(it, n, pre):
    cx = it.cx
    size = z3.Int(f"holen!{n}")
    cx.ax(size >= 0)
    f = z3.Function(f"hole!{n}", I, U)
    v = cx.fresh_index()
    tab = Tab(v, Opaque("holeitem", f(v)))
    return Hole((Sl(tab, 0, size),), pre, "list", {f"hole!{n}", f"holen!{n}"})


def plan(it, c, k, loc, h, ok, start, holes):
    """How one iteration changes the place."""
    cx = it.cx
    res = []
    for p in ok:
        post = read(cx, p.heap, loc)
        saved = cx.heap
        cx.heap = dict(p.heap)
        try:
            res.append((p, step_of(it, h, post, loc, p)))
        finally:
            cx.heap = saved
    if not ok:
        return ("same", None)
    kinds = [r[0] for _, r in res]
    if h.extra == "order":
        base = [M.key(x) for x in h.hole[0].content]
        for p, (kind, post) in res:
            if kind != "same" and not (kind == "set" and len(post) == 1 and isinstance(post[0], Shuf) and [M.key(x) for x in post[0].content] == base):
                raise Unsupported("list that is reordered and changed in a loop")
        if len(res) > 1:
            raise Unsupported("list that is reordered on some paths")
    if all(x == "same" for x in kinds):
        return ("same", None)
    if h.kind in ("list", "listref"):
        if all(x in ("append", "same") for x in kinds):
            return ("append", res)
        if all(x in ("prepend", "same") for x in kinds):
            return ("prepend", res)
        for d in ("dropfirst", "droplast"):
            # one end is removed while there is one, and nothing else happens
            if all(x in (d, "same") for x in kinds) and all(len(p.conds) == 1 and cx.bsimp(p.conds[0]).eq(cx.bsimp(nonempty_hole(h, x == d))) for p, (x, _) in res):
                if c.cond is not None:
                    raise Unsupported("filtered loop that shortens a list")
                return (d, res)
        if len(res) == 1 and kinds[0] == "set":
            return ("last", res)
        if len(res) == 1 and kinds[0] == "shuffle":
            return ("shuffle", res)
        raise NeedPeel(f"list {loc[2]} changes in an irregular way")
    if h.kind == "dict":
        if all(x in ("append", "same") for x in kinds):
            return ("append", res)
        raise Unsupported("loop changes a dictionary")
    if h.kind in ("mat", "unitary", "matref"):
        if all(x in ("plus", "same") for x in kinds) and kinds.count("plus") == 1:
            return ("plus", res)
        if len(res) == 1 and kinds[0] in ("left", "right"):
            return (kinds[0], res)
        if len(res) == 1 and kinds[0] == "set":
            return ("last", res)
        if all(x in ("left", "same") for x in kinds) and len([x for x in kinds if x == "left"]) == 1:
            return ("left", res)
        raise NeedPeel(f"matrix {loc[2]} changes in an irregular way")
    if h.kind in ("int", "real"):
        if len(res) == 1 and kinds[0] == "add":
            return ("count", res[0][1][1])
        if all(x == "set" for x in kinds) and len({M.key(v) for _, (_, v) in res}) == 1:
            return ("last", res[:1])
        raise NeedPeel(f"number {loc[2]} changes in an irregular way")
    if all(x == "set" for x in kinds):
        if len(res) > 1 and any(isinstance(v, Undef) and v.why == f"{loc[2]} changes in the loop" for _, (_, v) in res):
            raise NeedPeel(f"{loc[2]} changes in some iterations")
        return ("last", res)
    raise NeedPeel(f"{loc[2]} changes in an irregular way")


def nonempty_hole(h, yes):
    e = zint(h.hole[0].hi) > 0
    return e if yes else z3.Not(e)


def step_of(it, h, post, loc, p):
    cx = it.cx
    if h.kind in ("int", "real"):
        post_ = post.v if isinstance(post, NpInt) else post
        if is_num(post_) and not isinstance(post_, X):
            pt = zint(post_) if h.kind == "int" and is_int(post_) else zreal(post_)
            ht = h.hole if pt.sort() == h.hole.sort() else z3.ToReal(h.hole)
            d = simp_int(z3.simplify(pt - ht, som=True))
            if d == 0 and not is_z3(d):
                return ("same", None)
            if not (is_z3(d) and mentions(d, h.atom)):
                return ("add", d)
            if not mentions(pt, h.atom):
                return ("set", post)
        raise NeedPeel("number")
    if h.kind == "dict":
        keys = [M.key(cx.freeze(x)) for x in post.content]
        if keys and keys[0] == M.key(h.hole[0]):
            return ("append", tuple(cx.freeze(x) for x in post.content[1:])) if len(keys) > 1 else ("same", None)
        raise Unsupported("loop changes a dictionary")
    if h.kind in ("list", "listref"):
        content = post.content if isinstance(post, ListC) else None
        if content is None and isinstance(post, Ref) and isinstance(cx.get(post), ListC):
            content = cx.get(post).content
        if content is None:
            raise NeedPeel("list replaced")
        content = tuple(cx.freeze(x) for x in content)
        hk = M.key(h.hole[0])
        keys = [M.key(x) for x in content]
        if len(content) == 1 and keys[0] == hk:
            return ("same", None)
        if len(content) == 1 and isinstance(content[0], Sl) and content[0].cond is None and not content[0].flat and M.key(content[0].tab) == M.key(h.hole[0].tab):
            # the list without one of its ends
            x, size = content[0], zint(h.hole[0].hi)
            if not x.rev:
                dl, dh = simp_int(z3.simplify(zint(x.lo), som=True)), simp_int(z3.simplify(size - zint(x.hi), som=True))
                if dl == 1 and dh == 0 and not is_z3(dl) and not is_z3(dh):
                    return ("dropfirst", size)
                if dl == 0 and dh == 1 and not is_z3(dl) and not is_z3(dh):
                    return ("droplast", size)
        if keys and keys[0] == hk:
            return ("append", content[1:])
        if keys and keys[-1] == hk:
            return ("prepend", content[:-1])
        if len(content) == 1 and isinstance(content[0], Shuf) and len(content[0].content) == 1 and M.key(content[0].content[0]) == hk:
            return ("shuffle", content[0])
        if not any(mentions(x, h.atom) for x in content):
            return ("set", content)
        raise NeedPeel("list")
    if h.kind in ("mat", "unitary", "matref"):
        if h.kind == "unitary":
            m = it.world.spec.unitary_mat(it, post)
        else:
            m = post.mat if isinstance(post, ArrC) else cx.get(post).mat if isinstance(post, Ref) else post.mat
        if m.single():
            s, d, w = m.terms[0]
            name = next(iter(h.atom))
            where = [i for i, f in enumerate(w) if mentions(f, h.atom)]
            if not where and not mentions(m, h.atom):
                return ("set", m)
            if len(where) == 1 and isinstance(w[where[0]], M.FAtom) and not w[where[0]].t and not w[where[0]].c:
                i = where[0]
                rest = w[:i] + w[i + 1:]
                if (s - X.of(1)).is_zero() and not d and not rest:
                    return ("same", None)
                if i == len(w) - 1:
                    return ("left", M.Mat(m.rows, m.cols, [(s, d, rest)], m.phase))
                if i == 0:
                    return ("right", M.Mat(m.rows, m.cols, [(s, d, rest)], m.phase))
        own = [i for i, (s, d, w) in enumerate(m.terms) if len(w) == 1 and isinstance(w[0], M.FAtom) and mentions(w[0], h.atom) and not w[0].t and not w[0].c and not d and (s - X.of(1)).is_zero()]
        if len(own) == 1 and not m.phase and h.kind != "unitary":
            rest = M.Mat(m.rows, m.cols, m.terms[:own[0]] + m.terms[own[0] + 1:])
            if not mentions(rest, h.atom):
                return ("plus", rest)
        raise NeedPeel("matrix")
    fz = cx.freeze(post) if not isinstance(post, (ListC, ArrC, DictC, ObjC)) else Undef("")
    return ("set", fz)


def add_sum(cx, m, s):
    """m + s(lo) + ... + s(hi-1); an m that is the term before the first belongs to the sum."""
    if m.phase or isinstance(s.tab.template, M.Mat) and s.tab.template.phase:
        raise Unsupported("sum of matrices known up to a phase each")
    if s.cond is None and not m.phase:
        i = simp_int(z3.simplify(zint(s.lo) - 1, som=True))
        t = cx.tab_at(s.tab, i)
        if M.key(t) == M.key(m) and all(cx.entails(z3.substitute(f, (s.tab.var, zint(i)))) for f in s.tab.facts):
            return M.Mat.of(M.FSum(Sl(s.tab, i, s.hi), m.rows, m.cols))
    if not m.terms:
        return M.Mat.of(M.FSum(s, m.rows, m.cols))
    return m.plus(M.Mat.of(M.FSum(s, m.rows, m.cols)))


def closed_count(it, c, h, inc, k):
    cx = it.cx
    if c.rev or c.cond is not None:
        raise Unsupported("counter in a reversed or filtered loop")
    if is_z3(inc) and mentions(inc, {k.decl().name()}):
        raise Unsupported("running sum")
    n = z3.simplify(k - zint(c.lo), som=True)
    return num_plus(h, n, inc)


def num_plus(h, n, inc):
    pre = h.pre.v if isinstance(h.pre, NpInt) else h.pre
    if h.kind == "int" and is_int(pre) and is_int(inc):
        return z3.simplify(zint(pre) + n * zint(inc), som=True)
    return z3.simplify(zreal(pre) + z3.ToReal(n) * zreal(inc), som=True)


def final(it, c, k, loc, h, pl, settle, upto):
    """Value of the place after the loop (or before iteration `upto`)."""
    cx = it.cx
    kind, data = pl
    lo, hi = zint(c.lo), zint(c.hi)
    end = hi if upto is None else upto
    facts = [z3.substitute(f, (c.tab.var, k)) for f in c.tab.facts]
    ccond = None if c.cond is None else z3.substitute(c.cond, (c.tab.var, k))
    if kind == "same":
        return h.pre
    if kind == "dead":
        return Undef("left over from a loop")
    if kind == "count":
        v = num_plus(h, z3.simplify(end - lo, som=True), data)
        v = simp_int(v)
        return NpInt(v) if isinstance(h.pre, NpInt) else v
    if kind in ("append", "prepend"):
        conds = [p.conds for p, (s, _) in data if s != "same"]
        items = [settle(LVal(tuple(x), "list", "new")) for p, (s, x) in data if s != "same"]
        cond = ccond
        if len(items) < len(data):
            kc = disj(conds)
            cond = kc if cond is None else z3.And(cond, kc)
        if len(items) > 1:
            v = merge_vals(cx, list(zip(conds, items)))
        else:
            v = items[0]
        rev = c.rev if kind == "append" else not c.rev
        e = simp_int(z3.simplify(end, som=True))
        if len(v.content) == 1 and isinstance(v.content[0], El):
            ch = Sl(Tab(k, v.content[0].v, facts), c.lo, e, rev, cond)
        else:
            ch = Sl(Tab(k, v, facts), c.lo, e, rev, cond, True)
        ch = as_shuffle(cx, ch)
        if h.kind == "dict":
            return DictC((ch,), h.pre.tag)
        pre = h.pre if h.kind == "list" else h.extra
        content = (pre.content + (ch,)) if kind == "append" else ((ch,) + pre.content)
        new = ListC(content, pre.kind, pre.tag)
        return new if h.kind == "list" else cx.new(ListC(content, pre.kind, "new"))
    if kind in ("dropfirst", "droplast"):
        pre = h.pre if h.kind == "list" else h.extra
        content = L.drop(it, pre.content, simp_int(z3.simplify(end - lo, som=True)), kind == "dropfirst")
        return ListC(content, pre.kind, pre.tag) if h.kind == "list" else cx.new(ListC(content, pre.kind, "new"))
    if kind == "shuffle":
        raise NeedPeel("reshuffled list")
    if kind in ("left", "right"):
        if upto is not None:
            raise Unsupported("early exit from a product loop")
        (p, (_, w)), = [(p, s) for p, s in data if s[0] != "same"]
        w = settle(w)
        cond = ccond
        if len(data) > 1:
            kc = z3.And(p.conds) if p.conds else z3.BoolVal(True)
            cond = kc if cond is None else z3.And(cond, kc)
        if "unitary" not in w.props() and not all(f.unitary() for f in w.word):
            raise Unsupported("product of matrices that are not known to be unitary")
        ph = h.kind == "unitary" or w.phase
        if not ph and not ((w.terms[0][0] - X.of(1)).is_zero() and not w.terms[0][1]):
            raise Unsupported("scalars in a product loop")
        # unitary factors are square, and their shape was checked against the product so far
        d = (h.extra if h.kind == "unitary" else h.pre.mat if h.kind == "mat" else h.extra.mat).rows
        t = M.Mat(d, d, [(X.of(1), (), w.word)], ph)
        rev = c.rev if kind == "left" else not c.rev
        f = M.FProd(Sl(Tab(k, t, facts), c.lo, c.hi, rev, cond), d)
        prod = M.Mat(d, d, [(X.of(1), (), M.simplify((f,)))], ph)
        if h.kind == "unitary":
            m0 = h.extra
            r = prod.times(m0) if kind == "left" else m0.times(prod)
            return it.world.spec.unitary_with(it, M.Mat(r.rows, r.cols, r.terms, True), Undef("name of a product"))
        pre = h.pre if h.kind == "mat" else h.extra
        r = prod.times(pre.mat) if kind == "left" else pre.mat.times(prod)
        return ArrC(r, pre.dtype, pre.tag, pre.buffer) if h.kind == "mat" else cx.new(ArrC(r, pre.dtype))
    if kind == "plus":
        if upto is not None:
            raise Unsupported("early exit from a summing loop")
        (p, (_, w)), = [(p, s) for p, s in data if s[0] != "same"]
        w = settle(w)
        cond = ccond
        if len(data) > 1:
            kc = z3.And(p.conds) if p.conds else z3.BoolVal(True)
            cond = kc if cond is None else z3.And(cond, kc)
        pre = h.pre if h.kind == "mat" else h.extra
        r = add_sum(cx, pre.mat, Sl(Tab(k, w, facts), c.lo, c.hi, False, cond))
        return ArrC(r, pre.dtype, pre.tag, pre.buffer) if h.kind == "mat" else cx.new(ArrC(r, pre.dtype))
    if kind == "last":
        if upto is not None or c.cond is not None or len(data) != 1:
            return Undef("value of the last iteration")
        try:
            v = settle(data[0][1][1]) if not isinstance(data[0][1][1], tuple) or h.kind not in ("list", "listref") else tuple(settle(x) for x in data[0][1][1])
        except NeedPeel:
            return Undef("value of the last iteration")
        last = z3.simplify(lo if c.rev else hi - 1, som=True)
        if h.kind in ("list", "listref"):
            v = tuple(subst(x, [(k, last)]) for x in v)
            pre = h.pre if h.kind == "list" else h.extra
            return ListC(v, pre.kind, pre.tag) if h.kind == "list" else cx.new(ListC(v, pre.kind, "new"))
        v = subst(v, [(k, last)])
        if h.kind in ("mat", "matref"):
            pre = h.pre if h.kind == "mat" else h.extra
            return ArrC(v, pre.dtype, pre.tag, pre.buffer) if h.kind == "mat" else cx.new(ArrC(v, pre.dtype))
        if h.kind == "unitary":
            return it.world.spec.unitary_with(it, v, Undef("name of a product"))
        return L.thaw(it, v) if isinstance(v, (LVal, DVal, MVal)) else v
    raise Unsupported(kind)


# ---------------------------------------------------------------- while loops
def while_stmt(it, st, env):
    cx = it.cx
    if cx.while_handler is not None:
        r = cx.while_handler(it, st, env)
        if r:
            return
    if counted(it, st, env):
        return
    for n in range(40):
        b = L.truth(it, it.ev(st.test, env))
        if not isinstance(b, bool):
            if cx.entails(b):
                b = True
            elif cx.entails(z3.Not(b)):
                b = False
            else:
                raise Unsupported("while loop without an invariant")
        if not b:
            it.block(st.orelse, env)
            return
        try:
            it.block(st.body, env)
        except Break:
            return
        except Continue:
            pass
    raise Unsupported("while loop without an invariant")


def counted(it, st, env):
    """while a < b: as a loop over the b - a iterations that it is expected to take. That its condition holds before each of
    them and no longer after the last is shown like everything else the loop keeps true."""
    cx = it.cx
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))):
        return False
    before = dict(cx.heap)
    ndraws = len(cx.draws)
    a, b = it.ev(t.left, env), it.ev(t.comparators[0], env)
    if changed(before, cx.heap) or len(cx.draws) != ndraws:
        raise Unsupported("while loop whose condition has effects")
    a, b = (x.v if isinstance(x, NpInt) else x for x in (a, b))
    if not (is_int(a) and is_int(b)) or not (is_z3(a) or is_z3(b)):
        return False
    op = t.ops[0]
    n = zint(b) - zint(a) if isinstance(op, (ast.Lt, ast.LtE)) else zint(a) - zint(b)
    n = simp_int(z3.simplify(n + (1 if isinstance(op, (ast.LtE, ast.GtE)) else 0), som=True))
    live = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    dead = (env.ref.id, dead_after(st, env.func) - live)
    v = z3.Int("%while")
    c = Sl(Tab(v, v), 0, n)

    def holds():
        r = L.truth(it, it.ev(t, env))
        if isinstance(r, bool):
            return r
        return True if cx.entails(r) else False if cx.entails(z3.Not(r)) else r

    def body(_):
        r = holds()
        if not isinstance(r, bool):
            if cx.claims is None:
                raise Unsupported("while loop without an invariant")
            cx.claims.append(r)
        elif not r:
            raise Unsupported("while loop without an invariant")
        try:
            it.block(st.body, env)
        except Continue:
            pass
    try:
        run_chunk(it, c, body, dead=dead)
    except Break:
        return True
    if holds() is not False:
        raise Unsupported("while loop without an invariant")
    it.block(st.orelse, env)
    return True
