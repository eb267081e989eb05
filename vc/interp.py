"""Interpreter of the Python subset used by /repo, over symbolic values. The interpreted text is the AST of the files
found in /repo at the moment of the run; docstrings, annotations and comments are dropped, nothing else."""
import ast
import os
from fractions import Fraction

import z3

from . import mat as M
from .alg import X, NotPoly
from .engine import Ctx, FrameWrite, Infeasible, NeedPeel, PyRaise, Unsupported
from .values import *


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


EXC_PARENTS = {"AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
               "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError",
               "ArithmeticError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
               "LinAlgError": "ValueError", "NameError": "Exception", "UnboundLocalError": "NameError", "Exception": "BaseException", "BaseException": None,
               "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError"}


class Lazy:
    """A name imported from another module of the package."""
    __slots__ = ("module", "name")

    def __init__(self, module, name):
        self.module, self.name = module, name


class Env:
    """A scope: a heap cell for the variables, plus static context."""
    __slots__ = ("ref", "module", "func", "nonlocals")

    def __init__(self, ref, module, func, nonlocals=()):
        self.ref, self.module, self.func, self.nonlocals = ref, module, func, nonlocals


class World:
    def __init__(self, root="/repo", package="stoqcompiler"):
        self.root, self.package = root, package
        self.modules, self.sources, self.classes, self.functions = {}, {}, {}, {}
        self.unparsed = []
        self.env_class = ClassVal()
        self.env_class.name = self.env_class.qual = "<env>"
        self.env_class.members, self.env_class.bases, self.env_class.enum = {}, [], False
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    name = ".".join(rel[:-1] if is_pkg else rel)
                    with open(path, encoding="utf-8") as h:
                        self.sources[name] = h.read()
                    self.load(name, is_pkg, path)
        from . import lib
        self.lib = lib
        self.find_state()

    # ---------------------------------------------------------------- what the reading leaves out
    MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "popitem", "add", "discard", "move_to_end", "appendleft", "popleft", "fill", "put", "__setitem__"}
    SPECIAL = {"__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__", "__getattr__", "__getattribute__", "__setattr__", "__delattr__", "__new__", "__init_subclass__",
               "__class_getitem__", "__get__", "__set__", "__set_name__", "__hash__", "__instancecheck__", "__array__", "__array_ufunc__", "__array_priority__"}

    def find_state(self):
        """Names of modules and classes whose value some function of the package changes (self.stateful: a reader cannot
        rely on their first value), and statements this reading of the package does not carry out (self.unparsed)."""
        kept, changed = set(), set()
        for name, src in self.sources.items():
            tree = ast.parse(src)
            for scope in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
                for st in scope.body:
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []):
                        kept |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Global):
                    changed |= set(n.names)
                    kept |= set(n.names)
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.NamedExpr)):
                    todo = list(n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target])
                    while todo:
                        x = todo.pop()
                        if isinstance(x, (ast.Tuple, ast.List)):
                            todo += x.elts
                        elif isinstance(x, ast.Starred):
                            todo.append(x.value)
                        elif isinstance(x, ast.Subscript):
                            changed |= self.roots(x.value)
                        elif isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                            changed.add(x.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                    changed |= self.roots(n.func.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr", "globals", "vars", "exec", "eval", "__import__"):
                    self.unparsed.append((name, n.func.id))
        self.stateful = kept & changed
        self.find_history()
        self.desugared = {}
        for c in self.classes.values():
            odd = {m for m in c.members if m in self.SPECIAL}
            if "__eq__" in c.members and not c.enum:
                odd.add("__eq__")     # makes the objects unhashable, or changes what lists and dictionaries find
            if odd:
                self.unparsed.append((c.module, f"{c.name}.{sorted(odd)[0]}"))

    def find_history(self):
        """Attributes that a call on an object that already exists may have changed. self.history: of any object;
        self.own_history: class name -> of objects of this class (through self). Functions that only constructors call do
        not count. What is changed under another name is noticed when a unit compares the object before and after."""
        self.history, self.own_history = set(), {}
        functions, edges = {}, {}
        for name, src in self.sources.items():
            tree = ast.parse(src)
            owner = {id(f): c.name for c in ast.walk(tree) if isinstance(c, ast.ClassDef) for f in c.body}
            for f in ast.walk(tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    functions.setdefault(f.name, []).append((owner.get(id(f)), f))
                    edges.setdefault(f.name, set()).update(x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f) if isinstance(x, (ast.Attribute, ast.Name)))
        seen, todo = set(), [f for f in functions if not f.startswith("_") or f.startswith("__") and f != "__init__"]
        while todo:
            f = todo.pop()
            if f not in seen and f in functions:
                seen.add(f)
                todo += edges[f]
        for f in seen:
            for cls, node in functions[f]:
                for n in ast.walk(node):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.NamedExpr)):
                        todo = list(n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target])
                    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                        todo = [n.optional_vars]
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                        todo = [n.func.value]
                    else:
                        continue
                    while todo:
                        x = todo.pop()
                        if isinstance(x, (ast.Tuple, ast.List)):
                            todo += x.elts
                        elif isinstance(x, (ast.Starred, ast.Subscript)):
                            todo.append(x.value)
                        elif isinstance(x, ast.Attribute):
                            own = isinstance(x.value, ast.Name) and x.value.id == "self" and cls
                            (self.own_history.setdefault(cls, set()) if own else self.history).add(x.attr)

    @staticmethod
    def roots(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return {x.id} if isinstance(x, ast.Name) else {x.attr} if isinstance(x, ast.Attribute) else set()

    def load(self, name, is_pkg, path):
        tree = ast.parse(self.sources[name], path)
        g = {"__name__": name}
        self.modules[name] = g
        for st in tree.body:
            self.module_stmt(st, name, is_pkg, g)

    def module_stmt(self, st, name, is_pkg, g):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split(".")[0]
                if a.asname:
                    g[a.asname] = self.module_value(a.name)
                else:
                    g[top] = self.module_value(top)
        elif isinstance(st, ast.ImportFrom):
            mod = st.module or ""
            if st.level:
                parts = name.split(".")
                parts = parts[:len(parts) - st.level + (1 if is_pkg else 0)]
                mod = ".".join(parts + ([mod] if mod else []))
            for a in st.names:
                if a.name == "*":
                    self.unparsed.append((name, "import *"))
                g[a.asname or a.name] = Lazy(mod, a.name)
        elif isinstance(st, ast.ClassDef):
            g[st.name] = self.make_class(st, name)
        elif isinstance(st, ast.FunctionDef):
            g[st.name] = self.make_func(st, None, name, None, "decorated" if st.decorator_list else "function")
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in targets:
                if isinstance(t, ast.Name) and st.value is not None:
                    g[t.id] = ("expr", st.value, name)
                elif not isinstance(t, ast.Name):
                    self.unparsed.append((name, "assignment to " + ast.unparse(t)))
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            pass
        elif isinstance(st, ast.If) and isinstance(st.test, ast.Name) and st.test.id == "TYPE_CHECKING":
            pass
        elif isinstance(st, ast.If) and isinstance(st.test, ast.Attribute) and st.test.attr == "TYPE_CHECKING":
            pass
        elif isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__":
            pass
        elif isinstance(st, ast.Pass) or isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == "__all__":
            pass
        else:
            self.unparsed.append((name, type(st).__name__))

    def module_value(self, name):
        return ModVal(name)

    def make_class(self, node, module):
        c = ClassVal()
        c.name, c.node, c.module, c.bases, c.members = node.name, node, module, node.bases, {}
        c.qual = node.name
        c.enum = any((isinstance(b, ast.Name) and b.id in ("Enum", "IntEnum")) or (isinstance(b, ast.Attribute) and b.attr in ("Enum", "IntEnum")) for b in node.bases)
        order = []
        if node.keywords:
            self.unparsed.append((module, f"class {node.name} with keywords"))
        if not c.enum and node.decorator_list and node.name != "CompilerResult":
            self.unparsed.append((module, f"decorated class {node.name}"))
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = "method"
                for d in st.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
                    if dn == "abstractmethod" and kind != "decorated":
                        continue
                    kind = dn if dn in ("staticmethod", "classmethod", "property") and isinstance(d, ast.Name) and kind == "method" else "decorated"
                c.members[st.name] = self.make_func(st, None, module, c, kind)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                if c.enum:
                    v = st.value.value if isinstance(st.value, ast.Constant) else ast.unparse(st.value)
                    c.members[st.targets[0].id] = EnumMember(c, st.targets[0].id, v)
                    order.append(st.targets[0].id)
                else:
                    c.members[st.targets[0].id] = ("expr", st.value, module)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.members[st.target.id] = ("expr", st.value, module)
            elif isinstance(st, ast.ClassDef):
                c.members[st.name] = self.make_class(st, module)
            elif not (isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) or isinstance(st, ast.AnnAssign) and st.value is None):
                self.unparsed.append((module, f"{type(st).__name__} in class {node.name}"))
        if c.enum:
            vals = [c.members[n].value for n in order]
            if any(v in vals[:i] for i, v in enumerate(vals)):
                self.unparsed.append((module, f"aliases in {node.name}"))
            c.members["__order__"] = order
        self.classes[c.qual] = c
        return c

    def make_func(self, node, env, module, cls, kind):
        f = FuncVal()
        f.name, f.node, f.env, f.module, f.cls, f.kind = node.name if hasattr(node, "name") else "<lambda>", node, env, module, cls, kind
        f.qual = (cls.qual + "." if cls else "") + f.name
        f.defaults = f.kwdefaults = None
        if cls is not None or env is None:
            self.functions[f.qual] = f
        return f

    def resolve(self, v, seen=0):
        while isinstance(v, Lazy):
            seen += 1
            if seen > 20:
                raise Unsupported("import cycle")
            if v.module in self.modules:
                g = self.modules[v.module]
                if v.name in g:
                    v = g[v.name]
                elif v.module + "." + v.name in self.modules:
                    return ModVal(v.module + "." + v.name)
                else:
                    raise Unsupported(f"import {v.name} from {v.module}")
            else:
                return self.lib.lookup(v.module + "." + v.name)
        return v

    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            v = self.modules[cls.module].get(bn) if bn else None
            v = self.resolve(v) if v is not None else None
            if isinstance(v, ClassVal):
                out.extend(self.mro(v))
        return out

    def member(self, cls, name):
        for c in self.mro(cls):
            if name in c.members:
                return c.members[name]
        return None


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Interp:
    """Evaluation in one Ctx."""

    def __init__(self, cx):
        self.cx, self.world = cx, cx.world
        cx.interp = self
        from . import lib, loops
        self.lib, self.loops = lib, loops
        self.globals_cache = {}

    # ---------------------------------------------------------------- scopes
    def new_env(self, parent, module, func, vars=None, nonlocals=()):
        return Env(self.cx.new(EnvC(dict(vars or {}), parent)), module, func, nonlocals)

    def lookup(self, name, env):
        r = env.ref
        while r is not None:
            c = self.cx.get(r)
            if name in c.vars:
                v = c.vars[name]
                if isinstance(v, Undef):
                    raise Unsupported(f"value of {name}: {v.why}")
                return v
            r = c.parent
        return self.global_name(name, env.module)

    def global_name(self, name, module):
        g = self.world.modules[module]
        if name in g:
            v = self.world.resolve(g[name])
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "expr":
                return self.constant(name, v)
            return v
        b = self.lib.builtin(name)
        if b is None:
            raise PyRaise("NameError", name)
        return b

    def constant(self, name, v):
        """The value of a name of a module or class: evaluated once; it belongs to nobody, so it may not be changed."""
        if name in self.world.stateful:
            raise Unsupported(f"{name} of the module or class is changed while the program runs")
        k = ("constant", id(v))
        if k not in self.globals_cache:
            r = self.ev(v[1], self.new_env(None, v[2], None))
            if isinstance(r, Ref):
                r = map_tags(self.cx.freeze(r), lambda _: "module")
            self.globals_cache[k] = (v, r)
        return self.globals_cache[k][1]

    def assign_name(self, name, v, env):
        r = env.ref
        if name in env.nonlocals:
            c = self.cx.get(r)
            r = c.parent
            while r is not None and name not in self.cx.get(r).vars:
                r = self.cx.get(r).parent
            if r is None:
                raise Unsupported("nonlocal")
        c = self.cx.get(r)
        d = dict(c.vars)
        d[name] = v
        self.cx.put(r, EnvC(d, c.parent))
        self.cx.touched[("env", r.id, name)] = True

    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        cx = self.cx
        t = type(st)
        if t is ast.Expr:
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value, env)
        elif t is ast.Assign:
            v = self.ev(st.value, env)
            for target in st.targets:
                self.assign(target, v, env)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif t is ast.AugAssign:
            self.aug_assign(st, env)
        elif t is ast.Return:
            raise Return(self.ev(st.value, env) if st.value is not None else None)
        elif t is ast.If:
            if self.truth(self.ev(st.test, env)):
                self.block(st.body, env)
            else:
                self.block(st.orelse, env)
        elif t is ast.Assert:
            if not self.truth(self.ev(st.test, env)):
                raise PyRaise("AssertionError", ast.unparse(st.test)[:80])
        elif t is ast.For:
            self.loops.for_stmt(self, st, env)
        elif t is ast.While:
            self.loops.while_stmt(self, st, env)
        elif t is ast.FunctionDef:
            f = self.world.make_func(st, env.ref, env.module, None, "function")
            f.qual = (env.func.qual + "." if env.func else "") + st.name
            f.cls = None
            f.defaults = self.eval_defaults(st.args, env)
            if st.decorator_list:
                raise Unsupported("decorated local function")
            self.assign_name(st.name, f, env)
        elif t is ast.Pass:
            pass
        elif t is ast.Global:
            raise Unsupported("global statement")
        elif t is ast.Nonlocal:
            env.nonlocals = tuple(env.nonlocals) + tuple(st.names)
        elif t is ast.Break:
            raise Break()
        elif t is ast.Continue:
            raise Continue()
        elif t is ast.Raise:
            if st.exc is None:
                raise PyRaise("Exception", "re-raise")
            e = st.exc
            if isinstance(e, ast.Call):
                e = e.func
            raise PyRaise(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "Exception"), "")
        elif t is ast.Delete:
            for target in st.targets:
                if isinstance(target, ast.Subscript):
                    self.lib.del_item(self, self.ev(target.value, env), self.ev_index(target.slice, env))
                elif isinstance(target, ast.Name):
                    c = cx.get(env.ref)
                    cx.put(env.ref, EnvC({k: x for k, x in c.vars.items() if k != target.id}, c.parent))
                else:
                    raise Unsupported("del")
        elif t is ast.Try:
            self.try_stmt(st, env)
        elif t is ast.With:
            raise Unsupported("with statement")
        elif t in (ast.Import, ast.ImportFrom):
            g = {}
            self.world.module_stmt(st, env.module, False, g)
            for k, v in g.items():
                self.assign_name(k, self.world.resolve(v), env)
        else:
            raise Unsupported(f"statement {t.__name__}")

    def try_stmt(self, st, env):
        if st.finalbody and any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in st.finalbody for n in ast.walk(b)):
            raise Unsupported("control flow in finally")
        try:
            try:
                self.block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self.matches(e, h.type):
                        if h.name:
                            self.assign_name(h.name, Opaque("exception", e.kind), env)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (Return, Break, Continue, PyRaise):
            self.block(st.finalbody, env)
            raise
        self.block(st.finalbody, env)

    def matches(self, e, t):
        if t is None:
            return True
        names = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?") for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        k = e.kind
        while k is not None:
            if k in names:
                return True
            k = EXC_PARENTS.get(k)
        return False

    def aug_assign(self, st, env):
        op = BINOPS[type(st.op)]
        tgt = st.target
        if isinstance(tgt, ast.Name):
            old = self.lookup(tgt.id, env)
            new = self.lib.aug(self, op, old, self.ev(st.value, env))
            self.assign_name(tgt.id, new, env)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, env)
            self.setattr(o, tgt.attr, self.lib.aug(self, op, self.getattr(o, tgt.attr), self.ev(st.value, env)))
        elif isinstance(tgt, ast.Subscript):
            o, i = self.ev(tgt.value, env), self.ev_index(tgt.slice, env)
            self.lib.set_item(self, o, i, self.lib.aug(self, op, self.lib.get_item(self, o, i), self.ev(st.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, target, v, env):
        t = type(target)
        if t is ast.Name:
            self.assign_name(target.id, v, env)
        elif t in (ast.Tuple, ast.List):
            items = self.lib.unpack(self, v, target.elts)
            for tt, x in zip(target.elts, items):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, env)
        elif t is ast.Attribute:
            self.setattr(self.ev(target.value, env), target.attr, v)
        elif t is ast.Subscript:
            self.lib.set_item(self, self.ev(target.value, env), self.ev_index(target.slice, env), v)
        else:
            raise Unsupported("assignment target")

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name):
        cx = self.cx
        if isinstance(o, ModVal):
            if o.name in self.world.modules:
                g = self.world.modules[o.name]
                if name in g:
                    return self.global_name(name, o.name)
                if o.name + "." + name in self.world.modules:
                    return ModVal(o.name + "." + name)
            return self.lib.lookup(o.name + "." + name)
        if isinstance(o, ClassVal):
            m = self.world.member(o, name)
            if m is None:
                if name == "__name__":
                    return o.name
                if o.enum and name == "__members__":
                    raise Unsupported("__members__")
                raise PyRaise("AttributeError", f"{o.name}.{name}")
            return self.bind(m, o, o)
        if isinstance(o, Ent) and o.cls is not None and o.cls.name == "UnitarySequence":
            m = self.world.member(o.cls, name)
            if m is None:
                raise Unsupported(f"field {name} of a UnitarySequence under contract")
            return self.bind(m, o, o.cls)
        own = o
        if isinstance(o, Ent):
            o = self.reveal(o)
        if isinstance(o, (OVal,)) or (isinstance(o, Ref) and isinstance(cx.get(o), ObjC)):
            c = cx.get(o) if isinstance(o, Ref) else o
            if name in c.fields:
                v = c.fields[name]
                if isinstance(v, Undef):
                    raise Unsupported(f"value of .{name}: {v.why}")
                return v
            if name == "__class__":
                return c.cls
            m = self.world.member(c.cls, name)
            if m is None:
                if name == "__dict__" or "%entries" in c.fields:
                    raise Unsupported(f"field {name} of a {c.cls.name} under contract")
                raise PyRaise("AttributeError", f"{c.cls.name}.{name}")
            if isinstance(m, FuncVal) and m.kind == "property":
                return self.call(Bound(m, own), [], {})
            return self.bind(m, own, c.cls)
        if isinstance(o, EnumMember):
            if name == "name":
                return o.name
            if name == "value":
                return o.value
            m = self.world.member(o.cls, name)
            if m is None:
                raise PyRaise("AttributeError", name)
            return self.bind(m, o, o.cls)
        return self.lib.attribute(self, o, name)

    def bind(self, m, o, cls):
        if isinstance(m, tuple) and len(m) == 3 and m[0] == "expr":
            return self.constant(next((n for c in self.world.mro(cls) for n, x in c.members.items() if x is m), "?"), m)
        if isinstance(m, FuncVal):
            if m.kind == "staticmethod":
                return m
            if m.kind == "classmethod":
                return Bound(m, cls)
            if m.kind == "decorated":
                raise Unsupported(f"decorator on {m.qual}")
            if isinstance(o, ClassVal):
                return m
            return Bound(m, o)
        return m

    def setattr(self, o, name, v):
        cx = self.cx
        if isinstance(o, (Ent, OVal)):
            if o.tag == "module":
                raise Unsupported("change of an object of the module")
            raise Unsupported(f"assignment to .{name} of an object of class {o.cls.name} that the caller owns")
        if isinstance(o, Ref):
            c = cx.get(o)
            if isinstance(c, ObjC):
                if isinstance(self.world.member(c.cls, name), FuncVal):
                    raise Unsupported(f"assignment to .{name}, which is a method or property")
                d = dict(c.fields)
                d[name] = v
                cx.put(o, ObjC(c.cls, d, c.tag))
                cx.touched[("obj", o.id, name)] = True
                return
            if isinstance(c, ArrC) and name in ("real", "imag"):
                return self.lib.set_part(self, o, name, v)
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def reveal(self, e):
        return self.cx.world.spec.reveal(self, e)

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        b = self.lib.truth(self, v)
        return self.cx.decide(b) if not isinstance(b, bool) else b

    def ev_index(self, node, env):
        if isinstance(node, ast.Slice):
            return slice(*(self.ev(x, env) if x is not None else None for x in (node.lower, node.upper, node.step)))
        if isinstance(node, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in node.elts)
        return self.ev(node, env)

    def ev(self, e, env):
        cx = self.cx
        t = type(e)
        if t is ast.Constant:
            v = e.value
            if isinstance(v, float):
                return Fraction(str(v))
            if isinstance(v, complex):
                return X.of(v)
            if v is Ellipsis:
                return Opaque("ellipsis")
            return v
        if t is ast.Name:
            return self.lookup(e.id, env)
        if t is ast.Attribute:
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
                raise Unsupported("super()")
            return self.getattr(self.ev(e.value, env), e.attr)
        if t is ast.Call:
            return self.ev_call(e, env)
        if t is ast.BinOp:
            return self.lib.binop(self, BINOPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                b = self.lib.truth(self, v)
                return (not b) if isinstance(b, bool) else z3.Not(b)
            if isinstance(e.op, ast.USub):
                return self.lib.neg(self, v)
            if isinstance(e.op, ast.UAdd):
                return v
            return self.lib.invert(self, v)
        if t is ast.BoolOp:
            return self.ev_bool(e, env)
        if t is ast.Compare:
            left = self.ev(e.left, env)
            if len(e.ops) == 1:
                return self.compare(e.ops[0], left, self.ev(e.comparators[0], env))
            res = True
            for last, (op, c) in zip([False] * (len(e.ops) - 1) + [True], zip(e.ops, e.comparators)):   # (the AST shares one object among equal operators)
                right = self.ev(c, env)
                b = self.lib.truth(self, self.compare(op, left, right))
                if b is False:
                    return False
                if b is not True:
                    if last:
                        return b
                    if not cx.decide(b):
                        return False
                left = right
            return True
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if t in (ast.List, ast.Tuple, ast.Set):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.lib.content_of(self, self.ev(x.value, env)))
                else:
                    out.append(El(self.ev(x, env)))
            if t is ast.Tuple:
                return self.lib.mk_tuple(self, out)
            return cx.new(ListC(out, "list" if t is ast.List else "set"))
        if t is ast.Dict:
            out = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.ev(v, env)
                    for c in self.lib.dict_content(self, d):
                        out = self.lib.dict_put_chunk(self, out, c)
                else:
                    out = self.lib.dict_put(self, out, self.ev(k, env), self.ev(v, env))
            return cx.new(DictC(out))
        if t is ast.Subscript:
            return self.lib.get_item(self, self.ev(e.value, env), self.ev_index(e.slice, env))
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.loops.comprehension(self, e, env)
        if t is ast.JoinedStr:
            parts = []
            for x in e.values:
                if isinstance(x, ast.Constant):
                    parts.append(x.value)
                else:
                    v = self.ev(x.value, env)
                    if x.format_spec is not None or x.conversion not in (-1, 115):
                        spec = ast.unparse(x.format_spec) if x.format_spec is not None else str(x.conversion)
                        parts.append(SOf("format:" + spec, [v]))
                    else:
                        parts.append(self.lib.to_str(self, v))
            return self.lib.mk_str(parts)
        if t is ast.Lambda:
            f = self.world.make_func(e, env.ref, env.module, None, "function")
            f.qual = (env.func.qual + "." if env.func else "") + f"<lambda@{e.lineno}>"
            f.defaults = self.eval_defaults(e.args, env)
            return f
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if t is ast.Yield:
            v = self.ev(e.value, env) if e.value is not None else None
            acc = self.lookup("%yield", env)
            self.lib.list_append(self, acc, v)
            return None
        if t is ast.YieldFrom:
            acc = self.lookup("%yield", env)
            self.lib.list_extend(self, acc, self.lib.content_of(self, self.ev(e.value, env)))
            return None
        raise Unsupported(f"expression {t.__name__}")

    def ev_bool(self, e, env):
        is_and = isinstance(e.op, ast.And)
        acc = []
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            last = k == len(e.values) - 1
            b = self.lib.truth(self, v)
            if isinstance(b, bool):
                if b != is_and:
                    return v
                if last:
                    return v
                continue
            if last:
                return v
            if self.cx.decide(b) != is_and:
                return v if not is_bool(v) else (not is_and)
        return v

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.lib.identical(self, a, b)
        elif t is ast.In or t is ast.NotIn:
            r = self.lib.contains(self, b, a)
        else:
            return self.lib.compare(self, CMPOPS[t], a, b)
        if t in (ast.IsNot, ast.NotIn):
            return (not r) if isinstance(r, bool) else z3.Not(r)
        return r

    # ---------------------------------------------------------------- calls
    def ev_call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "exec", "super", "vars"):
            raise Unsupported(e.func.id + "()")
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                content = self.cx.norm_content(self.lib.content_of(self, self.ev(a.value, env)))
                if star is None and all(isinstance(c, El) for c in content):
                    args.extend(c.v for c in content)
                else:
                    star = (star or []) + list(content)
            elif star is not None:
                star.append(El(self.ev(a, env)))
            elif isinstance(a, ast.GeneratorExp) and isinstance(f, Native) and f.name in ("all", "any", "next"):
                try:
                    args.append(self.ev(a, env))
                except PyRaise as ex:
                    raise Unsupported(f"{f.name}() that may stop before an element that raises {ex.kind}")
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                content = self.lib.dict_content(self, self.ev(k.value, env))
                for c in content:
                    if not isinstance(c, El) or not isinstance(c.v[0], str):
                        raise Unsupported("** of a symbolic dictionary")
                    kwargs[c.v[0]] = c.v[1]
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if star is not None:
            kwargs["*"] = tuple(star)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        cx = self.cx
        if isinstance(f, Bound):
            if isinstance(f.func, Native):
                return f.func.fn(self, [f.self] + list(args), kwargs)
            return self.call_function(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_function(f, list(args), kwargs)
        if isinstance(f, Native):
            if "*" in kwargs and f.name not in ("itertools.chain",):
                if f.name == "symbolic function":
                    return f.fn(self, args, kwargs)
                raise Unsupported(f"{f.name} with a star argument of unknown length")
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Opaque) and f.kind == "function":
            return self.world.spec.apply_unknown(self, f, args, kwargs)
        if f is None or isinstance(f, (int, str, Fraction, tuple)):
            raise PyRaise("TypeError", "not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kwargs):
        cx = self.cx
        if cls.enum:
            for n in cls.members["__order__"]:
                if cls.members[n].value == args[0]:
                    return cls.members[n]
            raise Unsupported("enum lookup")
        key = cls.qual + ".__init__"
        init = self.world.member(cls, "__init__")
        c = self.contract(key)
        if c is not None:
            r = c(self, self.bind_args(init, [None] + args, kwargs))
            if r is not NotImplemented:
                self.world.assumed.add(key)
                return r
        deco = [d for d in cls.node.decorator_list]
        if deco or len(self.world.mro(cls)) != 1 + len(cls.bases):
            raise Unsupported(f"class {cls.name} with decorators or foreign bases")
        o = cx.new(ObjC(cls, {}, "new"))
        if init is not None:
            self.call_function(init, [o] + args, kwargs)
        elif args or kwargs:
            raise PyRaise("TypeError", "arguments to a class without __init__")
        return o

    def contract(self, qual, self_=None):
        return self.world.spec.contract(qual, self_, self)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if "*" in kwargs:
            star = kwargs["*"]
            kwargs = {k: v for k, v in kwargs.items() if k != "*"}
            if a.vararg is None:
                raise Unsupported("star argument of unknown length for a fixed signature")
            if len(args) < len(names):
                raise Unsupported("star argument of unknown length")
            out[a.vararg.arg] = LVal(tuple(El(x) for x in args[len(names):]) + star, "tuple", "new")
            args = args[:len(names)]
        elif len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", f"too many arguments for {f.qual}")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in out:
                    raise PyRaise("TypeError", f"argument {k} given twice")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", f"unexpected argument {k} for {f.qual}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.cx.new(DictC([El((k, v)) for k, v in extra.items()]))
        defaults = f.defaults if f.defaults is not None else self.static_defaults(f)
        for n, d in defaults.items():
            if n not in out:
                out[n] = d
        for n in names + kwonly:
            if n not in out:
                raise PyRaise("TypeError", f"missing argument {n} for {f.qual}")
        return out

    def static_defaults(self, f):
        # evaluated once per path: a mutable default is one shared object, owned by the function
        k = ("defaults", f.qual, f.node.lineno)
        if k not in self.globals_cache:
            d = self.eval_defaults(f.node.args, self.new_env(None, f.module, None))
            for n, v in d.items():
                if isinstance(v, Ref):
                    d[n] = map_tags(self.cx.freeze(v), lambda _: "module" if isinstance(self.cx.get(v), DictC) else "default")
            self.globals_cache[k] = d
        return self.globals_cache[k]

    def eval_defaults(self, a, env):
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            out[n] = self.ev(d, env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = self.ev(d, env)
        return out

    def call_function(self, f, args, kwargs):
        cx = self.cx
        if f.kind == "decorated":
            raise Unsupported(f"decorator on {f.qual}")
        c = self.contract(f.qual, args[0] if args else None) if f.cls is not None or f.env is None else None
        bound = self.bind_args(f, args, kwargs)
        if c is not None:
            self.world.assumed.add(f.qual)
            return c(self, bound)
        return self.run_body(f, bound)

    def run_body(self, f, bound):
        cx = self.cx
        cx.depth += 1
        if cx.depth > 30:
            raise Unsupported("call depth")
        env_parent = f.env
        if isinstance(env_parent, OVal):
            # a frozen closure
            env_parent = cx.new(EnvC(dict(env_parent.fields), None))
        env = self.new_env(env_parent, f.module, f, bound)
        cx.world.used.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            gen = is_generator(f.node)
            if gen:
                acc = cx.new(ListC((), "list"))
                self.assign_name("%yield", acc, env)
            try:
                self.block(f.node.body, env)
            except Return as r:
                return acc if gen else r.v
            return acc if gen else None
        finally:
            cx.depth -= 1


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
