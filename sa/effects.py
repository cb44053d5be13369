"""Interprocedural mutation analysis of the source tree.

Every function is interpreted over an abstract domain of *origins*: which of its
parameters, of the package's globals, or of freshly created objects an expression may
denote (``top``) or contain (``inner``).  A store, a deletion, an in-place operator or a
mutating method call is an effect on the origins of its target; effects and returned
origins are summarised per function and propagated through calls to a fixpoint.
"""
from __future__ import annotations

import ast
import os

FRESH = "fresh"
MUTATORS = {"append", "update", "pop", "setdefault", "clear", "insert", "extend", "remove",
            "sort", "__setattr__", "__delattr__", "__setitem__", "__delitem__", "add", "discard",
            "popitem", "reverse", "appendleft", "popleft", "fill", "put", "itemset",
            "move_to_end", "difference_update", "intersection_update",
            "symmetric_difference_update", "__init__", "__iadd__", "__ior__", "setflags",
            "resize", "partition"}
PARTS = {"get", "items", "values", "keys", "__getitem__", "setdefault", "pop", "popitem",
         "__iter__", "__enter__", "view", "T", "ravel", "reshape", "squeeze"}
ALIAS = {"asarray", "getattr", "next", "iter", "vars", "cast", "error_if", "branched_error_if",
         "proxy", "atleast_1d", "asanyarray", "getitem", "attrgetter", "__getattribute__",
         "broadcast_to", "broadcast_arrays", "ravel", "reshape"}
CONSTRUCTION = {"__init__", "__post_init__", "__new__", "__set_name__", "__init_subclass__",
                "__class_getitem__", "__setstate__", "__prepare__"}
BANNED = {  # effects outside the package
    "jax.config.update": "changes the global jax configuration",
    "warnings.filterwarnings": "changes the global warning filters",
    "warnings.simplefilter": "changes the global warning filters",
    "warnings.resetwarnings": "changes the global warning filters",
    "os.putenv": "changes the environment", "os.unsetenv": "changes the environment",
    "os.chdir": "changes the working directory", "random.seed": "reseeds the global generator",
    "numpy.random.seed": "reseeds the global generator", "os.environ.update": "changes the environment",
    "os.remove": "deletes a file", "os.unlink": "deletes a file",
    "numpy.seterr": "changes the global error state",
    "astropy.units.add_enabled_units": "changes the global unit registry",
    "astropy.units.set_enabled_units": "changes the global unit registry",
    "print": "writes to the standard output", "open": "opens a file", "input": "reads the standard input",
    "exec": "runs text", "sys.setrecursionlimit": "changes the interpreter",
}
CONTAINERS = {"dict", "list", "set", "Mapping", "MutableMapping", "Dict", "List", "Set", "ndarray",
              "ArrayLike", "MutableSequence", "Sequence", "deque", "defaultdict", "bytearray"}


class Val:
    __slots__ = ("top", "inner")

    def __init__(self, top=(), inner=()):
        self.top, self.inner = frozenset(top), frozenset(inner)

    def __or__(self, o):
        return Val(self.top | o.top, self.inner | o.inner)

    def part(self):
        rest = self.inner | (self.top - {FRESH})
        return Val(rest or {FRESH}, rest)

    def wrap(self):
        return Val({FRESH}, (self.top | self.inner) - {FRESH})

    def __eq__(self, o):
        return self.top == o.top and self.inner == o.inner


NEW = Val({FRESH})


def param(n):
    return Val({("param", n)}, {("param", n)})


class Func:
    def __init__(self, mod, node, cls, path):
        self.mod, self.node, self.cls, self.path = mod, node, cls, path
        self.name = node.name
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.ret = Val()
        self.effects = {}      # (origin) -> (line, what, chain)
        self.decos = [ast.unparse(d) for d in node.decorator_list]
        self.static = "staticmethod" in self.decos

    @property
    def qual(self):
        return f"{self.cls}.{self.name}" if self.cls else self.name

    @property
    def where(self):
        return f"{self.path}:{self.node.lineno} in {self.qual}"

    @property
    def public(self):
        deco = [d for d in self.decos if d not in ("staticmethod", "overload", "override")]
        return bool(self.cls) or bool(deco) or not self.name.startswith("_")


class Module:
    def __init__(self, path, rel, tree, name):
        self.path, self.rel, self.tree, self.name = path, rel, tree, name
        self.imports = {}      # local name -> dotted
        self.defs = {}
        self.globals = set()


class Program:
    def __init__(self, src):
        self.src = src
        self.mods, self.funcs = [], []
        self.byname, self.methods, self.classes = {}, {}, {}
        for d, _, fs in sorted(os.walk(src)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    self.load(os.path.join(d, f))
        self.users = {}
        self.sites = 0
        self.banned = []
        self.fixpoint()

    def load(self, path):
        rel = os.path.relpath(path, os.path.dirname(self.src))
        name = os.path.relpath(path, self.src)[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        with open(path) as fh:
            tree = ast.parse(fh.read())
        m = Module(path, rel, tree, name)
        self.mods.append(m)
        pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    up = pkg.split(".")
                    up = up[:len(up) - (n.level - 1)]
                    base = ".".join(up + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = base + "." + a.name
        self.scan(m, tree.body, None)
        for n in tree.body:
            for t in getattr(n, "targets", None) or ([n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        m.globals.add(x.id)

    def scan(self, m, body, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, n, cls, m.rel)
                self.funcs.append(f)
                (self.methods if cls else self.byname).setdefault(n.name, []).append(f)
                if not cls:
                    m.defs[n.name] = f
            elif isinstance(n, ast.ClassDef):
                self.classes.setdefault(n.name, (m, n))
                self.scan(m, n.body, n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for blk in ("body", "orelse", "finalbody"):
                    self.scan(m, getattr(n, blk, []) or [], cls)
                for h in getattr(n, "handlers", []) or []:
                    self.scan(m, h.body, cls)

    def fixpoint(self):
        for _ in range(12):
            self.changed = False
            self.sites = 0
            self.banned = []
            self.users = {}
            for f in self.funcs:
                Walk(self, f).run()
            for m in self.mods:
                ModWalk(self, m).run()
            if not self.changed:
                return
        # not reached on any tree seen; the summaries only grow, so stop soundly here
        self.changed = True


class Walk:
    def __init__(self, prog, f):
        self.p, self.f, self.m = prog, f, f.mod
        self.env = {}
        self.globals_ = set()
        self.ret = f.ret
        self.eff = dict(f.effects)

    # ------------------------------------------------------------ driver
    def run(self):
        f = self.f
        for n in f.pos + f.kwonly:
            self.env[n] = param(n)
        if f.vararg:
            self.env[f.vararg] = Val({FRESH}, {("param", f.vararg)})
        if f.kwarg:
            self.env[f.kwarg] = Val({FRESH}, {("param", f.kwarg)})
        self.block(f.node.body)
        if not (self.ret == f.ret) or self.eff.keys() != f.effects.keys():
            self.p.changed = True
        f.ret, f.effects = self.ret, self.eff

    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        env = {}
        for e in outs:
            for k, v in e.items():
                env[k] = env[k] | v if k in env else v
        self.env = env

    def loop(self, body, orelse, bind=None):
        for _ in range(2):
            before = dict(self.env)
            if bind:
                bind()
            self.block(body)
            for k, v in before.items():
                self.env[k] = self.env[k] | v if k in self.env else v
        self.block(orelse)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                v = self.name(t.id)
                for o in v.top:
                    if isinstance(o, tuple) and o[0] == "param" and self.container(o[1]):
                        self.effect(v, s, f"in-place operator on {t.id}")
                        break
                    if isinstance(o, tuple) and o[0] == "global":
                        self.effect(v, s, f"in-place operator on {t.id}")
                        break
                if t.id in self.globals_:
                    self.effect(Val({("global", self.m.name + "." + t.id)}), s, f"assigns the global {t.id}")
                self.env[t.id] = v | NEW if FRESH in v.top else Val(v.top | {FRESH}, v.inner)
            else:
                self.effect(self.ev(t.value), s, f"in-place operator on {ast.unparse(t)}")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.effect(self.ev(t.value), s, f"deletes {ast.unparse(t)}")
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ret | self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            self.loop(s.body, s.orelse, lambda: self.store(s.target, it.part(), None))
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.loop(s.body, s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            self.branch(s.body, [])
            for h in s.handlers:
                self.branch(h.body, [])
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    n = getattr(x, "name", None) or getattr(x, "rest", None)
                    if n:
                        self.env[n] = v | v.part()
                if c.guard is not None:
                    self.ev(c.guard)
            self.branch(*[c.body for c in s.cases], [])
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(s)
        elif isinstance(s, ast.Global):
            self.globals_ |= set(s.names)
        elif isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    self.ev(e)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.ClassDef):
            for n in s.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.nested(n)

    def nested(self, fn):
        """A closure: its body may run whenever it is called, on unknown arguments."""
        saved, sret = dict(self.env), self.ret
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = Val({("arg", fn.name, x.arg)}, {("arg", fn.name, x.arg)})
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = NEW
        body = fn.body if isinstance(fn.body, list) else [ast.Return(value=fn.body)]
        self.block(body)
        r = self.ret
        self.env, self.ret = saved, sret
        if not isinstance(fn, ast.Lambda):
            self.env[fn.name] = NEW
        return r

    def container(self, p):
        a = self.f.ann.get(p)
        if a is None:
            return False
        return any((isinstance(x, ast.Name) and x.id in CONTAINERS) or (isinstance(x, ast.Attribute) and x.attr in CONTAINERS)
                   for x in ast.walk(a))

    # ------------------------------------------------------------ effects
    def effect(self, v, node, what, chain=()):
        self.p.sites += 1
        for o in v.top:
            if o == FRESH or (isinstance(o, tuple) and o[0] in ("ext", "arg")):
                continue
            if o[0] == "param" and self.allowed(o[1]):
                continue
            self.eff.setdefault(o, (getattr(node, "lineno", 0), what, tuple(chain)))

    def allowed(self, p):
        f = self.f
        if f.cls and f.pos and f.name in CONSTRUCTION and p == f.pos[0]:
            return True
        if f.cls and f.name == "__set__" and len(f.pos) > 1 and p == f.pos[1]:
            return True
        return False

    # ------------------------------------------------------------ stores
    def store(self, t, v, src):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.effect(Val({("global", self.m.name + "." + t.id)}), t, f"assigns the global {t.id}")
            self.env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.store(t.value, v.wrap(), None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                for x, e in zip(t.elts, src.elts):
                    self.store(x, self.ev(e), e)
            else:
                for x in t.elts:
                    self.store(x, v.part(), None)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.effect(self.ev(t.value), t, f"assigns {ast.unparse(t)}")
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.env:
                o = self.env[t.value.id]
                self.env[t.value.id] = Val(o.top, o.inner | ((v.top | v.inner) - {FRESH}))
            d = self.dotted(t.value)
            if d in ("os.environ", "sys.modules"):
                self.p.banned.append((self.f, t.lineno, f"assigns {d}"))

    # ------------------------------------------------------------ expressions
    def name(self, n):
        if n in self.globals_ or n not in self.env:
            if n in self.m.globals:
                q = self.m.name + "." + n
                self.p.users.setdefault(q, set()).add(id(self.f))
                return Val({("global", q)}, {("global", q)})
            d = self.m.imports.get(n)
            if d is not None:
                self.p.users.setdefault(d, set()).add(id(self.f))
                for m in self.p.mods:
                    if d.startswith(m.name + ".") and d[len(m.name) + 1:] in m.globals:
                        return Val({("global", d)}, {("global", d)})
                return Val({("ext", d)})
            return Val({("ext", n)})
        return self.env[n]

    def dotted(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.env and e.id not in self.globals_:
                return None
            return self.m.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return None if b is None else b + "." + e.attr
        return None

    def ev(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for x in e.values:
                    if isinstance(x, ast.FormattedValue):
                        self.ev(x.value)
            return NEW
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            d = self.dotted(e)
            if d is not None:
                b = self.ev(e.value)
                if any(isinstance(o, tuple) and o[0] == "global" for o in b.top):
                    return b.part()
                return Val({("ext", d)})
            return self.ev(e.value).part()
        if isinstance(e, ast.Subscript):
            self.ev(e.slice)
            return self.ev(e.value).part()
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x)
            return NEW
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            v = NEW
            for x in e.elts:
                v = v | self.ev(x).wrap()
            return Val({FRESH}, v.inner)
        if isinstance(e, ast.Dict):
            v = NEW
            for x in list(e.keys) + list(e.values):
                if x is not None:
                    v = v | self.ev(x).wrap()
            return Val({FRESH}, v.inner)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.store(g.target, self.ev(g.iter).part(), None)
                for c in g.ifs:
                    self.ev(c)
            v = self.ev(e.value).wrap() | self.ev(e.key).wrap() if isinstance(e, ast.DictComp) else self.ev(e.elt).wrap()
            self.env = saved
            return Val({FRESH}, v.inner)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            v = Val()
            for x in e.values:
                v = v | self.ev(x)
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.Lambda):
            e.name = "<lambda>"
            self.nested(e)
            return NEW
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value) if e.value is not None else NEW
            self.ret = self.ret | v.wrap()
            return NEW
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NEW

    def call(self, e):
        args = [(a, self.ev(a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        every = NEW
        for _, v in args:
            every = every | v
        for _, v in kws:
            every = every | v
        d = self.dotted(e.func)
        last = d.rsplit(".", 1)[-1] if d else None
        if d in BANNED:
            self.p.banned.append((self.f, e.lineno, f"{d}(...) {BANNED[d]}"))
        # out= arguments of numeric functions write to their operand
        for k, v in kws:
            if k == "out":
                self.effect(v, e, "output written into an argument (out=...)")
        if d in ("setattr", "delattr", "object.__setattr__", "builtins.setattr", "object.__delattr__",
                 "operator.setitem", "operator.delitem", "operator.iadd", "operator.ior", "type.__setattr__") or last in ("__setattr__", "__delattr__"):
            if args:
                self.effect(args[0][1], e, f"{ast.unparse(e)[:60]}")
            return NEW
        if isinstance(e.func, ast.Attribute) and (d is None or self.is_global(e.func.value)):
            recv = self.ev(e.func.value)
            m = e.func.attr
            cands = [f for f in self.p.methods.get(m, []) if m not in ("__init__",)]
            sup = isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"
            if m in MUTATORS and not cands and not sup:
                self.effect(recv, e, f"calls {ast.unparse(e.func)[:60]}")
            r = Val()
            for f in cands:
                r = r | self.apply(f, [recv] + [v for _, v in args] if not f.static else [v for _, v in args], kws, e)
            if cands:
                return r | Val({FRESH}, (recv.wrap() | every.wrap()).inner)
            if m in PARTS:
                return recv.part()
            return Val({FRESH}, (recv.wrap() | every.wrap()).inner)
        if d is not None:
            f = self.resolve(d)
            if f:
                r = Val()
                for g in f:
                    r = r | self.apply(g, [v for _, v in args], kws, e)
                return r
            if last in ALIAS:
                return every | every.part() if last in ("getattr", "next", "iter", "getitem") else every
            return Val({FRESH}, every.wrap().inner)
        self.ev(e.func)
        return Val({FRESH}, every.wrap().inner)

    def is_global(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return isinstance(e, ast.Name) and (e.id in self.m.globals or any(
            isinstance(o, tuple) and o[0] == "global" for o in self.name(e.id).top))

    def resolve(self, d):
        """Source functions a dotted name may denote (all overloads of one name)."""
        n = d.rsplit(".", 1)[-1]
        if d in self.m.defs or d.startswith("coordinax") or d.startswith("_"):
            return self.p.byname.get(n, [])
        return []

    def apply(self, f, vals, kws, node):
        bind = dict(zip(f.pos, vals))
        rest = Val()
        for v in vals[len(f.pos):]:
            rest = rest | v
        for k, v in kws:
            if k in f.pos or k in f.kwonly:
                bind[k] = v
            else:
                rest = rest | v
        if f.vararg:
            bind[f.vararg] = rest
        if f.kwarg:
            bind[f.kwarg] = bind.get(f.kwarg, Val()) | rest

        def sub(os):
            t, i = set(), set()
            for o in os:
                if isinstance(o, tuple) and o[0] == "param":
                    b = bind.get(o[1])
                    if b is not None:
                        t |= b.top
                        i |= b.inner
                else:
                    t.add(o)
            return t, i
        for o, (line, what, chain) in f.effects.items():
            if o[0] == "param":
                b = bind.get(o[1])
                if b is not None:
                    tgt = b if o[1] not in (f.vararg, f.kwarg) else b
                    self.effect(Val(tgt.top | {x for x in tgt.inner}) if False else tgt, node,
                                what, (f"{f.where}",) + chain)
            # effects on globals are reported where they happen
        t, i1 = sub(f.ret.top)
        i, i2 = sub(f.ret.inner)
        return Val(t or {FRESH}, i | i2 | (i1 if t else set()))


class ModWalk(Walk):
    """Module level: definitions may fill the module's own tables."""

    def __init__(self, prog, m):
        fn = ast.parse("def _module_(): pass").body[0]
        f = Func(m, fn, None, m.rel)
        super().__init__(prog, f)

    def run(self):
        for s in self.m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.stmt(s)

    def effect(self, v, node, what, chain=()):
        self.p.sites += 1
