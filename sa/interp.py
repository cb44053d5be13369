"""Abstract interpreter for the analysed modules.

It evaluates the *syntax trees* of the analysed package over the abstract domain
of values.py.  Nothing of the package or its dependencies is imported or run.
Control flow on undecided predicates is joined with gates (gated value
numbering): both arms are evaluated once and their environments merged.
"""
from __future__ import annotations

import ast
import builtins
import os
import sys
from fractions import Fraction

from . import axes as AX
from . import ring as R
from . import values as V
from .values import *  # noqa: F403
from .values import AbsRaise, Undecided

sys.setrecursionlimit(20000)

BUILTIN_EXC = ["BaseException", "Exception", "TypeError", "ValueError", "RuntimeError", "KeyError",
               "AttributeError", "NotImplementedError", "IndexError", "UserWarning", "Warning",
               "ImportError", "StopIteration", "LookupError", "ArithmeticError", "ZeroDivisionError",
               "AssertionError", "DeprecationWarning", "NameError", "RecursionError", "OverflowError",
               "FloatingPointError", "StopAsyncIteration", "RuntimeWarning", "FutureWarning", "GeneratorExit",
               "KeyboardInterrupt", "SystemExit", "EOFError", "OSError", "UnicodeError", "ExceptionGroup"]


PLAIN_EXT = {"equinox.Module", "abc.ABC", "typing.Generic", "builtins.object"}
ARRAY_ATTRS = set("""T all any argmax argmin argpartition argsort astype at base byteswap choose clip compress conj
conjugate copy ctypes cumprod cumsum data device devices diagonal dot dtype fill flags flat flatten getfield imag item
itemset itemsize max mean min nbytes ndim nonzero prod ptp put ravel real repeat reshape resize round searchsorted
shape size sort squeeze std strides sum swapaxes take tobytes tolist trace transpose var view mT sharding to_device
addressable_data block_until_ready weak_type unit value to uconvert ustrip to_value decompose unsafe_buffer_pointer
is_fully_addressable global_shards committed aval materialise enable_materialise __array__ __len__ __iter__ __hash__
__array_namespace__ __repr__ __str__ __bool__ __float__ __int__ __pos__ __abs__ __complex__ __index__
decompose cgs si""".split())


class Flow:
    """Outcome of a block: falls through with env, or has (gated) result."""
    __slots__ = ("env", "ret", "cond", "kind")


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


NO_CALL = ("Mapping", "ArrayValue", "Module", "ABC", "Generic", "object")
NORET = object()


class Env:
    __slots__ = ("d", "parent", "mod", "cls", "globals_", "outer_", "comp")

    def __init__(self, d, parent, mod, cls=None):
        self.d, self.parent, self.mod, self.cls = d, parent, mod, cls
        self.globals_ = self.outer_ = None
        self.comp = False

    def get(self, name):
        e = self
        first = True
        while e is not None:
            if name in e.d and (first or e.cls is None):
                return e.d[name]
            first = False
            e = e.parent
        if name in self.mod.ns:
            return self.mod.ns[name]
        return NORET


class Effect:
    __slots__ = ("kind", "data", "guards", "loc", "stack")

    def __init__(self, kind, data, guards, loc, stack):
        self.kind, self.data, self.guards, self.loc, self.stack = kind, data, guards, loc, stack

    def __repr__(self):
        return f"{self.kind}@{self.loc}: {self.data}"


class Maybe:
    """Element of a comprehension kept when a condition of unknown value holds."""

    def __init__(self, c, v):
        self.c, self.v = c, v


class Interp:
    NORET = NORET
    def __init__(self, src_root, stub_dir=None):
        self.src_root = src_root
        self.modules = {}
        self.roots = self._find_roots(src_root)
        self.stub_dir = stub_dir or os.path.join(os.path.dirname(__file__), "stubs")
        self.plum = {}           # (name, owner) -> PlumF
        self.quax = {}           # prim name -> PlumF
        self.conv = []           # (from, to, fn)
        self.promo = []          # (a, b, c)
        self.effects = []
        self.guards = []
        self.stack = []
        self.consulted = {}
        self.nodes = 0
        self.depth = 0
        self.parse_errors = []
        self.load_problems = []
        self.allocs = None
        self.trace_dispatch = None
        self.cur_env = None
        self.mutations = []
        from . import ext
        self.ext = ext
        self.handling = []
        self.builtins = ext.make_builtins(self)
        self.exc_classes = {}
        for n in BUILTIN_EXC:
            c = Cls(n, "builtins")
            self.exc_classes[n] = c
        order = {"Exception": "BaseException", "Warning": "Exception", "UserWarning": "Warning",
                 "DeprecationWarning": "Warning", "NotImplementedError": "RuntimeError",
                 "RecursionError": "RuntimeError", "OverflowError": "ArithmeticError",
                 "FloatingPointError": "ArithmeticError", "RuntimeWarning": "Warning", "FutureWarning": "Warning",
                 "UnicodeError": "ValueError", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
                 "SystemExit": "BaseException",
                 "KeyError": "LookupError", "IndexError": "LookupError",
                 "ZeroDivisionError": "ArithmeticError"}
        for n, c in self.exc_classes.items():
            b = order.get(n, "Exception" if n != "BaseException" else None)
            c.bases = [self.exc_classes[b]] if b else []
        for n, c in self.exc_classes.items():
            c.mro = [c]
            while c.mro[-1].bases:
                c.mro.append(c.mro[-1].bases[0])
            self.builtins[n] = c
        ext.install(self)

    # ------------------------------------------------------------ modules
    def _find_roots(self, src):
        roots = {}
        for d in sorted(os.listdir(src)):
            p = os.path.join(src, d)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                roots[d] = p
        for base, dirs, files in os.walk(src):
            for d in dirs:
                if d.startswith("coordinax_interop") or d.startswith("coordinax_"):
                    roots.setdefault(d, os.path.join(base, d))
        return roots

    def mod_path(self, name):
        top = name.split(".")[0]
        if top in self.roots:
            p = os.path.join(self.roots[top], *name.split(".")[1:])
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                return os.path.join(p, "__init__.py")
            if os.path.exists(p + ".py"):
                return p + ".py"
            return None
        p = os.path.join(self.stub_dir, name.replace(".", "__") + ".py")
        return p if os.path.exists(p) else None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path = self.mod_path(name)
        if path is None:
            return None
        m = Mod(name, path)
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        if "." in name:
            p = self.modules.get(name.rsplit(".", 1)[0])
            if p is not None:
                p.ns.setdefault(name.rsplit(".", 1)[1], m)
        with open(path) as f:
            src = f.read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Undecided(f"syntax error in {path}: {e}")
        m.state = "running"
        env = Env(m.ns, None, m)
        saved = self.stack, self.guards
        self.stack, self.guards = [], []
        for st in tree.body:
            try:
                self.exec_block([st], env)
            except (Undecided, AbsRaise, Unknown) as e:
                self.load_problems.append((name, st.lineno, repr(e)))
                self._bind_top(st, env, str(e))
        self.stack, self.guards = saved
        m.state = "done"
        return m

    def _bind_top(self, st, env, why):
        names = []
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            names = [st.name]
        elif isinstance(st, ast.Assign):
            names = [n.id for t in st.targets for n in ast.walk(t) if isinstance(n, ast.Name)]
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            names = [st.target.id]
        for n in names:
            env.d[n] = Top(why)

    def import_from(self, modname, name):
        m = self.load(modname)
        if m is None:
            if self.mod_path(modname) is None and modname.split(".")[0] in self.roots:
                raise Undecided(f"no module {modname}")
            return self.ext.resolve(self, modname + "." + name)
        if name in m.ns:
            return m.ns[name]
        sub = self.load(f"{modname}.{name}")
        if sub is not None:
            return sub
        if m.path.startswith(self.stub_dir):
            return self.ext.resolve(self, modname + "." + name)
        raise AbsRaise(self.make_exc("ImportError", f"cannot import {name} from {modname}"))

    # ------------------------------------------------------------ errors
    def make_exc(self, cls, msg=""):
        c = self.exc_classes[cls] if isinstance(cls, str) else cls
        return Obj(c, {"args": (msg,)})

    def raise_(self, cls, msg=""):
        raise AbsRaise(self.make_exc(cls, msg), self.loc())

    def loc(self):
        return self.stack[-1] if self.stack else None

    def where(self):
        if not self.stack:
            return "<module>"
        f, n = self.stack[-1]
        return f"{self.relpath(f.module.path)}:{getattr(n, 'lineno', '?')} in {f.name}"

    def relpath(self, p):
        r = os.path.dirname(self.src_root)
        return os.path.relpath(p, r) if p and p.startswith(r) else p

    def effect(self, kind, data):
        self.effects.append(Effect(kind, data, tuple(self.guards), self.where(),
                                   tuple(f"{f.module.name}.{f.name}:{getattr(n, 'lineno', 0)}" for f, n in self.stack)))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        """Returns NORET (fell through; env updated) or a value; gated returns handled."""
        for i, st in enumerate(stmts):
            if self.stack:
                self.stack[-1] = (self.stack[-1][0], st)
            self.nodes += 1
            if isinstance(st, ast.If):
                c = self.pytruth(self.ev(st.test, env))
                if c is True:
                    r = self.exec_block(st.body, env)
                elif c is False:
                    r = self.exec_block(st.orelse, env)
                else:
                    return self.gated_if(c, st, stmts[i + 1:], env)
                if r is not NORET:
                    return r
                continue
            if isinstance(st, ast.Match):
                r = self.exec_match(st, env)
                if r is not NORET:
                    return r
                continue
            r = self.exec_stmt(st, env)
            if r is not NORET:
                return r
        return NORET

    def _branch(self, c, val, stmts, env):
        """Execute stmts under gate; returns ('fall', env) | ('ret', v) | ('raise', exc)."""
        e2 = Env({k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v)
                  for k, v in env.d.items()}, env.parent, env.mod, env.cls)
        self.guards.append((c, val))
        undo = []
        try:
            if isinstance(c, Ite) and c.a is True and c.b is False:
                undo = self.assume_pred(c.p, val)
            r = self.exec_block(stmts, e2)
            return ("fall", e2) if r is NORET else ("ret", r)
        except AbsRaise as ex:
            return ("raise", ex)
        finally:
            self.guards.pop()
            for k in undo:
                R.NONNEG.pop(k, None)

    def assume_pred(self, p, val):
        return []

    def gated_if(self, c, st, rest, env):
        ka, a = self._branch(c, True, st.body, env)
        kb, b = self._branch(c, False, st.orelse, env)
        if ka == "raise" and kb == "raise":
            raise a
        if ka == "raise":
            self.effects.append(Effect("raise", (c, a.exc), tuple(self.guards), str(a.loc), ()))
            ka, a, kb, b, c = kb, b, None, None, True
        elif kb == "raise":
            self.effects.append(Effect("raise", (b_not(c), b.exc), tuple(self.guards), str(b.loc), ()))
            kb, b, c = None, None, True
        if kb is None:
            if ka == "ret":
                return a
            env.d.clear()
            env.d.update(a.d)
            return self.exec_block(rest, env)
        if ka == "ret" and kb == "ret":
            return self.merge(c, a, b)
        if ka == "fall" and kb == "fall":
            names = set(a.d) | set(b.d)
            out = {}
            for n in names:
                va, vb = a.d.get(n, NORET), b.d.get(n, NORET)
                if va is NORET:
                    va = Top(f"{n} unbound on one path")
                if vb is NORET:
                    vb = Top(f"{n} unbound on one path")
                out[n] = va if va is vb else self.merge(c, va, vb)
            env.d.clear()
            env.d.update(out)
            return self.exec_block(rest, env)
        # one arm returns, the other continues with the rest
        retv, cont, cc = (a, b, c) if ka == "ret" else (b, a, b_not(c))
        self.guards.append((cc, False))
        try:
            r = self.exec_block(rest, cont)
        except AbsRaise as ex:
            self.effects.append(Effect("raise", (b_not(cc), ex.exc), tuple(self.guards[:-1]), str(ex.loc), ()))
            return retv
        finally:
            self.guards.pop()
        return self.merge(cc, retv, None if r is NORET else r)

    def merge(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num) and a.ty is b.ty and a.feat() == b.feat() and a.dim == b.dim:
            v = self._vzip(lambda x, y: ite(c, x, y), a.v, b.v)
            unit = a.unit
            if a.unit is not None and b.unit is not None and not R.eq(a.unit, b.unit):
                unit = None
            return a.with_(v=v, unit=unit, sh=a.sh if a.sh == b.sh else ("bcast", a.sh, b.sh))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.d.keys() == b.d.keys() \
                and not any(isinstance(a.d[k], (tuple, list)) and len(a.d[k]) != len(b.d[k]) for k in a.d
                            if isinstance(a.d[k], (tuple, list)) == isinstance(b.d[k], (tuple, list))):
            return self.mkobj(a.cls, {k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (X, Ite, bool, int, float)) and isinstance(b, (X, Ite, bool, int, float)):
            return ite(c, a, b)
        if V.same(a, b):
            return a
        return ite(c, a, b)

    def mkobj(self, cls, d):
        o = Obj(cls, d)
        o.frozen = True
        return o

    def _vzip(self, f, a, b):
        if isinstance(a, list):
            return [self._vzip(f, x, y) for x, y in zip(a, b)]
        return f(a, b)

    def exec_stmt(self, st, env):
        k = type(st)
        if k is ast.Return:
            return None if st.value is None else self.ev(st.value, env)
        if k is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return NORET
            self.ev(st.value, env)
            return NORET
        if k is ast.Assign:
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
            return NORET
        if k is ast.AnnAssign:
            if env.cls is not None and isinstance(st.target, ast.Name):
                env.d.setdefault("__anns__", {})[st.target.id] = (st.annotation, env)
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
            return NORET
        if k is ast.AugAssign:
            cur = self.ev(_load(st.target), env)
            rhs = self.ev(st.value, env)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                cur.extend(rhs)
                return NORET
            self.assign(st.target, self.ext.binop(self, type(st.op).__name__, cur, rhs), env)
            return NORET
        if k is ast.FunctionDef:
            env.d[st.name] = self.make_function(st, env)
            return NORET
        if k is ast.ClassDef:
            env.d[st.name] = self.make_class(st, env)
            return NORET
        if k is ast.Import:
            for a in st.names:
                m = self.load(a.name)
                if a.asname:
                    env.d[a.asname] = m if m is not None else self.ext.resolve(self, a.name)
                else:
                    top = a.name.split(".")[0]
                    mm = self.load(top)
                    env.d[top] = mm if mm is not None else self.ext.resolve(self, top)
            return NORET
        if k is ast.ImportFrom:
            base = st.module or ""
            if st.level:
                pk = env.mod.name.split(".")
                if not env.mod.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (st.level - 1)]
                base = ".".join(pk + ([base] if base else []))
            for a in st.names:
                if a.name == "*":
                    m = self.load(base)
                    if m is None:
                        continue
                    names = m.ns.get("__all__")
                    if not isinstance(names, (list, tuple)):
                        names = [n for n in m.ns if not n.startswith("_")]
                    for n in names:
                        env.d[n] = self.import_from(base, n)
                else:
                    env.d[a.asname or a.name] = self.import_from(base, a.name)
            return NORET
        if k is ast.For:
            it = self.iterate(self.ev(st.iter, env))
            for x in it:
                self.assign(st.target, x, env)
                try:
                    r = self.exec_block(st.body, env)
                except _Break:
                    break
                except _Continue:
                    continue
                if r is not NORET:
                    return r
            else:
                return self.exec_block(st.orelse, env)
            return NORET
        if k is ast.While:
            n = 0
            while True:
                c = self.pytruth(self.ev(st.test, env))
                if not isinstance(c, bool):
                    raise Undecided("loop on an undecided condition")
                if not c:
                    return self.exec_block(st.orelse, env)
                n += 1
                if n > 500:
                    raise Undecided("loop bound")
                try:
                    r = self.exec_block(st.body, env)
                except _Break:
                    return NORET
                except _Continue:
                    continue
                if r is not NORET:
                    return r
        if k is ast.Raise:
            if st.exc is None:
                if self.handling:
                    raise self.handling[-1]
                raise AbsRaise(self.make_exc("RuntimeError", "re-raise"), self.loc())
            e = self.ev(st.exc, env)
            if isinstance(e, Cls):
                e = self.call(e, [], {})
            raise AbsRaise(e, self.where())
        if k is ast.Pass or k is ast.Global or k is ast.Nonlocal:
            return NORET
        if k is ast.Assert:
            c = self.pytruth(self.ev(st.test, env))
            if c is False:
                self.raise_("AssertionError", ast.unparse(st.test))
            if c is not True:
                self.effect("assert", c)
            return NORET
        if k is ast.Try:
            return self.exec_try(st, env)
        if k is ast.With:
            return self.exec_with(st.items, st.body, env)
        if k is ast.Delete:
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.d.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o = self.ev(t.value, env)
                    if isinstance(o, (dict, list)):
                        del o[self.ev(t.slice, env)]
            return NORET
        if k is ast.Break:
            raise _Break
        if k is ast.Continue:
            raise _Continue
        if k is ast.TypeAlias:
            env.d[st.name.id] = self.ev(st.value, env)
            return NORET
        raise Undecided(f"statement {k.__name__}")

    def exec_with(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        v = cm = self.ev(it.context_expr, env)
        if isinstance(cm, (It, Num, Fn, dict, list, tuple, str)):
            raise Undecided(f"with {cm!r}")
        own = isinstance(cm, Obj) and cm.cls.lookup("__enter__")[0] is not None
        if own:
            v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        if not own:
            return self.exec_with(items[1:], body, env)
        leave = self.getattr(cm, "__exit__")
        try:
            r = self.exec_with(items[1:], body, env)
        except AbsRaise as ex:
            t = self.call(leave, [ex.exc.cls if isinstance(ex.exc, Obj) else None, ex.exc, None], {})
            if self.pytruth(t) is True:
                return NORET
            raise
        except (_Break, _Continue):
            self.call(leave, [None, None, None], {})
            raise
        self.call(leave, [None, None, None], {})
        return r

    def exec_try(self, st, env):
        try:
            fell = False
            try:
                r = self.exec_block(st.body, env)
                fell = r is NORET
            except AbsRaise as ex:
                r = NORET
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(self.exc_match(ex.exc, x) for x in ts)
                    if ok:
                        if h.name:
                            env.d[h.name] = ex.exc
                        self.handling.append(ex)
                        try:
                            r = self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                        if h.name:
                            env.d.pop(h.name, None)
                        break
                else:
                    raise
            if fell:
                r = self.exec_block(st.orelse, env)
        except (AbsRaise, _Break, _Continue):
            if st.finalbody:
                f = self.exec_block(st.finalbody, env)
                if f is not NORET:
                    return f
            raise
        if st.finalbody:
            f = self.exec_block(st.finalbody, env)
            if f is not NORET:
                return f
        return r

    def exc_match(self, exc, t):
        if isinstance(exc, Obj) and isinstance(t, Cls):
            return exc.cls.issub(t)
        return False

    def exec_match(self, st, env):
        subj = self.ev(st.subject, env)
        for case in st.cases:
            binds = {}
            ok = self.match_pat(case.pattern, subj, env, binds)
            if ok is None:
                raise Undecided("match on an undecided subject")
            if not ok:
                continue
            env.d.update(binds)
            if case.guard is not None:
                g = self.pytruth(self.ev(case.guard, env))
                if g is False:
                    continue
                if g is not True:
                    raise Undecided("match guard")
            return self.exec_block(case.body, env)
        return NORET

    def match_pat(self, p, v, env, binds):
        if isinstance(p, ast.MatchValue):
            return self.pytruth(self.ext.compare(self, "Eq", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env, binds) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            r = self.ext.isinstance_(self, v, self.ev(p.cls, env))
            if r and (p.patterns or p.kwd_patterns):
                for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                    if not self.match_pat(q, self.getattr(v, n), env, binds):
                        return False
                if p.patterns:
                    c = self.ev(p.cls, env)
                    if c in (int, float, str, bool, tuple, list, dict, set, frozenset) and len(p.patterns) == 1:
                        return self.match_pat(p.patterns[0], v, env, binds)
                    ma = c.lookup("__match_args__")[0] if isinstance(c, Cls) else None
                    if ma is None and isinstance(c, Cls) and c.is_dc:
                        ma = [f.name for f in self.all_fields(c) if f.init and not f.kw_only]
                    if not isinstance(ma, (list, tuple)):
                        raise Undecided("positional class pattern")
                    for n, q in zip(ma, p.patterns):
                        if not self.match_pat(q, self.getattr(v, n), env, binds):
                            return False
            return r
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, (str, int, float, dict, set, Obj, Num)) or v is None:
                    return False
                raise Undecided("sequence pattern")
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < i + after:
                return False
            if not all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                binds[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                if isinstance(v, (str, int, float, list, tuple, set, Num)) or v is None:
                    return False
                raise Undecided("mapping pattern")
            ks = [self.hkey(self.ev(k, env)) for k in p.keys]
            for k, q in zip(ks, p.patterns):
                if k not in v or not self.match_pat(q, v[k], env, binds):
                    return False
            if p.rest:
                binds[p.rest] = {k: x for k, x in v.items() if k not in ks}
            return True
        raise Undecided("match pattern")

    # ------------------------------------------------------------ assignment
    def bind_name(self, name, v, env):
        if env.globals_ and name in env.globals_:
            env.mod.ns[name] = v
        elif env.outer_ and name in env.outer_:
            if self.guards:
                raise Undecided("an outer name bound under a condition")
            e = env.parent
            while e is not None and (name not in e.d or e.cls is not None):
                e = e.parent
            if e is None:
                raise Undecided(f"nonlocal {name}")
            if e.outer_ and name in e.outer_:
                return self.bind_name(name, v, e)
            e.d[name] = v
            return
        env.d[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vs = list(self.iterate(v))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                mid = vs[i:len(vs) - after]
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, mid, env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, env)
            else:
                if len(vs) != len(t.elts):
                    self.raise_("ValueError", f"unpack {len(vs)} into {len(t.elts)}")
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.setitem(o, i, v)
        else:
            raise Undecided("assignment target")

    def setitem(self, o, i, v):
        if isinstance(o, dict):
            o[self.hkey(i)] = v
        elif isinstance(o, list):
            o[i] = v
        elif isinstance(o, Obj):
            f, _ = o.cls.lookup("__setitem__")
            if f is None:
                self.raise_("TypeError", f"{o.cls.name} does not support item assignment")
            self.call(Bound(f, o), [i, v], {})
        elif isinstance(o, Num):
            self.effect("mutate", ("array item assignment", o))
            self.raise_("TypeError", "array item assignment")
        else:
            raise Undecided(f"item assignment on {o!r}")

    def setattr(self, o, name, v, force=False):
        if isinstance(o, Obj):
            if o.frozen and not force:
                self.effect("mutate", ("attribute", name, o))
                self.raise_("AttributeError", f"cannot assign to field {name}")
            if o.frozen and force:
                self.effect("mutate", ("forced attribute", name, o))
            d, k = o.cls.lookup(name)
            if isinstance(d, Obj) and d.cls.lookup("__set__")[0] is not None:
                s, _ = d.cls.lookup("__set__")
                self.call(Bound(s, d), [o, v], {})
                return
            o.d[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Mod):
            o.ns[name] = v
        elif isinstance(o, (Fn, PlumF, Bound, Part, Prim)):
            return
        else:
            raise Undecided(f"attribute assignment on {o!r}")

    def hkey(self, k):
        if isinstance(k, list):
            raise Undecided("unhashable key")
        return k

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, It):
            return v.drain()
        if isinstance(v, (list, tuple, set, frozenset, str, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, type({}.items())) or isinstance(v, type({}.keys())) or isinstance(v, type({}.values())):
            return list(v)
        if isinstance(v, Num):
            if v.rank >= 1 and v.sh == ():
                return [self.ext.index(self, v, i) for i in range(len(v.v))]
            if isinstance(v.sh, tuple) and v.sh[:1] == ("lead",) and v.rank == 1:
                return [self.ext.index(self, v, i) for i in range(len(v.v))]
            raise Undecided("iteration over a batched array")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                w = self.call(Bound(f, v), [], {})
                if isinstance(w, Obj):
                    nx, _ = w.cls.lookup("__next__")
                    if nx is None:
                        return self.iterate(w)
                    out = []
                    while len(out) < 10000:
                        try:
                            out.append(self.call(Bound(nx, w), [], {}))
                        except AbsRaise as ex:
                            if isinstance(ex.exc, Obj) and ex.exc.cls.name == "StopIteration":
                                return out
                            raise
                    raise Undecided("a long iteration")
                return self.iterate(w)
            if v.cls.lookup("__getitem__")[0] is None and not any(isinstance(k, Ext) and k.name not in PLAIN_EXT for k in v.cls.mro):
                self.raise_("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, Cls):
            ms = [x for x in v.ns.values() if isinstance(x, Obj) and x.cls is v]
            if ms:
                return ms
        if isinstance(v, Shape):
            return [Top("size")] * len(v.feat) if v.sh == () else [v]
        raise Undecided(f"iteration over {v!r}")

    # ------------------------------------------------------------ truth
    def pytruth(self, v):
        """Truth taken by Python itself (if, while, not, and, bool, in): needs the value."""
        self.concrete(v, "truth")
        return self.truth(v)

    def concrete(self, v, what):
        """Records that Python needs the value of v, when v depends on a component or a parameter."""
        if from_input(v):
            self.effect("concrete", what)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, list, tuple, dict, set, range, frozenset)):
            return bool(v)
        if isinstance(v, It):
            return True
        if isinstance(v, Ite):
            return lift(lambda x: self.truth(x), v)
        if isinstance(v, Num):
            vs = list(leaves(v.v))
            if len(vs) == 1:
                x = vs[0]
                if isinstance(x, (bool, Ite)) and not _has_x(x):
                    return x
                return b_not(tlift(V.eq0, x))
            raise Undecided("truth of an array")
        if isinstance(v, Ext):
            if v.name.endswith(".installed"):
                return True
            if v.name == "typing.TYPE_CHECKING":
                return False
            return True
        if isinstance(v, Top):
            raise Undecided(f"branch on unknown value ({v.why})")
        if isinstance(v, (Fn, Cls, Mod, Bound, Part, Prim, PlumF, Unit)):
            return True
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, X):
            return b_not(tlift(V.eq0, v))
        return bool(v)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.nodes += 1
        try:
            return getattr(self, "ev_" + type(n).__name__, self.ev_unsupported)(n, env)
        except AX.Bad as e:
            self.raise_(e.cls, e.msg)
        except AX.Unknown as e:
            raise Undecided(str(e))

    def ev_unsupported(self, n, env):
        raise Undecided(f"expression {type(n).__name__}")

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        v = env.get(n.id)
        if v is NORET:
            if n.id in self.builtins:
                return self.builtins[n.id]
            if hasattr(builtins, n.id):
                raise Undecided(f"builtin {n.id}")
            self.raise_("NameError", f"name {n.id} is not defined")
        if isinstance(v, Top) and v.why.endswith("unbound on one path"):
            self.effect("unbound", n.id)
        return v

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_Tuple(self, n, env):
        return tuple(self.ev_elts(n.elts, env))

    def ev_List(self, n, env):
        return self.ev_elts(n.elts, env)

    def ev_Set(self, n, env):
        vs = self.ev_elts(n.elts, env)
        try:
            return set(vs)
        except TypeError:
            return list(vs)

    def ev_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                if isinstance(v, Shape):
                    out.append(v)
                else:
                    out.extend(self.iterate(v))
            else:
                out.append(self.ev(e, env))
        return out

    def ev_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, env)
                d.update(self.mapping(m))
            else:
                d[self.hkey(self.ev(k, env))] = self.ev(v, env)
        return d

    def mapping(self, m):
        if isinstance(m, dict):
            return m
        if isinstance(m, Obj):
            f, _ = m.cls.lookup("keys")
            if f is not None:
                ks = self.iterate(self.call(Bound(f, m), [], {}))
                return {k: self.ext.getitem(self, m, k) for k in ks}
            if m.cls.ext_base("abc.Mapping") or m.cls.ext_base("collections.abc.Mapping"):
                return {k: self.ext.getitem(self, m, k) for k in self.iterate(m)}
        raise Undecided(f"mapping {m!r}")

    def ev_JoinedStr(self, n, env):
        out = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                try:
                    v = self.ev(p.value, env)
                    if isinstance(v, (str, int, float, bool)) and (p.format_spec is not None or p.conversion != -1):
                        if p.conversion in (114, 97):
                            v = repr(v)
                        spec = self.ev(p.format_spec, env) if p.format_spec is not None else ""
                        try:
                            v = format(v, spec)
                        except (ValueError, TypeError) as e:
                            self.raise_(type(e).__name__, str(e))
                    out.append(v if isinstance(v, str) else getattr(v, "name", None) or repr(v)[:40])
                except (Undecided, AbsRaise):
                    out.append("?")
        return "".join(out)

    def ev_IfExp(self, n, env):
        c = self.pytruth(self.ev(n.test, env))
        if c is True:
            return self.ev(n.body, env)
        if c is False:
            return self.ev(n.orelse, env)
        outs = []
        for e, val in ((n.body, True), (n.orelse, False)):
            self.guards.append((c, val))
            try:
                outs.append(self.ev(e, env))
            except AbsRaise as ex:
                outs.append(ex)
            finally:
                self.guards.pop()
        a, b = outs
        if isinstance(a, AbsRaise) and isinstance(b, AbsRaise):
            raise a
        if isinstance(a, AbsRaise) or isinstance(b, AbsRaise):
            ex, ok, cc = (a, b, c) if isinstance(a, AbsRaise) else (b, a, b_not(c))
            self.effects.append(Effect("raise", (cc, ex.exc), tuple(self.guards), str(ex.loc), ()))
            return ok
        return self.merge(c, a, b)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        acc = None
        for e in n.values:
            if acc is not None and not isinstance(acc, bool):
                self.guards.append((acc, isand))
            try:
                v = self.ev(e, env)
                t = self.pytruth(v)
            finally:
                if acc is not None and not isinstance(acc, bool):
                    self.guards.pop()
            if isinstance(t, bool):
                if isand and not t:
                    return v if acc is None or isinstance(acc, bool) else False
                if not isand and t:
                    return v if acc is None or isinstance(acc, bool) else True
                last = v
            else:
                acc = t if acc is None or isinstance(acc, bool) else (b_and if isand else b_or)(acc, t)
                last = acc
                continue
            if acc is None or isinstance(acc, bool):
                acc = t
        return last if isinstance(acc, bool) or acc is None else acc

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return b_not(self.pytruth(v))
        return self.ext.unop(self, type(n.op).__name__, v)

    def ev_BinOp(self, n, env):
        return self.ext.binop(self, type(n.op).__name__, self.ev(n.left, env), self.ev(n.right, env))

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        acc = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            c = self.ext.compare(self, type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            acc = b_and(acc, self.pytruth(c))
            if acc is False:
                return False
            left = right
        return acc

    def ev_Subscript(self, n, env):
        return self.ext.getitem(self, self.ev(n.value, env), self.ev(n.slice, env))

    def ev_Slice(self, n, env):
        return slice(*[None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)])

    def ev_Starred(self, n, env):
        return self.ev(n.value, env)

    def ev_Lambda(self, n, env):
        f = Fn(n, env.mod, env, "<lambda>")
        self.fn_defaults(f, n.args, env)
        return f

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.comp:
            e = e.parent
        self.bind_name(n.target.id, v, e)
        return v

    def _comp(self, gens, env, body, out, e2=None):
        if not gens:
            out.append(body(env))
            return
        g = gens[0]
        xs = self.iterate(self.ev(g.iter, env))
        if e2 is None:
            e2 = Env({}, env, env.mod)
            e2.comp = True
        for x in xs:
            self.assign(g.target, x, e2)
            n0 = len(self.guards)
            t = True
            try:
                for c in g.ifs:
                    t1 = self.pytruth(self.ev(c, e2))
                    t = b_and(t, t1)
                    if t is False:
                        break
                    if t1 is not True:
                        self.guards.append((t1, True))
                if t is True:
                    self._comp(gens[1:], e2, body, out, e2)
                elif t is not False:
                    if len(gens) > 1:
                        raise Undecided("comprehension filter")
                    out.append(Maybe(t, body(e2)))
            finally:
                del self.guards[n0:]

    def ev_ListComp(self, n, env):
        out = self._list(n, env)
        if not any(isinstance(x, Maybe) for x in out):
            return out
        if sum(isinstance(x, Maybe) for x in out) > 4:
            raise Undecided("comprehension filter")
        r = []
        for x in out:
            if isinstance(x, Maybe):
                r = ite(x.c, lift(lambda y: [*y, x.v], r), r)
            else:
                r = lift(lambda y: [*y, x], r)
        return r

    def _list(self, n, env):
        out = []
        self._comp(n.generators, env, lambda e: self.ev(n.elt, e), out)
        return out

    def ev_GeneratorExp(self, n, env):
        return It(self.sure(self._list(n, env)))

    def sure(self, out):
        if any(isinstance(x, Maybe) for x in out):
            raise Undecided("comprehension filter")
        return out

    def ev_SetComp(self, n, env):
        out = self.sure(self._list(n, env))
        try:
            return set(out)
        except TypeError:
            return out

    def ev_DictComp(self, n, env):
        out = []
        self._comp(n.generators, env, lambda e: (self.hkey(self.ev(n.key, e)), self.ev(n.value, e)), out)
        return dict(self.sure(out))

    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super(env)
        f = self.ev(n.func, env)
        args = self.ev_elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.mapping(self.ev(k.value, env)))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def make_super(self, env):
        e = env
        while e is not None and "__self_owner__" not in e.d:
            e = e.parent
        if e is None:
            raise Undecided("super() outside a method")
        owner, self_ = e.d["__self_owner__"]
        return Super(owner, self_)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=NORET):
        if isinstance(o, Ite):
            return self.lift_obj(lambda x: self.getattr(x, name, default), o)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            sub = self.load(f"{o.name}.{name}")
            if sub is not None:
                return sub
            if o.path.startswith(self.stub_dir):
                return self.ext.resolve(self, f"{o.name}.{name}")
            if name == "__all__":
                return []
        elif isinstance(o, Ext):
            return self.ext.resolve(self, f"{o.name}.{name}")
        elif isinstance(o, Cls):
            r = self.class_attr(o, name)
            if r is not NORET:
                return r
        elif isinstance(o, Super):
            mro = (o.self if isinstance(o.self, Cls) else self.type_of(o.self)).mro
            i = mro.index(o.owner) + 1 if o.owner in mro else 0
            for k in mro[i:]:
                if isinstance(k, Cls) and name in k.ns:
                    v = k.ns[name]
                    if isinstance(o.self, Cls):
                        return self.bind_cls(v, o.self, k)
                    return self.bind_inst(v, o.self, k)
            if isinstance(o.self, Num):
                return self.ext.num_attr(self, o.self, name)
            return Prim(f"super.{name}", lambda ip, a, kw: None)
        elif isinstance(o, Obj):
            r = self.inst_attr(o, name)
            if r is not NORET:
                return r
        elif isinstance(o, Num):
            if o.dt and name in o.dt:
                return o.dt[name]
            if isinstance(o.ty, Cls):
                v, k = o.ty.lookup(name)
                if v is not None:
                    return self.bind_inst(v, o, k)
            r = self.ext.num_attr(self, o, name)
            if r is not NORET:
                return r
        elif isinstance(o, Top):
            raise Undecided(f"attribute {name} of unknown value ({o.why})")
        else:
            r = self.ext.native_attr(self, o, name)
            if r is not NORET:
                return r
        if default is not NORET:
            return default
        if isinstance(o, Num) and name in ARRAY_ATTRS or not isinstance(o, (Num, Obj, Cls, Mod, Super)):
            raise Undecided(f"attribute {name} of {_nm(o)}")
        if isinstance(o, Obj) and name == "dtype" and o.cls.lookup("aval")[0] is not None:
            raise Undecided("dtype of the array form of a vector")      # quax derives it from aval()
        self.raise_("AttributeError", f"{_nm(o)} has no attribute {name}")

    def gated_sequence(self, v):
        """A gate between sequences (of different lengths: those of one length are merged by element)."""
        if isinstance(v, Ite):
            return self.gated_sequence(v.a) and self.gated_sequence(v.b)
        return isinstance(v, (tuple, list))

    def lift_obj(self, f, v):
        if isinstance(v, Ite):
            a = self.lift_obj(f, v.a)
            b = self.lift_obj(f, v.b)
            return self.merge(Ite(v.p, True, False), a, b)
        return f(v)

    def split(self, f, v):
        """f of each distinct leaf of a gated object, under the condition for it, merged."""
        leaves = []

        def collect(x):
            if isinstance(x, Ite):
                collect(x.a)
                collect(x.b)
            elif not any(x is y for y in leaves):
                leaves.append(x)
        collect(v)
        got, conds, last = [], [], None
        for x in leaves:
            c = V.lift(lambda y: y is x, v)
            self.guards.append((c, True))
            try:
                got.append((x, f(x)))
            except AbsRaise as ex:
                last = ex
                conds.append((c, ex))
            finally:
                self.guards.pop()
        if not got:
            raise last
        for c, ex in conds:
            self.effects.append(Effect("raise", (c, ex.exc), tuple(self.guards), str(ex.loc), ()))

        out = got[-1][1]
        for x, r in reversed(got[:-1]):
            out = self.merge(V.lift(lambda y: y is x, v), r, out)
        return out

    def type_of(self, o):
        if isinstance(o, Obj):
            return o.cls
        if isinstance(o, Num):
            return o.ty
        raise Undecided(f"type of {o!r}")

    def class_attr(self, c, name):
        if name == "__name__":
            return c.name
        if name == "__qualname__":
            return c.name
        if name == "__module__":
            return c.module
        if name == "__mro__":
            return tuple(c.mro)
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__dataclass_fields__":
            return {f.name: self.field_obj(f) for f in self.all_fields(c)}
        if name == "__init__" and c.lookup("__init__")[0] is None:
            return Prim("__init__", lambda ip, a, kw: None)
        if name == "__dict__":
            return dict(c.ns)
        if name == "__abstractmethods__":
            return self.abstract_names(c)
        if name == "mro":
            return Prim("mro", lambda ip, a, kw: list(c.mro))
        for k in c.mro:
            if isinstance(k, Cls) and name in k.ns:
                return self.bind_cls(k.ns[name], c, k)
        r = self.ext.cls_attr(self, c, name)
        return r

    def bind_cls(self, v, c, k):
        if isinstance(v, ClassM) and type(v) is ClassM:
            f = v.f
            if isinstance(f, Prop):
                return self.call(f.f, [c], {})
            return Bound(f, c)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, Prop):
            return v
        if isinstance(v, Obj) and v.cls.lookup("__get__")[0] is not None:
            return self.call(Bound(v.cls.lookup("__get__")[0], v), [None, c], {})
        if isinstance(v, FieldSpec):
            return v.default if v.has_default else NORET
        return v

    def bind_inst(self, v, o, k):
        if isinstance(v, Prop):
            return self.call(v.f, [o], {})
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, self.type_of(o))
        if isinstance(v, (Fn, PlumF, Prim)):
            return Bound(v, o)
        if isinstance(v, Part):
            return v
        if isinstance(v, Ext):
            # functions such as qlax.add used as methods
            return Bound(v, o) if self.ext.is_func(v.name) else v
        if isinstance(v, Obj) and v.cls.lookup("__get__")[0] is not None:
            return self.call(Bound(v.cls.lookup("__get__")[0], v), [o, self.type_of(o)], {})
        if isinstance(v, FieldSpec):
            return v.default if v.has_default else NORET
        return v

    def inst_attr(self, o, name):
        f, _ = o.cls.lookup("__getattribute__")
        if isinstance(f, Fn):
            return self.call(Bound(f, o), [name], {})
        return self.plain_attr(o, name, True)

    def plain_attr(self, o, name, fallback):
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return o.d
        v, k = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.f, [o], {})
        if isinstance(v, Obj) and v.cls.lookup("__set__")[0] is not None:
            if name in o.d:
                return o.d[name]
            return self.bind_inst(v, o, k)
        if name in o.d:
            return o.d[name]
        if k is not None:
            return self.bind_inst(v, o, k)
        if name == "__init__":
            return Prim("__init__", lambda ip, a, kw: None)
        r = self.ext.obj_attr(self, o, name)
        if r is not NORET:
            return r
        f, _ = o.cls.lookup("__getattr__")
        if fallback and f is not None:
            return self.call(Bound(f, o), [name], {})
        return NORET

    # ------------------------------------------------------------ functions
    def fn_defaults(self, f, a, env):
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = [None if d is None else (self.ev(d, env),) for d in a.kw_defaults]

    def make_function(self, st, env):
        f = Fn(st, env.mod, env, st.name)
        if env.cls is not None:
            f.owner = env.cls
        self.fn_defaults(f, st.args, env)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env)
            v = self.ext.decorate(self, dv, v, env, f)
        return v

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        out = {}
        nd = len(f.defaults)
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for i, p in enumerate(pos):
            if i < len(args):
                out[p.arg] = args[i]
                if p in a.args and p.arg in kw:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument {p.arg}")
            elif p.arg in kw and p in a.args:
                out[p.arg] = kw.pop(p.arg)
            else:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p.arg] = f.defaults[j]
                else:
                    self.raise_("TypeError", f"{f.name}() missing argument {p.arg}")
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif d is not None:
                out[p.arg] = d[0]
            else:
                self.raise_("TypeError", f"{f.name}() missing keyword argument {p.arg}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = kw
        elif kw:
            self.raise_("TypeError", f"{f.name}() got unexpected keyword argument {sorted(kw)[0]}")
        return out

    def call_fn(self, f, args, kw):
        d = self.bind_args(f, args, kw)
        if self.depth > 160:
            self.raise_("RuntimeError", "maximum recursion depth exceeded")
        env = Env(d, f.env if f.env is None or f.env.mod is None or f.env.d is not f.module.ns else None, f.module)
        pos = f.node.args.posonlyargs + f.node.args.args
        if f.owner is not None and pos:
            d["__self_owner__"] = (f.owner, d[pos[0].arg])
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        key = (f.module.name, f.name, f.node.lineno)
        self.consulted[key] = self.consulted.get(key, 0) + 1
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                d["__yields__"] = (len(self.guards), [])
            if isinstance(n, ast.Global):
                env.globals_ = (env.globals_ or set()) | set(n.names)
            if isinstance(n, ast.Nonlocal):
                env.outer_ = (env.outer_ or set()) | set(n.names)
        self.depth += 1
        self.stack.append((f, f.node))
        try:
            r = self.exec_block(f.node.body, env)
        finally:
            self.depth -= 1
            self.stack.pop()
        if "__yields__" in d:
            return It(env.d["__yields__"][1])
        return None if r is NORET else r

    def ev_Yield(self, n, env):
        e = env
        while e is not None and "__yields__" not in e.d:
            e = e.parent
        if e is None or e.d["__yields__"][0] != len(self.guards):
            raise Undecided("yield")
        e.d["__yields__"][1].append(self.ev(n.value, env) if n.value is not None else None)

    def ev_YieldFrom(self, n, env):
        e = env
        while e is not None and "__yields__" not in e.d:
            e = e.parent
        if e is None or e.d["__yields__"][0] != len(self.guards):
            raise Undecided("yield")
        e.d["__yields__"][1].extend(self.iterate(self.ev(n.value, env)))

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.f, (Bound, Part)):
                return self.call(f.f, [f.self] + list(args), kw)
            if isinstance(f.f, PlumF):
                return self.ext.plum_call(self, f.f, [f.self] + list(args), kw, method=True)
            return self.call(f.f, [f.self] + list(args), kw)
        if isinstance(f, Part):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Prim):
            try:
                return f.f(self, list(args), kw)
            except AX.Bad as e:
                self.raise_(e.cls, e.msg)
            except AX.Unknown as e:
                raise Undecided(str(e))
        if isinstance(f, PlumF):
            return self.ext.plum_call(self, f, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Ext):
            self.cur_ext = f.name
            try:
                return self.ext.call_ext(self, f, list(args), kw)
            except AX.Bad as e:
                self.raise_(e.cls, e.msg)
            except AX.Unknown as e:
                raise Undecided(str(e))
        if isinstance(f, Obj):
            m, k = f.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind_inst(m, f, k), args, kw)
            if all(not isinstance(c, Ext) or c.name.split(".")[-1] in NO_CALL for c in f.cls.mro):
                self.raise_("TypeError", f"'{f.cls.name}' object is not callable")
        if isinstance(f, (Num, str, int, tuple, list, dict)) or f is None:
            self.raise_("TypeError", f"'{type(f).__name__}' object is not callable")
        if isinstance(f, Ite):
            return self.split(lambda x: self.call(x, args, kw), f)
        if isinstance(f, Top):
            raise Undecided(f"call of unknown value ({f.why})")
        if isinstance(f, (ClassM,)):
            return self.call(f.f, args, kw)
        if isinstance(f, type) and f in (dict, list, tuple, set, frozenset, str, int, float, bool):
            return self.ext.native_type(self, f, list(args), kw)
        raise Undecided(f"call of {f!r}")

    # ------------------------------------------------------------ classes
    def mro_of(self, c):
        seqs = []
        for b in c.bases:
            if isinstance(b, Cls):
                seqs.append(list(b.mro))
            else:
                seqs.append([b])
        seqs.append(list(c.bases))
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided(f"inconsistent MRO for {c.name}")
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)

    def make_class(self, st, env):
        c = Cls(st.name, env.mod.name, st)
        for b in st.bases:
            bv = self.ev(b, env)
            bv = self.ext.as_base(self, bv)
            if bv is None:
                continue
            c.bases.append(bv)
        kws = {k.arg: self.ev(k.value, env) for k in st.keywords if k.arg}
        c.mro = self.mro_of(c)
        cenv = Env({}, env, env.mod, c)
        cenv.d["__qualname__"] = st.name
        for s in st.body:
            try:
                self.exec_block([s], cenv)
            except (Undecided, AbsRaise, Unknown) as e:
                self.load_problems.append((f"{env.mod.name}.{st.name}", s.lineno, repr(e)))
                self._bind_top(s, cenv, str(e))
        anns = cenv.d.pop("__anns__", {})
        c.ns = cenv.d
        c.anns = anns
        self.ext.finish_class(self, c, kws, anns, cenv)
        v = c
        for d in reversed(st.decorator_list):
            v = self.ext.decorate(self, self.ev(d, env), v, env, None)
        if isinstance(v, Cls) and v.name not in ("VectorAttribute",):
            for n, x in list(v.ns.items()):
                if isinstance(x, Obj) and x.cls.lookup("__set_name__")[0] is not None:
                    self.call(Bound(x.cls.lookup("__set_name__")[0], x), [v, n], {})
        h, k = None, None
        for b in c.mro[1:]:
            if isinstance(b, Cls) and "__init_subclass__" in b.ns:
                h, k = b.ns["__init_subclass__"], b
                break
        if h is not None:
            self.call(h.f if isinstance(h, ClassM) else h, [c], kws)
        return v

    def all_fields(self, c):
        out = {}
        for k in reversed(c.mro):
            if isinstance(k, Cls):
                for f in k.own_fields:
                    out[f.name] = f
        return list(out.values())

    def field_obj(self, f):
        return f

    def abstract_names(self, c):
        seen, out = set(), set()
        for k in c.mro:
            if isinstance(k, Cls):
                for n, v in k.ns.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if n in k.abstract:
                        out.add(n)
        return out

    def instantiate(self, c, args, kw):
        for i, x in (*enumerate(args), *kw.items()):
            if isinstance(x, Ite) and self.gated_sequence(x):
                if isinstance(i, int):
                    return self.split(lambda y: self.instantiate(c, [*args[:i], y, *args[i + 1:]], kw), x)
                return self.split(lambda y: self.instantiate(c, args, {**kw, i: y}), x)
        r = self.ext.special_new(self, c, args, kw)
        if r is not NORET:
            return r
        nw, _ = c.lookup("__new__")
        if nw is not None:
            o = self.call(nw.f if isinstance(nw, ClassM) else nw, [c] + args, kw)
            if not (isinstance(o, Obj) and o.cls is c):
                return o
        else:
            o = Obj(c)
        ab = self.abstract_names(c)
        if ab:
            self.raise_("TypeError", f"Can't instantiate abstract class {c.name} with {sorted(ab)}")
        init, k = c.lookup("__init__")
        is_eqx = self.ext.is_module(c)
        dc = c.is_dc or is_eqx
        dcowner = next((x for x in c.mro if isinstance(x, Cls) and x.is_dc), None)
        if init is not None and (not dc or dcowner is None or c.mro.index(k) <= c.mro.index(dcowner)
                                 or not dcowner.own_init):
            self.call(Bound(init, o), args, kw)
        elif dc:
            self.dc_init(c, o, args, kw)
        elif c.issub(self.exc_classes["BaseException"]):
            o.d["args"] = tuple(args)
        elif args or kw:
            self.raise_("TypeError", f"{c.name}() takes no arguments")
        if is_eqx:
            for f in self.all_fields(c):
                if f.converter is not None and f.name in o.d:
                    o.d[f.name] = self.call(f.converter, [o.d[f.name]], {})
            for k in c.mro:
                if isinstance(k, Cls) and "__check_init__" in k.ns:
                    self.call(Bound(k.ns["__check_init__"], o), [], {})
            o.frozen = True
        return o

    def dc_init(self, c, o, args, kw):
        fs = [f for f in self.all_fields(c) if f.init]
        kw = dict(kw)
        pos = [f for f in fs if not f.kw_only]
        if len(args) > len(pos):
            self.raise_("TypeError", f"{c.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        vals = {}
        for f, a in zip(pos, args):
            vals[f.name] = a
        for n in list(kw):
            if n in vals:
                self.raise_("TypeError", f"{c.name}() got multiple values for {n}")
            if not any(f.name == n for f in fs):
                self.raise_("TypeError", f"{c.name}() got an unexpected keyword argument {n}")
            vals[n] = kw[n]
        for f in self.all_fields(c):
            if f.name in vals:
                v = vals[f.name]
            elif f.has_default:
                v = f.default
            elif f.factory is not None:
                v = self.call(f.factory, [], {})
            elif not f.init:
                continue
            else:
                self.raise_("TypeError", f"{c.name}() missing argument {f.name}")
            self.setattr(o, f.name, v)
        p, _ = c.lookup("__post_init__")
        if p is not None:
            self.call(Bound(p, o), [], {})
        if getattr(c, "dc_frozen", False):
            o.frozen = True


class Super:
    def __init__(self, owner, self_):
        self.owner, self.self = owner, self_


def from_input(v):
    """Does v depend on a quantity the caller supplies (not only on units, shapes and classes)?"""
    if isinstance(v, Num):
        return any(from_input(x) for x in leaves(v.v))
    if isinstance(v, Ite):
        return _pred_in(v.p) or from_input(v.a) or from_input(v.b)
    if isinstance(v, X):
        return any(R.ATOMS[a].kind in ("var", "angle") for a in R.base_atoms(v))
    return False


def _pred_in(p, seen=()):
    if p.kind == "others":
        return True
    return isinstance(p.x, X) and from_input(p.x)


def _has_x(v):
    if isinstance(v, Ite):
        return _has_x(v.a) or _has_x(v.b)
    return isinstance(v, (X, Top))


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _nm(o):
    if isinstance(o, Obj):
        return f"{o.cls.name} object"
    return repr(o)[:80]
