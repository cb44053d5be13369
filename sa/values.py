"""Abstract values of the interpreter.

Numbers are value numbers (``ring.X``) or gated value numbers (``Ite`` trees over
canonical predicates, the gates of gated-SSA joins); everything the analysed
modules build out of them - classes, instances, bound methods, partials - has a
structural abstract value.
"""
from __future__ import annotations

import ast
from fractions import Fraction

from . import ring as R
from .ring import X, Unknown


class Undecided(Exception):
    """The analysis cannot decide (unsupported construct or lost precision)."""


class AbsRaise(Exception):
    """The analysed program definitely raises on the current path."""

    def __init__(self, exc, loc=None):
        super().__init__(repr(exc))
        self.exc = exc
        self.loc = loc


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<top: {self.why}>"


def is_nan(v):
    return isinstance(v, Top) and v.why == NAN


NAN = "not a number (0/0)"


# ------------------------------------------------------------------ predicates
class Pred:
    __slots__ = ("id", "key", "kind", "x", "name")

    def __repr__(self):
        return self.name


PREDS: dict = {}
PREDLIST: list = []


def reset():
    PREDS.clear()
    PREDLIST.clear()
    OTHERS.clear()
    R.reset()


def pred(kind, key, name, x=None) -> Pred:
    k = (kind, key)
    p = PREDS.get(k)
    if p is None:
        p = Pred()
        p.id, p.key, p.kind, p.x, p.name = len(PREDLIST), k, kind, x, name
        PREDS[k] = p
        PREDLIST.append(p)
    return p


class Ite:
    __slots__ = ("p", "a", "b")

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def __repr__(self):
        return f"({self.p} ? {self.a!r} : {self.b!r})"


def same(a, b):
    if a is b:
        return True
    if isinstance(a, X) and isinstance(b, X):
        return R.eq(a, b)
    if isinstance(a, Ite) and isinstance(b, Ite):
        return a.p is b.p and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Num) and isinstance(b, Num):
        return (a.ty is b.ty and same(a.v, b.v) and a.sh == b.sh
                and (a.unit is b.unit or (a.unit is not None and b.unit is not None and same(a.unit, b.unit))))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls is b.cls and a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, Unit) and isinstance(b, Unit):
        return R.eq(a.x, b.x)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, (bool, int, float, str, type(None), Fraction)) and type(a) is type(b):
        return a == b
    return False


def mk_ite(p, a, b):
    return a if same(a, b) else Ite(p, a, b)


def _cof(v, p, val):
    if isinstance(v, Ite) and v.p is p:
        return v.a if val else v.b
    return v


def lift(f, *xs):
    top = None
    for x in xs:
        if isinstance(x, Ite) and (top is None or x.p.id < top.id):
            top = x.p
    if top is None:
        return f(*xs)
    return mk_ite(top, lift(f, *[_cof(x, top, True) for x in xs]),
                  lift(f, *[_cof(x, top, False) for x in xs]))


def ite(c, a, b):
    """General if-then-else on gated leaves (keeps predicates ordered)."""
    if c is True:
        return a
    if c is False:
        return b
    return lift(lambda c_, a_, b_: a_ if c_ else b_, c, a, b)


def b_not(c):
    return (not c) if isinstance(c, bool) else lift(lambda v: not v, c)


def b_and(a, b):
    return lift(lambda u, v: u and v, a, b)


def b_or(a, b):
    return lift(lambda u, v: u or v, a, b)


def assume(v, p, val):
    """Cofactor anywhere in the tree."""
    if isinstance(v, Ite):
        if v.p is p:
            return assume(v.a if val else v.b, p, val)
        return mk_ite(v.p, assume(v.a, p, val), assume(v.b, p, val))
    return v


def _num_const(p):
    """Numeric value of a polynomial over pi only, else None."""
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            if a != R.PI.id:
                return None
            t *= 3.141592653589793 ** e
        s += t
    return s


def _canon(p):
    mm, _ = R.p_clear(p)
    if mm:
        up = tuple((a, e if (R.ATOMS[a].pos or e % 2 == 0) else e + 1) for a, e in mm)
        p = R.p_reduce({R.m_mul(m, up): c for m, c in p.items()})
    com = R.m_common(p)
    take = tuple((a, -e) for a, e in com if R.ATOMS[a].pos and e > 0)
    if take:
        p = {R.m_mul(m, take): c for m, c in p.items()}
    if not p:
        return p, 0
    lead = p[max(p, key=R.m_str)]
    return R.p_scale(p, 1 / abs(lead)), (1 if lead > 0 else -1)


def lt0(x: X):
    """x < 0 as True/False/gate."""
    if R.is_zero(x):
        return False
    if x.d != R.ONEP:
        x = X(R.p_mul(x.n, x.d))
    p, s = _canon(x.n)
    if s == 0:
        return False
    c = _num_const(p)
    if c is not None:
        if abs(c) < 1e-9:
            raise Unknown("sign of a constant near zero")
        return c < 0
    nn = R.nonneg(X(p))
    if nn is True:
        return False
    if nn is False:
        return b_not(eq0(X(p)))
    if s < 0:
        q = R.p_scale(p, -1)
        return lift(lambda lt, e: not lt and not e, _ltp(q), eq0(X(q)))
    return _ltp(p)


def _ltp(p):
    return Ite(pred("lt0", R.frozen(p), f"[{R.p_str(p)} < 0]", X(p)), True, False)


def eq0(x: X):
    if R.is_zero(x):
        return True
    p, s = _canon(x.n)
    c = _num_const(p)
    if c is not None:
        return abs(c) < 1e-12
    if s < 0:
        p = R.p_scale(p, -1)
    if len(p) == 1 and all(R.ATOMS[a].pos for a, _ in next(iter(p))):
        return False
    # a sum of strictly positive monomials is never zero
    if all(cf > 0 for cf in p.values()) and any(all(R.ATOMS[a].pos for a, _ in m) for m in p) \
            and R.nonneg(X(p)) is True:
        return False
    return Ite(pred("eq0", R.frozen(p), f"[{R.p_str(p)} == 0]", X(p)), True, False)


OTHERS: dict = {}       # predicate id -> the condition asked of the other elements of a batch


def others_bool(c):
    """Whether a gated condition holds at all the other elements of the batch."""
    p = pred("others", repr(c), f"all others: {c!r}")
    OTHERS[p.id] = c
    return Ite(p, True, False)


def others_hold(v):
    """v where every condition asked of the other elements of a batch holds."""
    if isinstance(v, Ite):
        if v.p.kind == "others":
            return others_hold(v.a)
        return mk_ite(v.p, others_hold(v.a), others_hold(v.b))
    return v


def opaque_bool(key, name):
    return Ite(pred("op", key, name), True, False)


# ---------------------------------------------------------------- structure
class Ext:
    """A symbol of a package outside the analysed sources."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ext:{self.name}"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Mod:
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {}
        self.state = "new"

    def __repr__(self):
        return f"module:{self.name}"


class Cls:
    def __init__(self, name, module, node=None):
        self.name, self.module, self.node = name, module, node
        self.bases, self.ns, self.mro = [], {}, []
        self.own_fields = []     # FieldSpec
        self.abstract = set()
        self.is_dc = False
        self.dc_eq = True
        self.param = None        # dimension of a parametrised quantity class
        self.origin = None
        self.custom_init = False

    @property
    def qual(self):
        return f"{self.module}.{self.name}"

    def __repr__(self):
        return f"class:{self.name}"

    def lookup(self, name):
        for k in self.mro:
            if isinstance(k, Cls) and name in k.ns:
                return k.ns[name], k
        return None, None

    def issub(self, other):
        if isinstance(other, Cls):
            return other in self.mro
        if isinstance(other, Ext):
            return any(isinstance(k, Ext) and k.name == other.name for k in self.mro)
        return False

    def ext_base(self, *names):
        return any(isinstance(k, Ext) and k.name in names for k in self.mro)


class FieldSpec:
    def __init__(self, name=None, default=None, has_default=False, factory=None, converter=None,
                 metadata=None, kw_only=False, init=True, static=False, ann=None):
        self.name, self.default, self.has_default, self.factory = name, default, has_default, factory
        self.converter, self.metadata, self.kw_only = converter, metadata or {}, kw_only
        self.init, self.static, self.ann = init, static, ann
        self.owner = None
        self.descr = False

    def __repr__(self):
        return f"Field({self.name})"


class Fn:
    __slots__ = ("node", "module", "env", "name", "owner", "defaults", "kwdefaults", "abstract",
                 "flags", "anns")

    def __init__(self, node, module, env, name):
        self.node, self.module, self.env, self.name = node, module, env, name
        self.owner = None
        self.abstract = False
        self.flags = set()
        self.anns = None

    def __repr__(self):
        return f"fn:{self.module.name}:{self.name}@{getattr(self.node, 'lineno', 0)}"


class Prim:
    """Intrinsic function."""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"prim:{self.name}"


class Bound:
    __slots__ = ("f", "self")

    def __init__(self, f, self_):
        self.f, self.self = f, self_

    def __repr__(self):
        return f"bound:{self.f!r}"


def own_nodes(fn):
    """The nodes of a function that are its own: those of functions and classes written inside it are not."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class It:
    """An iterator: what is taken from it is gone."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def drain(self):
        out, self.items = self.items, []
        return out

    def __repr__(self):
        return f"iterator of {len(self.items)}"


class Part:
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), dict(kw)

    def __repr__(self):
        return f"partial:{self.f!r}"


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class StaticM(ClassM):
    __slots__ = ()


class Prop(ClassM):
    __slots__ = ()


class PlumF:
    def __init__(self, name, owner=None):
        self.name, self.owner, self.methods = name, owner, []
        self.fallback = None

    def __repr__(self):
        return f"dispatch:{self.name}"


class Obj:
    """Instance of an analysed class."""
    __slots__ = ("cls", "d", "frozen", "tag")

    def __init__(self, cls, d=None):
        self.cls, self.d, self.frozen, self.tag = cls, d if d is not None else {}, False, None

    def __repr__(self):
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in self.d.items())})"


class Unit:
    __slots__ = ("x", "dim")

    def __init__(self, x, dim):
        self.x, self.dim = x, dim

    def __repr__(self):
        return f"unit({self.x!r})"

    def __eq__(self, o):
        if self is o or not isinstance(o, Unit):
            return self is o
        if self.dim != o.dim:
            return False
        if self.x == o.x:
            return True
        raise Undecided("equality of symbolic units as keys")

    def __hash__(self):
        return hash(self.dim if isinstance(self.dim, tuple) else "unit")


class Dim:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return f"dim{self.d}"

    def __eq__(self, o):
        return isinstance(o, Dim) and o.d == self.d

    def __hash__(self):
        return hash(self.d)


class Shape:
    """Symbolic shape: batch term plus known trailing feature sizes."""
    __slots__ = ("sh", "feat")

    def __init__(self, sh, feat):
        self.sh, self.feat = sh, tuple(feat)

    def __repr__(self):
        return f"shape({self.sh}, {self.feat})"

    def __eq__(self, o):
        return isinstance(o, Shape) and o.sh == self.sh and o.feat == self.feat

    def __hash__(self):
        return hash((self.sh, self.feat))


class Num:
    """Array (ty is ARRAY) or quantity.  v: leaf or nested list over feature axes.

    kind is None for real or unknown scalars, "int" for values known to be stored as integers, "complex"."""
    __slots__ = ("ty", "v", "dim", "unit", "sh", "dt", "kind")

    def __init__(self, ty, v, dim=(), unit=None, sh=(), dt=None, kind=None):
        self.ty, self.v, self.dim, self.unit, self.sh, self.dt, self.kind = ty, v, dim, unit, sh, dt, kind

    @property
    def rank(self):
        n, v = 0, self.v
        while isinstance(v, list):
            n, v = n + 1, v[0]
        return n

    def feat(self):
        out, v = [], self.v
        while isinstance(v, list):
            out.append(len(v))
            v = v[0]
        return tuple(out)

    def with_(self, **kw):
        d = dict(ty=self.ty, v=self.v, dim=self.dim, unit=self.unit, sh=self.sh, dt=self.dt)
        if "v" not in kw or "sh" in kw:
            d["kind"] = self.kind
        d.update(kw)
        return Num(**d)

    def __repr__(self):
        n = self.ty.name if isinstance(self.ty, Cls) else "arr"
        return f"{n}<{self.v!r}>"


def leaves(v):
    if isinstance(v, list):
        for x in v:
            yield from leaves(x)
    else:
        yield v


def vmap1(f, v):
    if isinstance(v, list):
        return [vmap1(f, x) for x in v]
    return f(v)


def tlift(f, *xs):
    """Lift a ring operation over gates, Unknown -> Top leaf."""
    for x in xs:
        if isinstance(x, Top):
            return x

    def g(*ys):
        for y in ys:
            if isinstance(y, Top):
                return y
        try:
            return f(*ys)
        except Unknown as e:
            return Top(str(e))
    return lift(g, *xs)


def tree_subst(v, ids, trees):
    """Replace atoms (ids) by gated values inside a gated value, re-deciding its gates."""
    memo = {}

    def at(f):
        return lift(lambda *vals: next((t for t in vals if isinstance(t, Top)), None) or _try(f, dict(zip(ids, vals))), *trees)

    def gate(p):
        if p.id not in memo:
            if p.kind == "lt0":
                g = at(lambda sub: lt0(R.subst(p.x, sub)))
            elif p.kind == "eq0":
                g = at(lambda sub: eq0(R.subst(p.x, sub)))
            else:
                g = mk_ite(p, True, False)
            # gates of gates: leaves may themselves be gated
            memo[p.id] = _flatten(g)
        return memo[p.id]

    def go(u):
        if isinstance(u, Ite):
            a, b = go(u.a), go(u.b)
            return lift(lambda c, x, y: c if isinstance(c, Top) else x if c else y, gate(u.p), a, b)
        if isinstance(u, X):
            return _flatten(at(lambda sub: R.subst(u, sub)))
        return u
    return go(v)


def _flatten(v):
    """lift() may leave gated values inside leaves: it never nests, so this is the identity."""
    return v


def _try(f, sub):
    try:
        return f(sub)
    except Unknown as e:
        return Top(str(e))


# ------------------------------------------------------------- dimensions
def dim_mul(a, b, k=1):
    d = dict(a)
    for n, e in b:
        s = d.get(n, 0) + k * e
        if s:
            d[n] = s
        else:
            d.pop(n, None)
    return tuple(sorted(d.items()))


def dim_pow(a, n):
    return tuple(sorted((k, e * n) for k, e in a)) if n else ()


L, T, A, M, MAG = (("L", 1),), (("T", 1),), (("A", 1),), (("M", 1),), (("mag", 1),)
SPEED = dim_mul(L, T, -1)
DIMS = {
    "length": L, "time": T, "angle": A, "mass": M, "speed": SPEED, "velocity": SPEED,
    "speed/velocity": SPEED, "speed / velocity": SPEED,
    "acceleration": dim_mul(SPEED, T, -1), "angular speed": dim_mul(A, T, -1),
    "angular frequency": dim_mul(A, T, -1),
    "angular acceleration": dim_mul(A, dim_pow(T, 2), -1), "area": dim_pow(L, 2),
    "diffusivity": dim_mul(dim_pow(L, 2), T, -1), "kinematic viscosity": dim_mul(dim_pow(L, 2), T, -1),
    "specific energy": dim_pow(SPEED, 2), "dimensionless": (), "": (), "frequency": dim_pow(T, -1),
    "magnitude": MAG, "volume": dim_pow(L, 3), "wavenumber": dim_pow(L, -1),
}


def dim_norm(d):
    """Angles are dimensionless in astropy products?  No: keep rad as a dimension."""
    return d
