"""Models of the symbols the analysed package imports (external packages, builtins)."""
from __future__ import annotations

import ast
import operator
from fractions import Fraction

from . import axes as AX
from . import num as N
from . import ring as R
from . import values as V
from .num import ARRAY, is_q
from .plumm import (JT, TAny, TLit, TType, TUnion, conversion_method, isinstance_, plum_call,
                    promotion_rule, register_method, as_type, subtype, convert, typeval)
from .values import *  # noqa: F403

NORET = None  # set by install


# ------------------------------------------------------------------ naming
PREFIX = [("quaxed.numpy.", "jnp."), ("jax.numpy.", "jnp."), ("quaxed.lax.", "lax."), ("jax.lax.", "lax."),
          ("numpy.", "np."), ("dataclassish.converters.", "dataclassish."),
          ("unxt.quantity.", "unxt."), ("unxt.units.", "unxt."), ("unxt.dimensions.", "unxt."),
          ("unxt.unitsystems.", "unxt.unitsystems."), ("collections.abc.", "abc."), ("unxt._src.quantity.api.", "unxt.")]


def canon(name):
    for a, b in PREFIX:
        if name.startswith(a):
            return b + name[len(a):]
    return {"quaxed.numpy": "jnp", "jax.numpy": "jnp", "quaxed.lax": "lax", "jax.lax": "lax", "numpy": "np",
            "unxt.quantity": "unxt", "unxt.units": "unxt", "builtins.type": "builtins.type"}.get(name, name)


Q: dict = {}


def install(ip):
    global NORET
    from .interp import NORET as NR
    NORET = NR
    Q.clear()
    ip.q = Q

    def mk(name, *bases, parametric=False):
        c = Cls(name, "unxt")
        c.bases = list(bases)
        c.mro = ip.mro_of(c)
        c.parametric = parametric
        Q[name] = c
        return c
    aq = mk("AbstractQuantity", Ext("quax.ArrayValue"))
    apq = mk("AbstractParametricQuantity", aq)
    mk("Quantity", apq, parametric=True)
    mk("UncheckedQuantity", aq)
    from_ = PlumF("from_", aq)
    from_.fallback = q_from
    aq.ns["from_"] = ClassM(from_)
    ip.params = {}
    for c in Q.values():
        c.own_fields = []
    usys = Cls("AbstractUnitSystem", "unxt")
    usys.mro = [usys]
    Q["AbstractUnitSystem"] = usys
    # dispatched API functions shared with the external packages
    for n, fb in (("uconvert", f_uconvert), ("ustrip", f_ustrip), ("dimension_of", f_dimension_of),
                  ("unit_of", f_unit_of), ("is_unit_convertible", f_is_conv), ("unit", f_unit),
                  ("dimension", f_dimension), ("replace", f_replace), ("fields", f_fields),
                  ("field_items", f_field_items), ("field_values", f_field_values),
                  ("field_keys", f_field_keys), ("asdict", f_asdict), ("unitsystem", f_unitsystem),
                  ("get_field", f_get_field)):
        p = PlumF(n)
        p.fallback = fb
        ip.plum[n] = p


def resolve(ip, name):
    name = canon(name)
    if name.startswith("unxt."):
        t = name[5:]
        if t in Q:
            return Q[t]
        if t in ip.plum:
            return ip.plum[t]
    if name.startswith("dataclassish.") and name[13:] in ip.plum:
        return ip.plum[name[13:]]
    if name in CONSTS:
        return CONSTS[name]
    if name in ("jnp.pi", "np.pi", "math.pi"):
        return R.pi()
    if name in ("math.tau", "np.tau"):
        return R.mul(R.const(2), R.pi())
    if name.startswith("astropy.units.") and name[14:] in UNITS:
        return unit_obj(name[14:])
    return Ext(name)


CONSTS = {"typing.TYPE_CHECKING": False, "jnp.newaxis": None, "np.newaxis": None, "typing.Any": None}
CONSTS.pop("typing.Any")


def is_func(name):
    return name.startswith(("lax.", "jnp."))


# ------------------------------------------------------------------ units
_BASE = {"m": V.L, "s": V.T, "kg": V.M, "mag": V.MAG}
UNITS: dict = {}


def _u(name):
    a = R.new_atom(("unit", name), name, "unit", pos=True)
    return R.atom(a)


def _deftable():
    c = R.const
    pi = R.pi()
    m, s = _u("m"), _u("s")
    au = R.mul(c(149597870700), m)
    pc = R.div(R.mul(c(648000), au), pi)
    deg = R.div(pi, c(180))
    t = {
        "m": (m, V.L), "km": (R.mul(c(1000), m), V.L), "cm": (R.mul(c(Fraction(1, 100)), m), V.L),
        "AU": (au, V.L), "au": (au, V.L), "pc": (pc, V.L), "kpc": (R.mul(c(1000), pc), V.L),
        "Mpc": (R.mul(c(1000000), pc), V.L), "mm": (R.mul(c(Fraction(1, 1000)), m), V.L),
        "s": (s, V.T), "min": (R.mul(c(60), s), V.T), "h": (R.mul(c(3600), s), V.T),
        "hr": (R.mul(c(3600), s), V.T),
        "d": (R.mul(c(86400), s), V.T), "day": (R.mul(c(86400), s), V.T),
        "yr": (R.mul(c(31557600), s), V.T), "Myr": (R.mul(c(31557600 * 10**6), s), V.T),
        "Gyr": (R.mul(c(31557600 * 10**9), s), V.T),
        "rad": (c(1), V.A), "radian": (c(1), V.A), "deg": (deg, V.A), "degree": (deg, V.A),
        "arcmin": (R.div(deg, c(60)), V.A), "arcsec": (R.div(deg, c(3600)), V.A),
        "mas": (R.div(deg, c(3600000)), V.A), "hourangle": (R.mul(c(15), deg), V.A),
        "mrad": (c(Fraction(1, 1000)), V.A),
        "mag": (_u("mag"), V.MAG), "kg": (_u("kg"), V.M), "": (c(1), ()), "one": (c(1), ()),
        "dimensionless_unscaled": (c(1), ()), "dimensionless": (c(1), ()),
        "Msun": (R.mul(c(1988409870698051 * 10**15), _u("kg")), V.M), "solMass": (R.mul(c(1988409870698051 * 10**15), _u("kg")), V.M),
    }
    UNITS.clear()
    UNITS.update(t)


def unit_obj(n):
    if n not in UNITS:
        raise Undecided(f"unknown unit {n!r}")
    return Unit(*UNITS[n])


def parse_unit(s):
    """Units strings: products and quotients of known units with integer powers."""
    s = s.strip()
    if s in UNITS:
        return unit_obj(s)
    import re
    toks = re.findall(r"[A-Za-z]+|\*\*|\^|[()*/]|-?\d+|\s+", s)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def factor():
        nonlocal pos
        t = peek()
        if t == "(":
            pos += 1
            v = expr()
            if peek() == ")":
                pos += 1
        elif t == "1":
            pos += 1
            v = Unit(R.const(1), ())
        else:
            pos += 1
            v = unit_obj(t)
        e = None
        if peek() in ("**", "^"):
            pos += 1
            e = int(toks[pos])
            pos += 1
        elif peek() is not None and peek().lstrip("-").isdigit():
            e = int(toks[pos])
            pos += 1
        if e is not None:
            v = Unit(R.powi(v.x, e), dim_pow(v.dim, e))
        return v

    def expr():
        nonlocal pos
        v = factor()
        while peek() is not None and peek() != ")":
            t = peek()
            if t.isspace():
                pos += 1
                while peek() is not None and peek().isspace():
                    pos += 1
                if peek() in ("*", "/", ")", None):
                    continue
                w = factor()
                v = Unit(R.mul(v.x, w.x), dim_mul(v.dim, w.dim))
            elif t == "*":
                pos += 1
                while peek() is not None and peek().isspace():
                    pos += 1
                w = factor()
                v = Unit(R.mul(v.x, w.x), dim_mul(v.dim, w.dim))
            elif t == "/":
                pos += 1
                while peek() is not None and peek().isspace():
                    pos += 1
                w = factor()
                v = Unit(R.div(v.x, w.x), dim_mul(v.dim, w.dim, -1))
            else:
                raise Undecided(f"unit string {s!r}")
        return v
    while peek() is not None and peek().isspace():
        pos += 1
    try:
        return expr()
    except (IndexError, ValueError):
        raise Undecided(f"unit string {s!r}")


def as_unit(ip, u):
    if isinstance(u, Unit):
        return u
    if isinstance(u, str):
        return parse_unit(u)
    if isinstance(u, Num) and is_q(u):
        raise Undecided("quantity as unit")
    if isinstance(u, Dim):
        raise Undecided("dimension as unit")
    raise Undecided(f"unit {u!r}")


def f_unit(ip, args, kw):
    return as_unit(ip, args[0])


def f_unit_of(ip, args, kw):
    o = args[0]
    if is_q(o):
        return q_unit(ip, o)
    return None


def f_dimension(ip, args, kw):
    o = args[0]
    if isinstance(o, str):
        if o not in V.DIMS:
            raise Undecided(f"dimension {o}")
        return Dim(V.DIMS[o])
    if isinstance(o, Dim):
        return o
    if isinstance(o, Unit):
        return Dim(o.dim)
    raise Undecided("dimension()")


def f_dimension_of(ip, args, kw):
    o = args[0]
    if is_q(o):
        return Dim(o.dim)
    if isinstance(o, Unit):
        return Dim(o.dim)
    if isinstance(o, Cls) and o.param is not None:
        return Dim(o.param)
    raise Undecided("dimension_of")


def q_unit(ip, n):
    if n.unit is None:
        raise Undecided("unknown unit of a quantity")
    return Unit(n.unit, n.dim)


def f_is_conv(ip, args, kw):
    a, b = args
    b = Unit(b.unit, b.dim) if is_q(b) else as_unit(ip, b)
    a = Unit(a.unit, a.dim) if is_q(a) else as_unit(ip, a)
    return a.dim == b.dim


def f_uconvert(ip, args, kw):
    u, q = args[0], args[1]
    if isinstance(u, Obj) and u.cls.name == "UnitSystem":
        u = usys_unit(ip, u, q.dim)
    u = as_unit(ip, u)
    if not is_q(q):
        raise Undecided(f"uconvert of {q!r}")
    if u.dim != q.dim:
        ip.raise_("ValueError", f"units: cannot convert {q.dim} to {u.dim}")
    return q.with_(unit=u.x)


def f_ustrip(ip, args, kw):
    u, q = args[0], args[1]
    if not is_q(q):
        if isinstance(q, (int, float, Num)):
            return q
        raise Undecided("ustrip")
    n = f_uconvert(ip, [u, q], {})
    return N.to_num(ip, Num(ARRAY, vmap1(lambda x: tlift(lambda t: R.div(t, n.unit), N._x(x)), n.v), sh=n.sh))


def f_unitsystem(ip, args, kw):
    if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls.name == "UnitSystem":
        return args[0]
    if len(args) == 1 and isinstance(args[0], str):
        return unit_system(ip, args[0])
    raise Undecided("unitsystem")


def unit_system(ip, name):
    c = ip.params.get("UnitSystem")
    if c is None:
        c = Cls("UnitSystem", "unxt")
        c.bases = [Q["AbstractUnitSystem"]]
        c.mro = ip.mro_of(c)
        ip.params["UnitSystem"] = c
    return Obj(c, {"name": name})


def usys_unit(ip, us, dim):
    # a system may prefer any unit of a dimension, not only products of its base units
    out = R.atom(R.new_atom(("usys", us.d["name"], dim), f"{us.d['name']}[{Dim(dim)!r}]", "unit", pos=True))
    return Unit(out, dim)


# ------------------------------------------------------------------ quantities
def run_checks(ip, n):
    """__check_init__ of the analysed quantity classes."""
    for k in n.ty.mro:
        if isinstance(k, Cls) and "__check_init__" in k.ns:
            ip.call(Bound(k.ns["__check_init__"], n), [], {})
    return n


def new_q(ip, c, args, kw):
    kw = dict(kw)
    cls = c
    if c.param is not None:
        c = c.origin
    value = args[0] if args else kw.pop("value")
    unit = args[1] if len(args) > 1 else kw.pop("unit", None)
    extra = dict(zip([f.name for f in ip.all_fields(c) if f.name not in ("value", "unit")], args[2:]))
    extra.update(kw)
    if unit is None:
        ip.raise_("TypeError", f"{c.name}() missing unit")
    u = as_unit(ip, unit)
    v = value
    if is_q(v):
        ip.raise_("TypeError", "quantity of a quantity")
    v = N.to_num(ip, v)
    x = vmap1(lambda t: tlift(lambda y: R.mul(y, u.x), N._x(t)), v.v)
    n = Num(c, x, u.dim, u.x, v.sh, extra or None, v.kind)
    if cls.param is not None and cls.param != u.dim:
        ip.raise_("ValueError", f"Physical type mismatch: {u.dim} for {cls.name}")
    return run_checks(ip, n)


def q_from(ip, args, kw):
    """AbstractQuantity.from_ of unxt."""
    cls, rest = args[0], list(args[1:])
    kw = dict(kw)
    dtype = kw.pop("dtype", None)
    if dtype is not None:
        r = q_from(ip, args, kw)
        return N.cast(r, dtype) if is_q(r) else r
    if rest and isinstance(rest[0], dict):
        return ip.call(ip.getattr(cls, "from_"), [], dict(rest[0]))
    v = rest[0] if rest else kw.pop("value", None)
    u = rest[1] if len(rest) > 1 else kw.pop("unit", None)
    if is_q(v):
        if u is not None:
            v = f_uconvert(ip, [u, v], {})
        c = cls.origin if cls.param is not None else cls
        if cls.param is not None and cls.param != v.dim:
            ip.raise_("ValueError", f"units: Physical type mismatch: {v.dim} for {cls.name}")
        if v.ty is c and not kw:
            return v
        return run_checks(ip, Num(c, v.v, v.dim, v.unit, v.sh, dict(kw) or None, v.kind))
    if u is None:
        ip.raise_("LookupError", "from_ without unit")
    return new_q(ip, cls, [v, u], kw)


def num_attr(ip, n, name):
    if is_q(n):
        if name == "value":
            if n.unit is None:
                return Num(ARRAY, vmap1(lambda x: Top("value in an unknown unit"), n.v), sh=n.sh)
            return Num(ARRAY, vmap1(lambda x: tlift(lambda t: R.div(t, n.unit), N._x(x)), n.v), sh=n.sh)
        if name == "unit":
            return q_unit(ip, n)
        if name in ("uconvert", "to"):
            return Prim(name, lambda ip, a, kw: ip.call(ip.plum["uconvert"], [a[0], n], {}))
        if name in ("ustrip", "to_value"):
            return Prim(name, lambda ip, a, kw: ip.call(ip.plum["ustrip"], [a[0], n], {}))
        if name == "to_units":
            return Prim(name, lambda ip, a, kw: ip.call(ip.plum["uconvert"], [a[0], n], {}))
        for f in ip.all_fields(n.ty):
            if f.name == name:
                if n.dt and name in n.dt:
                    return n.dt[name]
                if f.has_default:
                    return f.default
    if AX.is_ax(n.sh):
        r = ax_attr(ip, n, name)
        if r is not NORET:
            return r
    if name == "shape":
        return Shape(n.sh, n.feat()) if n.sh != () else n.feat()
    if name == "ndim":
        if n.sh == ():
            return n.rank
        return Sym(("ndim", n.sh, n.rank))
    if name == "size":
        return Sym(("size", n.sh, n.feat()))
    if name in ("dtype", "device", "sharding"):
        return Sym((name, repr(n)))
    if name == "T":
        if n.sh == () and n.rank <= 1:
            return n
        if n.sh == () and n.rank == 2:
            return N.transpose_last(ip, n)
        if n.rank == 0:
            return n.with_(sh=("T", n.sh))
        return n.with_(v=Top("transpose of features"), sh=("T", n.sh, n.feat()))
    if name == "mT":
        if n.rank == 2:
            return N.transpose_last(ip, n)
        if n.rank == 0:
            return n.with_(sh=("mT", n.sh))
        return n.with_(v=Top("mT of features"), sh=("mT", n.sh, n.feat()))
    if name in ("flatten", "ravel", "reshape", "astype", "to_device", "squeeze", "round", "block_until_ready", "swapaxes", "transpose"):
        def f(ip, a, kw, name=name):
            return shape_method(ip, n, name, a, kw)
        return Prim(name, f)
    if name in ("sum", "mean", "min", "max", "prod"):
        if name == "sum":
            return Prim(name, lambda ip, a, kw: N.reduce_sum(ip, n, kw.get("axis", a[0] if a else None)))
        if name in ("min", "max"):
            return Prim(name, lambda ip, a, kw: extreme_of(name, n, a, kw))
        raise Undecided(f"array method {name}")
    if name == "item":
        return Prim(name, lambda ip, a, kw: (ip.concrete(n, "item"), n.v)[1])
    if name == "at":
        raise Undecided("indexed update")
    if name in ("any", "all"):
        return Prim(name, lambda ip, a, kw: (f_any if name == "any" else f_all)(ip, [n], kw))
    if name.startswith("__") and name.endswith("__"):
        op = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__mod__": "Mod",
              "__pow__": "Pow", "__matmul__": "MatMult"}.get(name)
        if op:
            return Prim(name, lambda ip, a, kw: binop(ip, op, n, a[0]))
        op = {"__radd__": "Add", "__rsub__": "Sub", "__rmul__": "Mult", "__rtruediv__": "Div"}.get(name)
        if op:
            return Prim(name, lambda ip, a, kw: binop(ip, op, a[0], n))
        if name == "__neg__":
            return Prim(name, lambda ip, a, kw: N.neg(ip, n))
        if name == "__eq__":
            return Prim(name, lambda ip, a, kw: compare(ip, "Eq", n, a[0]))
    if name == "__class__":
        return n.ty
    return NORET


class Sym:
    """Opaque run-time metadata (dtype, ndim ...), compared structurally."""
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key

    def __hash__(self):
        return hash(repr(self.key))

    def __repr__(self):
        return f"sym{self.key}"


def ax_attr(ip, n, name):
    """Attributes and methods of arrays whose batch axes are known."""
    full = AX.sizes(n.sh) + n.feat()
    if name == "shape":
        return full
    if name == "ndim":
        return len(full)
    if name == "size":
        return AX.prod(full)
    if name == "T":
        return N.ax_rearrange(ip, n, None)
    if name == "mT":
        if len(full) < 2:
            ip.raise_("ValueError", f"x must be at least two-dimensional for matrix_transpose; got ndim={len(full)}")
        return N.ax_rearrange(ip, n, tuple(range(len(full) - 2)) + (len(full) - 1, len(full) - 2))

    def order(kw):
        if any(v not in (None, "C") for k, v in kw.items() if k == "order"):
            raise Undecided("memory order")
        return {k: v for k, v in kw.items() if k not in ("order", "copy")}

    def f(ip, a, kw):
        kw = order(kw)
        if name in ("flatten", "ravel"):
            return N.ax_reshape(ip, n, (AX.prod(full),))
        if name == "reshape":
            t = a[0] if len(a) == 1 and not AX.size(a[0]) else kw["shape"] if "shape" in kw else tuple(a)
            return ax_to_shape(ip, n, t, N.ax_reshape)
        if name == "transpose":
            p = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a) or None
            return N.ax_rearrange(ip, n, p)
        if name == "swapaxes":
            p = list(range(len(full)))
            i, j = (AX.norm_axis(x, len(full)) for x in a)
            p[i], p[j] = p[j], p[i]
            return N.ax_rearrange(ip, n, tuple(p))
        if name == "squeeze":
            if n.rank or a or kw:
                raise Undecided("squeeze")
            return n.with_(sh=AX.reshape(n.sh, tuple(x for x in AX.sizes(n.sh) if x != 1)))
    if name in ("flatten", "ravel", "reshape", "transpose", "swapaxes", "squeeze"):
        return Prim(name, f)
    return NORET


def ax_to_shape(ip, n, t, f):
    s = N.shape_of(t)
    if s is None:
        if isinstance(t, (tuple, list)) and any(isinstance(x, (tuple, list)) for x in t):
            ip.raise_("TypeError", "Shapes must be 1D sequences of concrete values of integer type")
        raise Undecided(f"shape {t!r}")
    if isinstance(s, Shape):
        raise Undecided("batch shapes of known and unknown rank")
    return f(ip, n, s)


def shape_method(ip, n, name, a, kw):
    if name in ("block_until_ready", "to_device"):
        return n
    args = tuple(_shkey(x) for x in a)
    if name == "astype":
        return N.cast(n, a[0] if a else kw.get("dtype"))
    key = (name,) + args + tuple(sorted((k, repr(v)) for k, v in kw.items() if not (k == "order" and v == "C")))
    if n.rank and name == "reshape":
        # keep features when the new shape ends with them
        flat = a[0] if len(a) == 1 and isinstance(a[0], (tuple, Shape)) else tuple(a)
        if isinstance(flat, Shape):
            if flat.feat == n.feat():
                return n.with_(sh=("reshape", flat.sh, n.sh) if flat.sh != n.sh else n.sh)
        else:
            tail = tuple(flat[len(flat) - n.rank:])
            if tail == n.feat():
                return n.with_(sh=("reshape", tuple(_shkey(x) for x in flat[:len(flat) - n.rank]), n.sh))
    if n.rank:
        return n.with_(v=Top(f"{name} across feature axes"), sh=key + (n.sh,))
    if name == "reshape":
        if len(a) == 1 and isinstance(a[0], Shape) and not a[0].feat:
            return n.with_(sh=a[0].sh)
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            key = (name,) + tuple(_shkey(x) for x in a[0])
        if key == (name,):
            return n.with_(sh=())
        inner = n.sh
        while isinstance(inner, tuple) and inner and inner[0] == "reshape":     # only the last reshape matters
            inner = inner[-1]
        return n.with_(sh=key + (inner,))
    return n.with_(sh=key + (n.sh,))


def _shkey(x):
    if isinstance(x, Shape):
        return ("shape", x.sh, x.feat)
    if isinstance(x, (tuple, list)):
        return tuple(_shkey(y) for y in x)
    if isinstance(x, (int, str, type(None))):
        return x
    return repr(x)


# ------------------------------------------------------------------ classes
def as_base(ip, b):
    if isinstance(b, Cls):
        return b.origin if b.param is not None else b
    if isinstance(b, Ext):
        if b.name == "typing.NamedTuple":
            return ip.load("saprelude").ns["NamedTuple"]
        if b.name == "typing.TypedDict":
            raise Undecided(f"a class derived from {b.name}")
        if b.name in ("typing.Generic", "typing.Protocol", "builtins.object"):
            return None
        return b
    if isinstance(b, (TAny,)):
        return None
    if b is dict or b is tuple or b is list:
        return Ext(f"builtins.{b.__name__}")
    if b is None:
        return None
    raise Undecided(f"base class {b!r}")


def is_module(c):
    return c.ext_base("equinox.Module", "quax.ArrayValue", "quax.Value")


def finish_class(ip, c, kws, anns, env):
    if c.ext_base("enum.Enum"):
        for n, v in list(c.ns.items()):
            if not n.startswith("__") and not isinstance(v, (Fn, Prop, ClassM, PlumF)):
                o = Obj(c, {"name": n, "value": v, "_value_": v})
                o.frozen = True
                c.ns[n] = o
        return
    for n, v in c.ns.items():
        f = v
        while isinstance(f, ClassM):
            f = f.f
        if isinstance(f, Fn) and f.abstract:
            c.abstract.add(n)
        elif isinstance(f, Obj) and "fget" in f.d:
            g = f.d["fget"]
            while isinstance(g, (ClassM, Bound)):
                g = g.f
            if isinstance(g, Fn) and g.abstract:
                c.abstract.add(n)
    c.is_dc = False
    c.own_init = True
    if any(isinstance(b, Cls) and b.name == "NamedTuple" and b.module == "saprelude" for b in c.bases):
        mk_dataclass(ip, c, {"frozen": True, "eq": False})
        c.ns["_fields"] = tuple(f.name for f in ip.all_fields(c))
        return
    if is_module(c):
        c.is_dc = True
        dc_fields(ip, c, anns, env, kw_only=bool(kws.get("kw_only")))
        c.own_init = not ("__init__" in c.ns) and not inherits_custom_init(c)


def inherits_custom_init(c):
    """equinox: a class whose parent has a custom __init__ does not get a new one."""
    for k in c.mro[1:]:
        if isinstance(k, Cls):
            if "__init__" in k.ns:
                return True
            if k.is_dc and k.own_init:
                return False
    return False


def dc_fields(ip, c, anns, env, kw_only=False):
    c.own_fields = []
    for n, (a, e) in anns.items():
        txt = ast.unparse(a)
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            txt = a.value
        if "KW_ONLY" in txt:
            kw_only = True
            continue
        if "ClassVar" in txt or txt.split(".")[-1].split("[")[0] == "ClassVar":
            continue
        d = c.ns.get(n, NORET)
        f = FieldSpec(n)
        if isinstance(d, FieldSpec):
            f.default, f.has_default, f.factory = d.default, d.has_default, d.factory
            f.converter, f.metadata, f.kw_only, f.init, f.static = d.converter, d.metadata, d.kw_only, d.init, d.static
            if f.has_default:
                c.ns[n] = f.default
            else:
                c.ns.pop(n, None)
        elif isinstance(d, Obj) and d.cls.lookup("__get__")[0] is not None:
            f.descr = True
            try:
                f.default = ip.call(Bound(d.cls.lookup("__get__")[0], d), [None, c], {})
                f.has_default = True
            except AbsRaise:
                pass
        elif d is not NORET:
            f.default, f.has_default = d, True
        f.kw_only = f.kw_only or kw_only
        f.ann = (a, e)
        f.owner = c
        c.own_fields.append(f)


def special_new(ip, c, args, kw):
    if c.param is not None or c.issub(Q["AbstractQuantity"]):
        return new_q(ip, c, args, kw)
    if c.ext_base("enum.Enum"):
        v = args[0]
        if isinstance(v, Obj) and v.cls is c:
            return v
        for x in c.ns.values():
            if isinstance(x, Obj) and x.cls is c and x.d["value"] == v:
                return x
        ip.raise_("ValueError", f"{v!r} is not a valid {c.name}")
    return NORET


def cls_attr(ip, c, name):
    if c.issub(Q["AbstractQuantity"]) or c.param is not None:
        if name in ("value", "unit"):
            return NORET
    return NORET


def obj_attr(ip, o, name):
    if name == "__post_init__":
        return NORET
    if o.cls.ext_base("xmmutablemap.ImmutableMap", "builtins.dict", "builtins.tuple") or o.cls.ext_base("abc.Mapping"):
        if name in ("items", "keys", "values", "get"):
            g = o.cls.lookup("__getitem__")[0]
            it = o.cls.lookup("__iter__")[0]
            if isinstance(g, Fn) and isinstance(it, Fn) and o.cls.ext_base("abc.Mapping"):
                if name == "keys":
                    return Prim(name, lambda ip, a, kw: ip.iterate(o))
                if name == "values":
                    return Prim(name, lambda ip, a, kw: [getitem(ip, o, k) for k in ip.iterate(o)])
                if name == "items":
                    return Prim(name, lambda ip, a, kw: [(k, getitem(ip, o, k)) for k in ip.iterate(o)])

                def get(ip, a, kw):
                    try:
                        return getitem(ip, o, a[0])
                    except AbsRaise as e:
                        if e.exc.cls.name == "KeyError":
                            return a[1] if len(a) > 1 else kw.get("default")
                        raise
                return Prim(name, get)
            if g is not None or "_data" in o.d:
                return NORET
    if name == "enable_materialise":
        return Prim(name, lambda ip, a, kw: o)
    return NORET


def decorate(ip, dv, v, env, fn):
    if isinstance(dv, Ext):
        n = dv.name
        if n in ("typing.final", "typing_extensions.override", "typing.override", "typing.runtime_checkable",
                 "jax.jit", "equinox.filter_jit", "quax.quaxify", "functools.cache"):
            return v
        if n == "typing.overload":
            return v
        if n == "abc.abstractmethod":
            f = v
            while isinstance(f, ClassM):
                f = f.f
            if isinstance(f, Fn):
                f.abstract = True
            return v
        if n in ("plum.dispatch", "plum.dispatch.abstract"):
            return register_method(ip, v, env, fn, abstract=n.endswith("abstract"))
        if n == "dataclasses.dataclass":
            return mk_dataclass(ip, v, {})
    from .extfun import Deco
    if isinstance(dv, Deco):
        return dv.f(ip, v, env, fn)
    return ip.call(dv, [v], {})


def mk_dataclass(ip, c, kw):
    c.is_dc = True
    c.own_init = "__init__" not in c.ns
    dc_fields(ip, c, getattr(c, "anns", {}), None, kw_only=bool(kw.get("kw_only")))
    c.dc_frozen = bool(kw.get("frozen"))
    c.dc_eq = kw.get("eq", True) is not False
    return c


# ------------------------------------------------------------------ dataclassish
def f_replace(ip, args, kw):
    o = args[0]
    if isinstance(o, Cls) and len(args) > 1:      # flag, obj
        o = args[1]
    if isinstance(o, Num) and is_q(o):
        kw = dict(kw)
        if len(args) > 1 and isinstance(args[1], dict):
            kw.update(args[1])
        v = kw.pop("value", None)
        u = kw.pop("unit", None)
        v = num_attr(ip, o, "value") if v is None else v
        u = q_unit(ip, o) if u is None else u
        ex = dict(o.dt or {})
        ex.update(kw)
        return new_q(ip, o.ty, [v, u], ex)
    if isinstance(o, dict):
        return {**o, **kw}
    if isinstance(o, Obj):
        if len(args) > 1 and isinstance(args[-1], dict):
            raise Undecided("nested replace")
        d = {}
        names = [f.name for f in ip.all_fields(o.cls) if f.init]
        for n in kw:
            if n not in names:
                ip.raise_("TypeError", f"replace() got an unexpected field {n} for {o.cls.name}")
        for n in names:
            d[n] = kw[n] if n in kw else ip.getattr(o, n)
        return ip.call(o.cls, [], d)
    raise Undecided(f"replace {o!r}")


def f_fields(ip, args, kw):
    o = args[-1]
    if isinstance(o, Obj):
        return tuple(ip.all_fields(o.cls))
    if isinstance(o, Cls):
        return tuple(ip.all_fields(o))
    if is_q(o):
        return tuple([FieldSpec("value"), FieldSpec("unit")] + ip.all_fields(o.ty))
    raise Undecided(f"fields of {o!r}")


def f_field_items(ip, args, kw):
    o = args[-1]
    if isinstance(o, dict):
        return list(o.items())
    return [(f.name, ip.getattr(o, f.name)) for f in ip.iterate(ip.call(ip.plum["fields"], list(args)))]


def f_field_values(ip, args, kw):
    o = args[-1]
    if isinstance(o, dict):
        return list(o.values())
    return [ip.getattr(o, f.name) for f in ip.iterate(ip.call(ip.plum["fields"], list(args)))]


def f_field_keys(ip, args, kw):
    o = args[-1]
    if isinstance(o, dict):
        return list(o)
    return [f.name for f in ip.iterate(ip.call(ip.plum["fields"], list(args)))]


def f_get_field(ip, args, kw):
    return ip.getattr(args[0], args[1])


def f_asdict(ip, args, kw):
    return dict(f_field_items(ip, args, {}))


# ------------------------------------------------------------------ operators
PRIMS = {"Add": "add_p", "Sub": "sub_p", "Mult": "mul_p", "Div": "div_p", "MatMult": "dot_general_p",
         "Pow": "pow_p", "Mod": "rem_p"}
DUND = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
        "Div": ("__truediv__", "__rtruediv__"), "Mod": ("__mod__", "__rmod__"), "Pow": ("__pow__", "__rpow__"),
        "MatMult": ("__matmul__", "__rmatmul__"), "BitOr": ("__or__", "__ror__"), "BitAnd": ("__and__", "__rand__"),
        "FloorDiv": ("__floordiv__", "__rfloordiv__"),
        "BitXor": ("__xor__", "__rxor__"), "LShift": ("__lshift__", "__rlshift__"), "RShift": ("__rshift__", "__rrshift__")}


def binop(ip, op, a, b):
    if isinstance(a, Ite) and isinstance(a.a, (Obj, Num, Cls)) or isinstance(b, Ite) and isinstance(b.a, (Obj, Num)):
        if isinstance(a, Ite):
            return ip.lift_obj(lambda x: binop(ip, op, x, b), a)
        return ip.lift_obj(lambda y: binop(ip, op, a, y), b)
    if op == "BitOr":
        if as_type(a) is not None and as_type(b) is not None and not isinstance(a, (bool, Obj)) and not (
                isinstance(a, (dict, set)) or isinstance(b, (dict, set))):
            return TUnion([a, b])
        if isinstance(a, (dict, set)) and isinstance(b, (dict, set)):
            return a | b
    if isinstance(a, Obj) or isinstance(b, Obj):
        l, r = DUND.get(op, (None, None))
        if l is None:
            raise Undecided(f"operator {op}")
        tried = same = False
        if isinstance(a, Obj) and isinstance(b, Obj):
            same = a.cls is b.cls
            f, k = b.cls.lookup(r)
            if not same and f is not None and b.cls.issub(a.cls) and f is not a.cls.lookup(r)[0]:
                tried = True
                v = ip.call(ip.bind_inst(f, b, k), [a], {})
                if not is_notimpl(v):
                    return v
        if isinstance(a, Obj):
            f, k = a.cls.lookup(l)
            if f is not None:
                v = ip.call(ip.bind_inst(f, a, k), [b], {})
                if not is_notimpl(v):
                    return v
        elif isinstance(a, Num) and (N.is_q(a) or b.cls.lookup(r)[0] is None):
            # quantity on the left, vector on the right: quax handles it
            v = prim(ip, PRIMS.get(op), [a, b], {})
            return v
        if isinstance(b, Obj) and not tried and not same:
            f, k = b.cls.lookup(r)
            if f is not None:
                v = ip.call(ip.bind_inst(f, b, k), [a], {})
                if not is_notimpl(v):
                    return v
        ip.raise_("TypeError", f"unsupported operand types for {op}: {_tn(a)} and {_tn(b)}")
    if isinstance(a, Unit) or isinstance(b, Unit):
        return unit_op(ip, op, a, b)
    if isinstance(a, Num) or isinstance(b, Num):
        if op == "BitAnd":
            return logical(ip, b_and, a, b)
        if op == "BitOr":
            return logical(ip, b_or, a, b)
        return prim(ip, PRIMS[op], [a, b], {})
    if isinstance(a, (X, Ite)) or isinstance(b, (X, Ite)):
        return prim(ip, PRIMS[op], [N.to_num(ip, a), N.to_num(ip, b)], {}).v
    if isinstance(a, Dim) and isinstance(b, Dim):
        return Dim(dim_mul(a.d, b.d, 1 if op == "Mult" else -1))
    if isinstance(a, Dim) and op == "Pow":
        return Dim(dim_pow(a.d, b))
    if isinstance(a, AX.Ax) or isinstance(b, AX.Ax):
        if AX.size(a) and AX.size(b) and op in ("Mult", "FloorDiv"):
            r = AX.mul(a, b) if op == "Mult" else AX.div(a, b)
            if r is not None:
                return r
        if op == "Add" and isinstance(a, tuple):
            return a + (b,)
        raise Undecided(f"{op} of axis sizes")
    if isinstance(a, (Sym, Shape)) or isinstance(b, (Sym, Shape)):
        if op == "Add" and isinstance(a, Shape) and isinstance(b, tuple):
            return Shape(a.sh, a.feat + tuple(b))
        if op == "Add" and isinstance(a, tuple) and isinstance(b, Shape) and not a:
            return b
        return Sym((op, _k(a), _k(b)))
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("operator on unknown value")
    if isinstance(a, VIEWS) and isinstance(b, (*VIEWS, set, frozenset, list, tuple)) or isinstance(b, VIEWS) and isinstance(a, (set, frozenset)):
        g = {"Sub": operator.sub, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor}.get(op)
        if g is not None:
            return g(a, b)
    try:
        if op == "Add":
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return _num(a) + _num(b)
        if op == "Sub":
            if isinstance(a, (set, frozenset)):
                return a - b
            return _num(a) - _num(b)
        if op == "Mult":
            if isinstance(a, (str, tuple, list)) or isinstance(a, int) and isinstance(b, (str, tuple, list)):
                return a * b
            return _num(a) * _num(b)
        if op == "Div":
            return Fraction(a) / Fraction(b) if not isinstance(a, float) else a / b
        if op == "Mod":
            if isinstance(a, str):
                if all(isinstance(x, (str, int, float)) for x in (b if isinstance(b, tuple) else (b,))):
                    try:
                        return a % b
                    except (TypeError, ValueError) as e:
                        ip.raise_(type(e).__name__, str(e))
                return a
            return a % b
        if op == "Pow":
            return a ** b
        if op == "FloorDiv":
            return a // b
        if op in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
        if op in ("LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
            return a << b if op == "LShift" else a >> b
    except ZeroDivisionError as e:
        ip.raise_("ZeroDivisionError", str(e))
    except TypeError as e:
        if not (native(a) and native(b)):       # the engine's own limit, not the program's
            raise Undecided(f"operator {op} on {a!r}, {b!r}") from e
        ip.raise_("TypeError", str(e))
    raise Undecided(f"operator {op} on {a!r}, {b!r}")


def native(x):
    """A value of Python itself, that is here what it is there."""
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(native(y) for y in x)
    return x is None or isinstance(x, (bool, int, float, str, Fraction, dict))


def _k(x):
    return x.key if isinstance(x, Sym) else repr(x)


def _num(x):
    if isinstance(x, (int, float, Fraction)):
        return x
    raise Undecided(f"not a number: {x!r}")


def _tn(x):
    return x.cls.name if isinstance(x, Obj) else (x.ty.name if isinstance(x, Num) else type(x).__name__)


def is_notimpl(v):
    return isinstance(v, Ext) and v.name == "builtins.NotImplemented"


def unit_op(ip, op, a, b):
    if isinstance(a, Unit) and isinstance(b, Unit):
        if op == "Mult":
            return Unit(R.mul(a.x, b.x), dim_mul(a.dim, b.dim))
        if op == "Div":
            return Unit(R.div(a.x, b.x), dim_mul(a.dim, b.dim, -1))
    if isinstance(a, Unit) and op == "Pow" and isinstance(b, int):
        return Unit(R.powi(a.x, b), dim_pow(a.dim, b))
    if isinstance(a, Unit) and op == "Pow" and isinstance(b, (Fraction, float)):
        k = Fraction(b).limit_denominator(64)
        if k.denominator == 1:
            return Unit(R.powi(a.x, int(k)), dim_pow(a.dim, int(k)))
        if k.denominator in (2, 3):
            root = R.sqrt(a.x) if k.denominator == 2 else R.app("cbrt", a.x)
            return Unit(R.powi(root, k.numerator), dim_pow(a.dim, k))
    raise Undecided(f"unit operation {op}")


def unop(ip, op, v):
    if isinstance(v, Obj):
        n = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
        f, k = v.cls.lookup(n)
        if f is None:
            ip.raise_("TypeError", f"bad operand for unary {op}")
        return ip.call(ip.bind_inst(f, v, k), [], {})
    if isinstance(v, Num):
        if op == "USub":
            return prim(ip, "neg_p", [v], {})
        if op == "UAdd":
            return v
        if op == "Invert":
            return v.with_(v=vmap1(b_not, v.v))
    if isinstance(v, Ite):
        if isinstance(v.a, (Obj, Num)):
            return ip.lift_obj(lambda x: unop(ip, op, x), v)
        if op == "Invert":
            return b_not(v)
        return tlift(R.neg, v)
    if isinstance(v, X):
        return R.neg(v) if op == "USub" else v
    if isinstance(v, (Sym,)):
        return Sym((op, v.key))
    if isinstance(v, (int, float, Fraction)):
        return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
    raise Undecided(f"unary {op} on {v!r}")


def logical(ip, f, a, b):
    a, b = N.to_num(ip, a), N.to_num(ip, b)
    return Num(ARRAY, N.vzip(ip, f, a.v, b.v), sh=N.bshape(a.sh, b.sh))


def compare(ip, op, a, b):
    if isinstance(a, Ite) and isinstance(a.a, (Obj, Num, Ext, Cls)):
        return ip.lift_obj(lambda x: compare(ip, op, x, b), a)
    if op in ("Is", "IsNot"):
        r = a is b or (isinstance(a, Ext) and a == b) or (isinstance(a, (bool, type(None))) and a is b) or (
            isinstance(a, Sym) and a == b)
        if isinstance(a, Ite) and b is None:
            r = ip.lift_obj(lambda x: x is None, a)
        if isinstance(r, Ite):
            return r if op == "Is" else b_not(r)
        if isinstance(a, Cls) and isinstance(b, Cls):
            r = a is b
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(ip, b, a)
        return r if op == "In" else b_not(r)
    if isinstance(a, Obj) or isinstance(b, Obj):
        if op in ("Eq", "NotEq"):
            for o, x in ((a, b), (b, a)):
                if isinstance(o, Obj):
                    f, k = o.cls.lookup("__eq__")
                    if f is not None:
                        v = ip.call(ip.bind_inst(f, o, k), [x], {})
                        if not is_notimpl(v):
                            return v if op == "Eq" else unop_not(ip, v)
                    elif isinstance(x, Obj) and is_module(o.cls):
                        v = module_eq(ip, o, x)
                        return v if op == "Eq" else unop_not(ip, v)
                    elif isinstance(x, (Obj, dict)) and o.cls.ext_base("abc.Mapping") and not is_module(o.cls):
                        v = compare(ip, "Eq", ip.mapping(o), ip.mapping(x))
                        return v if op == "Eq" else unop_not(ip, v)
                    elif isinstance(x, Obj) and o.cls is x.cls and o.cls.is_dc and o.cls.dc_eq:
                        v = a is b
                        if not v:
                            v = True
                            for fl in ip.all_fields(o.cls):
                                v = b_and(v, ip.pytruth(compare(ip, "Eq", ip.getattr(o, fl.name), ip.getattr(x, fl.name))))
                        return v if op == "Eq" else unop_not(ip, v)
            r = a is b
            return r if op == "Eq" else not r
        n = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        if isinstance(a, Obj):
            f, k = a.cls.lookup(n)
            if f is not None:
                return ip.call(ip.bind_inst(f, a, k), [b], {})
        raise Undecided(f"comparison {op} on {a!r}")
    if isinstance(a, (Num, X, N.Extreme)) or isinstance(b, (Num, X, N.Extreme)):
        if op in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            return op == "NotEq"
        r = N.compare(ip, op, a, b)
        return r
    if isinstance(a, Unit) or isinstance(b, Unit):
        if isinstance(a, str):
            a = parse_unit(a)
        if isinstance(b, str):
            b = parse_unit(b)
        if not (isinstance(a, Unit) and isinstance(b, Unit)):
            return op == "NotEq"
        if a.dim != b.dim:
            return op == "NotEq"
        q = R.sub(a.x, b.x)
        r = R.is_zero(q)
        if not r and R.base_atoms(q) & {x.id for x in R.ATOMS if x.kind == "unit" and x.key[0] == "uin"}:
            r = opaque_bool(("uniteq", q.key()), f"units equal {q!r}")
        return r if op == "Eq" else b_not(r)
    if isinstance(a, Dim) or isinstance(b, Dim):
        if isinstance(a, str):
            a = Dim(V.DIMS[a])
        if isinstance(b, str):
            b = Dim(V.DIMS[b])
        r = isinstance(a, Dim) and isinstance(b, Dim) and a.d == b.d
        return r if op == "Eq" else not r
    if isinstance(a, (Sym, Shape, AX.Ax)) or isinstance(b, (Sym, Shape, AX.Ax)):
        if op == "Eq" and type(a) is type(b) and a == b:
            return True
        return sym_compare(op, a, b)
    if isinstance(a, Top) or isinstance(b, Top):
        raise Undecided("comparison of unknown values")
    if isinstance(a, Ite) or isinstance(b, Ite):
        def f(x, y):
            if isinstance(x, bool) and isinstance(y, bool):
                return (x == y) if op == "Eq" else (x != y)
            return N.compare(ip, op, x, y).v
        return lift(f, a, b)
    try:
        return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
    except TypeError as e:
        if not (native(a) and native(b)):
            raise Undecided(f"comparison {op} on {a!r}, {b!r}") from e
        ip.raise_("TypeError", str(e))


def sym_compare(op, a, b):
    if isinstance(a, AX.Ax) or isinstance(b, AX.Ax):
        if a == b:
            return op in ("Eq", "LtE", "GtE")
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        for x, y, gt in ((a, b, ("Gt", "GtE")), (b, a, ("Lt", "LtE"))):
            if isinstance(x, AX.Ax) and isinstance(y, int) and y <= 1:
                return op in gt
        raise Undecided("comparison of axis sizes")
    # ndim facts: a generic batch has at least one axis
    for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
        if isinstance(x, Sym) and x.key[0] == "ndim" and y == 0:
            if o in ("Gt", "NotEq", "GtE"):
                return True
            if o in ("Eq", "Lt", "LtE"):
                return False
    if op == "Eq" and (isinstance(a, Shape) and b == () or isinstance(b, Shape) and a == ()):
        s = a if isinstance(a, Shape) else b
        return s.sh == () and s.feat == ()
    return opaque_bool((op, _k(a), _k(b)), f"{op}({a!r},{b!r})")


def unop_not(ip, v):
    if isinstance(v, Num):
        return v.with_(v=vmap1(b_not, v.v))
    return b_not(ip.truth(v))


def module_eq(ip, a, b):
    """Default equality of equinox modules: structural."""
    if a.cls is not b.cls:
        return False
    acc = True
    for f in ip.all_fields(a.cls):
        acc = b_and(acc, tree_eq(ip, ip.getattr(a, f.name), ip.getattr(b, f.name)))
        if acc is False:
            return False
    return acc


def tree_eq(ip, x, y):
    """equinox.tree_equal: leaves by value, without calling any __eq__ of a module."""
    if x is y:
        return True
    if isinstance(x, Obj) and isinstance(y, Obj) and is_module(x.cls):
        return module_eq(ip, x, y)
    if isinstance(x, (tuple, list)) and type(x) is type(y):
        if len(x) != len(y):
            return False
        acc = True
        for u, w in zip(x, y):
            acc = b_and(acc, tree_eq(ip, u, w))
        return acc
    if isinstance(x, Num) and isinstance(y, Num):
        if x.ty is not y.ty or x.feat() != y.feat() or x.dim != y.dim:
            return False
        acc = True
        if is_q(x):
            if x.unit is not None and y.unit is not None and not R.eq(x.unit, y.unit):
                acc = compare(ip, "Eq", Unit(x.unit, x.dim), Unit(y.unit, y.dim))
            elif x.unit is None or y.unit is None:
                acc = opaque_bool(("uniteq", repr(x.unit), repr(y.unit), id(x), id(y)), "units equal")
        for p in leaves(N.vzip(ip, lambda u, w: tlift(lambda s, t: V.eq0(R.sub(s, t)), N._x(u), N._x(w)), x.v, y.v)):
            acc = b_and(acc, p)
        return acc
    return ip.truth(compare(ip, "Eq", x, y))


def contains(ip, c, x):
    if isinstance(c, Obj):
        f, k = c.cls.lookup("__contains__")
        if f is not None:
            return ip.pytruth(ip.call(ip.bind_inst(f, c, k), [x], {}))
        f, k = c.cls.lookup("keys")
        if f is not None:
            return contains(ip, ip.call(ip.bind_inst(f, c, k), [], {}), x)
    if isinstance(c, str):
        return x in c
    if isinstance(c, Cls):
        return x in ip.iterate(c)
    vs = ip.iterate(c)
    acc = False
    for y in vs:
        if y is x:
            return True
        if isinstance(x, (Cls, Ext)) or isinstance(y, (Cls, Ext)):
            if isinstance(x, Ext) and x == y:
                return True
            continue
        r = ip.pytruth(compare(ip, "Eq", x, y))
        if r is True:
            return True
        acc = b_or(acc, r)
    return acc


def getitem(ip, o, i):
    if isinstance(o, Ite):
        return ip.lift_obj(lambda x: getitem(ip, x, i), o)
    if isinstance(o, Num):
        if isinstance(o.ty, Cls):
            f, k = o.ty.lookup("__getitem__")
            if f is not None:
                return ip.call(Bound(f, o), [i], {})
        return N.index(ip, o, i)
    if isinstance(o, It):
        ip.raise_("TypeError", "an iterator has no items")
    if isinstance(o, (list, tuple, str)):
        if isinstance(i, (int, slice)):
            try:
                return o[i]
            except IndexError:
                ip.raise_("IndexError", "index out of range")
        raise Undecided(f"index {i!r}")
    if isinstance(o, dict):
        if i in o:
            return o[i]
        for k, v in o.items():
            if isinstance(k, Dim) and isinstance(i, Dim) and k.d == i.d:
                return v
        ip.raise_("KeyError", repr(i))
    if isinstance(o, Ext):
        return subscript_ext(ip, o, i)
    if isinstance(o, Cls):
        if o.issub(Q["AbstractQuantity"]) and isinstance(i, (str, Dim)):
            return param_cls(ip, o, i)
        if o.ext_base("enum.Enum"):
            return o.ns[i]
        return o
    if isinstance(o, (TType, TUnion, JT, TAny)):
        return o
    if isinstance(o, range) and isinstance(i, (int, slice)):
        try:
            return o[i]
        except IndexError:
            ip.raise_("IndexError", "range object index out of range")
    if isinstance(o, Obj):
        f, k = o.cls.lookup("__getitem__")
        if f is not None:
            return ip.call(ip.bind_inst(f, o, k), [i], {})
        if o.cls.name == "UnitSystem":
            d = V.DIMS.get(i) if isinstance(i, str) else i.d if isinstance(i, Dim) else None
            if d is None:
                raise Undecided(f"unit system [{i!r}]")
            return usys_unit(ip, o, d)
        ip.raise_("TypeError", f"{o.cls.name} is not subscriptable")
    if isinstance(o, Shape):
        if isinstance(i, slice) and isinstance(i.start, Sym) and i.start.key[0] == "ndim" and (
                i.stop is None and i.step is None):
            # the axes after the batch axes
            s, r = i.start.key[1], i.start.key[2]
            if N.bshape(o.sh, s) == s and r <= len(o.feat):
                return o.feat[r:]
        if isinstance(i, slice) and o.feat:
            n = len(o.feat)
            if i.start is None and i.step is None and isinstance(i.stop, int) and i.stop < 0 and -i.stop <= n:
                return Shape(o.sh, o.feat[:i.stop] if -i.stop <= n else ())
        if isinstance(i, slice) and isinstance(i.start, int) and i.start < 0 and i.stop is None and i.step is None:
            if -i.start <= len(o.feat):
                return o.feat[i.start:]
            if o.sh != () and -i.start == len(o.feat) + 1:
                return (AX.Ax(f"last of {o.sh}"),) + o.feat     # batch axes are longer than one
        if isinstance(i, int) and i < 0 and -i <= len(o.feat):
            return o.feat[i]
        if isinstance(i, int) and o.sh == () and i < len(o.feat):
            return o.feat[i]
        return Sym(("shape_item", repr(o), repr(i)))
    if o is TYPE:
        return TType(i)
    if isinstance(o, Prim) and o.name in ("classmethod", "staticmethod", "property"):
        return o
    if isinstance(o, type) and o in (list, tuple, dict, set, frozenset, type):
        return o
    if isinstance(o, (Sym, Top)):
        return Sym(("item", repr(o), repr(i)))
    if isinstance(o, PlumF) or isinstance(o, Fn):
        return o
    raise Undecided(f"subscript of {o!r}")


def param_cls(ip, base, dim):
    if isinstance(dim, Dim):
        d, nm = dim.d, repr(dim.d)
    else:
        if dim not in V.DIMS:
            try:
                u = parse_unit(dim)
                d, nm = u.dim, dim
            except Undecided:
                raise Undecided(f"unknown dimension {dim!r}")
        else:
            d, nm = V.DIMS[dim], dim
    key = (base.name, d)
    c = ip.params.get(key)
    if c is None:
        c = Cls(f"{base.name}[{nm}]", base.module)
        c.bases = [base]
        c.mro = [c] + base.mro
        c.param, c.origin = d, base
        ip.params[key] = c
    return c


JAXTYPING = {"Shaped", "Float", "Int", "Real", "Bool", "Num", "Inexact", "Integer", "Complex"}


def subscript_ext(ip, o, i):
    n = o.name
    last = n.split(".")[-1]
    if n.startswith("jaxtyping.") and last in JAXTYPING:
        return JT(last, i[0], i[1])
    if n == "typing.Annotated":
        return i[0]
    if n == "typing.Union":
        return TUnion(list(i) if isinstance(i, tuple) else [i])
    if n == "typing.Optional":
        return TUnion([i, None])
    if n == "typing.Literal":
        return TLit(i if isinstance(i, tuple) else (i,))
    if n in ("builtins.type", "typing.Type"):
        return TType(i)
    if n in ("typing.ClassVar", "typing.Final", "dataclasses.InitVar"):
        return i
    return o


def make_builtins(ip):
    b = {}

    def prim_(name):
        def deco(f):
            b[name] = Prim(name, f)
            return f
        return deco

    @prim_("len")
    def _len(ip, a, kw):
        o = a[0]
        if isinstance(o, Num):
            if o.sh == ():
                if o.rank:
                    return len(o.v)
                ip.raise_("TypeError", "len() of unsized object")
            return Sym(("len", o.sh, o.feat()))
        if isinstance(o, Obj):
            f, k = o.cls.lookup("__len__")
            return ip.call(ip.bind_inst(f, o, k), [], {})
        if isinstance(o, Shape):
            return len(o.feat) if o.sh == () else Sym(("ndim", o.sh, len(o.feat)))
        if isinstance(o, It):
            ip.raise_("TypeError", "len() of an iterator")
        return len(ip.iterate(o))

    @prim_("isinstance")
    def _isinst(ip, a, kw):
        return isinstance_(ip, a[0], a[1])

    @prim_("issubclass")
    def _issub(ip, a, kw):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(subtype(ip, a[0], t) for t in ts)

    @prim_("type")
    def _type(ip, a, kw):
        if len(a) == 3:
            raise Undecided("dynamic class")
        return typeval(ip, a[0])

    @prim_("getattr")
    def _ga(ip, a, kw):
        if len(a) == 3:
            try:
                return ip.getattr(a[0], a[1], a[2])
            except AbsRaise as e:
                if e.exc.cls.name == "AttributeError":
                    return a[2]
                raise
        return ip.getattr(a[0], a[1])

    @prim_("hasattr")
    def _ha(ip, a, kw):
        m = object()
        try:
            return ip.getattr(a[0], a[1], m) is not m
        except AbsRaise:
            return False

    @prim_("setattr")
    def _sa(ip, a, kw):
        ip.setattr(a[0], a[1], a[2])

    @prim_("callable")
    def _callable(ip, a, kw):
        return isinstance(a[0], (Fn, Cls, Prim, Bound, Part, PlumF)) or (
            isinstance(a[0], Obj) and a[0].cls.lookup("__call__")[0] is not None)

    @prim_("zip")
    def _zip(ip, a, kw):
        if len({id(x) for x in a}) < len(a) and any(isinstance(x, It) for x in a):
            out = []
            while all(not isinstance(x, It) or x.items for x in a):
                row = []
                for x in a:
                    if not isinstance(x, It):
                        raise Undecided("zip of one iterator twice and others")
                    if not x.items:
                        break
                    row.append(x.items.pop(0))
                else:
                    out.append(tuple(row))
            return It(out)
        ls = [ip.iterate(x) for x in a]
        if kw.get("strict") and len({len(x) for x in ls}) > 1:
            ip.raise_("ValueError", "zip() arguments of different length")
        return It(zip(*ls))

    @prim_("map")
    def _map(ip, a, kw):
        return It([ip.call(a[0], list(xs), {}) for xs in zip(*[ip.iterate(x) for x in a[1:]])])

    @prim_("filter")
    def _filter(ip, a, kw):
        out = []
        for x in ip.iterate(a[1]):
            t = ip.pytruth(x if a[0] is None else ip.call(a[0], [x], {}))
            if not isinstance(t, bool):
                raise Undecided("filter")
            if t:
                out.append(x)
        return It(out)

    @prim_("enumerate")
    def _enum(ip, a, kw):
        xs = kw["iterable"] if "iterable" in kw else a[0]
        return It([(i + kw.get("start", a[1] if len(a) > 1 else 0), x) for i, x in enumerate(ip.iterate(xs))])

    @prim_("range")
    def _range(ip, a, kw):
        if not all(isinstance(x, int) for x in a):
            return Sym(("range",) + tuple(_k(x) for x in a))
        return range(*a)

    @prim_("reversed")
    def _rev(ip, a, kw):
        return It(reversed(ip.iterate(a[0])))

    @prim_("sorted")
    def _sorted(ip, a, kw):
        return _sorted_list(ip, ip.iterate(a[0]), kw)

    @prim_("sum")
    def _sum(ip, a, kw):
        acc = kw.get("start", a[1] if len(a) > 1 else 0)
        for x in ip.iterate(a[0]):
            acc = binop(ip, "Add", acc, x)
        return acc

    @prim_("any")
    def _any(ip, a, kw):
        acc = False
        for x in ip.iterate(a[0]):
            acc = b_or(acc, ip.pytruth(x))
        return acc

    @prim_("all")
    def _all(ip, a, kw):
        acc = True
        for x in ip.iterate(a[0]):
            acc = b_and(acc, ip.pytruth(x))
        return acc

    @prim_("min")
    def _min(ip, a, kw):
        return extreme(ip, "Lt", ip.iterate(a[0]) if len(a) == 1 else list(a), kw)

    @prim_("max")
    def _max(ip, a, kw):
        return extreme(ip, "Gt", ip.iterate(a[0]) if len(a) == 1 else list(a), kw)

    @prim_("round")
    def _round(ip, a, kw):
        if all(isinstance(x, (int, float)) for x in (*a, *kw.values())):
            return round(*a, **kw)
        raise Undecided("round")

    @prim_("divmod")
    def _divmod(ip, a, kw):
        return (binop(ip, "FloorDiv", a[0], a[1]), binop(ip, "Mod", a[0], a[1]))

    @prim_("pow")
    def _pow(ip, a, kw):
        return binop(ip, "Pow", a[0], a[1])

    @prim_("abs")
    def _abs(ip, a, kw):
        o = a[0]
        if isinstance(o, Obj):
            f, k = o.cls.lookup("__abs__")
            return ip.call(ip.bind_inst(f, o, k), [], {})
        if isinstance(o, (int, float)):
            return abs(o)
        return prim(ip, "abs_p", [o], {})

    @prim_("repr")
    def _repr(ip, a, kw):
        return repr(a[0])[:60]

    @prim_("id")
    def _id(ip, a, kw):
        return id(a[0])

    @prim_("hash")
    def _hash(ip, a, kw):
        return Sym(("hash", repr(a[0])))

    @prim_("next")
    def _next(ip, a, kw):
        if isinstance(a[0], Obj):
            f, k = a[0].cls.lookup("__next__")
            if f is not None:
                try:
                    return ip.call(ip.bind_inst(f, a[0], k), [], {})
                except AbsRaise as e:
                    if len(a) > 1 and isinstance(e.exc, Obj) and e.exc.cls.name == "StopIteration":
                        return a[1]
                    raise
        if not isinstance(a[0], It):
            ip.raise_("TypeError", "not an iterator")
        vs = a[0].items
        if vs:
            return vs.pop(0)
        if len(a) > 1:
            return a[1]
        ip.raise_("StopIteration")

    @prim_("iter")
    def _iter(ip, a, kw):
        if isinstance(a[0], Obj):
            f, k = a[0].cls.lookup("__iter__")
            if f is not None:
                v = ip.call(ip.bind_inst(f, a[0], k), [], {})
                return v if isinstance(v, (It, Obj)) else It(ip.iterate(v))
        return a[0] if isinstance(a[0], It) else It(ip.iterate(a[0]))

    @prim_("vars")
    def _vars(ip, a, kw):
        return ip.getattr(a[0], "__dict__")

    @prim_("print")
    def _print(ip, a, kw):
        return None

    @prim_("property")
    def _property(ip, a, kw):
        return Prop(a[0])

    @prim_("classmethod")
    def _cm(ip, a, kw):
        return ClassM(a[0])

    @prim_("staticmethod")
    def _sm(ip, a, kw):
        return StaticM(a[0])

    @prim_("slice")
    def _slice(ip, a, kw):
        return slice(*a)

    b.update({"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple,
              "dict": dict, "set": set, "frozenset": frozenset, "complex": complex,
              "object": Ext("builtins.object"), "NotImplemented": Ext("builtins.NotImplemented"),
              "Ellipsis": Ellipsis, "True": True, "False": False, "None": None})
    b["type"] = TYPE
    for nm, t in (("classmethod", ClassM), ("staticmethod", StaticM), ("property", Prop)):
        b[nm].f.__dict__["_type"] = t
    TYPE.f = b_type = _type
    return b


class _TypePrim(Prim):
    __slots__ = ()


TYPE = _TypePrim("type", None)


def _sorted_list(ip, vs, kw):
    key = kw.get("key")
    ks = [x if key is None else ip.call(key, [x], {}) for x in vs]
    if not all(isinstance(k, (int, str, float)) or isinstance(k, tuple) and all(isinstance(x, (int, str, float)) for x in k)
               for k in ks):
        raise Undecided("sorted")
    order = sorted(range(len(vs)), key=lambda i: ks[i], reverse=bool(kw.get("reverse")))
    return [vs[i] for i in order]


VIEWS = (type({}.keys()), type({}.items()))


def extreme(ip, op, xs, kw=()):
    """Python's min and max: a comparison and a truth for each further entry."""
    kw = dict(kw)
    if not xs:
        if "default" in kw:
            return kw["default"]
        ip.raise_("ValueError", "empty sequence")
    if kw.get("key") is not None:
        ks = [ip.call(kw["key"], [x], {}) for x in xs]
        if not all(isinstance(k, (int, float, str, tuple)) for k in ks):
            raise Undecided("min/max with a key")
        return xs[ks.index((min if op == "Lt" else max)(ks))]
    if not any(isinstance(x, (Num, Ite, X)) for x in xs):
        return (min if op == "Lt" else max)(xs)
    m = xs[0]
    for x in xs[1:]:
        c = compare(ip, op, x, m)
        ip.pytruth(c)
        m = N.where(ip, c, x, m)
    return m


def native_type(ip, t, args, kw):
    if t is dict:
        d = {}
        if args:
            if isinstance(args[0], (dict, Obj)):
                d.update(ip.mapping(args[0]))
            else:
                for kv in ip.iterate(args[0]):
                    k, v = ip.iterate(kv)
                    d[k] = v
        d.update(kw)
        return d
    if t is tuple and args and isinstance(args[0], Shape):
        return args[0]
    if t in (list, tuple):
        return t(ip.iterate(args[0])) if args else t()
    if t in (set, frozenset):
        vs = ip.iterate(args[0]) if args else []
        try:
            return t(vs)
        except TypeError:
            out = []
            for v in vs:
                if not any(v is w for w in out):
                    out.append(v)
            return out
    if t is str:
        return args[0] if args and isinstance(args[0], str) else (repr(args[0])[:60] if args else "")
    if t is bool:
        return ip.pytruth(args[0])
    if t in (int, float):
        o = args[0]
        if isinstance(o, (int, float, Fraction)):
            return t(o)
        if isinstance(o, Num):
            ip.concrete(o, t.__name__)
            return o.with_(ty=ARRAY) if not is_q(o) else f_ustrip(ip, ["", o], {})
        return o
    raise Undecided(f"{t}()")


def native_attr(ip, o, name):
    if isinstance(o, Dim) and name in ("_physical_type_list", "_physical_type"):
        return sorted({k for k, d in V.DIMS.items() if d == o.d and k and "/" not in k}) or ["unknown"]
    if isinstance(o, PlumF) or isinstance(o, Bound) and isinstance(o.f, PlumF):
        pf = o if isinstance(o, PlumF) else o.f
        if name == "dispatch":
            return Prim("dispatch", lambda ip, a, kw: _dispatch_on(ip, pf, a, kw))
        if name == "dispatch_multi":
            return Prim("dispatch_multi", lambda ip, a, kw: Prim("multi", lambda ip, b, k2: [
                register_method(ip, b[0], None, _fn(b[0]), pf=pf, sig=list(s) if isinstance(s, tuple) else [s])
                for s in a][-1]))
        if name == "register":
            return Prim("register", lambda ip, a, kw: _dispatch_on(ip, pf, a, kw))
        if name in ("invoke",):
            raise Undecided("invoke")
        if name == "__name__":
            return pf.name
        if name == "methods":
            return [m for m in pf.methods]
        if name == "_f":
            return pf
    if isinstance(o, Bound):
        if name == "__func__":
            return o.f
        if name == "__self__":
            return o.self
        return ip.getattr(o.f, name)
    if isinstance(o, Prop):
        if name == "fget":
            return o.f
        if name == "setter":
            return Prim("setter", lambda ip, a, kw: o)
    if isinstance(o, ClassM):
        if name == "__get__":
            def g(ip, a, kw):
                if isinstance(o, StaticM):
                    return o.f
                c = a[1] if len(a) > 1 and a[1] is not None else ip.type_of(a[0])
                return Bound(o.f, c)
            return Prim("__get__", g)
        if name == "__func__":
            return o.f
        return ip.getattr(o.f, name)
    if isinstance(o, (Fn, Prim, Part)):
        if name in ("__name__", "__qualname__"):
            return getattr(o, "name", "partial")
        if name == "__doc__":
            return ""
        if name == "__wrapped__":
            return o
        if isinstance(o, Part) and name == "func":
            return o.f
        if isinstance(o, Fn) and name == "__get__":
            return Prim("__get__", lambda ip, a, kw: Bound(o, a[0]) if a[0] is not None else o)
        if name == "from_":
            return NORET
    if isinstance(o, FieldSpec):
        if name == "name":
            return o.name
        if name == "metadata":
            m = dict(o.metadata)
            if o.converter is not None:
                m["converter"] = o.converter
            if o.static:
                m["static"] = True
            return m
        if name == "default":
            return o.default if o.has_default else Ext("dataclasses.MISSING")
        if name == "default_factory":
            return o.factory if o.factory is not None else Ext("dataclasses.MISSING")
        if name == "type":
            a, e = o.ann
            return ip.ev(a, e)
        if name in ("init", "repr", "compare", "kw_only"):
            return getattr(o, name, True)
    if isinstance(o, Unit):
        if name == "physical_type":
            return Dim(o.dim)
        if name == "to_string":
            return Prim(name, lambda ip, a, kw: repr(o))
        if name == "is_equivalent":
            return Prim(name, lambda ip, a, kw: as_unit(ip, a[0]).dim == o.dim)
        if name == "decompose":
            return Prim(name, lambda ip, a, kw: o)
    if isinstance(o, Dim):
        return NORET
    if isinstance(o, str):
        if name in ("join",):
            return Prim(name, lambda ip, a, kw: o.join(str(x) for x in ip.iterate(a[0])))
        if hasattr(o, name):
            return Prim(name, lambda ip, a, kw: getattr(o, name)(*a, **kw))
    if isinstance(o, dict):
        if name == "items":
            return Prim(name, lambda ip, a, kw: list(o.items()))
        if name == "keys":
            return Prim(name, lambda ip, a, kw: o.keys())
        if name == "values":
            return Prim(name, lambda ip, a, kw: list(o.values()))
        if name == "get":
            return Prim(name, lambda ip, a, kw: o.get(a[0], a[1] if len(a) > 1 else None))
        if name in ("pop", "setdefault", "copy"):
            def f(ip, a, kw):
                if name == "copy":
                    return dict(o)
                if name == "pop" and a[0] not in o and len(a) < 2:
                    ip.raise_("KeyError", a[0])
                return getattr(o, name)(*a)
            return Prim(name, f)
        if name == "update":
            return Prim(name, lambda ip, a, kw: o.update(ip.mapping(a[0]) if a else {}, **kw))
    if isinstance(o, list):
        if name == "sort":
            def f(ip, a, kw):
                o[:] = _sorted_list(ip, list(o), kw)
            return Prim(name, f)
        if name in ("append", "extend", "insert", "pop", "reverse", "clear", "copy", "index", "remove", "count"):
            def f(ip, a, kw):
                if name == "extend":
                    a = [ip.iterate(a[0])]
                if name == "pop":
                    try:
                        return o.pop(*a)
                    except IndexError:
                        ip.raise_("IndexError", "pop from an empty list")
                if name in ("index", "count", "remove") and not all(isinstance(x, (str, int, float, Cls)) for x in (*a, *o)):
                    raise Undecided(f"list.{name}")
                try:
                    return getattr(o, name)(*a)
                except ValueError:
                    ip.raise_("ValueError", f"list.{name}")
            return Prim(name, f)
    if isinstance(o, (tuple,)):
        if name in ("index", "count"):
            return Prim(name, lambda ip, a, kw: getattr(o, name)(*a))
    if isinstance(o, (set, frozenset)):
        if hasattr(o, name):
            return Prim(name, lambda ip, a, kw: getattr(o, name)(*[set(ip.iterate(x)) if name not in ("add", "discard", "remove") else x for x in a]))
    if o in (dict, list, tuple, set, int, float, str, bool):
        if name in ("__name__", "__qualname__"):
            return o.__name__
        if o is dict and name == "fromkeys":
            return Prim(name, lambda ip, a, kw: {k: (a[1] if len(a) > 1 else None) for k in ip.iterate(a[0])})
    if isinstance(o, TType) or isinstance(o, TUnion):
        return NORET
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, (Sym,)):
        return Sym((name, o.key))
    if isinstance(o, Shape) and name in ("__len__",):
        return Prim(name, lambda ip, a, kw: len(o.feat))
    return NORET


def _fn(v):
    while isinstance(v, (ClassM, Part, Bound)):
        v = v.f
    return v if isinstance(v, Fn) else None


def _dispatch_on(ip, pf, a, kw):
    if a and isinstance(a[0], (Fn, ClassM, PlumF)):
        return register_method(ip, a[0], None, _fn(a[0]), pf=pf)
    prec = kw.get("precedence", 0)
    return Prim("dispatch", lambda ip, b, k2: register_method(ip, b[0], None, _fn(b[0]), pf=pf, precedence=prec))


# imported late: the table of function models
from .extfun import call_ext, extreme_of, f_all, f_any, prim  # noqa: E402
from .num import index  # noqa: E402,F401
