"""Models of external functions (by canonical dotted name)."""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import axes as AX
from . import num as N
from . import ring as R
from . import values as V
from .num import ARRAY, is_q
from .plumm import (ANY, TType, conversion_method, convert, isinstance_, promotion_rule, register_method,
                    resolve_method)
from .values import *  # noqa: F403

TABLE = {}
DEBUG = False


def ef(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


NOVALUE = {"shape", "ndim", "size", "array2string", "result_type", "dtype", "broadcast_shapes", "issubdtype"}


def call_ext(ip, f, args, kw):
    n = f.name
    if n.startswith(("np.", "numpy.", "scipy.", "math.")) and n.split(".")[-1] not in NOVALUE:
        for x in (*args, *kw.values()):
            ip.concrete(x, n)
    g = TABLE.get(n)
    if g is None and n.startswith("np.") and ("jnp." + n[3:]) in TABLE:
        g = TABLE["jnp." + n[3:]]
    if g is None and n.startswith("operator.") and ("jnp." + n[9:]) in TABLE:
        g = TABLE["jnp." + n[9:]]
    if g is not None:
        try:
            return g(ip, args, kw)
        except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
            if DEBUG:
                raise
            raise Undecided(f"model of {n}: {type(e).__name__} {e}") from e
    f = prelude(ip, n)
    if f is not None:
        return ip.call(f, args, kw)
    last = n.split(".")[-1]
    if n.startswith("astropy.") and last[:1].isupper():
        from . import apy
        if last in apy.COMPS:
            o = apy.construct(ip, last, args, kw)
            if o is not None:
                return o
        o = Obj(EXTCLS, {"args": tuple(args), **kw})
        o.tag = n
        return o
    if last == "from_euler":
        return rotation_from_euler(ip, args, kw)
    raise Undecided(f"no model of {n}")


def prelude(ip, n):
    """Functions given in terms of others (stubs/saprelude.py)."""
    m = ip.load("saprelude")
    for pre in ("", "jnp." + n[9:] if n.startswith("operator.") else "", "jnp." + n[3:] if n.startswith("np.") else ""):
        f = m.ns.get((pre or n).replace(".", "__"))
        if isinstance(f, Fn):
            return f
    return None


EXTCLS = Cls("ExtObject", "ext")
EXTCLS.mro = [EXTCLS]


# ------------------------------------------------------------------ primitives
def prim(ip, name, args, kw):
    """Call a JAX primitive: registered overloads first, then the numeric model."""
    args = list(args)
    for i, a in enumerate(args):
        if isinstance(a, Ite) and isinstance(_leaf(a), (Obj, Num)):
            return ip.lift_obj(lambda x: prim(ip, name, args[:i] + [x] + args[i + 1:], kw), a)
    pf = ip.quax.get(name)
    if pf is not None:
        nargs = [N.to_num(ip, a) if not isinstance(a, (Obj, Num)) else a for a in args]
        m = resolve_method(ip, pf, nargs)
        if isinstance(m, list):
            ip.raise_("LookupError", f"AmbiguousLookupError: {name} on ({', '.join(_tn(a) for a in args)})")
        if m is not None:
            if ip.trace_dispatch is not None:
                ip.trace_dispatch.append((name, tuple(_tn(a) for a in args), m))
            return ip.call(m.raw, nargs, kw)
    if any(isinstance(a, Obj) for a in args):
        ip.raise_("RuntimeError", f"Refusing to materialise: {name} on ({', '.join(_tn(a) for a in args)})")
    f = NUMERIC.get(name)
    if f is None:
        raise Undecided(f"no model of primitive {name}")
    return f(ip, *args, **kw)


def _leaf(v):
    while isinstance(v, Ite):
        v = v.a
    return v


def _tn(x):
    return x.cls.name if isinstance(x, Obj) else (
        (x.ty.name if isinstance(x.ty, Cls) else "Array") if isinstance(x, Num) else type(x).__name__)


def _shape_prim(name):
    def f(ip, x, **kw):
        x = N.to_num(ip, x)
        key = tuple(sorted((k, repr(v)) for k, v in kw.items()))
        if name == "convert_element_type_p":
            return N.cast(x, kw.get("new_dtype"))
        if AX.is_ax(x.sh):
            from .ext import ax_to_shape
            if name == "reshape_p":
                if kw.get("dimensions") is not None:
                    raise Undecided("reshape of permuted dimensions")
                return ax_to_shape(ip, x, kw["new_sizes"], N.ax_reshape)
            if name == "broadcast_in_dim_p":
                return ax_to_shape(ip, x, kw["shape"], ax_broadcast_to)
            raise Undecided(name)
        return x.with_(sh=(name, key, x.sh))
    return f


def _abs(ip, a):
    a = N.to_num(ip, a)

    def one(x):
        return R.abs_(x)
    return N.map1(ip, a, one)


def _sign(ip, a):
    a = N.to_num(ip, a)
    return Num(ARRAY, vmap1(lambda x: tlift(R.sign, N._x(x)), a.v), sh=a.sh)


def _ipow(ip, a, y=None, **kw):
    return N.power(ip, a, y)


NUMERIC = {
    "add_p": N.add, "sub_p": lambda ip, a, b: N.add(ip, a, b, -1), "mul_p": N.mul, "div_p": N.div,
    "neg_p": N.neg, "sqrt_p": N.sqrt, "atan2_p": N.atan2, "abs_p": _abs, "sign_p": _sign,
    "cos_p": lambda ip, a: N.trig(ip, a, R.cos), "sin_p": lambda ip, a: N.trig(ip, a, R.sin),
    "tan_p": lambda ip, a: N.trig(ip, a, R.tan), "acos_p": lambda ip, a: N.inv_trig(ip, a, R.acos),
    "asin_p": lambda ip, a: N.inv_trig(ip, a, R.asin),
    "atan_p": lambda ip, a: N.inv_trig(ip, a, lambda x: R.atan2(x, R.const(1))),
    "pow_p": lambda ip, a, b: N.power(ip, a, b), "integer_pow_p": _ipow, "rem_p": N.mod,
    "dot_general_p": lambda ip, a, b, **kw: N.matmul(ip, a, b),
    "eq_p": lambda ip, a, b: N.compare(ip, "Eq", a, b), "lt_p": lambda ip, a, b: N.compare(ip, "Lt", a, b),
    "gt_p": lambda ip, a, b: N.compare(ip, "Gt", a, b), "ge_p": lambda ip, a, b: N.compare(ip, "GtE", a, b),
    "le_p": lambda ip, a, b: N.compare(ip, "LtE", a, b), "ne_p": lambda ip, a, b: N.compare(ip, "NotEq", a, b),
    "reshape_p": _shape_prim("reshape_p"), "broadcast_in_dim_p": _shape_prim("broadcast_in_dim_p"),
    "convert_element_type_p": _shape_prim("convert_element_type_p"),
    "cbrt_p": lambda ip, a: N.map1(ip, a, lambda x: R.app("cbrt", x)),
}


def bin_(p):
    def f(ip, args, kw):
        if p == "pow_p" and not isinstance(args[0], Obj):
            return pow_(ip, args[0], args[1])
        return prim(ip, p, args[:2], {})
    return f


def pow_(ip, a, b):
    if isinstance(a, Num) and isinstance(b, int):
        return prim(ip, "integer_pow_p", [a], {"y": b})
    return prim(ip, "pow_p", [a, b], {})


for nm, p in [("add", "add_p"), ("subtract", "sub_p"), ("sub", "sub_p"), ("multiply", "mul_p"), ("mul", "mul_p"),
              ("divide", "div_p"), ("true_divide", "div_p"), ("truediv", "div_p"), ("div", "div_p"), ("mod", "rem_p"), ("rem", "rem_p"),
              ("remainder", "rem_p"), ("power", "pow_p"), ("pow", "pow_p"), ("atan2", "atan2_p"),
              ("arctan2", "atan2_p"), ("equal", "eq_p"), ("eq", "eq_p"), ("less", "lt_p"), ("lt", "lt_p"),
              ("greater", "gt_p"), ("gt", "gt_p"), ("less_equal", "le_p"), ("le", "le_p"),
              ("greater_equal", "ge_p"), ("ge", "ge_p"), ("not_equal", "ne_p"), ("ne", "ne_p"),
              ("matmul", "dot_general_p"), ("dot", "dot_general_p")]:
    TABLE["jnp." + nm] = TABLE["lax." + nm] = bin_(p)


def un_(p):
    return lambda ip, args, kw: prim(ip, p, args[:1], {})


for nm, p in [("negative", "neg_p"), ("neg", "neg_p"), ("sqrt", "sqrt_p"), ("abs", "abs_p"), ("absolute", "abs_p"),
              ("sign", "sign_p"), ("cos", "cos_p"), ("sin", "sin_p"), ("tan", "tan_p"), ("acos", "acos_p"),
              ("arccos", "acos_p"), ("asin", "asin_p"), ("arcsin", "asin_p"), ("atan", "atan_p"),
              ("arctan", "atan_p"), ("cbrt", "cbrt_p")]:
    TABLE["jnp." + nm] = TABLE["lax." + nm] = un_(p)


@ef("lax.integer_pow")
def _(ip, a, kw):
    return prim(ip, "integer_pow_p", [a[0]], {"y": kw.get("y", a[1] if len(a) > 1 else None)})


@ef("jnp.square", "lax.square")
def _(ip, a, kw):
    return prim(ip, "integer_pow_p", [a[0]], {"y": 2})


@ef("jnp.hypot")
def _(ip, a, kw):
    x, y = a
    return N.sqrt(ip, N.add(ip, N.mul(ip, x, x), N.mul(ip, y, y)))


for _n in ("reshape_p", "convert_element_type_p", "dot_general_p", "broadcast_in_dim_p", "add_p", "mul_p", "sub_p", "div_p", "neg_p"):
    TABLE[f"lax.{_n}.bind"] = (lambda n: lambda ip, a, kw: prim(ip, n, a, kw))(_n)


@ef("jnp.deg2rad", "jnp.radians")
def _(ip, a, kw):
    return N.mul(ip, a[0], R.div(R.pi(), R.const(180)))


@ef("jnp.rad2deg", "jnp.degrees")
def _(ip, a, kw):
    return N.mul(ip, a[0], R.div(R.const(180), R.pi()))


TABLE["jnp.log10"] = lambda ip, a, kw: _log10(ip, a[0])


def _log10(ip, x):
    x = N.to_num(ip, x)
    if is_q(x) and x.dim != ():
        ip.raise_("ValueError", "units: log10 of a dimensional quantity")
    if is_q(x):     # unxt takes the logarithm of the dimensionless value and labels it with the unit of x
        return N.map1(ip, x, lambda v: v).with_(v=V.tlift(lambda v, un: R.mul(R.log10(v), un), x.v, x.unit))
    return N.map1(ip, x, R.log10)


@ef("jnp.where", "jnp.select_n")
def _(ip, a, kw):
    return N.where(ip, a[0], a[1], a[2])


@ef("lax.select")
def _(ip, a, kw):
    pred, x, y = kw.get("pred", a[0] if a else None), *( [kw.get("on_true", a[1] if len(a) > 1 else None), kw.get("on_false", a[2] if len(a) > 2 else None)])
    return N.where(ip, pred, x, y)


@ef("lax.cond", "jax.lax.cond")
def _(ip, a, kw):
    c = ip.truth(a[0])
    ops = a[3:]
    if isinstance(c, bool):
        return ip.call(a[1] if c else a[2], ops, {})
    outs = []
    for f, val in ((a[1], True), (a[2], False)):
        ip.guards.append((c, val))
        try:
            outs.append(ip.call(f, ops, {}))
        finally:
            ip.guards.pop()
    return ip.merge(c, outs[0], outs[1])


@ef("jnp.select")
def _(ip, a, kw):
    conds, vals = ip.iterate(a[0]), ip.iterate(a[1])
    d = kw.get("default", a[2] if len(a) > 2 else 0)
    for c, v in reversed(list(zip(conds, vals))):
        d = N.where(ip, c, v, d)
    return d


@ef("jnp.clip")
def _(ip, a, kw):
    x = a[0]
    lo = kw.get("min", kw.get("a_min", a[1] if len(a) > 1 else None))
    hi = kw.get("max", kw.get("a_max", a[2] if len(a) > 2 else None))
    if lo is not None:
        x = N.where(ip, N.compare(ip, "Lt", x, lo), lo, x)
    if hi is not None:
        x = N.where(ip, N.compare(ip, "Gt", x, hi), hi, x)
    return x


@ef("jnp.maximum", "lax.max")
def _(ip, a, kw):
    return N.where(ip, N.compare(ip, "Lt", a[0], a[1]), a[1], a[0])


@ef("jnp.minimum", "lax.min")
def _(ip, a, kw):
    return N.where(ip, N.compare(ip, "Lt", a[0], a[1]), a[0], a[1])


def f_any(ip, a, kw):
    x = N.to_num(ip, a[0])
    acc = False
    for v in leaves(x.v):
        v = ip.truth(v) if not isinstance(v, Top) else Top_raise(v)
        acc = b_or(acc, v)
    if not isinstance(acc, bool) and x.sh != ():
        # this element satisfies it, or one of the others of the batch does
        acc = b_or(acc, b_not(V.others_bool(b_not(acc))))
    return Num(ARRAY, acc)


def Top_raise(v):
    raise Undecided(v.why)


def f_all(ip, a, kw):
    x = N.to_num(ip, a[0])
    axis = kw.get("axis", a[1] if len(a) > 1 else None)
    if axis is not None:
        axes = tuple(axis) if isinstance(axis, (tuple, list)) else (axis,)
        n = len(axes)
        if any(not isinstance(i, int) for i in axes) or n > x.rank or sorted(axes) != list(range(-n, 0)):
            raise Undecided(f"all over axes {axis!r}")

        def conj(v):
            acc = True
            for p in leaves(v):
                acc = b_and(acc, ip.truth(p) if not isinstance(p, Top) else Top_raise(p))
            return acc

        def go(v, d):
            return conj(v) if d == n else [go(y, d - 1) for y in v]
        return x.with_(ty=N.ARRAY, v=go(x.v, x.rank) if n else x.v)
    acc = True
    for v in leaves(x.v):
        v = ip.truth(v) if not isinstance(v, Top) else Top_raise(v)
        acc = b_and(acc, v)
    if not isinstance(acc, bool) and x.sh != ():
        # this element satisfies it, and so do all the others of the batch
        acc = b_and(acc, V.others_bool(acc))
    return Num(ARRAY, acc)


TABLE["jnp.any"] = f_any
TABLE["jnp.all"] = f_all


def _logical(f):
    def g(ip, a, kw):
        x, y = N.to_num(ip, a[0]), N.to_num(ip, a[1])
        return Num(ARRAY, N.vzip(ip, f, x.v, y.v), sh=N.bshape(x.sh, y.sh))
    return g


TABLE["jnp.logical_or"] = _logical(b_or)
TABLE["jnp.logical_and"] = _logical(b_and)


@ef("jnp.logical_not")
def _(ip, a, kw):
    x = N.to_num(ip, a[0])
    return x.with_(v=vmap1(b_not, x.v))


@ef("jnp.logical_and.reduce")
def _(ip, a, kw):
    x = N.to_num(ip, a[0])
    acc = True
    vs = x.v if isinstance(x.v, list) else [x.v]
    for v in vs:
        acc = _b2(b_and, acc, v)
    return Num(ARRAY, acc, sh=x.sh)


def _b2(f, a, b):
    if isinstance(b, list):
        return [_b2(f, a if not isinstance(a, list) else a[i], y) for i, y in enumerate(b)]
    return f(a, b)


@ef("jnp.allclose", "jnp.array_equal", "np.allclose", "np.array_equal")
def _(ip, a, kw):
    """Equality up to tolerance: one opaque predicate for the component-wise equality."""
    x, y = N.to_num(ip, a[0]), N.to_num(ip, a[1])
    if is_q(x) != is_q(y) or x.dim != y.dim:
        q = x if is_q(x) else y
        if q.dim != ():
            o = y if q is x else x
            if not all(isinstance(v, X) and R.is_zero(v) for v in leaves(o.v)):
                ip.raise_("ValueError", "units: allclose of different dimensions")
    acc = True
    for p in leaves(N.vzip(ip, lambda u, w: tlift(lambda s, t: V.eq0(R.sub(s, t)), N._x(u), N._x(w)), x.v, y.v)):
        if isinstance(p, Top):
            raise Undecided(p.why)
        acc = b_and(acc, p)
    ip.effect("allclose", {k: v for k, v in kw.items()})
    return Num(ARRAY, acc)


@ef("jnp.isclose")
def _(ip, a, kw):
    return N.compare(ip, "Eq", a[0], a[1])


@ef("jnp.min", "jnp.amin")
def _(ip, a, kw):
    return extreme_of("min", N.to_num(ip, a[0]), a[1:], kw)


@ef("jnp.max", "jnp.amax")
def _(ip, a, kw):
    return extreme_of("max", N.to_num(ip, a[0]), a[1:], kw)


def extreme_of(name, n, a, kw):
    if a or kw:
        raise Undecided(f"{name} over an axis")
    return N.Extreme(n, name == "min")


@ef("jnp.sum")
def _(ip, a, kw):
    return N.reduce_sum(ip, a[0], kw.get("axis", a[1] if len(a) > 1 else None))


@ef("jnp.prod", "math.prod")
def _(ip, a, kw):
    if isinstance(a[0], (tuple, list)) and all(AX.size(x) for x in a[0]):
        return AX.prod(a[0])
    from .ext import Sym
    return Sym(("prod", repr(a[0])))


@ef("jnp.linalg.vector_norm", "jnp.linalg.norm")
def _(ip, a, kw):
    x = a[0]
    axis = kw.get("axis", a[1] if len(a) > 1 else None)
    if isinstance(x, Obj):
        sq = prim(ip, "mul_p", [x, x], {})
        return prim(ip, "sqrt_p", [sum_obj(ip, sq, axis)], {})
    return N.vector_norm(ip, x, axis, bool(kw.get("keepdims")))


def sum_obj(ip, x, axis):
    if isinstance(x, Num):
        return N.reduce_sum(ip, x, axis)
    ip.raise_("RuntimeError", f"Refusing to materialise: reduce_sum on {x.cls.name}")


@ef("jnp.stack")
def _(ip, a, kw):
    return N.stack(ip, ip.iterate(a[0]), kw.get("axis", a[1] if len(a) > 1 else 0))


@ef("jnp.concat", "jnp.concatenate")
def _(ip, a, kw):
    return N.concat(ip, ip.iterate(a[0]), kw.get("axis", a[1] if len(a) > 1 else 0))


@ef("jnp.asarray", "jnp.array")
def _(ip, a, kw):
    x = a[0]
    if isinstance(x, (Obj,)):
        return x
    if isinstance(x, (list, tuple)):
        xs = ip.iterate(x)
        if any(isinstance(v, AX.Ax) for v in xs) or x == ():
            return x
        if xs and all(isinstance(v, Num) for v in xs) and any(is_q(v) for v in xs):
            raise Undecided("array of quantities")
        if xs and all(isinstance(v, Num) and v.rank == 0 for v in xs) and any(v.sh != () for v in xs):
            return Num(ARRAY, [v.v for v in xs], sh=("lead", N.bshape(*[v.sh for v in xs])))
    return N.cast(N.to_num(ip, x), kw.get("dtype", a[1] if len(a) > 1 else None))


@ef("jnp.atleast_1d")
def _(ip, a, kw):
    x = N.to_num(ip, a[0])
    if x.sh == () and x.rank == 0:
        return x.with_(v=[x.v])
    return x


@ef("jnp.broadcast_arrays")
def _(ip, a, kw):
    if any(isinstance(x, Obj) for x in a):
        raise Undecided("broadcast of objects")
    ns = [N.to_num(ip, x) for x in a]
    sh = N.bshape(*[n.sh for n in ns])
    feats = {n.feat() for n in ns}
    if len(feats) > 1:
        f = max(feats, key=len)

        def ex(n):
            v = n.v
            if n.feat() == f:
                return n.with_(sh=sh)
            if n.sh != () :
                ip.effect("misalign", "broadcast of batched scalar against features")
            z = _zeros(f)
            return n.with_(v=N.vzip(ip, lambda x, _: x, v, z), sh=sh)
        return [ex(n) for n in ns]
    return [n.with_(sh=sh) for n in ns]


def _zeros(f):
    if not f:
        return R.const(0)
    return [_zeros(f[1:]) for _ in range(f[0])]


@ef("jnp.broadcast_shapes", "lax.broadcast_shapes")
def _(ip, a, kw):
    sh, feat = (), ()
    if not any(isinstance(s, Shape) and s.sh != () for s in a):
        out = ()
        for s in a:
            s = N.shape_of(s)
            if s is None:
                raise Undecided("broadcast_shapes")
            out = AX.bcast_sizes(out, s)
        return out
    for s in a:
        if isinstance(s, tuple):
            s = Shape((), s)
        if not isinstance(s, Shape):
            raise Undecided("broadcast_shapes")
        sh = N.bshape(sh, s.sh)
        if len(s.feat) > len(feat):
            feat = s.feat
    return Shape(sh, feat)


def ax_broadcast_to(ip, x, t):
    full = AX.sizes(x.sh) + x.feat()
    if AX.bcast_sizes(full, t) != tuple(t):
        raise AX.Bad("ValueError", f"Incompatible shapes for broadcasting: {full} and requested shape {t}")
    r = x.rank
    if t[len(t) - r:] != x.feat() and r:
        raise Undecided("broadcast of feature axes")
    bat, v = t[:len(t) - r], x.v
    if AX.sizes(x.sh) == () and not any(isinstance(y, AX.Ax) for y in bat) and x.sh == ():
        for f in reversed(bat):
            v = [v] * f
        return x.with_(v=v)
    return x.with_(v=v, sh=AX.broadcast_to(x.sh, bat))


@ef("jnp.broadcast_to")
def _(ip, a, kw):
    if isinstance(a[0], Obj):
        return prim(ip, "broadcast_in_dim_p", [a[0]], {"shape": a[1], "broadcast_dimensions": Top("dimensions")})
    x = N.to_num(ip, a[0])
    s = N.shape_of(a[1] if len(a) > 1 else kw["shape"])
    if isinstance(s, tuple):
        if x.sh != () and not AX.is_ax(x.sh):
            s = Shape((), s)
        else:
            return ax_broadcast_to(ip, x, s)
    if isinstance(s, Shape):
        n = len(s.feat) - x.rank
        v = x.v
        for f in reversed(s.feat[:max(n, 0)]):
            v = [v] * f
        return x.with_(v=v, sh=N.bshape(x.sh, s.sh))
    return x.with_(sh=("broadcast_to", repr(s), x.sh))


@ef("jnp.shape")
def _(ip, a, kw):
    return ip.getattr(a[0] if isinstance(a[0], (Obj, Num)) else N.to_num(ip, a[0]), "shape")


@ef("jnp.ndim")
def _(ip, a, kw):
    return ip.getattr(a[0] if isinstance(a[0], (Obj, Num)) else N.to_num(ip, a[0]), "ndim")


@ef("jnp.zeros", "jnp.ones", "jnp.zeros_like", "jnp.ones_like")
def _zeros_any(ip, a, kw):
    raise Undecided("unreachable")


def _filled(c):
    def f(ip, a, kw):
        s = a[0] if a else kw["shape"]
        if isinstance(s, int):
            s = (s,)
        if isinstance(s, Shape):
            return Num(ARRAY, vmap1(lambda _: R.const(c), _zeros(s.feat)), sh=s.sh)
        if not all(isinstance(x, int) for x in s):
            if any(not isinstance(x, int) for x in s[:-1]) and isinstance(s[-1], int):
                return Num(ARRAY, [R.const(c)] * s[-1], sh=("sh", repr(s[:-1])))
            raise Undecided("array of unknown shape")
        return Num(ARRAY, vmap1(lambda _: R.const(c), _zeros(tuple(s))))
    return f


def _filled_like(c):
    def f(ip, a, kw):
        n = N.to_num(ip, a[0])
        return n.with_(v=vmap1(lambda _: R.const(c), n.v)) if not (is_q(n) and c) else n.with_(
            v=vmap1(lambda _: tlift(R.mul, R.const(c), n.unit), n.v))
    return f


TABLE["jnp.zeros"] = _filled(0)
TABLE["jnp.ones"] = _filled(1)
TABLE["jnp.zeros_like"] = _filled_like(0)
TABLE["jnp.ones_like"] = _filled_like(1)


@ef("jnp.full")
def _(ip, a, kw):
    z = _filled(0)(ip, a[:1], {})
    return z.with_(v=vmap1(lambda _: N.to_num(ip, a[1]).v, z.v))


@ef("jnp.eye", "jnp.identity")
def _(ip, a, kw):
    n = a[0]
    return Num(ARRAY, [[R.const(int(i == j)) for j in range(n)] for i in range(n)])


@ef("jnp.diag", "jnp.diagonal")
def _(ip, a, kw):
    x = N.to_num(ip, a[0])
    n = len(x.v)
    if isinstance(x.v[0], list):
        if len(a) > 1 or kw:
            raise Undecided("diagonal with an offset")
        return x.with_(v=[x.v[i][i] for i in range(n)])
    return x.with_(v=[[x.v[i] if i == j else R.const(0) for j in range(n)] for i in range(n)])


@ef("jnp.squeeze")
def _(ip, a, kw):
    x = N.to_num(ip, a[0])
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if ax == -1 and x.rank and x.feat()[-1] == 1:
        return N.index(ip, x, (Ellipsis, 0))
    raise Undecided("squeeze")


@ef("jnp.expand_dims")
def _(ip, a, kw):
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if ax == -1:
        return N.index(ip, N.to_num(ip, a[0]), (Ellipsis, None))
    raise Undecided("expand_dims")


def ax_transpose(ip, name, x, rest):
    full = AX.sizes(x.sh) + x.feat()
    n = len(full)
    p = list(range(n))
    if name.endswith("matrix_transpose"):
        if n < 2:
            ip.raise_("ValueError", "matrix_transpose of an array with fewer than two axes")
        p[-1], p[-2] = p[-2], p[-1]
    elif name.endswith("swapaxes"):
        i, j = (AX.norm_axis(k, n) for k in rest)
        p[i], p[j] = p[j], p[i]
    elif name.endswith("moveaxis"):
        i, j = (AX.norm_axis(k, n) for k in rest)
        p.insert(j, p.pop(i))
    else:
        p = rest[0] if rest else None
    return N.ax_rearrange(ip, x, p)


@ef("jnp.reshape", "jnp.ravel")
def _(ip, a, kw):
    ravel = ip.cur_ext.endswith("ravel")
    order = kw.get("order", (a[2] if len(a) > 2 else "C") if not ravel else a[1] if len(a) > 1 else "C")
    if order != "C":
        raise Undecided("memory order")
    if isinstance(a[0], Obj):
        if ravel:
            raise Undecided("ravel of an object")
        return prim(ip, "reshape_p", [a[0]], {"new_sizes": kw.get("shape", a[1] if len(a) > 1 else None), "dimensions": None})
    x = N.to_num(ip, a[0])
    meth = ip.getattr(x, "ravel" if ravel else "reshape")
    if ravel:
        return ip.call(meth, [], {})
    return ip.call(meth, [kw["shape"] if "shape" in kw else a[1]], {})


@ef("jnp.swapaxes", "jnp.matrix_transpose", "jnp.transpose", "lax.transpose", "jnp.moveaxis")
def _(ip, a, kw):
    x = a[0]
    rest = a[1:] or list(kw.values())
    if isinstance(x, Obj):
        raise Undecided("transpose of an object")
    x = N.to_num(ip, x)
    if AX.is_ax(x.sh):
        return ax_transpose(ip, ip.cur_ext, x, rest)
    if x.rank == 2 and x.sh == () and (not rest or list(rest) in ([-1, -2], [-2, -1], [(1, 0)])):
        return N.transpose_last(ip, x)
    if x.rank == 2 and list(rest) in ([-1, -2], [-2, -1]):
        return N.transpose_last(ip, x)
    from .ext import _shkey
    return x.with_(v=x.v if x.rank == 0 else Top("transpose"), sh=("transpose", tuple(_shkey(r) for r in rest), x.sh))


@ef("jnp.linalg.inv")
def _(ip, a, kw):
    raise Undecided("matrix inverse")


@ef("jnp.einsum")
def _(ip, a, kw):
    spec = a[0].replace(" ", "")
    if spec in ("...ij,...j->...i", "ij,...j->...i", "ij,j->i"):
        x, y = N.to_num(ip, a[1]), N.to_num(ip, a[2])
        return matvec(ip, x, y)
    raise Undecided("einsum")


@ef("jnp.matvec")
def _(ip, a, kw):
    return matvec(ip, N.to_num(ip, a[0]), N.to_num(ip, a[1]))


def matvec(ip, m, v):
    if m.rank != 2 or v.rank != 1:
        raise Undecided("matvec")
    y2 = v.with_(sh=())
    r = N.matmul(ip, m.with_(sh=()), y2)
    return r.with_(sh=N.bshape(m.sh, v.sh))


@ef("jnp.vectorize")
def _(ip, a, kw):
    if a:
        f = a[0]

        def g(ip, b, k2, f=f):
            return batched_call(ip, f, b, k2)
        return Prim("vectorized", g)
    return Prim("vectorize", lambda ip, b, k2: TABLE["jnp.vectorize"](ip, b, kw))


def batched_call(ip, f, b, k2):
    """Call f with batch axes stripped, then restore them (vmap / vectorize)."""
    shs = []

    def strip(x):
        if isinstance(x, Num):
            shs.append(x.sh)
            return x.with_(sh=())
        if isinstance(x, Obj):
            return ip.mkobj(x.cls, {k: strip(v) for k, v in x.d.items()})
        if isinstance(x, (list, tuple)):
            return type(x)(strip(y) for y in x)
        return x
    args = [strip(x) for x in b]
    r = ip.call(f, args, k2)
    sh = N.bshape(*shs)

    def put(x):
        if isinstance(x, Num):
            return x.with_(sh=N.bshape(x.sh, sh))
        if isinstance(x, Obj):
            return ip.mkobj(x.cls, {k: put(v) for k, v in x.d.items()})
        if isinstance(x, (list, tuple)):
            return type(x)(put(y) for y in x)
        return x
    return put(r)


@ef("jax.vmap", "equinox.filter_vmap")
def _(ip, a, kw):
    f = a[0]
    axes = kw.get("in_axes", a[1] if len(a) > 1 else None)

    def check(x, ax):
        if isinstance(ax, Obj) and isinstance(x, Obj):
            for k, v in x.d.items():
                if isinstance(v, (Num, Obj)):
                    check(v, ax.d.get(k))
        elif isinstance(ax, (list, tuple)) and isinstance(x, (list, tuple)):
            for y, b in zip(x, ax):
                check(y, b)
        elif isinstance(x, Obj):
            for fs in ip.all_fields(x.cls):
                if not fs.static and isinstance(x.d.get(fs.name), (Num, Obj)):
                    check(x.d[fs.name], ax)
        elif isinstance(x, Num):
            if ax is None:
                if x.sh != ():
                    raise Undecided("vmap over some of the batched arguments")
            elif isinstance(ax, Ite) or not isinstance(ax, int) or ax != 0 or (x.sh == () and x.rank):
                raise Undecided("vmap axis")
            elif x.sh == ():
                ip.raise_("ValueError", "vmap was requested to map its argument along axis 0, which implies that its "
                          "rank should be at least 1, but is only 0")

    def g(ip, b, k2):
        for i, x in enumerate(b):
            check(x, axes[i] if isinstance(axes, (list, tuple)) else 0 if axes is None else axes)
        return batched_call(ip, f, b, k2)
    return Prim("vmapped", g)


@ef("jax.jit", "equinox.filter_jit", "quax.quaxify", "equinox.filter_checkpoint", "functools.lru_cache", "functools.cache")
def _(ip, a, kw):
    if not a:
        return Prim("id", lambda ip, b, k: b[0])
    return a[0]


@ef("functools.wraps")
def _(ip, a, kw):
    return Prim("id", lambda ip, b, k: b[0])


@ef("itertools.chain")
def _(ip, a, kw):
    return It([x for y in a for x in ip.iterate(y)])


@ef("itertools.chain.from_iterable")
def _(ip, a, kw):
    return It([x for y in ip.iterate(a[0]) for x in ip.iterate(y)])


@ef("itertools.product")
def _(ip, a, kw):
    return It(itertools.product(*[ip.iterate(x) for x in a], **kw))


for _nm in ("combinations", "permutations", "combinations_with_replacement"):
    ef("itertools." + _nm)(lambda ip, a, kw, f=getattr(itertools, _nm): It(f(ip.iterate(a[0]), *a[1:], **kw)))


@ef("itertools.starmap")
def _(ip, a, kw):
    return It([ip.call(a[0], ip.iterate(x), {}) for x in ip.iterate(a[1])])


@ef("itertools.pairwise")
def _(ip, a, kw):
    return It(itertools.pairwise(ip.iterate(a[0])))


@ef("itertools.zip_longest")
def _(ip, a, kw):
    return It(itertools.zip_longest(*[ip.iterate(x) for x in a], **kw))


@ef("itertools.islice")
def _(ip, a, kw):
    return It(list(ip.iterate(a[0]))[slice(*a[1:])])


@ef("itertools.accumulate")
def _(ip, a, kw):
    out = []
    f = a[1] if len(a) > 1 else kw.get("func")
    xs = list(ip.iterate(a[0]))
    if kw.get("initial") is not None:
        xs = [kw["initial"], *xs]
    for x in xs:
        out.append(x if not out else ip.ext.binop(ip, "Add", out[-1], x) if f is None else ip.call(f, [out[-1], x], {}))
    return It(out)


OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult", "pow": "Pow", "mod": "Mod",
       "floordiv": "FloorDiv", "or_": "BitOr", "and_": "BitAnd", "xor": "BitXor"}
for _nm, _op in OPS.items():
    for _pre in ("operator.", "operator.i"):
        ef(_pre + _nm.rstrip("_") if _pre[-1] == "i" else _pre + _nm)(lambda ip, a, kw, op=_op: ip.ext.binop(ip, op, *a))
        ef(_pre + "__" + _nm.rstrip("_") + "__")(lambda ip, a, kw, op=_op: ip.ext.binop(ip, op, *a))
for _nm, _op in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}.items():
    ef("operator." + _nm)(lambda ip, a, kw, op=_op: ip.ext.compare(ip, op, *a))
for _nm, _op in {"neg": "USub", "pos": "UAdd", "invert": "Invert", "inv": "Invert"}.items():
    ef("operator." + _nm)(lambda ip, a, kw, op=_op: ip.ext.unop(ip, op, a[0]))
ef("operator.not_")(lambda ip, a, kw: b_not(ip.pytruth(a[0])))
ef("operator.truth")(lambda ip, a, kw: ip.pytruth(a[0]))
ef("operator.abs")(lambda ip, a, kw: ip.call(ip.builtins["abs"], a, {}))
ef("operator.contains")(lambda ip, a, kw: ip.ext.contains(ip, a[0], a[1]))
ef("operator.getitem")(lambda ip, a, kw: ip.ext.getitem(ip, a[0], a[1]))


@ef("itertools.takewhile")
def _(ip, a, kw):
    out = []
    for x in ip.iterate(a[1]):
        t = ip.pytruth(ip.call(a[0], [x], {}))
        if not isinstance(t, bool):
            raise Undecided("takewhile")
        if not t:
            break
        out.append(x)
    return It(out)


@ef("itertools.dropwhile", "itertools.filterfalse")
def _(ip, a, kw):
    raise Undecided("itertools")


@ef("itertools.repeat")
def _(ip, a, kw):
    n = a[1] if len(a) > 1 else kw.get("times")
    if n is None:
        raise Undecided("an endless iterator")
    return It([a[0]] * n)


@ef("equinox.tree_at")
def _(ip, a, kw):
    where, tree = a[0], a[1]
    new = a[2] if len(a) > 2 else kw.get("replace")
    made = []

    def copied(o):
        """The same tree of parts none of which is another."""
        if isinstance(o, Obj):
            c = Obj(o.cls, {k: copied(v) for k, v in o.d.items()})
            c.tag, c.frozen = getattr(o, "tag", None), o.frozen
            return c
        if isinstance(o, Num):
            return o.with_()
        return o
    t = copied(tree)
    at = ip.call(where, [t], {})
    ats = list(at) if isinstance(at, (tuple, list)) else [at]
    fn = kw.get("replace_fn")
    news = [ip.call(fn, [x], {}) for x in ats] if fn is not None else list(new) if isinstance(at, (tuple, list)) else [new]
    if len(news) != len(ats) or not all(isinstance(x, (Obj, Num)) for x in ats):
        raise Undecided("tree_at")

    def put(o):
        for x, y in zip(ats, news):
            if o is x:
                made.append(x)
                return y
        if isinstance(o, Obj):
            o.d = {k: put(v) for k, v in o.d.items()}
        return o
    r = put(t)
    if len(made) != len(ats):
        raise Undecided("tree_at of a part that is computed")
    return r


@ef("functools.cached_property")
def _(ip, a, kw):
    return Prop(a[0])


@ef("collections.namedtuple")
def _(ip, a, kw):
    names = a[1].replace(",", " ").split() if isinstance(a[1], str) else ip.iterate(a[1])
    dfl = ip.iterate(kw.pop("defaults", None) or ())
    if kw or not all(isinstance(n, str) and n.isidentifier() for n in [a[0], *names]):
        raise Undecided("namedtuple")
    import ast
    m = ip.load("saprelude")
    from .interp import Env
    env = Env({f"_d{i}": d for i, d in enumerate(dfl)}, Env(m.ns, None, m), m)
    k = len(names) - len(dfl)
    body = [f"    {n}: object" + (f" = _d{i - k}" if i >= k else "") for i, n in enumerate(names)] or ["    pass"]
    base = "NamedTuple"
    st = ast.parse(f"class {a[0]}({base}):\n" + "\n".join(body)).body[0]
    return ip.make_class(st, env)


@ef("builtins.object")
def _(ip, a, kw):
    return Obj(EXTCLS)


@ef("contextlib.suppress")
def _(ip, a, kw):
    raise Undecided("contextlib.suppress")


@ef("operator.attrgetter")
def _(ip, a, kw):
    def get(ip, b, k):
        def one(path):
            o = b[0]
            for p in path.split("."):
                o = ip.getattr(o, p)
            return o
        return one(a[0]) if len(a) == 1 else tuple(one(p) for p in a)
    return Prim("attrgetter", get)


@ef("operator.itemgetter")
def _(ip, a, kw):
    return Prim("itemgetter", lambda ip, b, k: ip.ext.getitem(ip, b[0], a[0]) if len(a) == 1
                else tuple(ip.ext.getitem(ip, b[0], i) for i in a))


@ef("operator.methodcaller")
def _(ip, a, kw):
    return Prim("methodcaller", lambda ip, b, k: ip.call(ip.getattr(b[0], a[0]), list(a[1:]), kw))


@ef("functools.partial")
def _(ip, a, kw):
    return Part(a[0], a[1:], kw)


@ef("functools.reduce")
def _(ip, a, kw):
    xs = ip.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = ip.call(a[0], [acc, x], {})
    return acc


# ------------------------------------------------------------------ typing etc.
@ef("typing.TypeVar", "typing.ParamSpec", "typing.NewType", "typing_extensions.TypeVar")
def _(ip, a, kw):
    return Ext("typevar." + a[0])


@ef("typing.cast")
def _(ip, a, kw):
    return a[1]


@ef("typing_extensions.Doc")
def _(ip, a, kw):
    return None


@ef("typing.final", "typing_extensions.override", "typing.runtime_checkable", "abc.abstractmethod", "typing.overload")
def _(ip, a, kw):
    from . import ext
    return a[0]


@ef("dataclasses.dataclass")
def _(ip, a, kw):
    from . import ext
    if a:
        return ext.mk_dataclass(ip, a[0], kw)
    return Prim("dataclass", lambda ip, b, k: ext.mk_dataclass(ip, b[0], kw))


@ef("dataclasses.field", "equinox.field")
def _(ip, a, kw):
    return FieldSpec(None, kw.get("default"), "default" in kw, kw.get("default_factory"), kw.get("converter"),
                     dict(kw.get("metadata") or {}), bool(kw.get("kw_only")), kw.get("init", True), bool(kw.get("static")))


@ef("dataclasses.fields")
def _(ip, a, kw):
    o = a[0]
    c = o if isinstance(o, Cls) else o.cls if isinstance(o, Obj) else o.ty
    if isinstance(o, Num) or isinstance(o, Cls) and o.issub(ip.q["AbstractQuantity"]):
        return tuple([FieldSpec("value"), FieldSpec("unit")] + ip.all_fields(c))
    return tuple(ip.all_fields(c))


@ef("dataclasses.is_dataclass")
def _(ip, a, kw):
    c = a[0] if isinstance(a[0], Cls) else a[0].cls if isinstance(a[0], Obj) else None
    # while a class is being processed it is not yet a dataclass itself
    return c is not None and c.is_dc and bool(c.own_fields or any(isinstance(k, Cls) and k.own_fields for k in c.mro))


@ef("dataclasses.replace")
def _(ip, a, kw):
    from . import ext
    return ext.f_replace(ip, a, kw)


@ef("dataclasses.asdict")
def _(ip, a, kw):
    return {f.name: ip.getattr(a[0], f.name) for f in ip.all_fields(a[0].cls)}


@ef("types.MappingProxyType", "xmmutablemap.ImmutableMap")
def _(ip, a, kw):
    d = {}
    if a:
        if isinstance(a[0], (dict, Obj)):
            d.update(ip.mapping(a[0]))
        else:
            d.update({k: v for k, v in (ip.iterate(x) for x in ip.iterate(a[0]))})
    d.update(kw)
    return d


@ef("abc.Mapping", "builtins.type")
def _(ip, a, kw):
    raise Undecided("abstract call")


@ef("enum.auto")
def _(ip, a, kw):
    from .ext import Sym
    return Sym(("auto", len(ip.modules)))


@ef("optional_dependencies.auto")
def _(ip, a, kw):
    return Ext("optdep")


@ef("warnings.warn")
def _(ip, a, kw):
    cat = kw.get("category", a[1] if len(a) > 1 else None)
    if isinstance(a[0], Obj):
        cat = a[0].cls
    ip.effect("warn", (cat, a[0] if isinstance(a[0], str) else ""))


@ef("equinox.error_if")
def _(ip, a, kw):
    x = kw.get("x", a[0] if a else None)
    p = kw.get("pred", a[1] if len(a) > 1 else None)
    msg = kw.get("msg", a[2] if len(a) > 2 else "")
    if isinstance(p, Num):
        acc = False
        for v in leaves(p.v):
            if isinstance(v, Top):
                raise Undecided(f"error_if on {v.why}")
            acc = b_or(acc, ip.truth(v))
        p = acc
    else:
        p = ip.truth(p)
    p = V.others_hold(p)        # what this element is rejected for; the others of its batch are each judged the same
    if p is True:
        ip.raise_("RuntimeError", f"error_if: {msg}")
    if p is not False:
        ip.effect("error_if", (p, msg))
    return x


@ef("jaxtyping.install_import_hook")
def _(ip, a, kw):
    return None


@ef("os.environ.get")
def _(ip, a, kw):
    return None


@ef("inspect.isabstract")
def _(ip, a, kw):
    return isinstance(a[0], Cls) and bool(ip.abstract_names(a[0]))


@ef("textwrap.indent")
def _(ip, a, kw):
    return a[0] if isinstance(a[0], str) else ""


@ef("numpy.array2string", "np.array2string")
def _(ip, a, kw):
    getattr(ip, "printed", []).append(a[0])
    return "<array>"


@ef("dataclassish.flags.FlagConstructionError")
def _(ip, a, kw):
    return ip.make_exc("RuntimeError", "flag")


@ef("importlib.import_module")
def _(ip, a, kw):
    return ip.load(a[0]) or Ext(a[0])


# ------------------------------------------------------------------ plum & quax
@ef("plum.dispatch")
def _(ip, a, kw):
    from .ext import _fn
    env = ip.cur_env
    prec = kw.get("precedence", 0)
    return Deco(lambda ip, v, env, fn: register_method(ip, v, env, fn, precedence=prec))


class Deco(Prim):
    """Decorator that needs the definition environment."""
    __slots__ = ()

    def __init__(self, f):
        super().__init__("deco", f)


@ef("plum.dispatch.multi")
def _(ip, a, kw):
    sigs = [list(s) if isinstance(s, tuple) else list(s.ts) if hasattr(s, "ts") else [s] for s in a]

    def f(ip, v, env, fn):
        r = None
        for s in sigs:
            r = register_method(ip, v, env, fn, sig=s)
        return r
    return Deco(f)


@ef("plum.dispatch.abstract")
def _(ip, a, kw):
    return Deco(lambda ip, v, env, fn: register_method(ip, v, env, fn, abstract=True))


@ef("plum.conversion_method")
def _(ip, a, kw):
    f = kw.get("type_from", a[0] if a else None)
    t = kw.get("type_to", a[1] if len(a) > 1 else None)
    return Prim("conv", lambda ip, b, k: conversion_method(ip, f, t, b[0]))


@ef("plum.add_promotion_rule")
def _(ip, a, kw):
    return promotion_rule(ip, *a)


@ef("plum.add_conversion_method")
def _(ip, a, kw):
    return conversion_method(ip, a[0] if a else kw["type_from"], a[1] if len(a) > 1 else kw["type_to"], a[2] if len(a) > 2 else kw["f"])


@ef("plum.convert")
def _(ip, a, kw):
    return convert(ip, a[0], a[1])


@ef("plum.promote")
def _(ip, a, kw):
    ty = a[0].ty
    for x in a[1:]:
        ty = N.promote_type(ip, ty, x.ty)
    return tuple(convert(ip, x, ty) for x in a)


@ef("plum.parametric.type_unparametrized")
def _(ip, a, kw):
    from .plumm import typeval
    return typeval(ip, a[0])


@ef("quax.register")
def _(ip, a, kw):
    p = a[0]
    name = p.name.split(".")[-1]

    def f(ip, v, env, fn):
        pf = ip.quax.setdefault(name, PlumF(name))
        register_method(ip, v, None, fn, pf=pf, precedence=kw.get("precedence", 0))
        return v
    return Deco(f)


@ef("dataclassish.Unless")
def _(ip, a, kw):
    types = a[0]
    conv = a[1] if len(a) > 1 else kw["converter"]

    def f(ip, b, k):
        if isinstance_(ip, b[0], types):
            return b[0]
        return ip.call(conv, [b[0]] + list(b[1:]), k)
    return Prim("Unless", f)


@ef("dataclassish.Optional")
def _(ip, a, kw):
    return Prim("Optional", lambda ip, b, k: None if b[0] is None else ip.call(a[0], b, k))


@ef("object.__setattr__", "builtins.object.__setattr__")
def _(ip, a, kw):
    ip.setattr(a[0], a[1], a[2], force=True)


@ef("object.__getattribute__", "builtins.object.__getattribute__")
def _(ip, a, kw):
    if not isinstance(a[0], Obj):
        return ip.getattr(a[0], a[1])
    r = ip.plain_attr(a[0], a[1], False)
    if r is ip.NORET:
        ip.raise_("AttributeError", f"{a[0].cls.name!r} object has no attribute {a[1]!r}")
    return r


@ef("builtins.object.__new__")
def _(ip, a, kw):
    return Obj(a[0])


# ------------------------------------------------------------------ jax trees & derivatives
def tree_leaves(ip, o):
    if isinstance(o, Num):
        return [ip.ext.num_attr(ip, o, "value")] if is_q(o) else [o]
    if isinstance(o, Obj):
        out = []
        for f in ip.all_fields(o.cls):
            if not f.static and f.name in o.d:
                out += tree_leaves(ip, o.d[f.name])
        return out
    if isinstance(o, dict):
        return [x for k in sorted(o) for x in tree_leaves(ip, o[k])]
    if isinstance(o, (list, tuple)):
        return [x for y in o for x in tree_leaves(ip, y)]
    if o is None:
        return []
    return [o]


TABLE["jax.tree.leaves"] = TABLE["jax.tree_util.tree_leaves"] = lambda ip, a, kw: tree_leaves(ip, a[0])


def tree_map(ip, f, is_leaf, *ts):
    t = ts[0]
    if is_leaf is not None and ip.truth(ip.call(is_leaf, [t], {})) is True:
        return ip.call(f, list(ts), {})
    if isinstance(t, Num):
        if is_q(t):
            vals = []
            for x in ts:
                if not is_q(x):
                    vals.append(x)
                    continue
                if x.unit is None or t.unit is None or not R.eq(x.unit, t.unit):
                    ip.effect("tree_unit_mismatch", (t, x))
                vals.append(ip.ext.num_attr(ip, x.with_(unit=t.unit) if x.dim == t.dim else x, "value"))
            r = ip.call(f, vals, {})
            if isinstance(r, Num) and not is_q(r):
                if any(not isinstance(v, (X, Top)) for v in leaves(r.v)):
                    return Num(t.ty, r.v, t.dim, R.const(1), r.sh)
                v = vmap1(lambda x: tlift(R.mul, x, t.unit) if t.unit is not None else Top("unit"), r.v)
                return Num(t.ty, v, t.dim, t.unit, r.sh, t.dt)
            if isinstance(r, Num):
                raise Undecided("tree.map to quantities inside quantities")
            return r
        return ip.call(f, list(ts), {})
    if isinstance(t, Obj):
        d = {}
        for fs in ip.all_fields(t.cls):
            n = fs.name
            if n not in t.d:
                continue
            if fs.static:
                d[n] = t.d[n]
            else:
                d[n] = tree_map(ip, f, is_leaf, *[x.d[n] if isinstance(x, Obj) else x for x in ts])
        for k, v in t.d.items():
            d.setdefault(k, v)
        return ip.mkobj(t.cls, d)
    if isinstance(t, dict):
        return {k: tree_map(ip, f, is_leaf, *[x[k] for x in ts]) for k in t}
    if isinstance(t, (list, tuple)):
        return type(t)([tree_map(ip, f, is_leaf, *xs) for xs in zip(*ts)])
    if t is None:
        return None
    return ip.call(f, list(ts), {})


@ef("jax.tree.map", "jax.tree_util.tree_map", "jax.tree_map")
def _(ip, a, kw):
    return tree_map(ip, a[0], kw.get("is_leaf"), *a[1:])


TABLE["jax.core.get_aval"] = lambda ip, a, kw: a[0]


@ef("jax.core.ShapedArray")
def _(ip, a, kw):
    from .ext import Sym
    return Sym(("aval", repr(a)))


JAC_COUNT = [0]


@ef("jax.jacfwd", "jax.jacrev", "jax.jacobian")
def _(ip, a, kw):
    f = a[0]

    def g(ip, b, k2):
        return jac_tree(ip, f, b, k2)
    return Prim("jacfwd", g)


def fresh_like(n, name):
    """A fresh symbol with the range facts the value number provably has."""
    lv = [x for x in leaves_of(n.v)]

    def all_(f):
        try:
            return all(isinstance(x, X) and f(x) is True for x in lv)
        except Unknown:
            return False
    if n.dim == V.DIMS["angle"]:
        return R.angle_atom(name, sin_nonneg=all_(lambda x: R.nonneg(R.cossin(x)[1])),
                            cos_nonneg=all_(lambda x: R.nonneg(R.cossin(x)[0])))
    return R.atom(R.new_atom(("jacin", name), name, "var", nonneg=all_(R.nonneg)))


def leaves_of(t):
    if isinstance(t, Ite):
        yield from leaves_of(t.a)
        yield from leaves_of(t.b)
    else:
        yield t


def jac_tree(ip, f, b, k2):
    """Derivative of f at b[0] as nested structure: out-leaf structure of in-leaf structure."""
    x0 = b[0]
    # function value at the actual point, in terms of fresh scalar value numbers per component
    if not isinstance(x0, (Obj, Num)):
        raise Undecided("jacfwd argument")
    leavesin = []

    def collect(o, path):
        if isinstance(o, Num):
            if o.rank:
                raise Undecided("jacfwd of array argument")
            if o.kind == "int":
                ip.raise_("TypeError", "jacfwd requires real-valued inputs, but got an integer")
            leavesin.append((path, o))
        elif isinstance(o, Obj):
            for fs in ip.all_fields(o.cls):
                if not fs.static and fs.name in o.d:
                    collect(o.d[fs.name], path + (fs.name,))
        else:
            raise Undecided("jacfwd argument")
    collect(x0, ())

    def atomof(n):
        x = n.v
        if not isinstance(x, X) or x.d != R.ONEP or len(x.n) != 1:
            return None
        (m, c), = x.n.items()
        if len(m) == 1 and m[0][1] == 1 and R.ATOMS[m[0][0]].kind in ("var", "angle", "input") \
                and R.ATOMS[m[0][0]].key[0] != "oangle":
            return R.ATOMS[m[0][0]], c
        return None

    ins, ids, vals, fresh = [], [], [], {}
    seen = set()
    for p, n in leavesin:
        r = atomof(n)
        if r is None or r[0].id in seen:
            if isinstance(n.v, Top):
                raise Undecided(n.v.why)
            JAC_COUNT[0] += 1
            x = fresh_like(n, f"at{JAC_COUNT[0]}.{'.'.join(p)}")
            r = (R.ATOMS[next(iter(x.n))[0][0]], 1)
            ids.append(r[0].id)
            vals.append(n.v)
            fresh[p] = n.with_(v=x)
        seen.add(r[0].id)
        ins.append((p, n, r))

    def put(o, path):
        if isinstance(o, Num):
            return fresh.get(path, o)
        return ip.mkobj(o.cls, {k: put(v, path + (k,)) if isinstance(v, (Num, Obj)) else v for k, v in o.d.items()})
    out = ip.call(f, [put(x0, ()) if fresh else x0] + list(b[1:]), k2)

    def back(t):
        return tree_subst(t, ids, vals) if ids else t

    def dcol(o, n, atom, c):
        def leafd(x):
            return tlift(lambda t: R.div(R.diff(t, atom), R.const(c)), N._x(x))
        # d(out)/d(in value): in value = phys / unit_in ; row value stays in out's unit
        return vmap1(lambda x: back(leafd(x)), o)

    def build(o):
        if isinstance(o, Num):
            if o.rank:
                raise Undecided("jacfwd of array output")
            if o.unit is not None and ids:
                o = o.with_(unit=back(o.unit))

            def rebuild(q, path=()):
                if isinstance(q, Num):
                    n, (at, c) = next((n, r) for p, n, r in ins if p == path)
                    d = dcol(o.v, n, at, c)                      # d phys_out / d phys_in
                    uo = o.unit if o.unit is not None else R.const(1)
                    ui = n.unit if n.unit is not None else R.const(1)
                    val = tlift(lambda t: R.div(R.mul(t, ui), uo), d)   # d value_out / d value_in
                    if is_q(n):
                        return Num(n.ty, tlift(R.mul, val, ui), n.dim, ui, n.sh)
                    return Num(ARRAY, val, sh=n.sh)
                return ip.mkobj(q.cls, {k: rebuild(v, path + (k,)) if isinstance(v, (Num, Obj)) else v
                                        for k, v in q.d.items()})
            inner = rebuild(x0)
            if is_q(o):
                return JacRow(inner, o)
            return inner
        if isinstance(o, JacRow):           # derivative of a derivative
            r = JacRow.__new__(JacRow)
            un = o.d["unit"]
            Obj.__init__(r, JACROW, {"value": build(o.d["value"]), "unit": Unit(back(un.x), un.dim) if ids else un})
            return r
        if isinstance(o, Obj):
            return ip.mkobj(o.cls, {fs.name: build(o.d[fs.name]) for fs in ip.all_fields(o.cls)
                                    if not fs.static and fs.name in o.d})
        raise Undecided("jacfwd output")
    return build(out)


class JacRow(Obj):
    """Quantity whose value is a derivative structure."""
    __slots__ = ()

    def __init__(self, inner, o):
        super().__init__(JACROW, {"value": inner, "unit": Unit(o.unit, o.dim)})


JACROW = Cls("JacobianRow", "ext")
JACROW.mro = [JACROW]


@ef("unxt.experimental.jacfwd")
def _(ip, a, kw):
    f = a[0]
    units = [u if u is None else ip.call(ip.plum["unit"], [u], {}) for u in ip.iterate(kw["units"])]
    argnums = kw.get("argnums", a[1] if len(a) > 1 else 0)

    def g(ip, b, k2):
        args = []
        at = None
        for i, (x, u) in enumerate(zip(b, units)):
            if u is None:
                args.append(x)
                continue
            q = ip.call(ip.plum["uconvert"], [u, x], {})
            q = q.with_(ty=ip.q["Quantity"])
            if i == argnums:
                JAC_COUNT[0] += 1
                at = R.new_atom(("jacin", JAC_COUNT[0]), f"jac_in{JAC_COUNT[0]}", "input")
                base = q
                if q.rank:
                    ats = [R.new_atom(("jacin", JAC_COUNT[0], j), f"jac_in{JAC_COUNT[0]}_{j}", "input") for j in range(len(q.v))]
                    q = q.with_(v=[R.atom(t) for t in ats])
                    at = ats
                else:
                    q = q.with_(v=R.atom(at))
            args.append(q)
        r = ip.call(f, args, {})
        if not is_q(r):
            raise Undecided("jacfwd result")
        unit = units[argnums]

        def d(x, t):
            return tlift(lambda y: R.diff(y, t), N._x(x))
        if isinstance(at, list):
            sub = {t.id: bv for t, bv in zip(at, base.v)}

            def back(x):
                return tlift(lambda y: R.subst(y, sub), x) if all(isinstance(s, X) for s in sub.values()) else Top("jac point")
            if r.rank == 1:
                v = [[back(d(x, t)) for t in at] for x in r.v]
            else:
                v = [back(d(r.v, t)) for t in at]
        else:
            sub = {at.id: base.v}
            v = vmap1(lambda x: tlift(lambda y: R.subst(y, sub), d(x, at)), r.v)
        return Num(r.ty, v, dim_mul(r.dim, unit.dim, -1), R.div(r.unit, unit.x), N.bshape(r.sh, base.sh))
    return Prim("jacfwd", g)


# ------------------------------------------------------------------ scipy rotation
def rotation_from_euler(ip, args, kw):
    seq, ang = args[0], args[1]
    degrees = kw.get("degrees", args[2] if len(args) > 2 else False)
    a = N.to_num(ip, ang)
    vs = a.v if isinstance(a.v, list) else [a.v]
    if is_q(a):
        raise Undecided("Rotation.from_euler of a quantity")
    if not isinstance(seq, str) or len(seq) != len(vs):
        raise Undecided("Rotation.from_euler")
    m = [[R.const(int(i == j)) for j in range(3)] for i in range(3)]
    for ch, t in zip(seq, vs):
        if degrees:
            t = tlift(lambda x: R.div(R.mul(x, R.pi()), R.const(180)), t)
        c, s = tlift(R.cos, t), tlift(R.sin, t)
        i = "xyz".index(ch.lower())
        j, k = (i + 1) % 3, (i + 2) % 3
        r = [[R.const(int(p == q)) for q in range(3)] for p in range(3)]
        r[j][j], r[j][k], r[k][j], r[k][k] = c, tlift(R.neg, s), s, c
        prod = lambda A, B: [[_dot(A[p], [B[z][q] for z in range(3)]) for q in range(3)] for p in range(3)]  # noqa: E731
        m = prod(r, m) if ch.islower() else prod(m, r)
    o = Obj(ROT, {"matrix": Num(ARRAY, m)})
    return o


def _dot(u, w):
    acc = R.const(0)
    for x, y in zip(u, w):
        acc = tlift(R.add, acc, tlift(R.mul, x, y))
    return acc


ROT = Cls("Rotation", "jax.scipy.spatial.transform")
ROT.mro = [ROT, Ext("jax.scipy.spatial.transform.Rotation")]
ROT.ns["as_matrix"] = Prim("as_matrix", lambda ip, a, kw: a[0].d["matrix"])
ROT.ns["inv"] = Prim("inv", lambda ip, a, kw: Obj(ROT, {"matrix": N.transpose_last(ip, a[0].d["matrix"])}))
