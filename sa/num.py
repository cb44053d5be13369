"""Abstract array / quantity operations."""
from __future__ import annotations

from fractions import Fraction

from . import axes as AX
from . import ring as R
from . import values as V
from .values import *  # noqa: F403
from .values import _cof  # noqa: F401

ARRAY = Ext("jax.Array")


def is_q(n):
    return isinstance(n, Num) and isinstance(n.ty, Cls)


def one():
    return R.const(1)


def to_num(ip, v):
    """Coerce a Python value to an abstract array."""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool) or (isinstance(v, Ite) and not isinstance(v, X)):
        return Num(ARRAY, v)
    if isinstance(v, (int, float, Fraction)):
        return Num(ARRAY, R.const(v))
    if isinstance(v, X):
        return Num(ARRAY, v)
    if isinstance(v, (list, tuple)):
        ns = [to_num(ip, x) for x in v]
        if any(is_q(x) for x in ns):
            raise Undecided("array of quantities")
        if len({x.feat() for x in ns}) > 1:
            raise Undecided("ragged array")
        return Num(ARRAY, [x.v for x in ns], sh=bshape(*[x.sh for x in ns]))
    if isinstance(v, Shape):
        return Num(ARRAY, Top("shape as array"))
    if isinstance(v, Top):
        return Num(ARRAY, v)
    raise Undecided(f"not an array: {v!r}")


def is_lead(sh):
    return isinstance(sh, tuple) and len(sh) == 2 and sh[0] == "lead"


def bshape(*shs):
    """Broadcast batch shapes.  ("lead", sh): the first value axis precedes the batch axes."""
    if any(is_lead(s) for s in shs):
        return ("lead", bshape(*[s[1] if is_lead(s) else s for s in shs]))
    if any(AX.is_ax(s) for s in shs):
        if not all(s == () or AX.is_ax(s) for s in shs):
            raise Undecided("batch shapes of known and unknown rank")
        return AX.bcast(*shs)
    flat = []
    for s in shs:
        if isinstance(s, tuple) and s and s[0] == "bcast":
            flat.extend(s[1])
        elif s != ():
            flat.append(s)
    flat = sorted(set(flat), key=repr)
    if not flat:
        return ()
    if len(flat) == 1:
        return flat[0]
    return ("bcast", tuple(flat))


def vzip(ip, f, a, b):
    """Broadcast over feature axes (aligned from the right)."""
    da, db = depth(a), depth(b)
    if da > db:
        return [vzip(ip, f, x, b) for x in a] if da > db and not isinstance(b, list) else (
            [vzip(ip, f, x, b) for x in a])
    if db > da:
        return [vzip(ip, f, a, y) for y in b]
    if da == 0:
        return f(a, b)
    if len(a) == len(b):
        return [vzip(ip, f, x, y) for x, y in zip(a, b)]
    if len(a) == 1:
        return [vzip(ip, f, a[0], y) for y in b]
    if len(b) == 1:
        return [vzip(ip, f, x, b[0]) for x in a]
    ip.raise_("TypeError", f"incompatible shapes {len(a)} and {len(b)}")


def depth(v):
    n = 0
    while isinstance(v, list):
        n, v = n + 1, v[0]
    return n


def check_align(ip, a, b):
    if is_lead(a.sh) or is_lead(b.sh):
        if any(x.rank and not is_lead(x.sh) for x in (a, b)):
            raise Undecided("arithmetic of stacked and feature arrays")
        return
    if a.rank != b.rank:
        lo = a if a.rank < b.rank else b
        if lo.sh != ():
            ip.effect("misalign", f"batched operand of rank {lo.rank} combined with rank {max(a.rank, b.rank)}")


def prod_type(ip, a, b):
    qa, qb = is_q(a), is_q(b)
    if qa and qb:
        if a.ty is b.ty:
            return a.ty
        return promote_type(ip, a.ty, b.ty)
    return a.ty if qa else b.ty if qb else ARRAY


def promote_type(ip, ta, tb):
    if ta is tb:
        return ta
    best = None
    for x, y, z in ip.promo:
        for p, q in ((x, y), (y, x)):
            if ta.issub(p) and tb.issub(q):
                score = ta.mro.index(p) + tb.mro.index(q)
                if best is None or score < best[0]:
                    best = (score, z)
    if best is not None and isinstance(best[1], Cls) and best[1] is not ip.ext.Q["AbstractQuantity"]:
        return best[1]
    return ta           # only the general rule applies: both keep their types, and results have that of the left


def mkq(ip, ty, v, dim, unit, sh, like=None):
    if not isinstance(ty, Cls):
        return Num(ARRAY, v, sh=sh)
    n = Num(ty, v, dim, unit, sh, like.dt if like is not None and like.ty is ty else None)
    if like is not None and like.ty is ty and like.dim == dim:
        return n
    return ip.ext.run_checks(ip, n)


def umul(a, b, k=1):
    ua = a.unit if a.unit is not None else (one() if not is_q(a) else None)
    ub = b.unit if b.unit is not None else (one() if not is_q(b) else None)
    if ua is None or ub is None:
        return None
    return R.mul(ua, ub) if k == 1 else R.div(ua, ub)


def as_dimless(ip, n, what):
    """Value of a quantity used as a plain number."""
    if is_q(n) and n.dim not in ((), V.A):
        ip.raise_("ValueError", f"{what}: quantity with dimensions {n.dim} used as a number")
    return n


def add(ip, a, b, k=1):
    a, b = to_num(ip, a), to_num(ip, b)
    check_align(ip, a, b)
    qa, qb = is_q(a), is_q(b)
    if qa and qb:
        if a.dim != b.dim:
            ip.raise_("ValueError", f"units: cannot add {a.dim} and {b.dim}")
        ty, like = a.ty, a
        dim, unit = a.dim, a.unit
    elif qa or qb:
        q = a if qa else b
        if q.dim != ():
            o = b if qa else a
            if not all(isinstance(x, X) and R.is_zero(x) for x in leaves(o.v)):
                ip.raise_("ValueError", f"units: cannot add a number to {q.dim}")
        ty, like, dim, unit = q.ty, q, q.dim, q.unit
    else:
        ty, like, dim, unit = ARRAY, None, (), None
    v = vzip(ip, lambda x, y: tlift(lambda p, q: R.add(p, q, k), _x(x), _x(y)), a.v, b.v)
    return mkq(ip, ty, v, dim, unit, bshape(a.sh, b.sh), like)


def _x(v):
    if isinstance(v, bool):
        return R.const(int(v))
    if isinstance(v, Ite) and isinstance(v.a, (bool, Ite)):
        return lift(lambda t: R.const(int(t)) if isinstance(t, bool) else t, v)
    return v


def mul(ip, a, b):
    a, b = to_num(ip, a), to_num(ip, b)
    check_align(ip, a, b)
    v = vzip(ip, lambda x, y: tlift(R.mul, _x(x), _x(y)), a.v, b.v)
    ty = prod_type(ip, a, b)
    return mkq(ip, ty, v, dim_mul(a.dim, b.dim), umul(a, b), bshape(a.sh, b.sh), a if ty is a.ty else b)


def _div(x, y):
    if R.is_zero(x) and R.is_zero(y):
        raise Unknown(V.NAN)
    return R.div(x, y)


def div(ip, a, b):
    a, b = to_num(ip, a), to_num(ip, b)
    check_align(ip, a, b)
    v = vzip(ip, lambda x, y: tlift(_div, _x(x), _x(y)), a.v, b.v)
    ty = prod_type(ip, a, b)
    return mkq(ip, ty, v, dim_mul(a.dim, b.dim, -1), umul(a, b, -1), bshape(a.sh, b.sh), a if ty is a.ty else b)


def map1(ip, n, f, dim=None, unit=None, ty=None):
    n = to_num(ip, n)
    v = vmap1(lambda x: tlift(f, _x(x)), n.v)
    if ty is None:
        ty = n.ty
    if not isinstance(ty, Cls):
        return Num(ARRAY, v, sh=n.sh)
    return mkq(ip, ty, v, n.dim if dim is None else dim, n.unit if unit is None else unit, n.sh, n)


def neg(ip, a):
    return map1(ip, a, R.neg)


def trig(ip, a, f):
    a = to_num(ip, a)
    if is_q(a):
        if a.dim not in (V.A, ()):
            ip.raise_("ValueError", f"units: trigonometric function of {a.dim}")
        return Num(ip.ext.Q["Quantity"] if True else a.ty, vmap1(lambda x: tlift(f, x), a.v), (), one(), a.sh)
    return map1(ip, a, f)


def inv_trig(ip, a, f):
    a = to_num(ip, a)
    if is_q(a):
        if a.dim != ():
            ip.raise_("ValueError", f"units: inverse trigonometric function of {a.dim}")
        return Num(_plainq(ip, a.ty), vmap1(lambda x: tlift(f, x), a.v), V.A, one(), a.sh)
    return map1(ip, a, f)


def _plainq(ip, ty):
    if ty.issub(ip.ext.Q["UncheckedQuantity"]):
        return ty
    return ip.ext.Q["Quantity"]


def atan2(ip, y, x):
    y, x = to_num(ip, y), to_num(ip, x)
    check_align(ip, y, x)
    v = vzip(ip, lambda p, q: tlift(R.atan2, _x(p), _x(q)), y.v, x.v)
    sh = bshape(y.sh, x.sh)
    if is_q(y) or is_q(x):
        if y.dim != x.dim:
            ip.raise_("ValueError", f"units: atan2 of {y.dim} and {x.dim}")
        return Num(_plainq(ip, y.ty if is_q(y) else x.ty), v, V.A, one(), sh)
    return Num(ARRAY, v, sh=sh)


KINDS = {"float": None, "float16": None, "float32": None, "float64": None, "float_": None, "double": None,
         "complex": "complex", "complex64": "complex", "complex128": "complex", "int": "int", "int8": "int",
         "int16": "int", "int32": "int", "int64": "int", "int_": "int", "uint8": "int", "uint32": "int"}


def cast(n, dtype):
    """The value converted to a dtype: integers round towards zero, the others keep the value."""
    name = dtype.__name__ if isinstance(dtype, type) else dtype if isinstance(dtype, str) else getattr(dtype, "name", None)
    if not isinstance(name, str) or (name := name.rsplit(".", 1)[-1]) not in KINDS:
        return n
    k = KINDS[name]
    if k == "int" and n.kind != "int":
        u = n.unit if is_q(n) else R.const(1)
        if u is None:
            raise Undecided("rounding a value in an unknown unit")

        def one(x):
            x = R.div(x, u)
            return R.mul(R.sub(x, R.mod(x, R.const(1))), u)
        return n.with_(v=vmap1(lambda x: tlift(one, _x(x)), n.v), kind=k)
    if n.kind == k:
        return n
    return n.with_(kind=k)


def sqrt(ip, a):
    a = to_num(ip, a)
    if a.kind == "complex":
        return sqrt(ip, a.with_(kind=None)).with_(kind="complex")
    if is_q(a):
        return mkq(ip, a.ty, vmap1(lambda x: tlift(R.sqrt, _x(x)), a.v), dim_pow(a.dim, Fraction(1, 2)),
                   _usqrt(a.unit), a.sh, a)
    return map1(ip, a, R.sqrt)


def _usqrt(u):
    if u is None:
        return None
    try:
        return R.sqrt(u)
    except Unknown:
        return None


def power(ip, a, n):
    a = to_num(ip, a)
    if is_q(n) and n.dim != ():
        ip.raise_("ValueError", f"units: exponent of dimension {n.dim}")
    if isinstance(n, Num) and not is_q(n) and not isinstance(n.v, list) and isinstance(n.v, X):
        c = R.is_const(n.v)
        if c is not None:
            n = c
        elif not is_q(a) and isinstance(a.v, X) and R.is_const(a.v) == 10:
            return Num(ARRAY, tlift(R.pow10, n.v), sh=n.sh)
    if isinstance(n, Num) and not is_q(a):
        if isinstance(a.v, X) and R.is_const(a.v) == 10:
            return Num(ARRAY, vmap1(lambda x: tlift(R.pow10, x), n.v), sh=n.sh)
    if isinstance(n, (int, float, Fraction)):
        f = Fraction(n) if not isinstance(n, float) else Fraction(repr(n))
        if f.denominator == 1:
            k = int(f)
            unit = None if a.unit is None else R.powi(a.unit, k)
            v = vmap1(lambda x: tlift(lambda t: R.powi(t, k), _x(x)), a.v)
            if is_q(a):
                return mkq(ip, a.ty, v, dim_pow(a.dim, k), unit, a.sh, a)
            return Num(ARRAY, v, sh=a.sh)
        if f.denominator == 2:
            return sqrt(ip, power(ip, a, f.numerator)) if f > 0 else div(ip, 1, power(ip, a, -f))
    raise Undecided(f"power {n!r}")


def mod(ip, a, m):
    a, m = to_num(ip, a), to_num(ip, m)
    if is_q(a) and is_q(m) and a.dim != m.dim:
        ip.raise_("ValueError", "units: mod")
    if is_q(a) != is_q(m) and (a if is_q(a) else m).dim != ():
        ip.raise_("ValueError", "units: mod of a quantity and a number")
    v = vzip(ip, lambda x, y: tlift(R.mod, _x(x), _x(y)), a.v, m.v)
    return a.with_(v=v, sh=bshape(a.sh, m.sh), kind=None)


class Extreme:
    """The smallest or largest element of an array; only what it compares with is known of it."""
    __slots__ = ("of", "low")

    def __init__(self, of, low):
        self.of, self.low = of, low


def compare_extreme(ip, op, a, b):
    if not isinstance(a, Extreme):
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
    if isinstance(b, Extreme) or op in ("Eq", "NotEq"):
        raise Undecided("comparison of extremes")
    some = (op in ("Lt", "LtE")) == a.low      # min(x) < c: some x < c;  min(x) > c: every x > c
    from .extfun import f_any, f_all
    return (f_any if some else f_all)(ip, [compare(ip, op, a.of, b)], {})


def compare(ip, op, a, b):
    if isinstance(a, Extreme) or isinstance(b, Extreme):
        return compare_extreme(ip, op, a, b)
    a, b = to_num(ip, a), to_num(ip, b)
    if is_q(a) and is_q(b):
        if a.dim != b.dim:
            ip.raise_("ValueError", f"units: cannot compare {a.dim} and {b.dim}")
    elif is_q(a) or is_q(b):
        q, o = (a, b) if is_q(a) else (b, a)
        if q.dim != () and not all(isinstance(x, X) and R.is_zero(x) for x in leaves(o.v)):
            ip.raise_("ValueError", f"units: cannot compare {q.dim} with a number")

    def f(x, y):
        x, y = _x(x), _x(y)

        def tlift(g, *xs):                      # comparisons with NaN are False, and != is True
            def h(*ls):
                if any(V.is_nan(v) for v in ls):
                    return op == "NotEq"
                return V.tlift(g, *ls)
            return V.lift(h, *xs)
        if op == "Lt":
            return tlift(lambda p, q: V.lt0(R.sub(p, q)), x, y)
        if op == "Gt":
            return tlift(lambda p, q: V.lt0(R.sub(q, p)), x, y)
        if op == "LtE":
            return tlift(lambda p, q: b_not(V.lt0(R.sub(q, p))), x, y)
        if op == "GtE":
            return tlift(lambda p, q: b_not(V.lt0(R.sub(p, q))), x, y)
        if op == "Eq":
            return tlift(lambda p, q: V.eq0(R.sub(p, q)), x, y)
        return tlift(lambda p, q: b_not(V.eq0(R.sub(p, q))), x, y)
    v = vzip(ip, lambda x, y: relift(f(x, y)), a.v, b.v)
    return Num(ARRAY, v, sh=bshape(a.sh, b.sh))


def relift(v):
    """Flatten gates nested in leaves (lift builds Ite of Ite)."""
    return v


def where(ip, c, a, b):
    c = to_num(ip, c)
    if isinstance(a, Obj) or isinstance(b, Obj):
        raise Undecided("where on objects")
    a, b = to_num(ip, a), to_num(ip, b)
    if is_q(a) != is_q(b):
        q, o = (a, b) if is_q(a) else (b, a)
        if q.dim != () and not all(isinstance(x, X) and R.is_zero(x) for x in leaves(o.v)):
            ip.raise_("ValueError", "units: where with a quantity and a number")
        o2 = q.with_(v=o.v, sh=o.sh, kind=None)
        a, b = (a, o2) if is_q(a) else (o2, b)
    if is_q(a) and is_q(b) and a.dim != b.dim:
        ip.raise_("ValueError", f"units: where with {a.dim} and {b.dim}")
    ty = prod_type(ip, a, b) if is_q(a) else ARRAY

    def f(t, xy):
        x, y = xy
        if isinstance(t, X):
            t = b_not(tlift(V.eq0, t))
        if isinstance(t, Top):
            return t if not V.same(x, y) else x
        return ite(t, _x(x) if not isinstance(x, (bool,)) else x, _x(y) if not isinstance(y, bool) else y)
    pair = vzip(ip, lambda x, y: (x, y), a.v, b.v)
    v = vzip(ip, f, c.v, pair)
    like = a if ty is a.ty else b
    return Num(ty, v, a.dim, a.unit, bshape(c.sh, a.sh, b.sh), like.dt)


def reduce_sum(ip, a, axis):
    a = to_num(ip, a)
    if a.rank == 0:
        raise Undecided("sum over a batch axis")
    if is_lead(a.sh):
        if axis != 0 or a.rank != 1:
            raise Undecided("sum of stacked arrays over another axis")
        acc = a.v[0]
        for x in a.v[1:]:
            acc = tlift(R.add, _x(acc), _x(x))
        return a.with_(v=acc, sh=a.sh[1], kind=None)
    if axis in (-1, a.rank - 1 if a.sh == () else -1) or (axis is None and a.sh == () and a.rank == 1):
        def red(v, d):
            if d == 1:
                acc = v[0]
                for x in v[1:]:
                    acc = tlift(R.add, _x(acc), _x(x))
                return acc
            return [red(x, d - 1) for x in v]
        return a.with_(v=red(a.v, a.rank))
    if axis == -2 and a.rank == 2:
        cols = list(zip(*a.v))
        out = []
        for c in cols:
            acc = c[0]
            for x in c[1:]:
                acc = tlift(R.add, acc, x)
            out.append(acc)
        return a.with_(v=out)
    raise Undecided(f"sum over axis {axis}")


def vector_norm(ip, a, axis=-1, keepdims=False):
    a = to_num(ip, a)
    if a.rank == 0 or axis not in (-1, None):
        raise Undecided("norm over a batch axis")
    sq = mul(ip, a.with_(ty=ip.ext.Q["UncheckedQuantity"]) if is_q(a) else a,
             a.with_(ty=ip.ext.Q["UncheckedQuantity"]) if is_q(a) else a)
    s = sqrt(ip, reduce_sum(ip, sq, -1))
    if is_q(a):
        s = s.with_(ty=a.ty, unit=a.unit, dim=a.dim)
    if keepdims:
        s = s.with_(v=_wrap(s.v))
    return s


def _wrap(v):
    if isinstance(v, list):
        return [_wrap(x) for x in v]
    return [v]


def stack(ip, xs, axis):
    ns = [to_num(ip, x) for x in xs]
    if not ns:
        raise Undecided("empty stack")
    if any(is_q(x) for x in ns):
        ty = ns[0].ty
        for x in ns[1:]:
            if not is_q(x) or not isinstance(ty, Cls):
                ip.raise_("ValueError", "units: stack of quantity and number")
            if x.dim != ns[0].dim:
                ip.raise_("ValueError", f"units: stack of {x.dim} and {ns[0].dim}")
            ty = promote_type(ip, ty, x.ty)
    else:
        ty = ARRAY
    if any(AX.is_ax(x.sh) for x in ns) and any(AX.sizes(x.sh) != AX.sizes(ns[0].sh) for x in ns):
        raise AX.Bad("ValueError", "All input arrays must have the same shape.")
    if any(x.sh != ns[0].sh for x in ns) and not any(AX.is_ax(x.sh) for x in ns):
        ip.effect("ragged", f"stack of arrays of different shapes {[x.sh for x in ns]}")
    r = ns[0].rank
    if any(x.feat() != ns[0].feat() for x in ns):
        ip.raise_("ValueError", "stack of different shapes")
    if isinstance(axis, int) and axis >= 0 and all(AX.is_ax(x.sh) for x in ns):
        nb = len(AX.sizes(ns[0].sh))
        if axis >= nb:
            axis -= nb + r + 1
        elif axis > 0 and r == 0:
            # the new axis is a batch axis in the middle: the entries' values are not tracked any further
            sz = AX.sizes(ns[0].sh)
            h = AX.hist(ns[0].sh) + (("stack", axis, tuple(repr(x.v) for x in ns)),)
            return Num(ty, ns[0].v, ns[0].dim, ns[0].unit, AX.make(sz[:axis] + (len(ns),) + sz[axis:], h), ns[0].dt)
    if axis == -1:
        def z(vs, d):
            if d == 0:
                return list(vs)
            return [z([v[i] for v in vs], d - 1) for i in range(len(vs[0]))]
        v = z([x.v for x in ns], r)
    elif axis == -2 and r >= 1 or axis == -(r + 1):
        if r != 1 and axis == -2:
            raise Undecided("stack axis")
        v = [x.v for x in ns]
    elif axis == 0 and all(x.sh == () for x in ns):
        v = [x.v for x in ns]
    elif axis == 0:
        if r or any(is_lead(x.sh) for x in ns):
            raise Undecided("stack of feature arrays over a new leading axis")
        return Num(ty, [x.v for x in ns], ns[0].dim, ns[0].unit, ("lead", bshape(*[x.sh for x in ns])), ns[0].dt)
    else:
        raise Undecided(f"stack axis {axis}")
    return Num(ty, v, ns[0].dim, ns[0].unit, bshape(*[x.sh for x in ns]), ns[0].dt)


def concat(ip, xs, axis):
    ns = [to_num(ip, x) for x in xs]
    # an appended axis of length one is the axis the arrays are joined along
    ns = [x.with_(v=[x.v], sh=AX.make(AX.sizes(x.sh)[:-1], AX.hist(x.sh)))
          if x.rank == 0 and AX.is_ax(x.sh) and AX.sizes(x.sh)[-1:] == (1,) else x for x in ns]
    if axis != -1 or any(x.rank != 1 for x in ns):
        raise Undecided("concatenate")
    if any(AX.is_ax(x.sh) for x in ns) and any(AX.sizes(x.sh) != AX.sizes(ns[0].sh) for x in ns):
        raise AX.Bad("TypeError", "Cannot concatenate arrays with shapes that differ")
    if any(is_q(x) for x in ns) and any(not is_q(x) or x.dim != ns[0].dim for x in ns):
        ip.raise_("ValueError", "units: concat")
    ty = ns[0].ty
    if is_q(ns[0]):
        for x in ns[1:]:
            ty = promote_type(ip, ty, x.ty)
    return Num(ty, [y for x in ns for y in x.v], ns[0].dim, ns[0].unit, bshape(*[x.sh for x in ns]))


def matmul(ip, a, b):
    a, b = to_num(ip, a), to_num(ip, b)
    ra, rb = a.rank, b.rank
    dim, unit = dim_mul(a.dim, b.dim), umul(a, b)
    ty = prod_type(ip, a, b)

    def dot(u, w):
        acc = R.const(0)
        for x, y in zip(u, w):
            acc = tlift(R.add, acc, tlift(R.mul, _x(x), _x(y)))
        return acc
    if ra == 2 and rb == 2:
        if len(a.v[0]) != len(b.v):
            ip.raise_("TypeError", "matmul shapes")
        v = [[dot(r, c) for c in zip(*b.v)] for r in a.v]
    elif ra == 2 and rb == 1:
        if b.sh != ():
            ip.effect("misalign", "matrix @ batched vectors")
        v = [dot(r, b.v) for r in a.v]
    elif ra == 1 and rb == 2:
        v = [dot(a.v, c) for c in zip(*b.v)]
    elif ra == 1 and rb == 1:
        v = dot(a.v, b.v)
    else:
        raise Undecided("matmul ranks")
    return mkq(ip, ty, v, dim, unit, bshape(a.sh, b.sh), b if not is_q(a) else None)


def transpose_last(ip, a):
    if a.rank == 2:
        return a.with_(v=[list(c) for c in zip(*a.v)])
    raise Undecided("matrix transpose")


# ------------------------------------------------------------------ indexing
def ax_index(ip, n, i):
    """Index an array whose batch axes are known: split the index between batch and feature axes."""
    idx = list(i) if isinstance(i, tuple) else [i]
    for k, x in enumerate(idx):
        if isinstance(x, Num):
            if x.rank == 0 and isinstance(x.v, int) and not isinstance(x.v, bool) and x.sh == ():
                idx[k] = x.v
            else:
                raise Undecided(f"index {x!r}")
    nb = len(AX.sizes(n.sh))
    tot = nb + n.rank
    used = sum(getattr(x, "naxes", 1) for x in idx if x is not None and x is not Ellipsis)
    if used > tot:
        raise AX.Bad("IndexError", f"Too many indices: array is {tot}-dimensional, but {used} were indexed")
    ell = [k for k, x in enumerate(idx) if x is Ellipsis]
    if len(ell) > 1:
        raise AX.Bad("IndexError", "an index can only have a single ellipsis ('...')")
    fill = [slice(None)] * (tot - used)
    idx = idx[:ell[0]] + fill + idx[ell[0] + 1:] if ell else idx + fill
    j, bat = 0, []
    while idx and (j < nb or (idx[0] is None and not n.rank)):
        x = idx.pop(0)
        bat.append(x)
        j += 0 if x is None else getattr(x, "naxes", 1)
    if j > nb or not all(isinstance(x, (int, slice)) for x in idx):
        if any(x is None for x in idx) and n.rank and all(x is None or x == slice(None) for x in idx):
            lead = []
            while idx and idx[0] is None:
                lead.append(idx.pop(0))
            bat += lead
            if any(x is None for x in idx):
                return n.with_(v=_idx(ip, n.v, idx), sh=AX.index(n.sh, tuple(bat)))
        else:
            raise Undecided("index across batch and feature axes")
    v = n.v
    if any(x != slice(None) for x in idx):
        v = _idx(ip, v, idx)
    return n.with_(v=v, sh=AX.index(n.sh, tuple(bat)))


def ax_rearrange(ip, n, perm):
    """Permute all axes; the feature axes have to stay last, in order."""
    nb = len(AX.sizes(n.sh))
    tot = nb + n.rank
    if perm is None:
        perm = tuple(range(tot))[::-1]
    if not all(isinstance(x, int) for x in perm):
        raise Undecided(f"permutation {perm!r}")
    full = AX.sizes(n.sh) + n.feat()
    new = AX.permute(full, perm)
    p = [x % tot for x in perm]
    if p[nb:] == list(range(nb, tot)):
        return n.with_(sh=AX.transpose(n.sh, p[:nb]))
    if n.rank == 2 and p == list(range(nb)) + [tot - 1, tot - 2]:
        return transpose_last(ip, n)
    return n.with_(v=Top("batch axes moved among feature axes"), sh=AX.make(new, AX.hist(n.sh)))


def ax_reshape(ip, n, target):
    nb = len(AX.sizes(n.sh))
    if n.rank:
        if len(target) >= n.rank and tuple(target[len(target) - n.rank:]) == n.feat():
            return n.with_(sh=AX.reshape(n.sh, tuple(target[:len(target) - n.rank])))
        full = AX.make(AX.sizes(n.sh) + n.feat(), AX.hist(n.sh))
        return n.with_(v=Top("batch axes reshaped into feature axes"), sh=AX.reshape(full, target))
    if nb == 0 and all(isinstance(x, int) for x in target) and AX.prod(target) == 1:
        return n.with_(sh=AX.make(target, AX.hist(n.sh)))
    return n.with_(sh=AX.reshape(n.sh, target))


def shape_of(x):
    """A shape argument as (batch, features), or the Python tuple of its sizes, or None."""
    if isinstance(x, Shape):
        return x if x.sh != () and not AX.is_ax(x.sh) else AX.sizes(x.sh) + x.feat
    if AX.size(x):
        return (x,)
    if isinstance(x, (tuple, list)):
        out, sh = [], None
        for k, y in enumerate(x):
            if isinstance(y, Shape):
                if y.sh == () or AX.is_ax(y.sh):
                    out += AX.sizes(y.sh) + y.feat
                elif k == 0:
                    sh = y
                else:
                    return None
            elif isinstance(y, Num) and y.rank == 0 and AX.size(y.v):
                out.append(y.v)
            elif AX.size(y):
                out.append(y)
            else:
                return None
        return Shape(sh.sh, sh.feat + tuple(out)) if sh is not None else tuple(out)
    return None


def index(ip, n, i):
    if isinstance(i, Num):
        if i.rank == 0 and isinstance(i.v, (bool, Ite)):
            return n.with_(sh=("getitem", "mask", n.sh))
        if not AX.is_ax(n.sh):
            i = ("num", repr(i.v))
    if AX.is_ax(n.sh):
        return ax_index(ip, n, i)
    if isinstance(i, tuple) and any(x is Ellipsis for x in i):
        k = [j for j, x in enumerate(i) if x is Ellipsis][0]
        before, after = i[:k], i[k + 1:]
        if before:
            if all(x == slice(None) for x in before):
                before = ()
            else:
                raise Undecided("index before ellipsis")
        return _idx_end(ip, n, list(after))
    if i is Ellipsis:
        return n
    if is_lead(n.sh):
        if isinstance(i, int) and n.rank == 1:
            if not -len(n.v) <= i < len(n.v):
                ip.raise_("IndexError", "index out of range")
            return n.with_(v=n.v[i], sh=n.sh[1])
        raise Undecided("index of stacked arrays")
    if n.sh == ():
        idx = list(i) if isinstance(i, tuple) else [i]
        if n.rank and all(isinstance(x, (int, slice)) or x is None for x in idx):
            consumed = sum(1 for x in idx if x is not None)
            if consumed <= n.rank:
                return n.with_(v=_idx(ip, n.v, idx))
        if i == () or i == slice(None):
            return n
    if i is None:
        # leading new axis
        return n.with_(sh=("newaxis", 0, n.sh)) if n.sh != () else n.with_(v=[n.v])
    return n.with_(sh=("getitem", _ikey(i), n.sh))


def _ikey(i):
    return repr(i)


def _idx(ip, v, idx):
    if not idx:
        return v
    i, rest = idx[0], idx[1:]
    if i is None:
        return [_idx(ip, v, rest)]
    if isinstance(i, slice):
        return [_idx(ip, x, rest) for x in v[i]]
    if not isinstance(v, list):
        ip.raise_("IndexError", "too many indices")
    if not -len(v) <= i < len(v):
        # jax clamps out-of-bounds indices
        i = max(min(i, len(v) - 1), -len(v))
    return _idx(ip, v[i], rest)


def _idx_end(ip, n, after):
    consume = sum(1 for x in after if x is not None)
    r = n.rank
    if consume > r:
        # reaches into the batch axes
        return n.with_(sh=("getitem", "...," + repr(after), n.sh)) if r == 0 else _und("index into batch axes")

    def go(v, d):
        if d == 0:
            return _idx(ip, v, after)
        return [go(x, d - 1) for x in v]
    return n.with_(v=go(n.v, r - consume))


def _und(why):
    raise Undecided(why)
