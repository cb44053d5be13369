"""C21: angles and distances check dimension and sign and compute correct results."""
from fractions import Fraction
from ..lab import Result, OK, compare, same_condition
from .. import values as V, ring as R, ext as E, extfun as F
from ..values import Num
from ..vecs import *  # noqa: F403
from .c08 import fired

MIN = 100
CLS = {"Angle": "angle", "Distance": "length", "Parallax": "angle", "DistanceModulus": "magnitude"}
PKG = {"Angle": "coordinax.angle."}
OTHER = ["length", "angle", "magnitude", "time", "dimensionless", "mass", "speed", "area", "angular speed", "wavenumber"]


def check(ctx):
    lab = ctx.lab()
    ctx.rule("dimension", "a value and unit of another dimension than the class has is refused by constructor, from_ and plum conversion; one of that dimension is kept")
    ctx.rule("sign", "with checking on (the default) building a parallax fails exactly if a value is negative; with checking off never")
    ctx.rule("primitive", "every primitive the package registers for the classes has the mathematical value, the right dimension, and a class that admits it")
    ctx.rule("operator", "sums, differences, comparisons, signs and products have the mathematical value and dimension (or are refused), plain quantities mixed in included")
    shapes = [("B",)] + ([(), ("B", "C")] if ctx.thorough else [])
    for sh in shapes:
        tag = "" if sh == ("B",) else f" shape {sh}"
        for c in CLS:
            dimension(ctx, lab, c, sh, tag)
        sign(ctx, lab, sh, tag)
        primitives(ctx, lab, sh, tag)
        operators(ctx, lab, sh, tag)


def cls(lab, c):
    return lab.get(PKG.get(c, "coordinax.distance.") + c)


def unit_of(lab, dim, nm):
    if dim == "magnitude":
        return V.Unit(E.UNITS["mag"][0], V.DIMS[dim])
    return lab.unit(nm, V.DIMS[dim])


def val(lab, c, nm, sh, dim=None, plain=False, **kw):
    """A value of class c (positive for a parallax, which has its check on)."""
    dim = dim or CLS[c]
    un = unit_of(lab, dim, f"{c}.{nm}.{dim}")
    if c == "Parallax":
        kw.setdefault("pos", True)
    x = lab.var(f"{c}.{nm}", **kw)
    t = E.Q["Quantity"] if plain else cls(lab, c)
    return Num(t, x, V.DIMS[dim], un.x, sh)


def kept(lab, r, c, x, un, sh):
    if not isinstance(r, Num):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if r.ty is not cls(lab, c):
        return Result("bad", f"gives a {r.ty.name}")
    if r.sh != sh:
        return Result("bad", f"the shape {sh} becomes {r.sh}")
    return compare(lab.s, [(r.v, R.mul(x, un.x)), (r.unit, un.x)], ["value", "unit"])


def dimension(ctx, lab, c, sh, tag):
    for dim in OTHER:
        ok = dim == CLS[c]
        cross = not ok and c != "Angle" and dim in CLS.values()      # conversions between the kinds: C20
        ways = ["constructor", "from_(value, unit)", "from_(quantity)", "convert"]
        for way in ways:
            if cross and way == "from_(quantity)":
                continue

            def go(way=way, dim=dim, ok=ok):
                lab.fresh()
                x = lab.var(f"{c}.val", **({"pos": True} if c == "Parallax" else {}))
                un = unit_of(lab, dim, f"{c}.u.{dim}")
                arr = lab.arr(x, sh)
                q = Num(E.Q["Quantity"], R.mul(x, un.x), V.DIMS[dim], un.x, sh)
                t = cls(lab, c)
                try:
                    if way == "constructor":
                        r = lab.call(t, arr, un)
                    elif way == "from_(value, unit)":
                        r = lab.call(lab.attr(t, "from_"), arr, un)
                    elif way == "from_(quantity)":
                        r = lab.call(lab.attr(t, "from_"), q)
                    else:
                        r = lab.call(V.Ext("plum.convert"), q, t)
                except AbsRaise as e:
                    return OK if not ok else Result("bad", f"refused: {e}"[:150])
                if not ok:
                    if errors_always(lab):
                        return OK
                    return Result("bad" if isinstance(r, (Num, Obj)) else "und", f"accepted: {r!r} of dimension {getattr(r, 'dim', None)}"[:150])
                e = errors_feasible(lab, lab.ip.effects)
                if e:
                    return Result("bad", err_text(*e))
                return kept(lab, r, c, x, un, sh)
            ctx.guard("dimension", f"{c} {way} with {dim}{tag}", go)


def errors_always(lab):
    return any(e.kind == "error_if" and not e.guards and e.data is True for e in lab.ip.effects)


def sign(ctx, lab, sh, tag):
    P = cls(lab, "Parallax")
    for way in ("constructor", "from_(value, unit)", "from_(quantity)"):
        for chk in (None, True, False):
            def go(way=way, chk=chk):
                lab.fresh()
                x = lab.var("p.any")
                un = unit_of(lab, "angle", "p.unit")
                kw = {} if chk is None else {"check_negative": chk}
                arr = lab.arr(x, sh)
                if way == "constructor":
                    r = lab.call(P, arr, un, **kw)
                elif way == "from_(value, unit)":
                    r = lab.call(lab.attr(P, "from_"), arr, un, **kw)
                else:
                    r = lab.call(lab.attr(P, "from_"), Num(E.Q["Quantity"], R.mul(x, un.x), V.DIMS["angle"], un.x, sh), **kw)
                y = same_condition(lab.s, fired(lab, list(lab.ip.effects)), False if chk is False else V.lt0(x))
                return kept(lab, r, "Parallax", x, un, sh) if y.status == "ok" else y
            if chk is not None and way != "constructor":
                continue            # from_ of unxt takes no class options
            ctx.guard("sign", f"Parallax {way}{'' if chk is None else f' check_negative={chk}'}{tag}", go)


def mine(lab):
    """Primitives with an implementation registered in the analysed angle and distance modules, with their first type."""
    out = []
    for name, pf in sorted(lab.ip.quax.items()):
        for m in pf.methods:
            mod = m.fn.module.name
            if ".angles." in mod or ".distances." in mod:
                out.append(name)
    return sorted(set(out))


def frac(x):
    return Fraction(x).limit_denominator(64)


def result(lab, r, v, dim, sh, keep_ok=True, unit=None):
    if not isinstance(r, Num):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if r.sh != sh:
        return Result("bad", f"the shape {sh} becomes {r.sh}")
    n = r.ty.name if isinstance(r.ty, V.Cls) else None
    if n is None and dim != ():
        return Result("bad", "gives an array without unit")
    if n is not None and r.dim != dim:
        return Result("bad", f"dimension {r.dim}, expected {dim}")
    if n in CLS and V.DIMS[CLS[n]] != dim:
        return Result("bad", f"gives a {n} of dimension {dim}")
    vs = [(g, w) for g, w in zip(r.v, v)] if isinstance(v, list) else [(r.v, v)]
    return compare(lab.s, vs, [f"value{i or ''}" for i in range(len(vs))])


def primitives(ctx, lab, sh, tag):
    ip = lab.ip
    names = mine(lab)
    ctx.ob("primitive", "registered primitives", OK if names else Result("und", "none found"), ", ".join(names))
    for name in names:
        for c, dim in CLS.items():
            if name in ("cos_p", "sin_p", "tan_p"):
                f = {"cos_p": R.cos, "sin_p": R.sin, "tan_p": R.tan}[name]

                def go(c=c, dim=dim, f=f, name=name):
                    lab.fresh()
                    q = val(lab, c, "x", sh)
                    try:
                        r = F.prim(ip, name, [q], {})
                    except AbsRaise:
                        # refused: for a dimension without a sine, or a class the package has no rule for
                        return OK if dim != "angle" or not registered(lab, name, q) else Result("bad", "refused")
                    if dim != "angle":
                        return Result("bad", f"accepts a {dim}")
                    return result(lab, r, f(q.v), (), sh)
                ctx.guard("primitive", f"{name} of {c}{tag}", go)
            elif name in ("sqrt_p", "cbrt_p"):
                def go(c=c, dim=dim, name=name):
                    lab.fresh()
                    q = val(lab, c, "x", sh, pos=True)
                    try:
                        r = F.prim(ip, name, [q], {})
                    except AbsRaise:
                        return OK if not registered(lab, name, q) else Result("bad", "refused")
                    n = 2 if name == "sqrt_p" else 3
                    if n == 2:
                        return result(lab, r, R.sqrt(q.v), V.dim_pow(q.dim, Fraction(1, 2)), sh)
                    # the cube root: its cube is the value
                    y = result(lab, r, r.v, V.dim_pow(q.dim, Fraction(1, 3)), sh)
                    if y.status != "ok":
                        return y
                    cube = R.powi(r.v, 3)
                    return compare(lab.s, [(cube, q.v)], ["cube of the cube root"])
                ctx.guard("primitive", f"{name} of {c}{tag}", go)
            elif name == "integer_pow_p":
                for y in (-2, -1, 0, 1, 2, 3, 5):
                    def go(c=c, dim=dim, y=y):
                        lab.fresh()
                        q = val(lab, c, "x", sh, pos=True)
                        try:
                            r = F.prim(ip, "integer_pow_p", [q], {"y": y})
                        except AbsRaise:
                            return OK if not registered(lab, "integer_pow_p", q) else Result("bad", "refused")
                        return result(lab, r, R.powi(q.v, y) if y else R.const(1), V.dim_pow(q.dim, y), sh)
                    ctx.guard("primitive", f"integer_pow_p[{y}] of {c}{tag}", go)
            elif name == "pow_p":
                for y in (Fraction(1, 2), 2, -1, Fraction(3, 2), Fraction(-1, 2), 0, 1):
                    def go(c=c, dim=dim, y=y):
                        lab.fresh()
                        q = val(lab, c, "x", sh, pos=True)
                        try:
                            r = F.prim(ip, "pow_p", [q, lab.arr(R.const(y))], {})
                        except AbsRaise:
                            return OK if not registered(lab, "pow_p", q, lab.arr(R.const(y))) else Result("bad", "refused")
                        w = R.const(1)
                        k = Fraction(y)
                        w = R.powi(q.v, int(k)) if k.denominator == 1 else R.mul(R.powi(q.v, int(k - Fraction(1, 2))), R.sqrt(q.v))
                        return result(lab, r, w, V.dim_pow(q.dim, k if k.denominator > 1 else int(k)), sh)
                    ctx.guard("primitive", f"pow_p[{y}] of {c}{tag}", go)
            elif name == "dot_general_p":
                for c2, dim2 in CLS.items():
                    def go(c=c, c2=c2):
                        lab.fresh()
                        a, b = mat_vec(lab, c, c2)
                        try:
                            r = F.prim(ip, "dot_general_p", [a, b], {"dimension_numbers": (((1,), (0,)), ((), ()))})
                        except AbsRaise:
                            return OK if not registered(lab, "dot_general_p", a, b) else Result("bad", "refused")
                        w = [R.add(R.mul(row[0], b.v[0]), R.mul(row[1], b.v[1])) for row in a.v]
                        if not isinstance(r, Num) or not isinstance(r.v, list):
                            return Result("und", f"gives {r!r}"[:120])
                        return result(lab, r, w, V.dim_mul(a.dim, b.dim), ())
                    ctx.guard("primitive", f"dot_general_p of {c} and {c2}{tag}", go)
            else:
                ctx.ob("primitive", f"{name} of {c}{tag}", Result("und", "no rule for this primitive"))


def mat_vec(lab, c, c2):
    def q(k, nm):
        return val(lab, k, nm, ()).v
    u1, u2 = unit_of(lab, CLS[c], f"{c}.m"), unit_of(lab, CLS[c2], f"{c2}.v")
    a = Num(cls(lab, c), [[q(c, f"m{i}{j}") for j in range(2)] for i in range(2)], V.DIMS[CLS[c]], u1.x, ())
    b = Num(cls(lab, c2), [q(c2, f"v{i}") for i in range(2)], V.DIMS[CLS[c2]], u2.x, ())
    return a, b


def registered(lab, name, *args):
    """Whether the package registers an implementation that accepts these arguments."""
    pf = lab.ip.quax.get(name)
    m = F.resolve_method(lab.ip, pf, list(args)) if pf is not None else None
    return m is not None and not isinstance(m, list)


def plain(a, b):
    """A plain quantity is involved: the package's promotion rule makes the result one.
    (Products of two values of the classes themselves are left to unxt, which refuses some.)"""
    return any(q.ty is E.Q["Quantity"] for q in (a, b))


def operators(ctx, lab, sh, tag):
    ip = lab.ip
    two = R.const(2)
    for c, dim in CLS.items():
        D = V.DIMS[dim]

        def one(key, f, want, d, c=c, must=True):
            def go():
                lab.fresh()
                try:
                    r = f()
                except AbsRaise as e:
                    return Result("bad", f"refused: {e}"[:150]) if must else OK
                return result(lab, r, want(), d, sh)
            ctx.guard("operator", f"{key} for {c}{tag}", go)

        x, y = val(lab, c, "x", sh), val(lab, c, "y", sh)
        q = val(lab, c, "q", sh, plain=True)
        t = lab.q(f"{c}.t", "time", sh=sh, pos=True)
        one("-x", lambda: E.unop(ip, "USub", x), lambda: R.neg(x.v), D, must=c != "Parallax")
        for nm, a, b in (("x, y", x, y), ("x, quantity", x, q), ("quantity, x", q, x)):
            one(f"{nm}: sum", lambda a=a, b=b: E.binop(ip, "Add", a, b), lambda a=a, b=b: R.add(a.v, b.v), D)
            one(f"{nm}: difference", lambda a=a, b=b: E.binop(ip, "Sub", a, b), lambda a=a, b=b: R.sub(a.v, b.v), D)
            one(f"{nm}: product", lambda a=a, b=b: E.binop(ip, "Mult", a, b), lambda a=a, b=b: R.mul(a.v, b.v), V.dim_pow(D, 2), must=plain(a, b))
            one(f"{nm}: ratio", lambda a=a, b=b: E.binop(ip, "Div", a, b), lambda a=a, b=b: R.div(a.v, b.v), (), must=plain(a, b))
        one("2 x", lambda: E.binop(ip, "Mult", 2, x), lambda: R.mul(x.v, two), D)
        one("x 2", lambda: E.binop(ip, "Mult", x, 2), lambda: R.mul(x.v, two), D)
        one("x / 2", lambda: E.binop(ip, "Div", x, 2), lambda: R.div(x.v, two), D)
        one("2 / x", lambda: E.binop(ip, "Div", 2, x), lambda: R.div(two, x.v), V.dim_pow(D, -1), must=False)
        one("x time", lambda: E.binop(ip, "Mult", x, t), lambda: R.mul(x.v, t.v), V.dim_mul(D, V.DIMS["time"]))
        one("x / time", lambda: E.binop(ip, "Div", x, t), lambda: R.div(x.v, t.v), V.dim_mul(D, V.DIMS["time"], -1))
        one("time / x", lambda: E.binop(ip, "Div", t, x), lambda: R.div(t.v, x.v), V.dim_mul(V.DIMS["time"], D, -1))
        one("x ** 2", lambda: E.binop(ip, "Pow", x, 2), lambda: R.mul(x.v, x.v), V.dim_pow(D, 2))
        one("x ** 0.5", lambda: E.binop(ip, "Pow", val(lab, c, "xp", sh, pos=True), 0.5), lambda: R.sqrt(val(lab, c, "xp", sh).v), V.dim_pow(D, Fraction(1, 2)))
