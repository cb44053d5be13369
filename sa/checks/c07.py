"""C07: norms are Euclidean lengths."""
from ..lab import Result, OK, compare, truth_always
from .. import ext as E, values as V, ring as R
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403
from .c06 import mknd, ND

MIN = 20
P3 = "ProlateSpheroidalPos"
SPEED, ACC = V.DIMS["speed"], V.DIMS["acceleration"]


def root(xs):
    def f(*c):
        t = R.const(0)
        for x in c:
            t = R.add(t, R.mul(x, x))
        return R.sqrt(t)
    return V.tlift(f, *xs)


def scalar_of(r):
    if not isinstance(r, Num):
        raise Undecided(f"result {r!r}"[:100])
    v = rad_value(r)
    if isinstance(v, list):
        raise Undecided("array result")
    return v


def check(ctx):
    lab = ctx.lab()
    ctx.rule("position", "norm() and abs() of a position denote its Euclidean distance from the origin")
    ctx.rule("special", "rule position at the origin, on the axes and planes, at the poles and at quarter turns, where components are exactly zero")
    ctx.rule("dimension", "the norm has the dimension of a length, speed or acceleration")
    ctx.rule("cartesian", "the norm of a Cartesian velocity or acceleration is the root of the summed squares of all its components")
    ctx.rule("atpos", "the norm of a velocity (acceleration) at a position is the length of the Cartesian vector it denotes")
    ctx.rule("unit", "normalize_vector returns the vector divided by its length")
    for dim, names in POS.items():
        for a in names:
            for rad in ["Quantity"] + (["Parallax", "DistanceModulus"] if a in DIST_RAD else []):
                for how in ("norm()", "abs()"):
                    position(ctx, lab, a, rad, how)
    for dim in (1, 2, 3):
        for order in (1, 2):
            cartesian(ctx, lab, dim, order)
        for a in POS[dim]:
            for order in (1, 2):
                atpos(ctx, lab, a, order)
    atpos(ctx, lab, "LonLatSphericalPos", 1, LCL)
    for order in (0, 1, 2):
        nd(ctx, lab, order)
    units(ctx, lab)


def run(lab, o, how, *args):
    lab.fresh()
    return lab.call(lab.attr(o, "norm" if how == "norm()" else "__abs__"), *args)


def position(ctx, lab, a, rad, how):
    key = f"{a}.{how}" + (f" (radius as {rad})" if rad != "Quantity" else "")
    st = {}

    def dimn():
        o = mkpos(lab, a, radius=rad)
        r = run(lab, o, how)
        st.update(o=o, r=r)
        if not isinstance(r, Num):
            return Result("bad" if isinstance(r, Obj) else "und", f"result {r!r}"[:100])
        if r.ty.name not in ("Parallax", "DistanceModulus") and r.dim != V.DIMS["length"]:
            return Result("bad", f"dimension {r.dim}")
        return OK
    x = ctx.guard("dimension", key, dimn)
    if x is None or x.status != "ok":
        return

    def val():
        o = st["o"]
        if a == P3:
            rho2, z2, *_ = prol_of(o)
            want = V.tlift(lambda a, b: R.sqrt(R.add(a, b)), rho2, z2)
        else:
            want = root(cart_of(o))
        return compare(lab.s, [(scalar_of(st["r"]), want)], ["norm"])
    ctx.guard("position", key, val)
    if rad != "Quantity" or a == P3:
        return
    for lb, pin in degenerate(a):
        def special(pin=pin):
            o = pinned(lab, mkpos(lab, a), pin)
            v = scalar_of(run(lab, o, how))
            if nan_leaf(v):
                return Result("bad", "the norm is not a number")
            return compare(lab.s, [(v, root(cart_of(o)))], ["norm"])
        ctx.guard("special", f"{key} at {lb}", special)


def cartesian(ctx, lab, dim, order):
    sp = SPECS[POS[dim][0]]
    name = sp.vel if order == 1 else sp.acc
    p = "d_" if order == 1 else "d2_"
    for how in ("norm()", "abs()"):
        def go(how=how):
            o = mkdiff(lab, name, f"{name}.", order)
            r = run(lab, o, how)
            v = scalar_of(r)
            if r.dim != (SPEED if order == 1 else ACC):
                return Result("bad", f"dimension {r.dim}")
            return compare(lab.s, [(v, root([o.d[p + n].v for n, _ in sp.comps]))], ["norm"])
        ctx.guard("cartesian", f"{name}.{how}", go)


def atpos(ctx, lab, a, order, velname=None):
    sp = SPECS[a]
    name = velname or (sp.vel if order == 1 else sp.acc)

    def go():
        pos = mkpos(lab, a)
        vel = mkdiff(lab, velname or sp.vel, f"{sp.vel}.", 1)
        acc = mkdiff(lab, sp.acc, f"{sp.acc}.", 2) if order == 2 else None
        r = run(lab, acc or vel, "norm()", *([vel, pos] if acc else [pos]))
        v = scalar_of(r)
        if r.dim != (SPEED if order == 1 else ACC):
            return Result("bad", f"dimension {r.dim}")
        return compare(lab.s, [(v, root(jets_of(lab, pos, vel, acc)[order]))], ["norm"], generic=True)
    ctx.guard("atpos", f"{name}.norm({'velocity, ' if order == 2 else ''}position)", go)


def nd(ctx, lab, order):
    name, f, dim = ND[order]
    for how in ("norm()", "abs()"):
        def go(how=how):
            o = mknd(lab, order, "u.")
            r = run(lab, o, how)
            v = scalar_of(r)
            if r.dim != V.DIMS[dim]:
                return Result("bad", f"dimension {r.dim}")
            return compare(lab.s, [(v, root(o.d[f].v))], ["norm"])
        ctx.guard("position" if order == 0 else "cartesian", f"{name}.{how}", go)


def units(ctx, lab):
    f = lab.get("coordinax.vecs.normalize_vector") if True else None

    def q():
        x = mknd(lab, 0, "u.").d["q"]
        lab.fresh()
        r = lab.call(f, x)
        if not isinstance(r, Num) or not isinstance(r.v, list):
            return Result("und", f"result {r!r}"[:100])
        n = root(x.v)
        if r.dim != V.DIMS["dimensionless"]:
            return Result("bad", f"dimension {r.dim}")
        return compare(lab.s, list(zip(r.v, [V.tlift(R.div, c, n) for c in x.v])), ["x0", "x1", "x2"])
    ctx.guard("unit", "normalize_vector(Quantity)", q)

    def cart():
        o = mkpos(lab, "CartesianPos3D")
        lab.fresh()
        r = lab.call(f, o)
        if not isinstance(r, Obj):
            return Result("und", f"result {r!r}"[:100])
        xs = [o.d[n].v for n in ("x", "y", "z")]
        n = root(xs)
        return compare(lab.s, list(zip([r.d[k].v for k in ("x", "y", "z")], [V.tlift(R.div, c, n) for c in xs])), ["x", "y", "z"])
    ctx.guard("unit", "normalize_vector(CartesianPos3D)", cart)
