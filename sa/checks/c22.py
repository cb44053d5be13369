"""C22: conversion to and from astropy keeps every component."""
from .. import apy as AP, axes as AX, ext as E, values as V, ring as R
from ..lab import Result, OK, compare
from ..num import is_q
from ..values import Ext, Num, Obj
from ..vecs import *  # noqa: F403

MIN = 150
REPR = {"CartesianPos3D": "CartesianRepresentation", "CylindricalPos": "CylindricalRepresentation",
        "SphericalPos": "PhysicsSphericalRepresentation", "LonLatSphericalPos": "SphericalRepresentation"}
DIFF = {"CartesianVel3D": "CartesianDifferential", "CylindricalVel": "CylindricalDifferential",
        "SphericalVel": "PhysicsSphericalDifferential", "LonLatSphericalVel": "SphericalDifferential",
        LCL: "SphericalCosLatDifferential"}
PAIR = {**REPR, **DIFF}
DISTS = ("Distance", "Parallax", "DistanceModulus")


def check(ctx):
    lab = ctx.lab()
    ctx.rule("to", "a vector converted to its astropy class (named itself or by the astropy base class) gives that class, every component equal to the component with the same name, in its batch shape; a radius held as a parallax or a distance modulus becomes the distance it denotes")
    ctx.rule("registered", "every registered conversion between a vector class and an astropy class gives an object of the class it is registered for")
    ctx.rule("from", "an astropy object converted to, or given to from_ of, the matching vector class gives that class with every component equal to the astropy component with the same name")
    ctx.rule("round", "converting to astropy and back, or from astropy and forth, gives the same class and components")
    ctx.rule("dispatch", "from_ of the base position or velocity class picks the class of the astropy object")
    ctx.rule("represent", "from_ of a position class given any other astropy representation gives the same point")
    ctx.rule("quantity", "an astropy quantity, a mapping of astropy quantities, and a conversion to an astropy quantity hold the Cartesian components in order")
    ctx.rule("distance", "an astropy quantity converted to a distance class holds the same value, and is refused when the dimension does not fit")
    ctx.rule("frame", "an astropy frame becomes the frame with the same parameters; one carrying data is refused")
    shapes = [(), AX.mk("a")] + ([AX.mk("a", "b"), AX.mk("a", "b", "c")] if ctx.thorough else [])
    for sh in shapes:
        tag = "" if sh == () else f" batch {AX.sizes(sh)}"
        for name, rep in PAIR.items():
            to(ctx, lab, name, rep, sh, tag)
            from_(ctx, lab, name, rep, sh, tag)
        represent(ctx, lab, sh, tag)
        quantity(ctx, lab, sh, tag)
        distances(ctx, lab, sh, tag)
    registered(ctx, lab)
    frames(ctx, lab)


def conv(lab, v, t):
    return lab.call(Ext("plum.convert"), v, t)


def apc(n):
    return Ext(AP.PRE + n)


def samecomp(lab, got, want, label, sh):
    """got is a quantity with the value, dimension, unit and batch shape of want."""
    if not is_q(got):
        return Result("und" if isinstance(got, (Ite, Top)) else "bad", f"{label} is {got!r}"[:120])
    if got.dim != want.dim:
        return Result("bad", f"{label} has dimension {got.dim}, wanted {want.dim}")
    if AX.sizes(got.sh) != AX.sizes(sh):
        return Result("bad", f"{label} has batch shape {got.sh}, wanted {sh}")
    if want.unit is not None and got.unit is None:
        return Result("bad", f"{label} has an unknown unit")
    return compare(lab.s, [(got.v, want.v)], [label])


def allcomps(lab, o, want, sh):
    for k, w in want.items():
        if k not in o.d:
            return Result("bad", f"no component {k}")
        r = samecomp(lab, o.d[k], w, k, sh)
        if r.status != "ok":
            return r
    return OK


def errors(lab):
    bad = errors_feasible(lab, lab.ip.effects)
    return Result("bad", err_text(*bad)) if bad else OK


def isclass(o, name):
    if not isinstance(o, Obj):
        return Result("und" if isinstance(o, (Ite, Top)) else "bad", f"gives {o!r}"[:120])
    return OK if o.cls.name == name else Result("bad", f"gives a {o.cls.name}, wanted {name}")


def first(*fs):
    for f in fs:
        r = f()
        if r.status != "ok":
            return r
    return OK


def vec_of(lab, name, sh, radius="Quantity"):
    return mkpos(lab, name, radius=radius, sh=sh) if name in REPR else mkdiff(lab, name, f"{name}.", 1, sh=sh)


def denoted(lab, o):
    """Components by name, distance-like radii as the length they denote."""
    out = {}
    for k, q in o.d.items():
        if is_q(q) and q.ty.name in ("Parallax", "DistanceModulus"):
            q = Num(E.Q["Quantity"], rad_value(q), V.DIMS["length"], E.UNITS["pc"][0], q.sh)
        out[k] = q
    return out


def base_of(name):
    return "BaseRepresentation" if name in REPR else "BaseDifferential"


def to(ctx, lab, name, rep, sh, tag):
    kinds = ["Quantity"] + (list(DISTS) if name in DIST_RAD and name in REPR else [])
    for kind in kinds:
        for t in (rep, base_of(name)):
            def go(kind=kind, t=t):
                lab.fresh()
                o = vec_of(lab, name, sh, kind)
                r = conv(lab, o, apc(t))
                return first(lambda: isclass(r, rep), lambda: allcomps(lab, r, denoted(lab, o), sh), lambda: errors(lab))
            ctx.guard("to", f"{name}{'' if kind == 'Quantity' else ' (' + kind + ')'} -> {t}{tag}", go)

        def back(kind=kind):
            lab.fresh()
            o = vec_of(lab, name, sh, kind)
            r = conv(lab, conv(lab, o, apc(rep)), vcls(lab, name))
            return first(lambda: isclass(r, name), lambda: allcomps(lab, r, denoted(lab, o), sh))
        ctx.guard("round", f"{name}{'' if kind == 'Quantity' else ' (' + kind + ')'} -> {rep} -> {name}{tag}", back)


def registered(ctx, lab):
    """Every conversion the package registers between one vector class and one astropy class."""
    for a, b, _ in lab.ip.conv:
        for x, y in ((a, b), (b, a)):
            if not (isinstance(x, V.Cls) and isinstance(y, Ext) and y.name.startswith(AP.PRE)):
                continue
            xn, yn = x.name, y.name[len(AP.PRE):]
            if yn not in AP.COMPS and yn not in ("BaseRepresentation", "BaseDifferential"):
                continue

            def go(a=a, b=b, xn=xn, yn=yn, out=x is a):
                lab.fresh()
                if xn not in PAIR:
                    return Result("und", f"no astropy class is known for {xn}")
                if out:
                    r = conv(lab, vec_of(lab, xn, ()), b)
                    return first(lambda: isclass(r, PAIR[xn]),
                                 lambda: OK if r.cls.issub(b) else Result("bad", f"gives a {r.cls.name}, which is no {yn}"))
                r = conv(lab, rep_of(lab, yn, ())[0], b)
                return isclass(r, xn)
            ctx.guard("registered", f"{xn if x is a else yn} -> {yn if x is a else xn}", go)


def rep_of(lab, rep, sh, vel=None):
    """An arbitrary valid astropy object, and the same components as unxt quantities."""
    name = next(k for k, v in PAIR.items() if v == rep)
    o = vec_of(lab, name, sh)
    d = {k: q for k, q in o.d.items()}
    return AP.make(rep, **{k: AP.quantity(q) for k, q in d.items()}), d, o


def from_(ctx, lab, name, rep, sh, tag):
    base = "AbstractPos3D" if name in REPR else "AbstractVel3D"
    ways = {"convert": lambda x: conv(lab, x, vcls(lab, name)),
            f"{name}.from_": lambda x: lab.call(lab.attr(vcls(lab, name), "from_"), x),
            f"{base}.from_": lambda x: lab.call(lab.attr(vcls(lab, base), "from_"), x)}
    for label, f in ways.items():
        def go(f=f):
            lab.fresh()
            x, d, _ = rep_of(lab, rep, sh)
            r = f(x)
            return first(lambda: isclass(r, name), lambda: allcomps(lab, r, d, sh), lambda: errors(lab))
        ctx.guard("dispatch" if label.startswith("Abs") else "from", f"{label} of {rep}{tag}", go)

    def forth():
        lab.fresh()
        x, d, _ = rep_of(lab, rep, sh)
        r = conv(lab, conv(lab, x, vcls(lab, name)), apc(rep))
        return first(lambda: isclass(r, rep), lambda: allcomps(lab, r, d, sh))
    ctx.guard("round", f"{rep} -> {name} -> {rep}{tag}", forth)


def represent(ctx, lab, sh, tag):
    for name in REPR:
        for rep in AP.REPS:
            if REPR[name] == rep:
                continue

            def go(name=name, rep=rep):
                lab.fresh()
                x, d, o = rep_of(lab, rep, sh)
                r = lab.call(lab.attr(vcls(lab, name), "from_"), x)
                return first(lambda: isclass(r, name),
                             lambda: same_point(lab, r, o),
                             lambda: OK if all(AX.sizes(q.sh) == AX.sizes(sh) for q in r.d.values()) else Result("bad", "batch shape"))
            ctx.guard("represent", f"{name}.from_({rep}){tag}", go)


CARTS = {"CartesianPos3D": "length", "CartesianVel3D": "speed", "CartesianAcc3D": "acceleration"}
BUILT = {"CartesianPos1D": ("x", "length"), "CartesianPos2D": ("xy", "length"), "CartesianPos3D": ("xyz", "length"),
         "CartesianVel2D": ("xy", "speed"), "CartesianVel3D": ("xyz", "speed"), "CartesianAcc3D": ("xyz", "acceleration"),
         "AbstractPos3D": ("xyz", "length"), "AbstractVel3D": ("xyz", "speed"), "AbstractAcc3D": ("xyz", "acceleration")}


def fields(name):
    p = "d_" if "Vel" in name else "d2_" if "Acc" in name else ""
    return lambda k: p + k


def quantity(ctx, lab, sh, tag):
    for name in POS[3]:
        def go(name=name):
            lab.fresh()
            o = mkpos(lab, name, sh=sh)
            r = conv(lab, o, Ext(AP.QNAME))
            return stacked(lab, r, sh, "length", lambda: same_point(
                lab, frozen(lab, vcls(lab, "CartesianPos3D"), {f: r.with_(v=r.v[i]) for i, f in enumerate("xyz")}), o))
        ctx.guard("quantity", f"{name} -> astropy Quantity{tag}", go)
    for name, order in (("CartesianVel3D", 1), ("CartesianAcc3D", 2)):
        def god(name=name, order=order):
            lab.fresh()
            o = mkdiff(lab, name, f"{name}.", order, sh=sh)
            r = conv(lab, o, Ext(AP.QNAME))
            f = fields(name)
            return stacked(lab, r, sh, CARTS[name], lambda: compare(
                lab.s, [(r.v[i], o.d[f(k)].v) for i, k in enumerate("xyz")], list("xyz")))
        ctx.guard("quantity", f"{name} -> astropy Quantity{tag}", god)
    for name, (axes, dim) in BUILT.items():
        f = fields(name)
        cls = name.replace("Abstract", "Cartesian")

        def arr(name=name, axes=axes, dim=dim, f=f, cls=cls):
            lab.fresh()
            qs = {f(k): lab.q(k, dim, sh=sh) for k in axes}
            first_ = next(iter(qs.values()))
            x = first_.with_(ty=AP.AQ, v=[q.v for q in qs.values()])
            r = lab.call(lab.attr(vcls(lab, name), "from_"), x)
            return first(lambda: isclass(r, cls), lambda: allcomps(lab, r, qs, sh), lambda: errors(lab))
        ctx.guard("quantity", f"{name}.from_(astropy Quantity){tag}", arr)

        def mapping(name=name, axes=axes, dim=dim, f=f, cls=cls):
            lab.fresh()
            qs = {f(k): lab.q(k, dim, sh=sh) for k in axes}
            r = lab.call(lab.attr(vcls(lab, name), "from_"), {k: AP.quantity(q) for k, q in reversed(list(qs.items()))})
            return first(lambda: isclass(r, cls), lambda: allcomps(lab, r, qs, sh), lambda: errors(lab))
        if name == cls:
            ctx.guard("quantity", f"{name}.from_(mapping of astropy quantities){tag}", mapping)
    for name in REPR:
        def m2(name=name):
            lab.fresh()
            o = mkpos(lab, name, sh=sh)
            r = lab.call(lab.attr(vcls(lab, name), "from_"), {k: AP.quantity(q) for k, q in reversed(list(o.d.items()))})
            return first(lambda: isclass(r, name), lambda: allcomps(lab, r, o.d, sh), lambda: errors(lab))
        ctx.guard("quantity", f"{name}.from_(mapping of astropy components){tag}", m2)


def stacked(lab, r, sh, dim, more):
    if not is_q(r):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:120])
    if r.ty is not AP.AQ:
        return Result("bad", f"gives a {r.ty.name}")
    if not isinstance(r.v, list) or len(r.v) != 3:
        return Result("bad", "does not have three entries")
    if AX.sizes(r.sh) != AX.sizes(sh) or AX.hist(r.sh):
        return Result("bad", f"batch shape {r.sh}, wanted {sh}")
    if r.dim != V.DIMS[dim]:
        return Result("bad", f"dimension {r.dim}")
    return more()


def distances(ctx, lab, sh, tag):
    good = {"Distance": "length", "Parallax": "angle", "DistanceModulus": V.MAG}
    for c in DISTS:
        for dim in good.values():
            for how in ("convert", "from_"):
                def go(c=c, dim=dim, how=how):
                    lab.fresh()
                    if dim == V.MAG:
                        q = radius_q(lab, "p.", "r", "DistanceModulus").with_(sh=sh)
                    else:
                        q = lab.q("v", dim, x=lab.var("v", nonneg=True), sh=sh)
                    x = AP.quantity(q)
                    cls = lab.get("coordinax.distance." + c)
                    try:
                        r = conv(lab, x, cls) if how == "convert" else lab.call(lab.attr(cls, "from_"), x)
                    except AbsRaise as e:
                        return OK if dim != good[c] else Result("bad", f"refused: {e}"[:140])
                    if dim != good[c]:
                        bad = errors_feasible(lab, lab.ip.effects)
                        return OK if bad and bad[1].why == "always" else Result("bad", f"a quantity of dimension {dim} is taken for a {c}")
                    if not is_q(r) or r.ty is not cls:
                        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:120])
                    return first(lambda: samecomp(lab, r, q, "value", sh), lambda: errors(lab))
                ctx.guard("distance", f"{how} a quantity of {dim if dim != V.MAG else 'magnitudes'} to {c}{tag}", go)


def frames(ctx, lab):
    def frame(name, data, **d):
        return Obj(AP.FRAMES[name], {"has_data": data, **d})

    for name in AP.FRAMES:
        def mk(name=name):
            cls = lab.get("coordinax.frames." + name)
            d = {}
            if name == "Galactocentric":
                sky = Obj(AP.FRAMES["ICRS"], {"has_data": True, **{k: AP.quantity(lab.q(k, "angle", x=lab.angle(k, -math.pi / 2 if k == "dec" else 0, math.pi / 2 if k == "dec" else 2 * math.pi, cos_nonneg=k == "dec"), sh=()))
                                                                  for k in ("ra", "dec")}})
                v = AP.make("CartesianDifferential", **{"d_" + k: AP.quantity(lab.q("v" + k, "speed", sh=())) for k in "xyz"})
                d = dict(galcen_coord=sky, galcen_distance=AP.quantity(lab.q("D", "length", x=lab.var("D", pos=True), sh=())),
                         roll=AP.quantity(lab.q("roll", "angle", sh=())), z_sun=AP.quantity(lab.q("zs", "length", sh=())), galcen_v_sun=v)
            return cls, d

        def good(name=name, mk=mk):
            lab.fresh()
            cls, d = mk()
            r = lab.call(lab.attr(cls, "from_"), frame(name, False, **d))
            if not isinstance(r, Obj) or r.cls is not cls:
                return Result("bad", f"gives {r!r}"[:120])
            if not d:
                return errors(lab)
            sky = d["galcen_coord"]
            want = {"lon": sky.d["ra"], "lat": sky.d["dec"], "distance": d["galcen_distance"]}
            return first(lambda: isclass(r.d["galcen"], "LonLatSphericalPos"), lambda: allcomps(lab, r.d["galcen"], want, ()),
                         lambda: allcomps(lab, r, {k: d[k] for k in ("roll", "z_sun")}, ()),
                         lambda: isclass(r.d["galcen_v_sun"], "CartesianVel3D"),
                         lambda: allcomps(lab, r.d["galcen_v_sun"], d["galcen_v_sun"].d, ()), lambda: errors(lab))
        ctx.guard("frame", f"{name}.from_(astropy {name})", good)

        def withdata(name=name, mk=mk):
            lab.fresh()
            cls, d = mk()
            try:
                lab.call(lab.attr(cls, "from_"), frame(name, True, **d))
            except AbsRaise:
                return OK
            bad = errors_feasible(lab, lab.ip.effects)
            return OK if bad and bad[1].why == "always" else Result("bad", "the data are dropped without a word")
        ctx.guard("frame", f"{name}.from_(astropy {name} with data) is refused", withdata)
