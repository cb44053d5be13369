"""astropy's representation, differential and quantity classes, as far as the interop modules use them.

Component names and meanings are astropy's documented ones; `represent_as` is the exact change of coordinates."""
from . import ring as R, values as V
from .num import is_q
from .values import Cls, Ext, Num, Obj, Prim, Undecided

PRE = "astropy.coordinates."
QNAME = "astropy.units.Quantity"


def _cls(name, *sup):
    c = Cls(name.rsplit(".", 1)[1], "astropy")
    c.mro = [c] + [Ext(n) for n in (name, *sup)]
    return c


# constructor order of the components
REPS = {
    "CartesianRepresentation": ("x", "y", "z"),
    "CylindricalRepresentation": ("rho", "phi", "z"),
    "PhysicsSphericalRepresentation": ("phi", "theta", "r"),
    "SphericalRepresentation": ("lon", "lat", "distance"),
}
DIFFS = {
    "CartesianDifferential": ("d_x", "d_y", "d_z"),
    "CylindricalDifferential": ("d_rho", "d_phi", "d_z"),
    "PhysicsSphericalDifferential": ("d_phi", "d_theta", "d_r"),
    "SphericalDifferential": ("d_lon", "d_lat", "d_distance"),
    "SphericalCosLatDifferential": ("d_lon_coslat", "d_lat", "d_distance"),
}
KIND = {"x": "length", "y": "length", "z": "length", "rho": "length", "r": "length", "distance": "length",
        "phi": "angle", "theta": "angle", "lon": "angle", "lat": "angle"}
COMPS = {**REPS, **DIFFS}
AQ = _cls(QNAME)
CLASSES = {n: _cls(PRE + n, PRE + ("BaseRepresentation" if n in REPS else "BaseDifferential")) for n in COMPS}
FRAMES = {n: _cls(PRE + n, PRE + "BaseCoordinateFrame") for n in ("ICRS", "Galactocentric")}


def quantity(q):
    """The astropy quantity holding the same values in the same unit."""
    return q.with_(ty=AQ, dt=None)


def make(name, **comps):
    o = Obj(CLASSES[name], comps)
    o.frozen = True
    return o


def construct(ip, n, args, kw):
    """astropy.coordinates.X(...): components by position or by name."""
    names = COMPS[n]
    kw = dict(kw)
    kw.pop("copy", None)
    d = dict(zip(names, args))
    if len(args) > len(names) or set(d) & set(kw):
        ip.raise_("TypeError", f"{n}() got an unexpected argument")
    d.update(kw)
    if set(d) != set(names):
        ip.raise_("TypeError", f"{n}() components {sorted(d)}")
    for k, v in d.items():
        if not is_q(v):
            if isinstance(v, Num):
                ip.raise_("TypeError", f"{n}: {k} has no unit")
            return None
        want = KIND[k] if n in REPS else None
        if want == "angle" and v.dim != V.DIMS["angle"]:
            ip.raise_("UnitTypeError", f"{n}: {k} is not an angle")
    if n == "CartesianRepresentation" and len({v.dim for v in d.values()}) != 1:
        ip.raise_("UnitsError", "x, y and z do not have the same dimension")
    return make(n, **{k: quantity(v) for k, v in d.items()})


def _cart(name, g):
    if name == "CartesianRepresentation":
        return g["x"], g["y"], g["z"]
    if name == "CylindricalRepresentation":
        c, s = R.cossin(g["phi"])
        return R.mul(g["rho"], c), R.mul(g["rho"], s), g["z"]
    if name == "PhysicsSphericalRepresentation":
        (c, s), (ct, st) = R.cossin(g["phi"]), R.cossin(g["theta"])
        return R.mul(R.mul(g["r"], st), c), R.mul(R.mul(g["r"], st), s), R.mul(g["r"], ct)
    (c, s), (cl, sl) = R.cossin(g["lon"]), R.cossin(g["lat"])
    return R.mul(R.mul(g["distance"], cl), c), R.mul(R.mul(g["distance"], cl), s), R.mul(g["distance"], sl)


def represent_as(ip, args, kw):
    """obj.represent_as(Class): the same point in the other representation."""
    from . import ext as E
    from . import num as N
    o, t = args[0], args[1]
    tn = t.name.rsplit(".", 1)[1] if isinstance(t, Ext) else t.name
    if o.cls.name == tn:
        return o
    if o.cls.name not in REPS or tn not in REPS:
        raise Undecided(f"represent_as({tn}) of {o.cls.name}")
    names = REPS[o.cls.name]
    vals = [o.d[k].v for k in names]
    q = next(o.d[k] for k in names if KIND[k] == "length")
    sh = N.bshape(*[o.d[k].sh for k in names])
    x, y, z = [V.tlift(lambda *g, i=i: _cart(o.cls.name, dict(zip(names, g)))[i], *vals) for i in range(3)]
    rho = V.tlift(lambda a, b: R.sqrt(R.add(R.mul(a, a), R.mul(b, b))), x, y)
    r = V.tlift(lambda a, b, c: R.sqrt(R.add(R.add(R.mul(a, a), R.mul(b, b)), R.mul(c, c))), x, y, z)
    at = lambda a, b: V.tlift(R.atan2, a, b)  # noqa: E731
    out = {"CartesianRepresentation": lambda: (x, y, z),
           "CylindricalRepresentation": lambda: (rho, at(y, x), z),
           "PhysicsSphericalRepresentation": lambda: (at(y, x), at(rho, z), r),
           "SphericalRepresentation": lambda: (at(y, x), at(z, rho), r)}[tn]()
    rad = E.UNITS["rad"][0]
    return make(tn, **{k: Num(AQ, v, V.DIMS[KIND[k]], q.unit if KIND[k] == "length" else rad, sh)
                       for k, v in zip(REPS[tn], out)})


REPRESENT = Prim("represent_as", represent_as)
for _c in CLASSES.values():
    _c.ns["represent_as"] = REPRESENT
