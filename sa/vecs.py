"""Abstract vectors of the analysed classes and the Cartesian points they denote."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

from . import ext as E
from . import ring as R
from . import specs as S
from . import values as V
from .lab import Result, compare, feasible, feasible_eq, joint, truth_always
from .specs import J, KDIM, SPECS, _prol
from .values import *  # noqa: F403
from .values import AbsRaise, Undecided

POS = {1: ["CartesianPos1D", "RadialPos"], 2: ["CartesianPos2D", "PolarPos"],
       3: ["CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos", "LonLatSphericalPos",
           "ProlateSpheroidalPos"]}
DIST_RAD = {"RadialPos": "r", "PolarPos": "r", "SphericalPos": "r", "MathSphericalPos": "r",
            "LonLatSphericalPos": "distance"}


def vcls(lab, name):
    return lab.get("coordinax.vecs." + name)


def au():
    return E.UNITS["AU"][0]


def pc():
    return E.UNITS["pc"][0]


def rad_value(q):
    """Length denoted by a radius-like quantity (leaf)."""
    n = q.ty.name
    if n == "Parallax":
        return V.tlift(lambda p: R.div(R.mul(au(), R.cos(p)), R.sin(p)), q.v)
    if n == "DistanceModulus":
        mag = E.UNITS["mag"][0]
        return V.tlift(lambda m: R.mul(pc(), R.pow10(R.add(R.div(R.div(m, mag), R.const(5)), R.const(1)))), q.v)
    return q.v


def radius_q(lab, pre, comp, kind):
    if kind in ("Distance", "Quantity"):
        q = lab.q(pre + comp, "length", x=lab.var(pre + comp, nonneg=True))
        return q if kind == "Quantity" else q.with_(ty=lab.get("coordinax.distance.Distance"))
    if kind == "Parallax":
        x = lab.angle(pre + comp + "_plx", 0, math.pi / 2, sin_nonneg=True)
        c, s = R.cossin(x)
        for t in (c, s):
            a = next(iter(t.n))[0][0]
            R.ATOMS[a].nonneg = R.ATOMS[a].pos = True
        return lab.q(pre + comp + "_plx", "angle", x=x, ty=lab.get("coordinax.distance.Parallax"))
    if kind == "DistanceModulus":
        mag = E.UNITS["mag"][0]
        x = R.mul(lab.var(pre + comp + "_dm"), mag)
        return lab.q(pre + comp + "_dm", V.MAG, x=x, ty=lab.get("coordinax.distance.DistanceModulus"),
                     unit=Unit(mag, V.MAG))
    raise KeyError(kind)


def comp_q(lab, name, pre, comp, kind, radius="Quantity"):
    if kind == "rad" and radius != "Quantity":
        return radius_q(lab, pre, comp, radius)
    return lab.q(pre + comp, KDIM[kind], x=S.symbol(lab, kind, pre + comp))


def pos_args(lab, name, pre, radius="Quantity", sh=("B",)):
    sp = SPECS[name]
    if name == "ProlateSpheroidalPos":
        D = lab.var(pre + "Delta", pos=True, lo=0.5, hi=2)
        D2 = R.mul(D, D)
        did = next(iter(D.n))[0][0]
        mu = lab.var(pre + "mu", pos=True, dist=lambda rng, pt: pt.atom(did) ** 2 * (1 + rng.uniform(0.05, 3)))
        nu = lab.var(pre + "nu", dist=lambda rng, pt: pt.atom(did) ** 2 * rng.uniform(-0.97, 0.97))
        anu = R.abs_(nu)
        for x in (R.sub(mu, D2), R.sub(D2, nu), R.add(D2, nu), R.sub(D2, anu), R.add(D2, anu)):
            R.NONNEG[R.frozen(x.n)] = True
        L2 = V.DIMS["area"]
        d = {"mu": lab.q(pre + "mu", L2, x=mu), "nu": lab.q(pre + "nu", L2, x=nu),
             "phi": lab.q(pre + "phi", "angle", x=lab.angle(pre + "phi", 0, 2 * math.pi)),
             "Delta": lab.q(pre + "Delta", "length", x=D, sh=())}
    else:
        d = {n: comp_q(lab, name, pre, n, k, radius) for n, k in sp.comps}
    return {k: (v.with_(sh=sh) if k != "Delta" else v) for k, v in d.items()}


def mkpos(lab, name, pre=None, radius="Quantity", sh=("B",)):
    """An arbitrary valid vector of the class: types as its constructor stores them."""
    pre = f"{name}." if pre is None else pre
    c = vcls(lab, name)
    args = pos_args(lab, name, pre, radius, sh)
    return build(lab, c, args)


def build(lab, c, args):
    saved = lab.ip.effects
    lab.ip.effects = []
    try:
        o = lab.ip.call(c, [], dict(args))
    finally:
        lab.ip.effects = saved
    d = {}
    for n, v in o.d.items():
        if n in args and isinstance(v, Num) and v.dim == args[n].dim:
            d[n] = v.with_(v=args[n].v, unit=args[n].unit, sh=args[n].sh)
        else:
            d[n] = v
    o2 = Obj(c, d)
    o2.frozen = True
    return o2


def nan_leaf(v):
    return V.is_nan(v) if not isinstance(v, Ite) else nan_leaf(v.a) or nan_leaf(v.b)


def not_nan(o):
    bad = [n for n, q in o.d.items() if isinstance(q, Num) and not isinstance(q.v, list) and nan_leaf(q.v)]
    return Result("bad", f"{bad[0]} is not a number") if bad else None


def degenerate(name):
    """Special points of a position class: (label, {component: multiple of pi/2 for angles, 0 for lengths})."""
    comps = SPECS[name].comps
    lin = [n for n, k in comps if k not in ("az", "pol", "lat")]
    out = [{n: 0 for n in s} for k in range(1, len(lin) + 1) for s in itertools.combinations(lin, k)]
    for n, k in comps:
        for v in {"az": (0, 1, 2, 3), "pol": (0, 1, 2), "lat": (-1, 0, 1)}.get(k, ()):
            out.append({n: v})
            out += [{n: v, m: 0} for m in lin]
    return [(",".join(f"{n}={v if n in lin else f'{90 * v} deg'}" for n, v in d.items()), d) for d in out]


def pinned(lab, o, vals):
    q = R.div(R.pi(), R.const(2))
    return frozen(lab, o.cls, {n: v if n not in vals else v.with_(v=R.mul(q, R.const(vals[n]))) for n, v in o.d.items()})


def integral(lab, name, pre=None, radius="Distance"):
    """mkpos for integer-valued components, stored as the constructor stores them."""
    o = mkpos(lab, name, pre)
    args = {k: v.with_(kind="int") for k, v in pos_args(lab, name, f"{name}." if pre is None else pre, "Quantity").items()}
    for k, kind in SPECS[name].comps:
        if kind == "rad" and name in DIST_RAD and radius != "Quantity":
            args[k] = args[k].with_(ty=lab.get("coordinax.distance." + radius))
    saved, lab.ip.effects = lab.ip.effects, []
    try:
        r = lab.ip.call(o.cls, [], args)
    finally:
        lab.ip.effects = saved
    return frozen(lab, o.cls, {k: v.with_(kind=r.d[k].kind) for k, v in o.d.items()}), o


def comps_of(lab, c):
    """Component names: fields that are not attributes, by the class's own declaration."""
    v = lab.attr(c, "components")
    return [x for x in lab.ip.iterate(v)]


def cart_of(o, name=None):
    """Cartesian coordinates (gated value numbers) denoted by an abstract position."""
    name = name or o.cls.name
    sp = SPECS[name]
    vals = []
    for n, k in sp.comps:
        q = o.d[n]
        vals.append(rad_value(q) if k == "rad" else q.v)
    for v in vals:
        if isinstance(v, list):
            raise Undecided("array component")
    if name == "ProlateSpheroidalPos":
        raise KeyError(name)
    return [V.tlift(lambda *xs, i=i: sp.cart(*[J(x) for x in xs])[i].c[0], *vals) for i in range(sp.dim)]


def prol_of(o):
    """(rho^2, z^2, sign z, phi) of a prolate spheroidal position."""
    mu, nu, phi, D = (o.d[n].v for n in ("mu", "nu", "phi", "Delta"))

    def rho2(mu, nu, D):
        D2 = R.mul(D, D)
        return R.div(R.mul(R.sub(mu, D2), R.sub(D2, R.abs_(nu))), D2)

    def z2(mu, nu, D):
        return R.div(R.mul(mu, R.abs_(nu)), R.mul(D, D))
    return V.tlift(rho2, mu, nu, D), V.tlift(z2, mu, nu, D), V.tlift(R.sign, nu), phi


def rad_point(o):
    """Representation-independent facts for comparing against prolate positions."""
    x, y, z = cart_of(o)
    rho2 = V.tlift(lambda a, b: R.add(R.mul(a, a), R.mul(b, b)), x, y)
    return x, y, z, rho2


def same_point(lab, got, src, generic=False):
    """Compare two abstract positions of equal dimension as points."""
    gn, sn = got.cls.name, src.cls.name
    P = "ProlateSpheroidalPos"
    if gn != P and sn != P:
        e, g = cart_of(src), cart_of(got)
        return compare(lab.s, list(zip(g, e)), ["x", "y", "z"][:len(e)], generic=generic)
    if gn == P and sn == P:
        a, b = prol_of(got), prol_of(src)
        r = compare(lab.s, list(zip(a[:3], b[:3])), ["rho^2", "z^2", "sign(z)"], generic=generic)
        return r if r.status != "ok" else compare(lab.s, [(a[3], b[3])], ["phi"], angle=True, generic=generic)
    if gn == P:
        x, y, z, rho2 = rad_point(src)
        a = prol_of(got)
        sz = V.tlift(R.sign, z)
        rho = V.tlift(R.sqrt, rho2)
        gx = V.tlift(lambda r, p: R.mul(r, R.cos(p)), rho, a[3])
        gy = V.tlift(lambda r, p: R.mul(r, R.sin(p)), rho, a[3])
        z2 = V.tlift(lambda v: R.mul(v, v), z)
        return compare(lab.s, [(a[0], rho2), (a[1], z2), (a[2], sz), (gx, x), (gy, y)],
                       ["rho^2", "z^2", "sign(z)", "x", "y"], generic=generic)
    # prolate source
    b = prol_of(src)
    x, y, z, rho2 = rad_point(got)
    rho = V.tlift(R.sqrt, b[0])
    ex = V.tlift(lambda r, p: R.mul(r, R.cos(p)), rho, b[3])
    ey = V.tlift(lambda r, p: R.mul(r, R.sin(p)), rho, b[3])
    z2 = V.tlift(lambda v: R.mul(v, v), z)
    return compare(lab.s, [(rho2, b[0]), (z2, b[1]), (V.tlift(R.sign, z), b[2]), (x, ex), (y, ey)],
                   ["rho^2", "z^2", "sign(z)", "x", "y"], generic=generic)


def errors_feasible(lab, effects, eq=False):
    """First error effect that some valid input triggers, else None."""
    for e in effects:
        if e.kind not in ("error_if", "raise"):
            continue
        c = e.data[0]
        for g, val in e.guards:
            c = V.b_and(c, g if val else V.b_not(g)) if not (g is True) else c
        c = V.others_hold(c)
        if isinstance(c, bool):
            if c:
                return e, Result("bad", "always")
            continue
        try:
            for path, (leaf,) in joint([c]):
                if leaf is True and (feasible_eq if eq else feasible)(lab.s, path):
                    gate = " and ".join(f"{'' if v else 'not '}{p}" for p, v in path)
                    return e, Result("bad", f"when {gate}")
        except (Undecided, Unknown):
            continue
    return None


def err_text(e, r):
    msg = e.data[1]
    if isinstance(msg, Obj):
        msg = f"{msg.cls.name}: {(msg.d.get('args') or ('',))[0]}"
    return f"raises on valid input ({msg}) {r.why} at {e.loc}"


# ------------------------------------------------------------------ velocities
BYVEL = {s.vel: s for s in SPECS.values()}
BYACC = {s.acc: s for s in SPECS.values()}
TIME = V.DIMS["time"]


LCL = "LonCosLatSphericalVel"
LCL_COMPS = (("lon_coslat", "az"), ("lat", "lat"), ("distance", "rad"))


def velcomps(name):
    """(name, kind) of the components of a velocity class."""
    return LCL_COMPS if name == LCL else BYVEL[name].comps


def plainvel(pos, vel):
    """A velocity given as cos(lat) dlon/dt, by its plain coordinate rates."""
    if vel is None or vel.cls.name != LCL:
        return vel
    d = {"d_lat": vel.d["d_lat"], "d_distance": vel.d["d_distance"],
         "d_lon": vel.d["d_lon_coslat"].with_(v=V.tlift(lambda v, p: R.div(v, R.cossin(p)[0]),
                                                        vel.d["d_lon_coslat"].v, pos.d["lat"].v))}
    return Obj(vel.cls, d)


def mkdiff(lab, name, pre, order, sh=("B",)):
    """An arbitrary velocity (order 1) or acceleration (order 2)."""
    if name == LCL:
        return build(lab, vcls(lab, name), {"d_" + n: lab.q(pre + "d_" + n, V.dim_mul(KDIM[k], TIME, -1), sh=sh)
                                            for n, k in LCL_COMPS})
    sp = (BYVEL if order == 1 else BYACC)[name]
    p = "d_" if order == 1 else "d2_"
    a = {p + n: lab.q(pre + p + n, V.dim_mul(KDIM[k], V.dim_pow(TIME, order), -1), sh=sh) for n, k in sp.comps}
    return build(lab, vcls(lab, name), a)


def jets_of(lab, pos, vel=None, acc=None):
    """Cartesian jets of a position with optional velocity and acceleration of its own kind."""
    sp = SPECS[pos.cls.name]
    vel = plainvel(pos, vel)
    vals = []
    for n, k in sp.comps:
        q = pos.d[n]
        vals.append(rad_value(q) if k == "rad" else q.v)
        vals.append(vel.d["d_" + n].v if vel is not None else R.const(0))
        vals.append(acc.d["d2_" + n].v if acc is not None else R.const(0))
    prol = pos.cls.name == "ProlateSpheroidalPos"
    if prol:
        vals.append(pos.d["Delta"].v)

    def f(*xs, i=0, o=0):
        if prol:
            *xs, D = xs
        js = [J(*xs[3 * j:3 * j + 3]) for j in range(len(xs) // 3)]
        c = _prol(*js, D) if prol else sp.cart(*js)
        return c[i].c[o]
    n = sp.dim
    orders = [o for o, q in ((0, True), (1, vel is not None), (2, acc is not None)) if q]
    return {o: [V.tlift(lambda *xs, i=i, o=o: f(*xs, i=i, o=o), *vals) for i in range(n)] for o in orders}


def inv_jets(lab, pos, vel=None, acc=None):
    """Jets of the invariants (rho^2, z^2, rho^2 phi') that determine a motion up to the sign of z."""
    if pos.cls.name != "ProlateSpheroidalPos":
        js = jets_of(lab, pos, vel, acc)
        out = {}
        x, y, z = js[0]
        sq = [V.tlift(lambda x, y: R.add(R.mul(x, x), R.mul(y, y)), x, y), V.tlift(lambda z: R.mul(z, z), z)]
        out[0] = sq
        if vel is not None:
            vx, vy, vz = js[1]
            two = R.const(2)
            out[1] = [V.tlift(lambda x, y, u, w: R.mul(two, R.add(R.mul(x, u), R.mul(y, w))), x, y, vx, vy),
                      V.tlift(lambda z, w: R.mul(two, R.mul(z, w)), z, vz),
                      V.tlift(lambda x, y, u, w: R.sub(R.mul(x, w), R.mul(y, u)), x, y, vx, vy)]
        if acc is not None:
            ax, ay, az = js[2]
            out[2] = [V.tlift(lambda x, y, u, w, a, b: R.mul(two, R.add(R.add(R.mul(u, u), R.mul(w, w)),
                                                                       R.add(R.mul(x, a), R.mul(y, b)))),
                              x, y, vx, vy, ax, ay),
                      V.tlift(lambda z, w, a: R.mul(two, R.add(R.mul(w, w), R.mul(z, a))), z, vz, az),
                      V.tlift(lambda x, y, a, b: R.sub(R.mul(x, b), R.mul(y, a)), x, y, ax, ay)]
        return out
    vals = [pos.d["mu"].v, pos.d["nu"].v, pos.d["Delta"].v]
    for p, o in (("d_", vel), ("d2_", acc)):
        vals += [o.d[p + n].v if o is not None else R.const(0) for n in ("mu", "nu", "phi")]

    def f(mu, nu, D, m1, n1, p1, m2, n2, p2):
        M, Nn = J(mu, m1, m2), J(nu, n1, n2)
        sg = R.sign(nu)
        aN = J(R.mul(sg, nu), R.mul(sg, n1), R.mul(sg, n2))
        D2 = J(R.mul(D, D))
        rho2 = (M - D2) * (D2 - aN) * J(R.inv(R.mul(D, D)))
        z2 = M * aN * J(R.inv(R.mul(D, D)))
        return rho2.c, z2.c, p1, p2
    out = {0: [V.tlift(lambda *a: f(*a)[0][0], *vals), V.tlift(lambda *a: f(*a)[1][0], *vals)]}
    if vel is not None:
        def l1(*a):
            r, z, p1, p2 = f(*a)
            return R.mul(r[0], p1)
        out[1] = [V.tlift(lambda *a: f(*a)[0][1], *vals), V.tlift(lambda *a: f(*a)[1][1], *vals), V.tlift(l1, *vals)]
    if acc is not None:
        def l2(*a):
            r, z, p1, p2 = f(*a)
            return R.add(R.mul(r[1], p1), R.mul(r[0], p2))
        out[2] = [V.tlift(lambda *a: f(*a)[0][2], *vals), V.tlift(lambda *a: f(*a)[1][2], *vals), V.tlift(l2, *vals)]
    return out


# ------------------------------------------------------------------ every concrete vector class
ATTRS = {"ProlateSpheroidalPos": ("Delta",), "FourVector": ("c",)}
NDC = {0: ("CartesianPosND", "q", KDIM["len"]), 1: ("CartesianVelND", "d_q", V.dim_mul(KDIM["len"], TIME, -1)),
       2: ("CartesianAccND", "d2_q", V.dim_mul(KDIM["len"], V.dim_pow(TIME, 2), -1))}


def frozen(lab, c, d):
    o = Obj(c, d)
    o.frozen = True
    return o


def mk_nd(lab, order, pre, sh=("B",), n=3):
    name, f, dim = NDC[order]
    q = lab.q(pre + f, dim, x=R.const(1), sh=sh).with_(v=[lab.var(f"{pre}{f}{i}") for i in range(n)])
    return frozen(lab, vcls(lab, name), {f: q})


def mk_generic(lab, pre, sh=("B",)):
    c = lab.get("coordinax.vecs.CartesianGeneric3D")
    return frozen(lab, c, {n: lab.q(pre + n, KDIM["len"], sh=sh) for n in "xyz"})


def mk_poincare(lab, pre, sh=("B",)):
    c = lab.get("coordinax.vecs.PoincarePolarVector")
    L, T = KDIM["len"], TIME
    h = V.dim_mul(L, V.dim_pow(T, Fraction(1, 2)), -1)
    dims = {"rho": L, "pp_phi": h, "z": L, "d_rho": V.dim_mul(L, T, -1), "d_pp_phi": V.dim_mul(L, V.dim_pow(T, Fraction(3, 2)), -1),
            "d_z": V.dim_mul(L, T, -1)}
    return frozen(lab, c, {n: lab.q(pre + n, d, sh=sh) for n, d in dims.items()})


def mk_four(lab, pre, q, sh=("B",)):
    c = lab.get("coordinax.vecs.FourVector")
    return frozen(lab, c, {"t": lab.q(pre + "t", TIME, sh=sh), "q": q,
                           "c": lab.q(pre + "c", V.dim_mul(KDIM["len"], TIME, -1), x=lab.var(pre + "c", pos=True), sh=())})


def mk_space(lab, **members):
    lab.fresh()
    return lab.ip.call(lab.get("coordinax.Space"), [], members)


def reshape_leaves(lab, o, shapes, skip=()):
    """The object with batch shapes assigned to its component arrays, in order, cyclically."""
    it = [0]

    def go(x, attrs):
        if isinstance(x, Num):
            x = x.with_(sh=shapes[it[0] % len(shapes)])
            it[0] += 1
            return x
        if isinstance(x, Obj):
            a = ATTRS.get(x.cls.name, ())
            r = Obj(x.cls, {k: v if k in a else go(v, a) for k, v in x.d.items()})
            r.frozen = x.frozen
            return r
        if isinstance(x, dict):
            return {k: go(v, ()) for k, v in x.items()}
        return x
    return go(o, ())


def every(lab):
    """(label, object) for every public concrete vector class, components independent and in range."""
    out = []
    for name in SPECS:
        out.append((name, mkpos(lab, name)))
        out.append((SPECS[name].vel, mkdiff(lab, SPECS[name].vel, name + ".", 1)))
        out.append((SPECS[name].acc, mkdiff(lab, SPECS[name].acc, name + ".", 2)))
    out.append((LCL, mkdiff(lab, LCL, "lcl.", 1)))
    out.append(("CartesianGeneric3D", mk_generic(lab, "gen.")))
    out.append(("PoincarePolarVector", mk_poincare(lab, "pp.")))
    for k in (0, 1, 2):
        out.append((NDC[k][0], mk_nd(lab, k, "nd.")))
    for name in ("CartesianPos3D", "LonLatSphericalPos", "ProlateSpheroidalPos"):
        out.append((f"FourVector of {name}", mk_four(lab, "four.", mkpos(lab, name, "four.q."))))
    for name in ("CartesianPos3D", "SphericalPos", "PolarPos"):
        out.append((f"Space of {name}", mk_space(lab, length=mkpos(lab, name, "sp."), speed=mkdiff(lab, SPECS[name].vel, "sp.", 1),
                                                 acceleration=mkdiff(lab, SPECS[name].acc, "sp.", 2))))
    out.append(("Space of CartesianPosND", mk_space(lab, length=mk_nd(lab, 0, "spn."), speed=mk_nd(lab, 1, "spn."))))
    return out
