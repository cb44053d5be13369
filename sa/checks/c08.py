"""C08: constructors reject out-of-range components, wrap azimuths and check dimensions."""
from ..lab import Result, OK, compare, same_condition, refute
from .. import ext as E, values as V, ring as R
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403
import math

MIN = 40
P3 = "ProlateSpheroidalPos"
ALL = POS[1] + POS[2] + POS[3] + ["TwoSpherePos"]
RADKINDS = {"Quantity": None, "Distance": "coordinax.distance.Distance", "Parallax": "coordinax.distance.Parallax",
            "DistanceModulus": "coordinax.distance.DistanceModulus"}
TYPED = {"Angle": "coordinax.angle.Angle", "Quantity": None}
WRONG = {"length": ["time", "speed", "area", "dimensionless"], "angle": ["time", "length", "speed", "dimensionless"]}


def free(lab, name, kind):
    if kind in ("az", "pol", "lat"):
        return lab.angle("free." + name, -12, 12)
    return lab.var("free." + name, lo=-3, hi=3)


def args_of(lab, a, rad="Quantity", ang="Quantity", sh=("B",)):
    d = {}
    for n, k in SPECS[a].comps:
        x = free(lab, f"{a}.{n}", k)
        if k == "rad" and rad != "Quantity" and a != "CylindricalPos":
            dim = {"Distance": "length", "Parallax": "angle"}.get(rad)
            if rad == "DistanceModulus":
                d[n] = lab.q(f"free.{a}.{n}.dm", V.MAG, x=R.mul(x, E.UNITS["mag"][0]), ty=lab.get(RADKINDS[rad]),
                             unit=Unit(E.UNITS["mag"][0], V.MAG), sh=sh)
            else:
                if rad == "Parallax":
                    x = lab.angle(f"free.{a}.{n}.plx", -1, 1)
                d[n] = lab.q(f"free.{a}.{n}.{rad}", dim, x=x, ty=lab.get(RADKINDS[rad]), sh=sh)
        else:
            q = lab.q(f"free.{a}.{n}", KDIM[k], x=x, sh=sh)
            if KDIM[k] == V.DIMS["angle"] and ang == "Angle":
                q = q.with_(ty=lab.get("coordinax.angle.Angle"))
            d[n] = q
    if a == P3:
        d["Delta"] = lab.q(f"free.{a}.Delta", "length", x=lab.var(f"free.{a}.Delta", lo=-2, hi=2), sh=())
    return d


def wanted(a, args, rad):
    """Gated boolean: some component is out of range."""
    bad = False
    neg = lambda x: V.lt0(x)  # noqa: E731
    h = R.div(R.pi(), R.const(2))
    if a == P3:
        D2 = R.mul(args["Delta"].v, args["Delta"].v)
        D = args["Delta"].v
        bad = V.b_or(neg(D), V.eq0(D))
        bad = V.b_or(bad, neg(R.sub(args["mu"].v, D2)))
        return V.b_or(bad, neg(R.sub(D2, R.abs_(args["nu"].v))))
    for n, k in SPECS[a].comps:
        x = args[n].v
        if k == "rad" and not (rad == "DistanceModulus" and a != "CylindricalPos"):
            bad = V.b_or(bad, neg(x))
        if k == "pol":
            bad = V.b_or(bad, V.b_or(neg(x), neg(R.sub(R.pi(), x))))
        if k == "lat":
            bad = V.b_or(bad, V.b_or(neg(R.add(h, x)), neg(R.sub(h, x))))
    return bad


def fired(lab, effects):
    acc = False
    for e in effects:
        if e.kind not in ("error_if", "raise"):
            continue
        c = e.data[0]
        for g, val in e.guards:
            c = V.b_and(c, g if val else V.b_not(g))
        acc = V.b_or(acc, c)
    return V.others_hold(acc)


def check(ctx):
    lab = ctx.lab()
    ctx.rule("range", "construction fails exactly if a component is outside its range (boundaries included)")
    ctx.rule("store", "an accepted component is stored with the value given; azimuths are stored modulo a full turn, within [0, 2 pi)")
    ctx.rule("dimension", "a component whose dimension is not that of its field is rejected")
    for a in ALL:
        rads = list(RADKINDS) if a in DIST_RAD else ["Quantity"]
        for rad in rads:
            for ang in ("Quantity", "Angle") if any(KDIM[k] == V.DIMS["angle"] for _, k in SPECS[a].comps) else ("Quantity",):
                for sh in (("B",), ()) if rad == "Quantity" else (("B",),):
                    build_one(ctx, lab, a, rad, ang, sh)
        for n, k in SPECS[a].comps:
            wrongdim(ctx, lab, a, n, KDIM[k], lambda a=a: mkargs(lab, a))
    for order in (1, 2):
        for nm in [(SPECS[a].vel if order == 1 else SPECS[a].acc) for a in ALL] + ([LCL] if order == 1 else []):
            diff(ctx, lab, nm, order)


def mkargs(lab, a):
    return pos_args(lab, a, f"{a}.") if a != "TwoSpherePos" else \
        {n: comp_q(lab, a, f"{a}.", n, k) for n, k in SPECS[a].comps}


def build_one(ctx, lab, a, rad, ang, sh):
    key = a + (f" (radius as {rad})" if rad != "Quantity" else "") + (f" (angles as {ang})" if ang != "Quantity" else "") \
        + (" scalar" if sh == () else "")
    st = {}

    def rng():
        args = args_of(lab, a, rad, ang, sh)
        lab.fresh()
        o = lab.ip.call(vcls(lab, a), [], dict(args))
        eff = list(lab.ip.effects)
        st.update(args=args, o=o)
        return same_condition(lab.s, fired(lab, eff), wanted(a, args, rad))
    ctx.guard("range", key, rng)
    if "o" not in st:
        return

    def store():
        o, args = st["o"], st["args"]
        und = None
        for n, k in [*SPECS[a].comps, *([("Delta", "len")] if a == P3 else [])]:
            q = o.d.get(n)
            if not isinstance(q, Num):
                return Result("und", f"{n}: {q!r}"[:100])
            if q.dim != args[n].dim:
                if k == "rad":
                    return Result("bad", f"{n} is stored with dimension {q.dim}")
                return Result("bad", f"{n} has dimension {q.dim}")
            if k == "rad" and rad != "Quantity" and a != "CylindricalPos" and q.ty.name != rad:
                return Result("bad", f"{n} given as {rad} is stored as {q.ty.name}")
            r = compare(lab.s, [(q.v, args[n].v)], [n], angle=k == "az")
            if r.status == "bad":
                return r
            if r.status != "ok":
                und = und or r
            if k == "az":
                r = within_turn(lab, q.v, n)
                if r.status == "bad":
                    return r
                if r.status != "ok":
                    und = und or r
        return und or OK
    ctx.guard("store", key, store)


def within_turn(lab, v, n):
    """0 <= v < 2 pi for all inputs."""
    from ..lab import joint
    tau = 2 * math.pi
    und = None
    for path, (x,) in joint([v]):
        if not isinstance(x, R.X):
            return Result("und", f"{n}: {x!r}"[:100])
        if is_mod(x):
            continue
        good = 0
        for _ in range(400):
            pt = lab.s.draw()
            try:
                if not all(pt.pred(p) == val for p, val in path):
                    continue
                y, e = pt.xe(x)
            except (ArithmeticError, ValueError):
                continue
            if y < -1e-9 - 1e3 * e or y > tau + 1e-9 + 1e3 * e:
                return Result("bad", f"{n} is stored as {y:.6g} rad, outside [0, 2 pi)")
            good += 1
            if good > 60:
                break
        und = und or Result("num" if good else "und", f"{n}: range of {x!r}"[:150])
    return und or OK


def is_mod(x):
    """x has the form y - 2 pi floor(y / 2 pi)."""
    tau = R.mul(R.const(2), R.pi())
    for m, c in x.n.items():
        for aid, e in m:
            at = R.ATOMS[aid]
            if at.kind == "int" and at.meta is not None:
                y, mod = at.meta
                if R.eq(mod, tau) and R.eq(x, R.sub(y, R.mul(tau, R.atom(at)))):
                    return True
    return False


def wrongdim(ctx, lab, name, n, dim, mk):
    for wd in ("time", "length", "speed", "area", "acceleration", "dimensionless", "angle", "angular speed"):
        d = V.DIMS.get(wd)
        if d is None or d == dim:
            continue
        if dim == V.DIMS["length"] and wd == "angle" and dict(SPECS[name].comps).get(n) == "rad" if name in SPECS else False:
            continue        # a radius may be given as a parallax
        if dim == V.DIMS["angle"] and wd == "dimensionless" or wd == "angle" and dim == V.DIMS["dimensionless"]:
            continue        # radians are dimensionless in some unit systems

        def go(d=d, wd=wd):
            args = mk()
            args[n] = lab.q(f"wrong.{wd}", d, x=lab.var(f"wrong.{wd}", pos=True), sh=args[n].sh)
            lab.fresh()
            try:
                o = lab.ip.call(vcls(lab, name), [], dict(args))
            except AbsRaise:
                return OK
            if isinstance(o.d.get(n), Num):
                return Result("bad", f"{n} accepts a {wd} ({o.d[n].dim})")
            return Result("und", f"{n}: {o.d.get(n)!r}"[:100])
        ctx.guard("dimension", f"{name}.{n} given a {wd}", go)


def diff(ctx, lab, nm, order):
    p = "d_" if order == 1 else "d2_"
    comps = velcomps(nm) if order == 1 else BYACC[nm].comps
    dims = {p + n: V.dim_mul(KDIM[k], V.dim_pow(TIME, order), -1) for n, k in comps}

    def mk():
        return {n: lab.q(f"{nm}.{n}", d, sh=("B",)) for n, d in dims.items()}

    def go():
        args = mk()
        lab.fresh()
        o = lab.ip.call(vcls(lab, nm), [], dict(args))
        if fired(lab, lab.ip.effects) is not False:
            return Result("bad", "construction can fail")
        return compare(lab.s, [(o.d[n].v, args[n].v) for n in dims], list(dims))
    ctx.guard("store", nm, go)
    for n, d in dims.items():
        wrongdim(ctx, lab, nm, n, d, mk)
