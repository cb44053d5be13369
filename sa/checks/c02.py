"""C02/C03 share the enumeration of dimension-changing conversions."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, specs as S
from ..specs import J, SPECS
from ..vecs import *  # noqa: F403

MIN = 30
LEN, ANG = V.DIMS["length"], V.DIMS["angle"]

# (source, target) -> names of the completing coordinates (higher dimension)
UP = {}
for _a in ("CartesianPos1D", "RadialPos"):
    UP[_a, "CartesianPos2D"] = ["y"]
    UP[_a, "PolarPos"] = ["phi"]
    UP[_a, "CartesianPos3D"] = ["y", "z"]
    UP[_a, "SphericalPos"] = ["theta", "phi"]
    UP[_a, "MathSphericalPos"] = ["theta", "phi"]
    UP[_a, "CylindricalPos"] = ["phi", "z"]
for _b in ("CartesianPos3D", "CylindricalPos", "SphericalPos", "MathSphericalPos"):
    UP["CartesianPos2D", _b] = ["z"]
UP["PolarPos", "CartesianPos3D"] = ["z"]
UP["PolarPos", "CylindricalPos"] = ["z"]
UP["PolarPos", "SphericalPos"] = ["theta"]
UP["PolarPos", "MathSphericalPos"] = ["phi"]

DOWN = []
for _a in POS[2]:
    DOWN += [(_a, b) for b in POS[1]]
for _a in POS[3]:
    if _a != "LonLatSphericalPos":
        DOWN += [(_a, b) for b in POS[1] + POS[2]]
# conversions not offered on the reference tree; analysed if they exist
OPTIONAL = [("LonLatSphericalPos", b) for b in POS[1] + POS[2]]


def same_kind_fields(a, b):
    ka, kb = dict(SPECS[a].comps), dict(SPECS[b].comps)
    return [n for n in ka if kb.get(n) == ka[n]]


def sample_q(lab, tname, n, pre):
    kind = dict(SPECS[tname].comps).get(n, "len")      # an intermediate Cartesian coordinate otherwise
    return lab.q(pre + n, S.KDIM[kind], x=S.symbol(lab, kind, pre + n), sh=("B",))


def expected_up(lab, o, b, kw):
    """Cartesian point of the completed position."""
    a = o.cls.name
    zero = R.const(0)
    g = {n: (kw[n].v if n in kw else zero) for n in UP[a, b]}
    if SPECS[a].dim == 1:
        comp = SPECS[a].comps[0][0]
        q = o.d[comp]
        v = rad_value(q) if comp == "r" else q.v
        names = SPECS[b].names()
        vals = [g[n] if n in g else v for n in names]
        return [V.tlift(lambda *xs, i=i: SPECS[b].cart(*[J(x) for x in xs])[i].c[0], *vals) 
                for i in range(SPECS[b].dim)]
    if b in ("SphericalPos", "MathSphericalPos") and a == "PolarPos":
        r = rad_value(o.d["r"])
        names = SPECS[b].names()
        az = "phi" if b == "SphericalPos" else "theta"
        vals = [r if n == "r" else o.d["phi"].v if n == az else g[n] for n in names]
        return [V.tlift(lambda *xs, i=i: SPECS[b].cart(*[J(x) for x in xs])[i].c[0], *vals) for i in range(3)]
    return cart_of(o) + [g["z"]]


def expected_down(lab, o, b):
    if o.cls.name == "ProlateSpheroidalPos":
        rho2, z2, _sz, phi = prol_of(o)
        rho = V.tlift(R.sqrt, rho2)
        x = V.tlift(lambda r, p: R.mul(r, R.cos(p)), rho, phi)
        y = V.tlift(lambda r, p: R.mul(r, R.sin(p)), rho, phi)
        xyz = [x, y]
        r2 = V.tlift(R.add, rho2, z2)
    else:
        xyz = cart_of(o)
        r2 = V.tlift(lambda *c: _sumsq(c), *xyz)
    if b == "CartesianPos1D":
        return xyz[:1]
    if b == "RadialPos":
        return [V.tlift(R.sqrt, r2)]
    return xyz[:2]


def _sumsq(c):
    t = R.const(0)
    for x in c:
        t = R.add(t, R.mul(x, x))
    return t


def variants(ctx, a):
    out = ["Quantity"]
    if a in DIST_RAD:
        out += ["Parallax", "DistanceModulus"]
    return out


def run(lab, a, b, rad, via, kw_names=(), neg_ok=True, pin=None):
    pre = f"{a}."
    if a == "CartesianPos1D" and not neg_ok:
        pre = "half."
        lab.var("half.x", nonneg=True)
    o = mkpos(lab, a, pre, rad)
    o = pinned(lab, o, pin) if pin else o
    kw = {n: sample_q(lab, b, n, "given.") for n in kw_names}
    if b == "ProlateSpheroidalPos" and a != b:
        kw["Delta"] = lab.q("target.Delta", "length", x=lab.var("target.Delta", pos=True, lo=0.5, hi=2), sh=())
    lab.fresh()
    t = vcls(lab, b)
    r = lab.call(lab.attr(o, "represent_as"), t, **kw) if via == "method" else lab.call("represent_as", o, t, **kw)
    eff = list(lab.ip.effects)
    if not isinstance(r, Obj):
        raise Undecided(f"result {r!r}"[:100])
    return o, kw, r, eff


def check(ctx):
    lab = ctx.lab()
    ctx.rule("type", "represent_as(p, T) is an instance of T")
    ctx.rule("project", "the result of a conversion to lower dimension denotes the projection of the point (its distance for radial types)")
    ctx.rule("complete", "the result of a conversion to higher dimension denotes the point completed with the supplied coordinates, or zeros")
    ctx.rule("keep", "a coordinate that source and target share keeps its value")
    ctx.rule("special", "rules project and complete at the origin, on the axes and planes, at the poles and at quarter turns, where components are exactly zero")
    ctx.rule("noerror", "no error check fires for a valid position")
    for (a, b) in DOWN + OPTIONAL:
        for rad in variants(ctx, a):
            for via in ("function", "method") if rad == "Quantity" or ctx.thorough else ("function",):
                down(ctx, lab, a, b, rad, via)
    for (a, b), names in UP.items():
        for rad in variants(ctx, a):
            for given in ([], names) + (tuple([n] for n in names) if len(names) > 1 else ()):
                up(ctx, lab, a, b, rad, given)


def _key(a, b, rad, via="function", given=None):
    return f"{a} -> {b}" + (f" (radius as {rad})" if rad != "Quantity" else "") + \
        (" via method" if via == "method" else "") + (f" given {','.join(given)}" if given else "")


def _typed(ctx, lab, key, a, b, rad, via, given=(), neg_ok=True, optional=False):
    st = {}

    def go():
        try:
            o, kw, r, eff = run(lab, a, b, rad, via, given, neg_ok)
        except AbsRaise as e:
            if optional and e.exc.cls.name in ("LookupError", "NotFoundLookupError", "RecursionError"):
                return None
            raise
        st.update(o=o, kw=kw, r=r, eff=eff)
        return OK if r.cls is vcls(lab, b) else Result("bad", f"returns a {r.cls.name}")
    r = ctx.guard("type", key, go)
    return st if r is not None and r.status == "ok" else None


def down(ctx, lab, a, b, rad, via):
    key = _key(a, b, rad, via)
    st = _typed(ctx, lab, key, a, b, rad, via, optional=(a, b) in OPTIONAL)
    if not st:
        return
    o, r = st["o"], st["r"]
    x = ctx.guard("project", key, lambda: compare(
        lab.s, list(zip(cart_of(r), expected_down(lab, o, b))), ["x", "y"] if b != "RadialPos" else ["r"]))
    noerr(ctx, lab, key, st)
    if x is None or x.status == "bad" or (rad, via) != ("Quantity", "function") or a == "ProlateSpheroidalPos":
        return
    for lb, pin in degenerate(a):
        def special(pin=pin):
            o, kw, r, eff = run(lab, a, b, rad, via, pin=pin)
            return not_nan(r) or compare(lab.s, list(zip(cart_of(r), expected_down(lab, o, b))))
        ctx.guard("special", f"{key} at {lb}", special)


def noerr(ctx, lab, key, st):
    def err():
        e = errors_feasible(lab, st["eff"])
        return Result("bad", err_text(*e)) if e else OK
    ctx.guard("noerror", key, err)


def up(ctx, lab, a, b, rad, given):
    key = _key(a, b, rad, given=given)
    # a Cartesian coordinate becomes the radius: radial targets exist for x >= 0 only
    neg_ok = not (a == "CartesianPos1D" and b in ("PolarPos", "CylindricalPos"))
    st = _typed(ctx, lab, key, a, b, rad, "function", given, neg_ok)
    if not st:
        return
    o, r, kw = st["o"], st["r"], st["kw"]
    ctx.guard("complete", key, lambda: compare(
        lab.s, list(zip(cart_of(r), expected_up(lab, o, b, kw))), ["x", "y", "z"]))
    shared = same_kind_fields(a, b)
    if shared:
        def keep():
            for n in shared:
                g, e = r.d[n], o.d[n]
                if dict(SPECS[a].comps)[n] == "rad":
                    res = compare(lab.s, [(rad_value(g), rad_value(e))], [n])
                else:
                    res = compare(lab.s, [(g.v, e.v)], [n], angle=dict(SPECS[a].comps)[n] == "az")
                if res.status != "ok":
                    return res
            return OK
        ctx.guard("keep", key, keep)
    noerr(ctx, lab, key, st)
    if rad != "Quantity":
        return
    for lb, pin in degenerate(a):
        def special(pin=pin):
            o, kw, r, eff = run(lab, a, b, rad, "function", given, neg_ok, pin)
            return not_nan(r) or compare(lab.s, list(zip(cart_of(r), expected_up(lab, o, b, kw))))
        ctx.guard("special", f"{key} at {lb}", special)
