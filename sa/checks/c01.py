"""C01: conversions between position types of one dimension keep the point."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R
from ..vecs import *  # noqa: F403

MIN = 60


def check(ctx):
    lab = ctx.lab()
    ctx.rule("point", "the Cartesian point of represent_as(p, T), by T's mathematical definition, equals that of p")
    ctx.rule("type", "the result of represent_as(p, T) is an instance of T")
    ctx.rule("special", "rule point at the origin, on the axes and planes, at the poles and at quarter turns, where components are exactly zero")
    ctx.rule("noerror", "no error check fires for a valid position")
    ctx.rule("self", "represent_as(p, type(p)) leaves every component and attribute as it was")
    for dim, names in POS.items():
        for a in names:
            for b in names:
                radii = ["Quantity"]
                if a in DIST_RAD:
                    radii += ["Parallax", "DistanceModulus"]
                for rad in radii:
                    for via in ("function", "method"):
                        if via == "method" and rad != "Quantity" and not ctx.thorough:
                            continue
                        pair(ctx, lab, a, b, rad, via)
                if "ProlateSpheroidalPos" not in (a, b):
                    for lb, vals in degenerate(a):
                        special(ctx, lab, a, b, lb, vals)


def special(ctx, lab, a, b, lb, vals):
    def go():
        lab.fresh()
        o = pinned(lab, mkpos(lab, a, "half." if (a, b) == ("CartesianPos1D", "RadialPos") else f"{a}."), vals)
        r = lab.call("represent_as", o, vcls(lab, b))
        return not_nan(r) or same_point(lab, r, o)
    ctx.guard("special", f"{a} -> {b} at {lb}", go)


def pair(ctx, lab, a, b, rad, via):
    key = f"{a} -> {b}" + (f" (radius as {rad})" if rad != "Quantity" else "") + (" via method" if via == "method" else "")
    st = {}

    def conv():
        pre = f"{a}."
        if a == "CartesianPos1D" and b == "RadialPos":
            pre = "half."          # a radial position exists for x >= 0 only
            lab.var("half.x", nonneg=True)
        o = mkpos(lab, a, pre, rad)
        kw = {}
        if b == "ProlateSpheroidalPos" and a != b:
            kw["Delta"] = lab.q("target.Delta", "length", x=lab.var("target.Delta", pos=True, lo=0.5, hi=2), sh=())
        lab.fresh()
        t = vcls(lab, b)
        if via == "method":
            r = lab.call(lab.attr(o, "represent_as"), t, **kw)
        else:
            r = lab.call("represent_as", o, t, **kw)
        st["o"], st["r"], st["eff"] = o, r, list(lab.ip.effects)
        if not isinstance(r, Obj) or r.cls is not t:
            if isinstance(r, (Ite, Top)):
                raise Undecided("result not resolved")
            return Result("bad", f"returns {r!r}"[:200])
        return OK
    r = ctx.guard("type", key, conv)
    if r is None or r.status != "ok":
        return
    o, res = st["o"], st["r"]
    ctx.guard("point", key, lambda: same_point(lab, res, o))

    def err():
        e = errors_feasible(lab, st["eff"])
        return Result("bad", err_text(*e)) if e else OK
    ctx.guard("noerror", key, err)
    if a == b:
        def own():
            for n, q in o.d.items():
                g = res.d.get(n)
                if g is None:
                    return Result("bad", f"{n} is missing")
                r = compare(lab.s, [(g.v, q.v), (g.unit, q.unit)], [n, f"unit of {n}"])
                if r.status == "bad":
                    return r
                if r.status != "ok":
                    return r
                if g.ty is not q.ty:
                    return Result("bad", f"{n} becomes {g.ty}")
            return OK
        ctx.guard("self", key, own)
