"""C09: normalising constructors keep the point and reach the canonical range."""
import math
from ..lab import Result, OK, compare, joint, truth_always
from .. import ext as E, values as V, ring as R, poly
from ..lab import feasible
from ..specs import J, SPECS, KDIM
from ..vecs import *  # noqa: F403
from .c08 import args_of, wanted, fired, RADKINDS, ALL
from .c08 import within_turn

MIN = 10
NORMAL = ["SphericalPos", "MathSphericalPos", "LonLatSphericalPos"]


def raw_point(a, args):
    sp = SPECS[a]
    vals = [rad_value(args[n]) if k == "rad" else args[n].v for n, k in sp.comps]
    return [V.tlift(lambda *xs, i=i: sp.cart(*[J(x) for x in xs])[i].c[0], *vals) for i in range(sp.dim)]


def check(ctx):
    lab = ctx.lab()
    ctx.rule("accept", "from_ with component keywords accepts every real component value of the right dimension")
    ctx.rule("point", "the constructed position denotes the point that the given components denote by the coordinate formulas")
    ctx.rule("range", "the constructed components lie in their canonical ranges")
    ctx.rule("plain", "from_ with in-range components stores them unchanged, for every position type and form of the call")
    for a in NORMAL:
        for rad in RADKINDS:
            for ang in ("Quantity", "Angle"):
                for sh in (("B",), ()) if rad == "Quantity" else (("B",),):
                    one(ctx, lab, a, rad, ang, sh)
    for a in ALL:
        for form in ("keywords", "mapping", "self"):
            plain(ctx, lab, a, form)


def one(ctx, lab, a, rad, ang, sh):
    key = f"{a}.from_" + (f" (radius as {rad})" if rad != "Quantity" else "") + (f" (angles as {ang})" if ang != "Quantity" else "") \
        + (" scalar" if sh == () else "")
    st = {}

    def acc():
        args = args_of(lab, a, rad, ang, sh)
        lab.fresh()
        o = lab.call(lab.attr(vcls(lab, a), "from_"), **args)
        if not isinstance(o, Obj):
            return Result("und", f"result {o!r}"[:100])
        if o.cls.name != a:
            return Result("bad", f"returns a {o.cls.name}")
        st.update(args=args, o=o, eff=list(lab.ip.effects))
        e = errors_feasible(lab, st["eff"])
        if e:
            return Result("bad", err_text(*e))
        for path, (leaf,) in joint([fired(lab, st["eff"])]):
            if leaf is not False and not poly.empty(path):
                return Result("num", f"not proved infeasible: {path}"[:200])
        return OK
    ctx.guard("accept", key, acc)
    if "o" not in st:
        return
    ctx.guard("point", key, lambda: compare(lab.s, list(zip(cart_of(st["o"]), raw_point(a, st["args"]))),
                                            ["x", "y", "z"], generic=True))

    def rng():
        o = st["o"]
        und = None
        for n, k in SPECS[a].comps:
            q = o.d[n]
            if not isinstance(q, Num) or q.dim != st["args"][n].dim:
                return Result("und" if not isinstance(q, Num) else "bad", f"{n}: {q!r}"[:100])
            if k == "az":
                r = within_turn(lab, q.v, n)
                if r.status == "bad":
                    return r
                if r.status != "ok":
                    und = und or r
        # every leaf on which a stored component leaves its range must be empty
        out = False
        h = R.div(R.pi(), R.const(2))
        for n, k in SPECS[a].comps:
            x = o.d[n].v
            if k == "rad" and not (rad == "DistanceModulus"):
                out = V.b_or(out, V.tlift(V.lt0, x))
            if k in ("pol", "lat"):
                lo, hi = (R.const(0), R.pi()) if k == "pol" else (R.neg(h), h)
                out = V.b_or(out, V.tlift(lambda y: V.b_or(V.lt0(R.sub(y, lo)), V.lt0(R.sub(hi, y))), x))
        for path, (leaf,) in joint([out]):
            if leaf is False:
                continue
            if feasible(lab.s, path):
                gate = " and ".join(f"{'' if v else 'not '}{p}" for p, v in path)
                return Result("bad", f"out of range when {gate}")
            if not poly.empty(path):
                und = und or Result("num", f"range not proved on {path}"[:200])
        return und or OK
    ctx.guard("range", key, rng)


def plain(ctx, lab, a, form):
    key = f"{a}.from_({'vector' if form == 'self' else form})"

    def go():
        o = mkpos(lab, a, radius="Quantity") if a != "TwoSpherePos" else build(
            lab, vcls(lab, a), {n: comp_q(lab, a, f"{a}.", n, k) for n, k in SPECS[a].comps})
        f = lab.attr(vcls(lab, a), "from_")
        d = dict(o.d)
        lab.fresh()
        try:
            r = lab.call(f, o) if form == "self" else lab.call(f, **d) if form == "keywords" else lab.call(f, d)
        except AbsRaise as e:
            if form == "keywords" and e.exc.cls.name in ("LookupError", "NotFoundLookupError", "TypeError"):
                return None
            raise
        if not isinstance(r, Obj) or r.cls is not o.cls:
            return Result("bad" if isinstance(r, Obj) else "und", f"returns {r!r}"[:100])
        for n, k in SPECS[a].comps:
            x = compare(lab.s, [(r.d[n].v, o.d[n].v)], [n], angle=k == "az", generic=True)
            if x.status != "ok":
                return x
        return OK
    ctx.guard("plain", key, go)
