"""C15: applying an operator and then its inverse is the identity."""
from ..lab import OK, Result, compare
from ..opslib import *  # noqa: F403
from .. import opslib as O, ring as R
from ..vecs import *  # noqa: F403
from .c06 import cart_obj
from .c12 import ob
from .c16 import PTYPES, acts

MIN = 250
MISSING = object()


def check(ctx):
    ctx.rule("value", "the operator's own map takes what the inverse returns back to the position and time given, and the calls of "
                      "operator and inverse undo each other in either order")
    ctx.rule("noerror", "no error check fires for valid input")
    ctx.rule("type", "the result has the type of the input")
    ctx.rule("class", "the inverse of an elementary operator is of the same class")
    ctx.rule("frame", "a transformation between frames and its inverse undo each other in either order, whatever the parameters of the frames")
    lab = ctx.lab()
    call = lab.ip.call
    frames(ctx, lab)
    t = lab.q("time", TIME, sh=())
    for op in catalogue(lab, "zxz" if ctx.thorough else "zx"):
        w = op.obj.cls.qual
        inv = ctx_inverse(ctx, lab, op, w)
        if not isinstance(inv, V.Obj):
            if inv is not MISSING:
                ob(ctx, "class", f"{op.label}.inverse", False, f"is {inv!r}", w)
            continue
        if not op.label.startswith(("Pipe", "GalileanOperator")):
            ob(ctx, "class", f"{op.label}.inverse", inv.cls is op.obj.cls, f"is a {inv.cls.name}", w)
        for n in PTYPES[op.dim]:
            if n == "ProlateSpheroidalPos":
                continue
            q = mkpos(lab, n, n + ".", sh=())
            x0 = cart_of(q)
            f4 = mk_four(lab, "f.", q, sh=())

            def back(*a):
                """inverse by the code, then the operator's map"""
                out = call(inv, list(a), {})
                return Undo(op, out)
            acts2(ctx, lab, f"{op.label} after its inverse ({n}, t)", lambda: back(q, t), {"x": x0, "t": [t.v]}, [n, "time"], w)
            if not op.timed:
                acts2(ctx, lab, f"{op.label} after its inverse ({n})", lambda: back(q), {"x": x0}, [n], w)
            if op.dim == 3:
                acts2(ctx, lab, f"{op.label} after its inverse (FourVector of {n})", lambda: back(f4),
                      {"x": x0, "t": [f4.d["t"].v], "c": [f4.d["c"].v]}, [f"FourVector of {n}"], w)
        q = mkpos(lab, f"CartesianPos{op.dim}D", "q.", sh=())
        x0 = cart_of(q)
        n = q.cls.name
        for a, b, lb in ((inv, op.obj, "inverse then operator"), (op.obj, inv, "operator then inverse")):
            acts(ctx, lab, f"{op.label}: {lb} (q, t)", lambda: call(b, list(call(a, [q, t], {})), {}), {"x": x0, "t": [t.v]}, [n, "time"], w)
            if not op.timed:
                acts(ctx, lab, f"{op.label}: {lb} (q)", lambda: call(b, [call(a, [q], {})], {}), {"x": x0}, [n], w)
            if op.dim == 3:
                f4 = mk_four(lab, "f.", q, sh=())
                acts(ctx, lab, f"{op.label}: {lb} (FourVector)", lambda: call(b, [call(a, [f4], {})], {}),
                     {"x": x0, "t": [f4.d["t"].v], "c": [f4.d["c"].v]}, ["FourVector of " + n], w)
            Q, xs = O.quantity(lab, "Q.", op.dim)
            acts(ctx, lab, f"{op.label}: {lb} (quantity, t)", lambda: call(b, list(call(a, [Q, t], {})), {}),
                 {"x": xs, "t": [t.v]}, [f"array of {op.dim}", "time"], w)
            if op.move:
                p = mkdiff(lab, f"CartesianVel{op.dim}D", "p.", 1, sh=())
                acts(ctx, lab, f"{op.label}: {lb} (q, p)", lambda: call(b, list(call(a, [q, p], {})), {}),
                     {"x": x0, "p": [v.v for v in p.d.values()]}, [n, p.cls.name], w)
        x, t2 = op.act(x0, t.v)
        acts(ctx, lab, f"{op.label}: inverse of the inverse (q, t)", lambda: call(lab.attr(inv, "inverse"), [q, t], {}),
             {"x": x, "t": [t2]}, [n, "time"], w)


def frames(ctx, lab):
    from .c19 import gcf, pair, xform
    call = lab.ip.call
    Q, xs = O.quantity(lab, "FQ.", 3)
    P = lab.q("FP", V.DIMS["speed"], sh=()).with_(v=[lab.var("FP." + c) for c in "xyz"])
    icrs, g = O.frame(lab, "ICRS"), gcf(lab, "fr.", "Distance")
    for nm, a, b in (("ICRS to Galactocentric", icrs, g), ("Galactocentric to ICRS", g, icrs)):
        st = {}

        def make():
            lab.fresh()
            st["op"] = xform(lab, a, b)
            st["inv"] = lab.attr(st["op"], "inverse")
            return ctx.ob("frame", f"{nm}.inverse", OK)
        ctx.guard("frame", f"{nm}.inverse", make)
        if "inv" not in st:
            continue
        for key, f, h in (("then its inverse", st["op"], st["inv"]), ("after its inverse", st["inv"], st["op"])):
            def q():
                lab.fresh()
                return compare(lab.s, list(zip(call(h, [call(f, [Q], {})], {}).v, xs)), generic=True)

            def qp():
                lab.fresh()
                return compare(lab.s, list(zip(pair(call(h, list(call(f, [Q, P], {})), {})), xs + P.v)), generic=True)
            w = st["op"].cls.qual
            ctx.guard("frame", f"{nm} {key} (array)", lambda: ctx.ob("frame", f"{nm} {key} (array)", q(), w), w)
            ctx.guard("frame", f"{nm} {key} (array, velocity array)", lambda: ctx.ob("frame", f"{nm} {key} (array, velocity array)", qp(), w), w)


def ctx_inverse(ctx, lab, op, w):
    st = {}

    def go():
        lab.fresh()
        st["inv"] = lab.attr(op.obj, "inverse")
        e = errors_feasible(lab, lab.ip.effects)
        return ctx.ob("noerror", f"{op.label}.inverse", Result("bad", err_text(*e)) if e else ("ok", ""), w)
    ctx.guard("noerror", f"{op.label}.inverse", go, w)
    return st.get("inv", MISSING)


class Undo:
    """A result of the inverse, on which the operator's map is still to be applied."""

    def __init__(self, op, out):
        self.op, self.out = op, out


def acts2(ctx, lab, key, f, want, types, w):
    def run():
        u = f()
        return u
    st = {}

    def value():
        lab.fresh()
        u = f()
        st["eff"] = list(lab.ip.effects)
        got, st["ty"] = O.read(u.out)
        x, t = u.op.act(got["x"], got["t"][0] if "t" in got else R.const(0))
        have = {"x": x, "t": [t], "c": got.get("c")}
        pairs = [(a, b) for k in want for a, b in zip(have[k], want[k])]
        labels = [f"{k}[{i}]" for k in want for i in range(len(want[k]))]
        return ctx.ob("value", key, compare(lab.s, pairs, labels, generic=True), w)
    ctx.guard("value", key, value, w)
    if "ty" in st:
        def noerr():
            e = errors_feasible(lab, st["eff"])
            return ctx.ob("noerror", key, Result("bad", err_text(*e)) if e else ("ok", ""), w)
        ctx.guard("noerror", key, noerr, w)
        ob(ctx, "type", key, st["ty"] == types, f"returns {st['ty']}, given {types}", w)
