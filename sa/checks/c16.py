"""C16: an operator acts the same through every call signature and input type."""
from ..lab import Result, compare
from ..opslib import *  # noqa: F403
from .. import opslib as O
from ..values import AbsRaise
from ..vecs import *  # noqa: F403
from .. import ring as R
from ..values import Obj
from .c06 import cart_obj
from .. import axes as AX
from .c12 import ob, outer

MIN = 300
PTYPES = {1: ("CartesianPos1D",), 2: tuple(POS[2]), 3: tuple(POS[3])}


PROL = ("Identity", "GalileanSpatialTranslation[CartesianPos3D]", "GalileanTranslation[CartesianPos3D]", "GalileanRotation[zx]",
        "GalileanBoost", "VelocityBoost")


def acts(ctx, lab, key, f, want, types=None, where="", generic=True):
    """f() must give the wanted physical content: dict of lists of value numbers."""
    st = {}

    def value():
        lab.fresh()
        out = f()
        st["eff"] = list(lab.ip.effects)
        st["got"], st["ty"] = O.read(out)
        got = st["got"]
        lost = [k for k in want if k not in ("Delta", "src") and k not in got]
        if lost:
            return ctx.ob("value", key, Result("bad", f"the result has no {lost[0]}: {st['ty']}"), where)
        pairs, labels = [], []
        for k, w in want.items():
            if k in ("Delta", "src"):
                continue
            if isinstance(got[k], Obj):         # a spheroidal position: compare as points
                c = Obj(vcls(lab, "CartesianPos3D"), {n: lab.q("e." + n, "length").with_(v=v, sh=()) for n, v in zip("xyz", w)})
                src = want.get("src")
                if src is not None and [V.same(a, b) for a, b in zip(w, src[1])] == [True] * 3:
                    e = src[0]                  # the operator leaves the position alone
                else:
                    e = lab.call("represent_as", c, got[k].cls, Delta=got[k].d["Delta"])
                r = compare(lab.s, [(got[k].d[n].v, e.d[n].v) for n in ("mu", "nu", "phi")], ["mu", "nu", "phi"], generic=generic)
                if r.status == "ok" and "Delta" in want:
                    r = compare(lab.s, [(got[k].d["Delta"].v, want["Delta"])], ["Delta"])
                if r.status != "ok":
                    return ctx.ob("value", key, r, where)
                continue
            if len(got[k]) != len(w):
                return ctx.ob("value", key, Result("bad", f"{k} has {len(got[k])} components, expected {len(w)}"), where)
            for i, (a, b) in enumerate(zip(got[k], w)):
                pairs.append((a, b))
                labels.append(f"{k}[{i}]")
        return ctx.ob("value", key, compare(lab.s, pairs, labels, generic=generic), where)
    ctx.guard("value", key, value, where)
    if "ty" not in st:
        return None

    def noerr():
        e = errors_feasible(lab, st["eff"])
        return ctx.ob("noerror", key, Result("bad", err_text(*e)) if e else ("ok", ""), where)
    ctx.guard("noerror", key, noerr, where)
    if types is not None:
        ob(ctx, "type", key, st["ty"] == types, f"returns {st['ty']}, given {types}", where)
    return st["got"]


def same_pt(lab, src, act, t):
    """Expected position and time of a call on a vector."""
    x, t2 = act(cart_of(cart_obj(lab, src)), t)
    return x, t2


def check(ctx):
    ctx.rule("value", "the position, time and velocity returned are the operator's map applied to those given")
    ctx.rule("noerror", "no error check fires for valid input")
    ctx.rule("type", "a position comes back in the type it was given in, a quantity array as one, a space-time vector as one")
    ctx.rule("batch", "batched positions and times give a position of the broadcast shape, element by element")
    lab = ctx.lab()
    lab.s.rng.random()
    t = lab.q("time", TIME, sh=())
    call = lab.ip.call
    for op in catalogue(lab, "zxz" if ctx.thorough else "zx"):
        w = op.obj.cls.qual
        names = PTYPES[op.dim]
        for n in names:
            prol = n == "ProlateSpheroidalPos"
            if prol and (op.label not in PROL or not ctx.thorough and "GalileanTranslation" in op.label):
                continue
            q = mkpos(lab, n, n + ".", sh=())
            x, t2 = same_pt(lab, q, op.act, t.v)
            D = {"Delta": q.d["Delta"].v, "src": (q, cart_of(cart_obj(lab, q)))} if "Delta" in q.d else {}
            acts(ctx, lab, f"{op.label}({n}, t)", lambda: call(op.obj, [q, t], {}), {"x": x, "t": [t2], **D}, [n, "time"], w)
            if not op.timed:
                acts(ctx, lab, f"{op.label}({n})", lambda: call(op.obj, [q], {}), {"x": x, **D}, [n], w)
            if op.dim == 3 and (not prol or ctx.thorough):
                f4 = mk_four(lab, "f.", q, sh=())
                x, t2 = same_pt(lab, q, op.act, f4.d["t"].v)
                acts(ctx, lab, f"{op.label}(FourVector of {n})", lambda: call(op.obj, [f4], {}),
                     {"x": x, "t": [t2], "c": [f4.d["c"].v], **D}, [f"FourVector of {n}"], w)
        Q, xs = O.quantity(lab, "Q.", op.dim)
        x, t2 = op.act(xs, t.v)
        acts(ctx, lab, f"{op.label}(quantity, t)", lambda: call(op.obj, [Q, t], {}), {"x": x, "t": [t2]}, [f"array of {op.dim}", "time"], w)
        if not op.timed:
            acts(ctx, lab, f"{op.label}(quantity)", lambda: call(op.obj, [Q], {}), {"x": x}, [f"array of {op.dim}"], w)
        batches(ctx, lab, op, w)
        if op.dim == 3:
            four(ctx, lab, op, w)
        if op.move and ("Identity" in op.label or op.label == "GalileanSpatialTranslation[CartesianPos%dD]" % op.dim):
            for n in names:
                if n not in ("CartesianPos3D", "CartesianPos2D", "CartesianPos1D", "ProlateSpheroidalPos") and (ctx.thorough or n in QP):
                    motion(ctx, lab, op, n, w)
        if op.move:
            p = mkdiff(lab, f"CartesianVel{op.dim}D", "p.", 1, sh=())
            q = mkpos(lab, f"CartesianPos{op.dim}D", "q.", sh=())
            pv = [v.v for v in p.d.values()]
            x, _ = op.act(cart_of(q), t.v)
            acts(ctx, lab, f"{op.label}(q, p)", lambda: call(op.obj, [q, p], {}), {"x": x, "p": op.move(pv)},
                 [q.cls.name, p.cls.name], w)
            if "Boost" in op.label or "velocity boost, velocity" in op.label:
                acts(ctx, lab, f"{op.label}(p)", lambda: call(op.obj, [p], {}), {"p": op.move(pv)}, [p.cls.name], w)


QP = ("CylindricalPos", "SphericalPos", "PolarPos")


def motion(ctx, lab, op, n, w):
    """(q, p) in curvilinear coordinates: the Cartesian motion is what the operator's map gives."""
    from ..specs import SPECS
    key = f"{op.label}({n}, {SPECS[n].vel})"
    q, p = mkpos(lab, n, n + ".", sh=()), mkdiff(lab, SPECS[n].vel, n + ".", 1, sh=())
    st = {}

    def value():
        lab.fresh()
        out = lab.ip.call(op.obj, [q, p], {})
        st["eff"], st["out"] = list(lab.ip.effects), out
        got, want = jets_of(lab, *out), jets_of(lab, q, p)
        x, _ = op.act(want[0], R.const(0))
        v = op.move(want[1])
        return ctx.ob("value", key, compare(lab.s, list(zip(got[0] + got[1], x + v)), [f"x{i}" for i in range(len(x))]
                                            + [f"p{i}" for i in range(len(x))], generic=True), w)
    ctx.guard("value", key, value, w)
    if "out" in st:
        ob(ctx, "type", key, [o.cls.name for o in st["out"]] == [n, SPECS[n].vel], "returns other types than given", w)


def batches(ctx, lab, op, w):
    """Batched positions and times, of equal or broadcasting shapes, give results of the broadcast shape."""
    def run(key, want, f):
        def go():
            lab.fresh()
            out = f()
            parts = out if isinstance(out, tuple) else (out,)
            got = outer(parts[0])
            rag = [e for e in lab.ip.effects if e.kind in ("ragged", "misalign")]
            why = f"components are combined along different axes at {rag[0].loc}" if rag else \
                f"position has batch shape {got}, expected {want}" if got != want else ""
            return ob(ctx, "batch", key, not why, why, w)
        ctx.guard("batch", key, go, w)
    n = f"CartesianPos{op.dim}D"
    A, B, AB = AX.mk("a"), AX.mk("b"), AX.mk("a", "b")
    call = lab.ip.call
    for qs, ts, full in (((A, A, A), A, A), ((AB, AB, AB), B, AB), ((A, A, A), (), A), (((), (), ()), A, None), ((A, (), A), (), A)):
        q = reshape_leaves(lab, mkpos(lab, n, "q.", sh=()), list(qs[:op.dim]))
        t = lab.q("time", TIME, sh=ts)
        if full is None:
            full = A if op.timed and "GalileanTranslation" not in op.label else ()
        lb = "".join(f"[{','.join(map(str, AX.sizes(z)))}]" for z in qs[:op.dim])
        run(f"{op.label}({n}{lb}, t{list(AX.sizes(ts))})", AX.sizes(full), lambda: call(op.obj, [q, t], {}))
        if not op.timed and ts == ():
            run(f"{op.label}({n}{lb})", AX.sizes(full), lambda: call(op.obj, [q], {}))
    Q, _ = O.quantity(lab, "Q.", op.dim)
    Q = Q.with_(sh=AB)
    run(f"{op.label}(quantity (a, b, {op.dim}), t(b))", AX.sizes(AB), lambda: call(op.obj, [Q, lab.q("time", TIME, sh=B)], {}))
    if not op.timed:
        run(f"{op.label}(quantity (a, b, {op.dim}))", AX.sizes(AB), lambda: call(op.obj, [Q], {}))


def four(ctx, lab, op, w):
    """A quantity array of (c t, x, y, z) with the default speed of light."""
    c = light()
    Q, xs = O.quantity(lab, "Q4.", 4)
    x, t2 = op.act(xs[1:], R.div(xs[0], c))
    want = {"x": [V.tlift(R.mul, t2, c)] + list(x)}
    acts(ctx, lab, f"{op.label}(quantity of 4)", lambda: lab.ip.call(op.obj, [Q], {}), want, ["array of 4"], w)
