"""C10: velocities and accelerations times a time map every component to its integral."""
from ..lab import Result, OK, compare, same_condition, joint, feasible
from .. import ext as E, values as V, ring as R
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403
from .c06 import mknd, ND, refused
from .c08 import wanted, fired, ALL

MIN = 40
P3 = "ProlateSpheroidalPos"


def time_q(lab, power):
    x = lab.var("tau", lo=-2, hi=3)
    if power == 2:
        return lab.q("tau2", V.dim_pow(TIME, 2), x=R.mul(x, x), sh=()), R.mul(x, x)
    return lab.q("tau", TIME, x=x, sh=()), x


def check(ctx):
    lab = ctx.lab()
    ctx.rule("type", "velocity x time is the position type linked to the velocity; acceleration x time the velocity type; acceleration x time^2 the position type")
    ctx.rule("component", "component c of the product is component d_c (d2_c) of the operand times the time, azimuths modulo a full turn")
    ctx.rule("reject", "the product is refused exactly if it is outside the range of the position type")
    ctx.rule("order", "time x acceleration gives what acceleration x time gives")
    ctx.rule("refuse", "a velocity whose components are not the derivatives of position components, or whose position needs more than components, is refused")
    for a in ALL:
        for src, to, p in ((1, 0, 1), (2, 1, 1), (2, 0, 2)):
            for left in (True, False):
                one(ctx, lab, a, src, to, p, left)
    for src, to, p in ((1, 0, 1), (2, 1, 1), (2, 0, 2)):
        nd(ctx, lab, src, to, p)
    lcl(ctx, lab)


def times(lab, o, t, left):
    """The product, by the primitive's implementations: mul(o, t) or mul(t, o)."""
    lab.fresh()
    return E.binop(lab.ip, "Mult", o, t) if left else E.binop(lab.ip, "Mult", t, o)


PRE = {0: "", 1: "d_", 2: "d2_"}


def names(a, order):
    return a if order == 0 else SPECS[a].vel if order == 1 else SPECS[a].acc


def one(ctx, lab, a, src, to, p, left):
    S = SPECS[a]
    nm = names(a, src)
    tn = "time" + ("^2" if p == 2 else "")
    key = f"{nm} x {tn}" if left else f"{tn} x {nm}"
    st = {}

    def mk():
        o = mkdiff(lab, nm, f"w.{nm}.", src)
        t, tx = time_q(lab, p)
        return o, t, tx

    def ty():
        o, t, tx = mk()
        try:
            r = times(lab, o, t, left)
        except AbsRaise as e:
            if a == P3 and to == 0:
                return OK
            if not left and (refused(e) or e.exc.cls.name == "NotImplementedError"):
                return None
            raise
        if not isinstance(r, Obj) or r.cls.name != names(a, to):
            return Result("bad" if isinstance(r, Obj) else "und", f"gives {r.cls.name if isinstance(r, Obj) else r!r}"[:100])
        if a == P3 and to == 0:
            return Result("und", "a prolate spheroidal position without its Delta")
        st.update(o=o, tx=tx, r=r, eff=list(lab.ip.effects))
        return OK
    x = ctx.guard("refuse" if a == P3 and to == 0 else "type" if left else "order", key, ty)
    if "r" not in st:
        return

    def comp():
        for n, k in S.comps:
            d = st["o"].d[PRE[src] + n]
            g = st["r"].d[PRE[to] + n]
            want = V.tlift(R.mul, d.v, st["tx"])
            if g.dim != V.dim_mul(KDIM[k], V.dim_pow(TIME, to), -1):
                return Result("bad", f"{n}: dimension {g.dim}")
            x = compare(lab.s, [(g.v, want)], [PRE[to] + n], angle=to == 0 and k == "az")
            if x.status != "ok":
                return x
        return OK
    ctx.guard("component" if left else "order", key, comp)

    def rej():
        w = False
        if to == 0:
            w = wanted(a, {n: Num_like(st["o"].d[PRE[src] + n], V.tlift(R.mul, st["o"].d[PRE[src] + n].v, st["tx"]))
                           for n, _ in S.comps}, "Quantity")
        return same_condition(lab.s, fired(lab, st["eff"]), w)
    ctx.guard("reject", key, rej)


def Num_like(q, v):
    return q.with_(v=v)


def nd(ctx, lab, src, to, p):
    def go():
        o = mknd(lab, src, "w.")
        t, tx = time_q(lab, p)
        r = times(lab, o, t, True)
        f0, f1 = ND[src][1], ND[to][1]
        if not isinstance(r, Obj) or r.cls.name != ND[to][0]:
            return Result("bad" if isinstance(r, Obj) else "und", f"gives {r!r}"[:100])
        return compare(lab.s, [(g, V.tlift(R.mul, d, tx)) for g, d in zip(r.d[f1].v, o.d[f0].v)], ["q0", "q1", "q2"])
    ctx.guard("component", f"{ND[src][0]} x time{'^2' if p == 2 else ''}", go)


def lcl(ctx, lab):
    def go():
        o = mkdiff(lab, LCL, f"w.{LCL}.", 1)
        t, tx = time_q(lab, 1)
        try:
            r = times(lab, o, t, True)
        except AbsRaise:
            return OK
        # accepted: then the longitude must be the integral of d_lon = d_lon_coslat / cos(lat), which is not known
        return Result("bad", f"gives {r!r}"[:100]) if isinstance(r, Obj) else Result("und", f"{r!r}"[:100])
    ctx.guard("refuse", f"{LCL} x time", go)
