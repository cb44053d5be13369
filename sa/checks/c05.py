"""C05: acceleration conversions obey the chain rule of the position conversion."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403
from .c04 import kwargs, P3, FULL, integers, batches

MIN = 30


def check(ctx):
    lab = ctx.lab()
    ctx.rule("chain", "the acceleration denoted by represent_as(a, T, v, p) equals the one denoted by a at (v, p): equal "
                      "Cartesian components, for prolate members equal second derivatives of rho^2, z^2 and phi")
    ctx.rule("type", "the result is a T whose components carry the dimension of T's fields")
    ctx.rule("shape", "the result has the batch shape of the acceleration")
    ctx.rule("integers", "a position with an integer-valued radius or focal length is used like its floating-point equal")
    ctx.rule("batch", "members of several batch axes, and of different batch shapes that broadcast, give the conversion of "
                      "each element at its batch index; shapes that do not broadcast are refused")
    for dim, names in POS.items():
        for a in names:
            for b in names:
                if (a in DIST_RAD or a == P3) and b in (a, names[0]):
                    integers(ctx, lab, a, b, 2)
                if (a == b or (a, b) in FULL or ctx.thorough) and P3 not in (a, b):
                    batches(ctx, lab, a, b, 2)
                if b == P3 and a not in (P3, "SphericalPos") and not ctx.thorough:
                    continue                # second derivatives into prolate coordinates are slow to normalise
                if P3 in (a, b):
                    combos = [(a, a)]
                else:
                    combos = [(a, a)] + ([(names[0], names[0])] if a != names[0] else [])
                    others = [n for n in names if n not in (a, names[0], P3)]
                    if ctx.thorough:
                        combos += [(n, n) for n in others] + [(a, n) for n in others]
                    elif others and b != a:
                        combos += [(others[0], a)]
                    if len(names) > 1:
                        combos += [(a, names[0])] if a != names[0] else [(a, names[1])]
                for v, p in combos:
                    one(ctx, lab, a, b, v, p)
                if a != P3 and b != P3:
                    one(ctx, lab, a, b, "Quantity", "Quantity")
            for r in ("Parallax", "DistanceModulus"):
                if a in DIST_RAD:
                    one(ctx, lab, a, names[0], a, a, r)
    for a, b in [("CartesianPos3D", "CylindricalPos"), ("CylindricalPos", "CartesianPos3D")] if not ctx.thorough else \
            [(x, y) for x in POS[3] if x != P3 for y in POS[3] if y != P3]:
        one(ctx, lab, a, b, P3, P3)


def plain(lab, vals, dim):
    return lab.q("plain" + str(dim), dim, x=R.const(1), sh=("B",)).with_(v=list(vals))


def one(ctx, lab, a, b, v, p, rad="Quantity"):
    aa, ab = SPECS[a].acc, SPECS[b].acc
    key = f"{aa} -> {ab} at {SPECS[v].vel if v in SPECS else v}, {p}" + (f" (radius as {rad})" if rad != "Quantity" else "")
    st = {}

    def go():
        pn = SPECS[a].dim
        cart = POS[pn][0]
        pc = cart if p == "Quantity" else p
        vc = cart if v == "Quantity" else v
        if pn == 1 and pc == cart:
            lab.var("half.x", nonneg=True)
            pos = mkpos(lab, cart, "half.")
        else:
            pos = mkpos(lab, pc, radius=rad)
        vel = mkdiff(lab, SPECS[vc].vel, f"{SPECS[vc].vel}.", 1)
        acc = mkdiff(lab, aa, f"{aa}.", 2)
        parg, varg = pos, vel
        if p == "Quantity":
            parg = plain(lab, [pos.d[n].v for n, _ in SPECS[cart].comps], V.DIMS["length"])
        if v == "Quantity":
            varg = plain(lab, [vel.d["d_" + n].v for n, _ in SPECS[cart].comps],
                         V.dim_mul(V.DIMS["length"], TIME, -1))
        kw = {}
        if P3 in (a, b) and p != P3:
            kw = kwargs(lab, p, P3)
        lab.fresh()
        res = lab.call("represent_as", acc, vcls(lab, ab), varg, parg, **kw)
        if not isinstance(res, Obj):
            raise Undecided(f"result {res!r}"[:100])
        st.update(pos=pos, vel=vel, acc=acc, res=res, kw=kw)
        if res.cls is not vcls(lab, ab):
            return Result("bad", f"returns a {res.cls.name}")
        for n, k in SPECS[b].comps:
            q = res.d.get("d2_" + n)
            want = V.dim_mul(KDIM[k], V.dim_pow(TIME, 2), -1)
            if not isinstance(q, Num):
                return Result("und", f"d2_{n}: {q!r}"[:100])
            if q.dim != want:
                return Result("bad", f"d2_{n} has dimension {q.dim}, not {want}")
        return OK
    r = ctx.guard("type", key, go)
    if r is None or r.status != "ok":
        return

    def chain():
        pos, vel, acc, res = st["pos"], st["vel"], st["acc"], st["res"]

        def own(name):
            if pos.cls.name == name:
                return pos
            return lab.call("represent_as", pos, vcls(lab, name), **(st["kw"] if name == P3 else {}))

        def ownv(name, q):
            if vel.cls.name == SPECS[name].vel:
                return vel
            return lab.call("represent_as", vel, vcls(lab, SPECS[name].vel), pos, **(st["kw"] if name == P3 else {}))
        f = inv_jets if P3 in (a, b) else jets_of
        qa, qb = own(a), own(b)
        e = f(lab, qa, ownv(a, qa), acc)[2]
        g = f(lab, qb, ownv(b, qb), res)[2]
        return compare(lab.s, list(zip(g, e)), ["d2(rho^2)", "d2(z^2)", "d(rho^2 dphi)"] if P3 in (a, b) else
                       ["ax", "ay", "az"][:len(e)], generic=True)
    ctx.guard("chain", key, chain)

    def shape():
        for n, k in SPECS[b].comps:
            sh = st["res"].d["d2_" + n].sh
            if sh != ("B",):
                return Result("und", f"d2_{n}: shape {sh!r}"[:150])
        return OK
    ctx.guard("shape", key, shape)
