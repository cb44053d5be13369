"""C04: velocity conversions push forward by the Jacobian of the position conversion."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, axes as AX
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403

MIN = 40
P3 = "ProlateSpheroidalPos"
FULL = (("CartesianPos3D", "SphericalPos"), ("CylindricalPos", "CartesianPos3D"), ("PolarPos", "CartesianPos2D"),
        ("RadialPos", "CartesianPos1D"))


def kwargs(lab, src, dst):
    if dst == P3:
        return {"Delta": lab.q("target.Delta", "length", x=lab.var("target.Delta", pos=True, lo=0.5, hi=2), sh=())}
    return {}


def as_quantity(lab, pos):
    """The position as a plain Cartesian quantity array."""
    xs = jets_of(lab, pos)[0]
    return lab.q("posq", "length", x=R.const(1), sh=("B",)).with_(v=list(xs))


def check(ctx):
    lab = ctx.lab()
    ctx.rule("push", "the velocity denoted by represent_as(v, T, p) equals the one denoted by v at p: equal Cartesian "
                     "components, for prolate spheroidal members equal rates of rho^2, z^2 and phi")
    ctx.rule("type", "the result is a T whose components carry the dimension of T's fields")
    ctx.rule("shape", "the result has the batch shape of the velocity")
    ctx.rule("given", "a prolate spheroidal velocity at a position given in other coordinates, with the focal length, "
                      "converts as at that position converted to prolate spheroidal coordinates first")
    ctx.rule("integers", "a position with an integer-valued radius or focal length is used like its floating-point equal")
    ctx.rule("batch", "members of several batch axes, and of different batch shapes that broadcast, give the conversion of "
                      "each element at its batch index; shapes that do not broadcast are refused")
    for dim, names in POS.items():
        for a in names:
            for b in names:
                if (a in DIST_RAD or a == P3) and b in (a, names[0]):
                    integers(ctx, lab, a, b, 1)
                if b in (a, names[0]) or (a, b) in FULL or ctx.thorough:
                    batches(ctx, lab, a, b, 1)
                if P3 in (a, b):
                    poss = [a]
                    if ctx.thorough and a != P3:
                        poss += [n for n in (names[0], "CylindricalPos") if n != a]
                else:
                    poss = [a] + [n for n in names if n not in (a, P3)]
                for p in poss:
                    one(ctx, lab, a, b, p)
                if a == P3 and b in (names[0], "CylindricalPos", P3):
                    for p in (names[0], "CylindricalPos"):
                        converted(ctx, lab, b, p)
                if a != P3 and (b != P3 or a == names[0] or ctx.thorough):
                    one(ctx, lab, a, b, "Quantity")
            for r in ("Parallax", "DistanceModulus"):
                if a in DIST_RAD:
                    one(ctx, lab, a, names[0], a, r)


    L = "LonLatSphericalPos"
    for b in POS[3]:
        for p in POS[3][:-1] if ctx.thorough else (L, "CartesianPos3D", "SphericalPos", "CylindricalPos"):
            if b != P3 or p == L:
                one(ctx, lab, L, b, p, va=LCL)
            if b != P3:
                one(ctx, lab, b, L, p, vb=LCL)
        if b != P3 or ctx.thorough:
            one(ctx, lab, L, b, "Quantity", va=LCL)
        one(ctx, lab, b, L, "Quantity" if b != P3 else P3, vb=LCL)
    one(ctx, lab, L, L, "SphericalPos", va=LCL, vb=LCL)
    one(ctx, lab, L, L, "Quantity", va=LCL, vb=LCL)


def converted(ctx, lab, b, p):
    """A prolate spheroidal velocity at a position given in other coordinates: as at that position converted first."""
    src, dst = SPECS[P3].vel, SPECS[b].vel

    def go():
        lab.fresh()
        pos, vel = mkpos(lab, p), mkdiff(lab, src, "v.", 1)
        kw = kwargs(lab, p, P3)
        got = lab.call("represent_as", vel, vcls(lab, dst), pos, **kw)
        own = lab.call("represent_as", pos, vcls(lab, P3), **kw)
        want = lab.call("represent_as", vel, vcls(lab, dst), own)
        return compare(lab.s, [(got.d[n].v, want.d[n].v) for n in vcls_fields(lab, dst)])
    ctx.guard("given", f"{src} -> {dst} at a {p} with a focal length", go)


def integers(ctx, lab, a, b, order):
    """A position whose radius or focal length is stored as integers is differentiated like any other."""
    src, dst = ((SPECS[x].vel, SPECS[x].acc)[order - 1] for x in (a, b))

    def go():
        lab.fresh()
        ints, pos = integral(lab, a)
        moves = [mkdiff(lab, (SPECS[a].vel, SPECS[a].acc)[k - 1], f"i{k}.", k) for k in range(order, 0, -1)]
        kw = kwargs(lab, a, b) if a != P3 else {}
        got, want = ([lab.call("represent_as", moves[0], vcls(lab, dst), *moves[1:], p, **kw).d[n].v for n in fields]
                     for p in (ints, pos) for fields in [vcls_fields(lab, dst)])
        return compare(lab.s, list(zip(got, want)))
    ctx.guard("integers", f"{src} -> {dst} at an integer-valued {a}", go)


SHAPES = [(("a", "b"), ("a", "b"), ("a", "b")), ((), ("a",), ("a",)), (("a",), (), ()), (("b",), ("a", "b"), ("b",)),
          (("a", 1), (1, "b"), ()), (("b",), (1, "b"), ("a", 1)), (("a", "b"), ("b",), (1, "b"))]
MISFITS = [(("b", "a"), ("a", "b"), ("a", "b")), ((AX.Ax("a", "b"),), ("a", "b"), ("a", "b")), (("a",), ("b",), ()),
           ((), ("a", "b"), ("b", "a"))]


def batches(ctx, lab, a, b, order):
    """Members with several batch axes, and of different batch shapes."""
    src, dst = ((SPECS[x].vel, SPECS[x].acc)[order - 1] for x in (a, b))

    def run(shapes):
        lab.fresh()
        pos = mkpos(lab, a, "b.")
        moves = [mkdiff(lab, (SPECS[a].vel, SPECS[a].acc)[k - 1], f"b{k}.", k) for k in range(order, 0, -1)]
        kw = kwargs(lab, a, b) if a != P3 else {}
        if shapes is not None:
            sh = [shapes[0], *([shapes[1]] if order == 1 else [shapes[2], shapes[1]])]
            pos, *moves = [reshape_leaves(lab, o, [AX.mk(*x) if x else ()])
                           for o, x in zip([pos, *moves], [sh[0], *sh[1:][::-1]] if order == 2 else sh)]
        return lab.call("represent_as", moves[0], vcls(lab, dst), *moves[1:], pos, **kw)

    def fits(shapes):
        used = shapes[:order + 1]
        want = ()
        for x in used:
            want = AX.bcast_sizes(want, AX.sizes(AX.mk(*x) if x else ()))

        def go():
            res = run(shapes)
            if not isinstance(res, Obj):
                raise Undecided(f"result {res!r}"[:100])
            for n in vcls_fields(lab, dst):
                sh = res.d[n].sh
                if sh == ():
                    sh = AX.mk()
                if not AX.is_ax(sh):
                    return Result("und", f"{n}: shape {sh!r}"[:150])
                if tuple(AX.sizes(sh)) not in (want, AX.sizes(AX.mk(*used[-1])) if src == dst else want):
                    return Result("bad", f"{n} has batch shape {tuple(AX.sizes(sh))}, not {tuple(want)}")
                if AX.hist(sh):
                    return Result("bad", f"{n} combines elements of different batch positions: {AX.hist(sh)}"[:200])
            ref = run(None)
            return compare(lab.s, [(res.d[n].v, ref.d[n].v) for n in vcls_fields(lab, dst)])
        return go

    def misfit(shapes):
        def go():
            try:
                res = run(shapes)
            except AbsRaise:
                return OK
            return Result("bad", f"members of batch shapes {shapes[:order + 1]} are combined into "
                                 f"{[res.d[n].sh for n in vcls_fields(lab, dst)][0]}"[:200])
        return go
    kinds = ("pos", "vel", "acc")[:order + 1]
    for shapes in SHAPES[:None if ctx.thorough or (a, b) in FULL else 1]:
        ctx.guard("batch", f"{src} -> {dst} {dict(zip(kinds, shapes))}", fits(shapes))
    for shapes in MISFITS[:None if (a, b) in FULL or ctx.thorough else 0]:
        if order == 1 and shapes is MISFITS[3]:
            continue
        ctx.guard("batch", f"{src} -> {dst} refuses {dict(zip(kinds, shapes))}", misfit(shapes))


def vcls_fields(lab, name):
    return comps_of(lab, vcls(lab, name))


def one(ctx, lab, a, b, p, rad="Quantity", va=None, vb=None):
    va, vb = va or SPECS[a].vel, vb or SPECS[b].vel
    key = f"{va} -> {vb} at {p}" + (f" (radius as {rad})" if rad != "Quantity" else "")
    st = {}

    def go():
        pn = SPECS[a].dim
        cart = POS[pn][0]
        pre = ""
        if p in ("CartesianPos1D", "Quantity") and pn == 1:
            lab.var("half.x", nonneg=True)      # a radial coordinate exists for x >= 0
            pos = mkpos(lab, "CartesianPos1D", "half.")
        else:
            pos = mkpos(lab, p if p != "Quantity" else cart, radius=rad)
        arg = as_quantity(lab, pos) if p == "Quantity" else pos
        vel = mkdiff(lab, va, f"{va}.", 1)
        kw = {}
        for x in (a, b):
            if x == P3 and p != P3:
                kw = kwargs(lab, p, P3)
        lab.fresh()
        res = lab.call("represent_as", vel, vcls(lab, vb), arg, **kw)
        if not isinstance(res, Obj):
            raise Undecided(f"result {res!r}"[:100])
        st.update(pos=pos, vel=vel, res=res, kw=kw, eff=list(lab.ip.effects))
        if res.cls is not vcls(lab, vb):
            return Result("bad", f"returns a {res.cls.name}")
        for n, k in velcomps(vb):
            q = res.d.get("d_" + n)
            want = V.dim_mul(KDIM[k], TIME, -1)
            if not isinstance(q, Num):
                return Result("und", f"d_{n}: {q!r}"[:100])
            if q.dim != want:
                return Result("bad", f"d_{n} has dimension {q.dim}, not {want}")
        return OK
    r = ctx.guard("type", key, go)
    if r is None or r.status != "ok":
        return

    def push():
        saved = list(lab.ip.effects)
        pos, vel, res = st["pos"], st["vel"], st["res"]

        def own(name):
            if pos.cls.name == name:
                return pos
            return lab.call("represent_as", pos, vcls(lab, name), **(st["kw"] if name == P3 else {}))
        if P3 in (a, b):
            e = inv_jets(lab, own(a), vel)[1]
            g = inv_jets(lab, own(b), res)[1]
            return compare(lab.s, list(zip(g, e)), ["d(rho^2)/dt", "d(z^2)/dt", "rho^2 dphi/dt"], generic=True)
        e = jets_of(lab, own(a), vel)[1]
        g = jets_of(lab, own(b), res)[1]
        return compare(lab.s, list(zip(g, e)), ["vx", "vy", "vz"][:len(e)], generic=True)
    ctx.guard("push", key, push)

    def shape():
        for n, k in velcomps(vb):
            sh = st["res"].d["d_" + n].sh
            if sh == ("B",):
                continue
            return Result("und", f"d_{n}: shape {sh!r}"[:150])
        return OK
    ctx.guard("shape", key, shape)
