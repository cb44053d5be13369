"""C27: equality of vectors compares every component and the type."""
from ..lab import Result, OK, same_condition
from .. import values as V, ring as R, ext as E, axes as AX, extfun
from ..values import Num
from ..vecs import *  # noqa: F403

MIN = 150
LINE = [("VelND", 1), ("AccND", 2)]
MIXED = [AX.mk("a"), AX.mk("b", "a"), ()]


def check(ctx):
    lab = ctx.lab()
    ctx.rule("same", "x == y for two vectors of one type holds, element by element of the batch, exactly if every component and attribute of x equals that of y")
    ctx.rule("units", "no comparison depends on the units the components are stored in")
    ctx.rule("other", "a velocity, acceleration or position compared with a vector of another kind, or a velocity or acceleration with one of another type, is unequal")
    ctx.rule("convert", "a position compared with a position of another type of its dimension holds exactly if it equals that position converted to its type")
    ctx.rule("primitive", "quaxed.numpy.equal(x, y) is x == y")
    shapes = [[()], [AX.mk("a")], MIXED] + ([[AX.mk("a", "b")], [(), AX.mk("a")]] if ctx.thorough else [])
    for sh in shapes:
        tag = {(): ""}.get(tuple(sh[0]) if len(sh) == 1 else None, f" batch {'/'.join(str(AX.sizes(s)) for s in sh)}")
        for lb, mk in pairs(lab):
            same(ctx, lab, lb, mk, sh, tag)
        others(ctx, lab, sh, tag)
        for names in POS.values():
            for a in names:
                for b in names:
                    if a != b and "ProlateSpheroidalPos" not in (a, b):
                        convert(ctx, lab, a, b, sh, tag)


def pairs(lab):
    """(label, maker of a vector with the given prefix) for every vector type."""
    out = []
    for n in SPECS:
        kinds = ("Quantity", "Parallax", "DistanceModulus") if n in DIST_RAD else ("Quantity",)
        for k in kinds:
            out.append((n if k == "Quantity" else f"{n} ({k})", lambda p, n=n, k=k: mkpos(lab, n, p, radius=k)))
        out.append((SPECS[n].vel, lambda p, n=n: mkdiff(lab, SPECS[n].vel, p, 1)))
        out.append((SPECS[n].acc, lambda p, n=n: mkdiff(lab, SPECS[n].acc, p, 2)))
    out.append((LCL, lambda p: mkdiff(lab, LCL, p, 1)))
    for i in range(3):
        out.append((NDC[i][0], lambda p, i=i: mk_nd(lab, i, p)))
    out.append(("CartesianGeneric3D", lambda p: mk_generic(lab, p)))
    out.append(("PoincarePolarVector", lambda p: mk_poincare(lab, p)))
    for q in ("CartesianPos3D", "SphericalPos"):
        out.append((f"FourVector of {q}", lambda p, q=q: mk_four(lab, p, mkpos(lab, q, p + "q."))))
    for q, v in (("CartesianPos3D", "CartesianVel3D"), ("PolarPos", "PolarVel")):
        out.append((f"Space of {q}", lambda p, q=q, v=v: mk_space(lab, length=mkpos(lab, q, p + "q."), speed=mkdiff(lab, v, p + "v.", 1))))
    return out


def numbers(o):
    """All value numbers an object is made of, with names, and the shapes of its component arrays."""
    vals, shapes = {}, []

    def go(x, pre):
        if isinstance(x, Num):
            shapes.append(x.sh)
            for i, v in enumerate(V.leaves(x.v)):
                vals[f"{pre}[{i}]" if isinstance(x.v, list) else pre] = v
        elif isinstance(x, Obj):
            for k, v in x.d.items():
                go(v, f"{pre}.{k}" if pre else k)
        elif isinstance(x, dict):
            for k, v in x.items():
                go(v, f"{pre}.{k}" if pre else str(k))
        else:
            raise Undecided(f"field {pre}: {x!r}")
    go(o, "")
    return vals, shapes


def equal(x, y):
    """The condition under which all numbers agree."""
    acc = True
    for u, w in zip(x.values(), y.values()):
        acc = V.b_and(acc, V.tlift(lambda s, t: V.eq0(R.sub(s, t)), u, w))
    return acc


def verdict(lab, r, want, sh):
    e = next((e for e in lab.ip.effects if e.kind == "tree_unit_mismatch"), None)
    if e is not None:
        return Result("bad", f"raises when units differ: compares values with their units ({e.loc})")
    if isinstance(r, bool):
        r = Num(None, r, sh=sh)
    if not isinstance(r, Num):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if isinstance(r.v, list):
        return Result("bad", f"gives an array of truth values {r.feat()} per vector")
    x = same_condition(lab.s, r.v, want, ("equal", "components equal"))
    if x.status == "bad":
        return Result("bad", f"{'reports equal' if 'rejects' in x.why else 'reports unequal'} {x.why.split(' ', 1)[-1]}"[:250])
    if x.status == "ok" and AX.sizes(r.sh) != AX.sizes(sh):
        return Result("bad", f"the truth values have shape {r.sh}, the vectors {sh}")
    return x


def batch(shapes, *objs):
    return AX.bcast(*[s for o in objs for s in numbers(o)[1]])


def same(ctx, lab, lb, mk, sh, tag):
    def go(left, right, how):
        def f():
            lab.fresh()
            a = reshape_leaves(lab, left(), sh)
            b = a if right is left else reshape_leaves(lab, right(), sh)
            if lb.startswith("FourVector") and not valid_four(a):
                return OK
            va, vb = numbers(a)[0], numbers(b)[0]
            if how == "==":
                r = E.compare(lab.ip, "Eq", a, b)
            else:
                r = extfun.prim(lab.ip, "eq_p", [a, b], {})
            return verdict(lab, r, equal(va, vb), batch(sh, a, b))
        return f
    one, two = (lambda: mk("p.")), (lambda: mk("o."))
    ctx.guard("same", f"{lb} == {lb}{tag}", go(one, two, "=="))
    ctx.guard("same", f"{lb} == itself{tag}", go(one, one, "=="))
    ctx.guard("primitive", f"equal({lb}, {lb}){tag}", go(one, two, "equal"))


def valid_four(o):
    full = AX.bcast(*[x.sh for x in o.d["q"].d.values()])
    return AX.sizes(AX.bcast(full, o.d["t"].sh)) == AX.sizes(full)


def others(ctx, lab, sh, tag):
    kinds = []
    for n in ("CartesianPos3D", "SphericalPos", "PolarPos", "CartesianPos2D", "CartesianPos1D", "RadialPos"):
        s = SPECS[n]
        kinds += [(n, 0, lambda p, n=n: mkpos(lab, n, p)), (s.vel, 1, lambda p, s=s: mkdiff(lab, s.vel, p, 1)),
                  (s.acc, 2, lambda p, s=s: mkdiff(lab, s.acc, p, 2))]
    kinds += [("CartesianGeneric3D", 3, lambda p: mk_generic(lab, p)), ("PoincarePolarVector", 0, lambda p: mk_poincare(lab, p)),
              ("FourVector", 0, lambda p: mk_four(lab, p, mkpos(lab, "CartesianPos3D", p + "q."))),
              ("LonCosLatSphericalVel", 1, lambda p: mkdiff(lab, LCL, p, 1)), ("LonLatSphericalVel", 1, lambda p: mkdiff(lab, "LonLatSphericalVel", p, 1)),
              ("Space", 6, lambda p: mk_space(lab, length=mkpos(lab, "CartesianPos3D", p + "q.")))]
    kinds += [(NDC[i][0], i, lambda p, i=i: mk_nd(lab, i, p)) for i in range(3)]
    for na, oa, ma in kinds:
        for nb, ob, mb in kinds:
            if na == nb or oa == ob == 0:
                continue

            def go(ma=ma, mb=mb):
                lab.fresh()
                a, b = reshape_leaves(lab, ma("p."), sh), reshape_leaves(lab, mb("o."), sh)
                r = E.compare(lab.ip, "Eq", a, b)
                if r is False:
                    return OK
                if isinstance(r, Num) and r.v is False:
                    return OK
                return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
            ctx.guard("other", f"{na} == {nb}{tag}", go)


def convert(ctx, lab, na, nb, sh, tag):
    def go():
        lab.fresh()
        a, b = reshape_leaves(lab, mkpos(lab, na, "p."), sh), reshape_leaves(lab, mkpos(lab, nb, "o."), sh)
        c = lab.call(lab.get("coordinax.represent_as"), b, vcls(lab, na))
        r = E.compare(lab.ip, "Eq", a, b)
        va, vc = numbers(a)[0], numbers(c)[0]
        if list(va) != list(vc):
            return Result("und", "fields of the converted vector")
        return verdict(lab, r, equal(va, vc), batch(sh, a, b))
    ctx.guard("convert", f"{na} == {nb}{tag}", go)
