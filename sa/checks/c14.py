"""C14: vectors and quantity arrays convert back and forth without permuting components."""
from fractions import Fraction  # noqa: F401

from ..lab import Result, OK, compare
from .. import values as V, ring as R, ext as E, axes as AX
from ..values import Num
from ..vecs import *  # noqa: F403

MIN = 150
CART = {1: "CartesianPos1D", 2: "CartesianPos2D", 3: "CartesianPos3D"}
TARGETS = ("Quantity", "UncheckedQuantity", "AbstractQuantity", "Distance")
DIFFS = [(f"{k}{s}", n, o) for s, n in (("1D", 1), ("2D", 2), ("3D", 3)) for k, o in (("CartesianVel", 1), ("CartesianAcc", 2))] + \
        [("RadialVel", 1, 1), ("RadialAcc", 1, 2)]
# classes built from an array with the components on the last axis: number of components and dimension
BUILD = {"CartesianPos1D": (1, "length"), "RadialPos": (1, "length"), "CartesianPos2D": (2, "length"), "CartesianPos3D": (3, "length"),
         "CartesianVel1D": (1, "speed"), "RadialVel": (1, "speed"), "CartesianVel2D": (2, "speed"), "CartesianVel3D": (3, "speed"),
         "CartesianAcc1D": (1, "acceleration"), "RadialAcc": (1, "acceleration"), "CartesianAcc2D": (2, "acceleration"),
         "CartesianAcc3D": (3, "acceleration"), "CartesianGeneric3D": (3, "length")}
ND = {"CartesianPosND": "length", "CartesianVelND": "speed", "CartesianAccND": "acceleration"}
LINKED = {"CartesianPos3D": ("AbstractPos3D", "SphericalPos", "CylindricalPos"), "CartesianVel3D": ("AbstractVel3D",), "CartesianAcc3D": ("AbstractAcc3D",)}
MIXED = [AX.mk("a"), AX.mk("b", "a"), ()]


def check(ctx):
    lab = ctx.lab()
    ctx.rule("to", "converting a vector to a quantity class stacks its Cartesian components in declared order on the last axis, in the class asked for, one entry per element of the broadcast batch")
    ctx.rule("from", "building a vector from a quantity array, an array with a unit or a mapping reads component i from entry i of the last axis")
    ctx.rule("round", "a Cartesian vector converted to a quantity and back, or a quantity array converted to a vector and back, is unchanged")
    ctx.rule("length", "an array whose last axis does not have one entry per component is refused; a 1D class keeps every element")
    shapes = [[()], [AX.mk("a")], [AX.mk("a", "b")], MIXED] + ([[AX.mk("a", "b", "c")], [(), AX.mk("a")], [AX.mk("a"), (), AX.mk("b", "a")]] if ctx.thorough else [])
    for sh in shapes:
        tag = {(): ""}.get(tuple(sh[0]) if len(sh) == 1 else None, f" batch {'/'.join(str(AX.sizes(s)) for s in sh)}")
        for n, names in POS.items():
            for name in names:
                kinds = ["Quantity", "Distance"] + (["Parallax", "DistanceModulus"] if name in DIST_RAD else [])
                for k in kinds if name in DIST_RAD else ["Quantity"]:
                    for t in TARGETS if k == "Quantity" else TARGETS[:1]:
                        to_pos(ctx, lab, name, n, k, t, sh, tag)
        for name, n, order in DIFFS:
            for t in TARGETS[:2]:
                to_diff(ctx, lab, name, n, order, t, sh, tag)
        for q in [x for x in POS[3]]:
            to_four(ctx, lab, q, sh, tag)
        if len(sh) == 1:
            for t in TARGETS:
                to_nd(ctx, lab, t, sh[0], tag)
            for name, (n, dim) in BUILD.items():
                for how in ("Quantity", "UncheckedQuantity", "array", "mapping"):
                    from_(ctx, lab, name, name, n, dim, how, sh[0], tag)
                for via in LINKED.get(name, ()):
                    from_(ctx, lab, name, via, n, dim, "Quantity", sh[0], tag)
                rounds(ctx, lab, name, n, dim, sh[0], tag)
                if len(AX.sizes(sh[0])) < 3:
                    length(ctx, lab, name, n, dim, sh[0], tag)
            for name, dim in ND.items():
                for how in ("Quantity", "UncheckedQuantity", "array"):
                    nd_from(ctx, lab, name, dim, how, sh[0], tag)
            four_from(ctx, lab, sh[0], tag)


conv = V.Ext("plum.convert")


def target(lab, t):
    return lab.get("coordinax.distance.Distance") if t == "Distance" else E.Q[t]


def is_stack(r, t, n, sh):
    if not isinstance(r, Num):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if t != "AbstractQuantity" and r.ty.name != t:
        return Result("bad", f"gives a {r.ty.name}")
    if not isinstance(r.v, list) or len(r.v) != n or any(isinstance(x, list) for x in r.v):
        return Result("bad", f"gives {r.feat()} entries, wanted ({n},)")
    if AX.sizes(r.sh) != AX.sizes(sh) or AX.hist(r.sh):
        return Result("bad", f"batch shape {r.sh}, wanted {sh}")
    return OK


def batch(shapes, k):
    """Batch shape of k component arrays with the given shapes, cyclically."""
    return AX.bcast(*[shapes[i % len(shapes)] for i in range(k)])


def unstack(lab, r, n):
    c = vcls(lab, CART[n])
    return frozen(lab, c, {f: r.with_(v=r.v[i]) for i, f in enumerate("xyz"[:n])})


def to_pos(ctx, lab, name, n, kind, t, sh, tag):
    def go():
        lab.fresh()
        o = reshape_leaves(lab, mkpos(lab, name, radius=kind), sh)
        r = lab.call(conv, o, target(lab, t))
        k = len(SPECS[name].comps)
        x = is_stack(r, t, n, batch(sh, k))
        if x.status != "ok":
            return x
        if r.dim != V.DIMS["length"]:
            return Result("bad", f"dimension {r.dim}")
        return same_point(lab, unstack(lab, r, n), o)
    ctx.guard("to", f"{name}{'' if kind == 'Quantity' else ' (' + kind + ')'} -> {t}{tag}", go)


def to_diff(ctx, lab, name, n, order, t, sh, tag):
    def go():
        lab.fresh()
        o = reshape_leaves(lab, mkdiff(lab, name, "v.", order), sh)
        r = lab.call(conv, o, target(lab, t))
        x = is_stack(r, t, n, batch(sh, n))
        if x.status != "ok":
            return x
        src = list(o.d.values())
        if r.dim != src[0].dim:
            return Result("bad", f"dimension {r.dim}")
        return compare(lab.s, [(r.v[i], src[i].v) for i in range(n)], list(o.d))
    ctx.guard("to", f"{name} -> {t}{tag}", go)


def to_four(ctx, lab, q, sh, tag):
    def go():
        lab.fresh()
        o = mk_four(lab, "four.", mkpos(lab, q, "four.q."))
        o = reshape_leaves(lab, o, sh)
        full = AX.bcast(*[x.sh for x in o.d["q"].d.values()])
        if AX.sizes(AX.bcast(full, o.d["t"].sh)) != AX.sizes(full):
            return OK       # not a valid space-time vector
        r = lab.call(conv, o, E.Q["Quantity"])
        x = is_stack(r, "Quantity", 4, full)
        if x.status != "ok":
            return x
        if r.dim != V.DIMS["length"]:
            return Result("bad", f"dimension {r.dim}")
        ct = V.tlift(R.mul, o.d["c"].v, o.d["t"].v)
        x = compare(lab.s, [(r.v[0], ct)], ["c t"])
        return x if x.status != "ok" else same_point(lab, unstack(lab, r.with_(v=r.v[1:]), 3), o.d["q"])
    ctx.guard("to", f"FourVector of {q} -> Quantity{tag}", go)


def to_nd(ctx, lab, t, sh, tag):
    for n in (1, 2, 3, 5):
        def go(n=n):
            lab.fresh()
            o = mk_nd(lab, 0, "nd.", sh=sh, n=n)
            r = lab.call(conv, o, target(lab, t))
            x = is_stack(r, t, n, sh)
            return x if x.status != "ok" else compare(lab.s, list(zip(r.v, o.d["q"].v)), [f"q[{i}]" for i in range(n)])
        ctx.guard("to", f"CartesianPosND ({n}) -> {t}{tag}", go)


def entries(lab, name, n):
    nonneg = name == "RadialPos"
    return [lab.var(f"e{i}", nonneg=nonneg) for i in range(n)]


def source(lab, how, xs, dim, sh):
    """The arguments of from_ for a stacked array."""
    if how == "array":
        u = lab.unit("u", V.DIMS[dim])
        return (lab.arr(R.const(1), sh=sh).with_(v=list(xs)), u), [V.tlift(R.mul, x, u.x) for x in xs]
    q = lab.q("arr", dim, x=R.const(1), sh=sh).with_(v=list(xs))
    if how != "Quantity":
        q = q.with_(ty=E.Q[how])
    return (q,), list(xs)


def read(lab, r, name, fields, want, dim, sh):
    if not isinstance(r, Obj):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if r.cls.name != name:
        return Result("bad", f"gives a {r.cls.name}")
    for f in fields:
        q = r.d[f]
        if not isinstance(q, Num):
            return Result("und", f"{f} is {q!r}"[:150])
        if q.dim != V.DIMS[dim]:
            return Result("bad", f"{f} has dimension {q.dim}")
        if AX.sizes(q.sh) != AX.sizes(sh):
            return Result("bad", f"{f} has batch shape {q.sh}, wanted {sh}")
        if isinstance(q.v, list):
            return Result("bad", f"{f} keeps an axis of components")
    return compare(lab.s, [(rad_value(r.d[f]), w) for f, w in zip(fields, want)], list(fields))


def from_(ctx, lab, name, via, n, dim, how, sh, tag):
    def go():
        lab.fresh()
        fs = names_of(name, n)
        if how == "mapping":
            xs = entries(lab, name, n)
            args = ({f: lab.q(f, dim, x=x, sh=sh) for f, x in zip(fs, xs)},)
            want = xs
        else:
            args, want = source(lab, how, entries(lab, name, n), dim, sh)
        try:
            r = lab.call(lab.attr(vcls(lab, via), "from_"), *args)
        except AbsRaise as e:
            return OK if how == "UncheckedQuantity" or via != name else Result("bad", f"refused: {e}"[:150])
        return read(lab, r, name, fs, want, dim, sh)
    ctx.guard("from", f"{via}.from_({how}){tag}", go)


def names_of(name, n):
    if name.startswith("Radial"):
        return [{"RadialPos": "r", "RadialVel": "d_r", "RadialAcc": "d2_r"}[name]]
    p = "d_" if "Vel" in name else "d2_" if "Acc" in name else ""
    return [p + f for f in "xyz"[:n]]


def rounds(ctx, lab, name, n, dim, sh, tag):
    if name == "CartesianGeneric3D":
        return

    def there():
        lab.fresh()
        args, want = source(lab, "Quantity", entries(lab, name, n), dim, sh)
        v = lab.call(lab.attr(vcls(lab, name), "from_"), *args)
        r = lab.call(conv, v, E.Q["Quantity"])
        x = is_stack(r, "Quantity", n, sh)
        return x if x.status != "ok" else compare(lab.s, list(zip(r.v, want)), [f"entry {i}" for i in range(n)])
    ctx.guard("round", f"array -> {name} -> array{tag}", there)

    def back():
        lab.fresh()
        fs = names_of(name, n)
        xs = entries(lab, name, n)
        o = build(lab, vcls(lab, name), {f: lab.q(f, dim, x=x, sh=sh) for f, x in zip(fs, xs)})
        q = lab.call(conv, o, E.Q["Quantity"])
        r = lab.call(lab.attr(vcls(lab, name), "from_"), q)
        return read(lab, r, name, fs, xs, dim, sh)
    ctx.guard("round", f"{name} -> array -> {name}{tag}", back)


def length(ctx, lab, name, n, dim, sh, tag):
    def one(m):
        lab.fresh()
        args, want = source(lab, "Quantity", entries(lab, name, m), dim, sh)
        try:
            r = lab.call(lab.attr(vcls(lab, name), "from_"), *args)
        except AbsRaise:
            return OK
        f = names_of(name, n)
        if n == 1 and isinstance(r, Obj) and isinstance(r.d[f[0]], Num) and isinstance(r.d[f[0]].v, list) and len(r.d[f[0]].v) == m:
            return compare(lab.s, list(zip(r.d[f[0]].v, want)), [f"element {i}" for i in range(m)])
        return Result("bad", f"{m} entries give {r!r}"[:150])

    def go():
        for m in range(1, 6):
            x = one(m) if m != n else OK
            if x.status != "ok":
                return x
        return OK
    ctx.guard("length", f"{name}.from_{tag}", go)


def nd_from(ctx, lab, name, dim, how, sh, tag):
    f = {"CartesianPosND": "q", "CartesianVelND": "d_q", "CartesianAccND": "d2_q"}[name]
    for n in (1, 2, 4):
        def go(n=n):
            lab.fresh()
            args, want = source(lab, how, entries(lab, name, n), dim, sh)
            try:
                r = lab.call(lab.attr(vcls(lab, name), "from_"), *args)
            except AbsRaise as e:
                return OK if how == "UncheckedQuantity" else Result("bad", f"refused: {e}"[:150])
            if not isinstance(r, Obj) or r.cls.name != name:
                return Result("bad" if isinstance(r, Obj) else "und", f"gives {r!r}"[:150])
            q = r.d[f]
            if q.dim != V.DIMS[dim] or not isinstance(q.v, list) or len(q.v) != n or AX.sizes(q.sh) != AX.sizes(sh):
                return Result("bad", f"{f} is {q!r}, batch {q.sh}"[:150])
            return compare(lab.s, list(zip(q.v, want)), [f"{f}[{i}]" for i in range(n)])
        ctx.guard("from", f"{name}.from_({how}, {n}){tag}", go)


def four_from(ctx, lab, sh, tag):
    def parts(r):
        if not isinstance(r, Obj) or r.cls.name != "FourVector":
            return Result("bad" if isinstance(r, Obj) else "und", f"gives {r!r}"[:150])
        q = r.d["q"]
        if not isinstance(q, Obj) or q.cls.name != "CartesianPos3D":
            return Result("bad", f"the position is {q!r}"[:150])
        return OK

    def go(how):
        lab.fresh()
        args, want = source(lab, how, entries(lab, "FourVector", 4), "length", sh)
        r = lab.call(lab.attr(vcls(lab, "FourVector"), "from_"), *args)
        x = parts(r)
        if x.status != "ok":
            return x
        q = r.d["q"].d
        leaves = [r.d["t"], q["x"], q["y"], q["z"]]
        for leaf in leaves:
            if AX.sizes(leaf.sh) != AX.sizes(sh) or isinstance(leaf.v, list):
                return Result("bad", f"{leaf!r} has batch shape {leaf.sh}")
        if [x.dim for x in leaves] != [V.DIMS["time"]] + [V.DIMS["length"]] * 3:
            return Result("bad", "dimensions of the parts")
        ct = V.tlift(R.mul, r.d["c"].v, leaves[0].v)
        return compare(lab.s, [(ct, want[0])] + [(a.v, b) for a, b in zip(leaves[1:], want[1:])], ["c t", "x", "y", "z"])
    for how in ("Quantity", "array"):
        ctx.guard("from", f"FourVector.from_({how}){tag}", lambda how=how: go(how))

    def there():
        lab.fresh()
        args, want = source(lab, "Quantity", entries(lab, "FourVector", 4), "length", sh)
        v = lab.call(lab.attr(vcls(lab, "FourVector"), "from_"), *args)
        r = lab.call(conv, v, E.Q["Quantity"])
        x = is_stack(r, "Quantity", 4, sh)
        return x if x.status != "ok" else compare(lab.s, list(zip(r.v, want)), [f"entry {i}" for i in range(4)])
    ctx.guard("round", f"array -> FourVector -> array{tag}", there)
    for m in (1, 2, 3, 5):
        def bad(m=m):
            lab.fresh()
            args, _ = source(lab, "Quantity", entries(lab, "FourVector", m), "length", sh)
            try:
                r = lab.call(lab.attr(vcls(lab, "FourVector"), "from_"), *args)
            except AbsRaise:
                return OK
            return Result("bad", f"{m} entries give {r!r}"[:150])
        ctx.guard("length", f"FourVector.from_({m} entries){tag}", bad)
