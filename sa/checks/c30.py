"""C30: an operator built from any supported input carries exactly the parameter it was given."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, opslib as O
from ..specs import KDIM
from ..vecs import *  # noqa: F403

MIN = 60
L = KDIM["len"]
FIELDS = {"GalileanSpatialTranslation": "translation", "GalileanTranslation": "translation", "GalileanBoost": "velocity",
          "VelocityBoost": "velocity", "GalileanRotation": "rotation"}


def flat(o, path=""):
    """(path, class name or number) of everything an object holds."""
    if isinstance(o, Obj):
        yield path, o.cls.name
        for k, v in o.d.items():
            if not k.startswith("_"):
                yield from flat(v, f"{path}.{k}")
    elif isinstance(o, (list, tuple)):
        yield path, len(o)
        for i, v in enumerate(o):
            yield from flat(v, f"{path}[{i}]")
    elif isinstance(o, Num):
        yield path, o.dim if o.dim is not None else "number"
        vs = list(leaves(o.v))
        yield path, len(vs)
        for v in vs:
            yield path, v
    else:
        yield path, o


def holds(lab, got, want):
    """got and want are the same: classes, dimensions and values."""
    a, b = list(flat(got)), list(flat(want))
    pairs, labels = [], []
    if len(a) != len(b):
        return Result("bad", f"holds {[x for _, x in a if isinstance(x, str)]}, not {[x for _, x in b if isinstance(x, str)]}"[:200])
    for (p, x), (q, y) in zip(a, b):
        if not isinstance(x, (V.X, V.Ite, V.Top)) and not isinstance(y, (V.X, V.Ite, V.Top)):
            if p != q or x != y:
                return Result("bad", f"{p or 'it'} is {x!r}, not {y!r}"[:200])
            continue
        pairs.append((x, y))
        labels.append(p or "value")
    return compare(lab.s, pairs, labels) if pairs else OK


def check(ctx):
    ctx.rule("parameter", "the operator is of the class asked for and holds the parameter it was given")
    ctx.rule("self", "from_ of an operator of the same class returns it; of another class it is refused")
    ctx.rule("euler", "from_euler gives the product of the rotations about the axes, lower case extrinsic, upper case intrinsic")
    ctx.rule("pipe", "a pipeline holds the operators it was given, in their order, however they were passed")
    ctx.rule("galilean", "a Galilean operator holds the rotation, translation and velocity it was given, and the identity for those it was not")
    lab = ctx.lab()
    shifts(ctx, lab)
    boosts(ctx, lab)
    translations(ctx, lab)
    rotations(ctx, lab)
    selves(ctx, lab)
    pipes(ctx, lab)
    galilean(ctx, lab)


def ways(ctx, lab, cls, label, arg, want, unit=None, arr=None):
    """Every way to construct `cls` from one parameter."""
    c = O.ocls(lab, cls)
    f = FIELDS[cls]
    frm = lab.attr(c, "from_")
    calls = {"cls(x)": lambda: lab.ip.call(c, [arg], {}), f"cls({f}=x)": lambda: lab.ip.call(c, [], {f: arg}),
             "from_(x)": lambda: lab.ip.call(frm, [arg], {}), "from_({%r: x})" % f: lambda: lab.ip.call(frm, [{f: arg}], {})}
    if unit is not None:
        calls["from_(array, unit)"] = lambda: lab.ip.call(frm, [arr, unit], {})
    for how, call in calls.items():
        def go(call=call):
            lab.fresh()
            op = call()
            if not isinstance(op, Obj) or op.cls is not c:
                return Result("bad", f"gives {op!r}"[:150])
            e = errors_feasible(lab, lab.ip.effects)
            if e:
                return Result("bad", err_text(*e))
            return holds(lab, op.d[f], want)
        ctx.guard("parameter", f"{cls} {how}, x {label}", go)


def arr_of(lab, pre, n, dim, unit):
    """A quantity array in the unit, its bare numbers, and its values in SI."""
    from ..ext import UNITS
    k = UNITS[unit][0] if "/" not in unit else R.div(UNITS[unit.split("/")[0]][0], UNITS[unit.split("/")[1]][0])
    xs = [lab.var(f"{pre}{i}") for i in range(n)]
    si = [R.mul(x, k) for x in xs]
    return lab.q(pre + "arr", dim, sh=()).with_(v=si, unit=k), lab.arr(xs), si


def vec(lab, cls, xs, dim):
    return Obj(vcls(lab, cls), {n: lab.q("w." + n, dim, sh=()).with_(v=x) for n, x in zip(comps_of(lab, vcls(lab, cls)), xs)})


def shifts(ctx, lab):
    n0 = "GalileanSpatialTranslation"
    for dim, names in POS.items():
        for n in names:
            if n in NDC:
                continue
            p = mkpos(lab, n, n + ".", sh=())
            ways(ctx, lab, n0, f"a {n}", p, p)
        q, a, si = arr_of(lab, f"s{dim}.", dim, L, "kpc")
        ways(ctx, lab, n0, f"a quantity of {dim}", q, vec(lab, f"CartesianPos{dim}D", si, L), "kpc", a)


def boosts(ctx, lab):
    for n0 in ("GalileanBoost", "VelocityBoost"):
        v = mkdiff(lab, "CartesianVel3D", "v.", 1, sh=())
        ways(ctx, lab, n0, "a CartesianVel3D", v, v)
        v = mkdiff(lab, "SphericalVel", "v.", 1, sh=())
        ways(ctx, lab, n0, "a SphericalVel", v, v)
        q, a, si = arr_of(lab, "b.", 3, O.SPEED, "km/s")
        ways(ctx, lab, n0, "a quantity of 3", q, vec(lab, "CartesianVel3D", si, O.SPEED), "km/s", a)


def translations(ctx, lab):
    n0 = "GalileanTranslation"
    for n in ("CartesianPos3D", "SphericalPos", "CylindricalPos"):
        f = O.fourvec(lab, "f.", n)
        ways(ctx, lab, n0, f"a FourVector of {n}", f, f)
    q, a, si = arr_of(lab, "t.", 4, L, "kpc")
    c = O.light()
    f = O.fourvec(lab, "g.")
    want = Obj(f.cls, {"t": f.d["t"].with_(v=R.div(si[0], c)), "q": vec(lab, "CartesianPos3D", si[1:], L), "c": f.d["c"].with_(v=c)})
    ways(ctx, lab, n0, "a quantity of 4", q, want, "kpc", a)


def rotations(ctx, lab):
    n0 = "GalileanRotation"
    for axes in ("z", "zx"):
        op = O.rot_op(lab, f"r{axes}.", axes)
        m = op.d["rotation"]
        ways(ctx, lab, n0, f"a matrix ({axes})", m, m)
        q = lab.q("m", (), sh=()).with_(v=m.v, unit=R.const(1))
        ways(ctx, lab, n0, f"a dimensionless quantity ({axes})", q, m)
        c = O.ocls(lab, n0)

        def of_op(op=op, m=m, c=c):
            lab.fresh()
            return holds(lab, lab.ip.call(c, [op], {}).d["rotation"], m)
        ctx.guard("parameter", f"{n0} cls(x), x a rotation operator ({axes})", of_op)

        def of_rot(m=m, c=c):
            from ..extfun import ROT
            lab.fresh()
            r = lab.ip.call(lab.attr(c, "from_"), [Obj(ROT, {"matrix": m})], {})
            if r.cls is not c:
                return Result("bad", f"gives a {r.cls.name}")
            return holds(lab, r.d["rotation"], m)
        ctx.guard("parameter", f"{n0} from_(x), x a Rotation ({axes})", of_rot)
    for seq in ("x", "y", "z", "zx", "zxz", "ZX", "XYZ"):
        for ty in ("Quantity", "Angle"):
            def euler(seq=seq, ty=ty):
                lab.fresh()
                c = O.ocls(lab, n0)
                angs = [lab.angle(f"e{ty}{seq}{i}") for i in range(len(seq))]
                v = angs if len(seq) > 1 else angs[0]
                a = lab.q("ang", "angle", sh=()).with_(v=v)
                if ty == "Angle":
                    a = lab.ip.call(lab.attr(lab.get("coordinax.angle.Angle"), "from_"), [a], {})
                r = lab.ip.call(lab.attr(c, "from_euler"), [seq, a], {})
                if r.cls is not c:
                    return Result("bad", f"gives a {r.cls.name}")
                m = None
                for ch, t in zip(seq, angs):
                    e = O.elementary(lab, ch.lower(), t).v
                    m = e if m is None else O.matmul(e, m) if seq.islower() else O.matmul(m, e)
                got = r.d["rotation"].v
                return compare(lab.s, [(got[i][j], m[i][j]) for i in range(3) for j in range(3)],
                               [f"R[{i},{j}]" for i in range(3) for j in range(3)])
            ctx.guard("euler", f"from_euler({seq!r}, {ty})", euler)


def selves(ctx, lab):
    ops = O.every_op(lab)
    for n, op in ops:
        frm = lab.attr(op.cls, "from_")

        def go(op=op, frm=frm):
            lab.fresh()
            r = lab.ip.call(frm, [op], {})
            return OK if r is op else Result("bad", f"gives {r!r}, not the operator itself"[:150])
        ctx.guard("self", f"{n}.from_ of one", go)
        for m, o2 in ops:
            def other(o2=o2, frm=frm):
                lab.fresh()
                try:
                    r = lab.ip.call(frm, [o2], {})
                except AbsRaise as e:
                    return OK
                return Result("bad", f"gives {r!r}"[:150])
            if m != n:
                ctx.guard("self", f"{n}.from_ refuses a {m}", other)


def pipes(ctx, lab):
    a, b, c = O.shift(lab, "a."), O.boost(lab, "b."), O.rot_op(lab, "c.", "z")
    P = O.ocls(lab, "Pipe")
    frm = lab.attr(P, "from_")
    ab = O.build_op(lab, "Pipe", (a, b))
    cases = {"cls((a, b, c))": (lambda: lab.ip.call(P, [(a, b, c)], {}), [a, b, c]),
             "cls([a, b, c])": (lambda: lab.ip.call(P, [[a, b, c]], {}), [a, b, c]),
             "cls(a)": (lambda: lab.ip.call(P, [a], {}), [a]),
             "cls(a | b)": (lambda: lab.ip.call(P, [ab], {}), [a, b]),
             "cls(operators=(b, a))": (lambda: lab.ip.call(P, [], {"operators": (b, a)}), [b, a]),
             "from_((a, b, c))": (lambda: lab.ip.call(frm, [(a, b, c)], {}), [a, b, c]),
             "from_([c, a])": (lambda: lab.ip.call(frm, [[c, a]], {}), [c, a]),
             "from_({'operators': (a, b)})": (lambda: lab.ip.call(frm, [{"operators": (a, b)}], {}), [a, b]),
             "from_({'operators': a | b})": (lambda: lab.ip.call(frm, [{"operators": ab}], {}), [a, b])}
    for how, (call, want) in cases.items():
        def go(call=call, want=want):
            lab.fresh()
            p = call()
            if not isinstance(p, Obj) or p.cls is not P:
                return Result("bad", f"gives {p!r}"[:150])
            got = lab.ip.iterate(p.d["operators"])
            if not isinstance(p.d["operators"], tuple):
                return Result("bad", f"keeps a {type(p.d['operators']).__name__}, not a tuple")
            if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
                return Result("bad", f"holds {[getattr(x, 'cls', x) for x in got]}"[:200])
            return OK
        ctx.guard("pipe", how, go)


def galilean(ctx, lab):
    G = O.ocls(lab, "GalileanOperator")
    frm = lab.attr(G, "from_")
    R0, T0, V0 = O.rot_op(lab, "R.", "zx"), O.trans(lab, "T."), O.boost(lab, "V.")
    v, f = V0.d["velocity"], T0.d["translation"]
    qv, _, vs = arr_of(lab, "gv.", 3, O.SPEED, "km/s")
    qt, _, ts = arr_of(lab, "gt.", 4, L, "kpc")
    one = lab.arr([[R.const(int(i == j)) for j in range(3)] for i in range(3)])
    z = R.const(0)
    still = vec(lab, "CartesianVel3D", [z] * 3, O.SPEED)
    c = O.light()
    four = lambda xs: Obj(f.cls, {"t": f.d["t"].with_(v=R.div(xs[0], c)), "q": vec(lab, "CartesianPos3D", xs[1:], L),  # noqa: E731
                                  "c": f.d["c"].with_(v=c)})
    m = R0.d["rotation"]
    cases = {"nothing": ({}, one, four([z] * 4), still), "operators": ({"rotation": R0, "translation": T0, "velocity": V0}, m, f, v),
             "vectors": ({"rotation": m, "translation": f, "velocity": v}, m, f, v),
             "quantities": ({"translation": qt, "velocity": qv}, one, four(ts), vec(lab, "CartesianVel3D", vs, O.SPEED)),
             "a rotation": ({"rotation": R0}, m, four([z] * 4), still), "a translation": ({"translation": T0}, one, f, still),
             "a velocity": ({"velocity": V0}, one, four([z] * 4), v)}
    for label, (kw, wr, wt, wv) in cases.items():
        for how, call in {"cls(**x)": lambda kw=kw: lab.ip.call(G, [], kw), "from_(x)": lambda kw=kw: lab.ip.call(frm, [dict(kw)], {})}.items():
            def go(call=call, wr=wr, wt=wt, wv=wv):
                lab.fresh()
                g = call()
                if not isinstance(g, Obj) or g.cls is not G:
                    return Result("bad", f"gives {g!r}"[:150])
                for k, fld, w in (("rotation", "rotation", wr), ("translation", "translation", wt), ("velocity", "velocity", wv)):
                    r = holds(lab, g.d[k].d[fld], w)
                    if r.status != "ok":
                        return r
                return OK
            ctx.guard("galilean", f"{how}, x {label}", go)
