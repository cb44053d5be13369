"""C18: simplifying an operator never changes what it does."""
from .. import ext as E, opslib as O, ring as R
from ..lab import Result
from ..opslib import *  # noqa: F403
from ..values import Obj, Ite
from ..vecs import *  # noqa: F403
from .c12 import ob
from . import c16
from .c16 import acts

MIN = 250


def s_free(lab, pre):
    """Any three by three matrix."""
    m = [[lab.var(f"{pre}{i}{j}") for j in range(3)] for i in range(3)]
    return Sym("GalileanRotation[any matrix]", build_op(lab, "GalileanRotation", lab.arr(m)), lambda x, t: (mat(m, x), t))


def s_galilean_free(lab, pre):
    r, tr, b = s_free(lab, pre + "R."), s_trans(lab, pre + "T."), s_boost(lab, pre + "V.")
    return Sym("GalileanOperator[any matrix]", build_op(lab, "GalileanOperator", rotation=r.obj, translation=tr.obj, velocity=b.obj),
               r.then(tr, b), timed=True, shifts_time=True)


def elementary_ops(lab, pre):
    """One of each elementary operator, three-dimensional."""
    return [s_identity(lab), s_shift(lab, pre + "s."), s_trans(lab, pre + "T."), s_free(lab, pre + "R."),
            s_boost(lab, pre + "v."), s_vboost(lab, pre + "w."), s_galilean(lab, pre + "G.")]


def zeros(lab):
    """Operators all of whose contents are zero: the map is the identity."""
    z = lambda n, d: lab.q(n, d, x=R.const(0), sh=())
    pos = lambda c, d: Obj(vcls(lab, c), {k: z("z." + k, V.DIMS["length"]) for k in d})
    vel = Obj(vcls(lab, "CartesianVel3D"), {"d_" + k: z("z." + k, V.DIMS["speed"]) for k in "xyz"})
    idm = lambda x, t: (x, t)
    p3 = pos("CartesianPos3D", "xyz")
    f4 = mk_four(lab, "z.f.", p3, sh=())
    f4 = Obj(f4.cls, {**f4.d, "t": z("z.t", TIME)})
    return [Sym("zero shift", build_op(lab, "GalileanSpatialTranslation", p3), idm, lambda p: p),
            Sym("zero shift in 2D", build_op(lab, "GalileanSpatialTranslation", pos("CartesianPos2D", "xy")), idm, lambda p: p, dim=2),
            Sym("zero shift in 1D", build_op(lab, "GalileanSpatialTranslation", pos("CartesianPos1D", "x")), idm, lambda p: p, dim=1),
            Sym("zero translation", build_op(lab, "GalileanTranslation", f4), idm, timed=True),
            Sym("zero boost", build_op(lab, "GalileanBoost", vel), idm, timed=True),
            Sym("zero velocity boost", build_op(lab, "VelocityBoost", vel), idm, lambda p: p),
            Sym("zero rotation", build_op(lab, "GalileanRotation", lab.arr([[R.const(int(i == j)) for j in range(3)] for i in range(3)])), idm),
            Sym("default Galilean operator", build_op(lab, "GalileanOperator"), idm, timed=True)]


def check(ctx):
    ctx.rule("value", "the simplified operator maps every position, time and velocity as the original does, on either side of every "
                      "is-it-zero test")
    ctx.rule("noerror", "no error check fires in simplifying or in the simplified operator")
    ctx.rule("type", "the simplified operator returns the type it is given")
    ctx.rule("tolerance", "is-it-zero tests use the tolerance of the caller, or the default one")
    ctx.rule("total", "simplifying gives an operator, for every operator and sequence")
    lab = ctx.lab()
    call = lab.ip.call
    simp = lab.get("coordinax.ops.simplify_op")
    ops = catalogue(lab, "zxz" if ctx.thorough else "z")
    ops += [s_free(lab, "F."), s_galilean_free(lab, "G."), s_boost_of(lab, "b1.", 1), s_boost_of(lab, "b2.", 2)] + zeros(lab)
    for op in ops:
        same(ctx, lab, f"simplify_op({op.label})", lambda: call(simp, [op.obj], {}), op)
        same(ctx, lab, f"({op.label}).simplify()", lambda: call(lab.attr(op.obj, "simplify"), [], {}), op, full=False)
        tolerance(ctx, lab, simp, op)
    # sequences
    A, B = elementary_ops(lab, "a."), elementary_ops(lab, "b.")
    A = [a for a in A]
    pipes = []
    for a in A:
        for b in B:
            la = f"{short(a)}, {short(b)}"
            s = s_pipe(lab, la, build_op(lab, "Pipe", (a.obj, b.obj)), a, b)
            same(ctx, lab, f"simplify_op({la})", lambda: call(simp, [a.obj, b.obj], {}), s, full=False)
            same(ctx, lab, f"simplify_op(Pipe({la}))", lambda: call(simp, [s.obj], {}), s, full=ctx.thorough)
            pipes.append(s)
    C = elementary_ops(lab, "c.")
    for a in A:
        for b in B:
            for c in C:
                if not ctx.thorough and not (a.label == b.label or b.label == c.label or a.label == c.label):
                    continue
                la = f"{short(a)}, {short(b)}, {short(c)}"
                s = s_pipe(lab, la, build_op(lab, "Pipe", (a.obj, b.obj, c.obj)), a, b, c)
                same(ctx, lab, f"simplify_op(Pipe({la}))", lambda: call(simp, [s.obj], {}), s, full=False)
    # sequences in sequences
    a, r, w, g, i = A[1], A[3], A[5], A[6], A[0]
    r2 = B[3]
    P = lambda *o: s_pipe(lab, "Pipe(" + ", ".join(short(x) for x in o) + ")", build_op(lab, "Pipe", tuple(x.obj for x in o)), *o)
    for s in (P(), P(i), P(i, i, i), P(a), P(P(a, r), r2), P(a, P(r, r2)), P(P(a, r), P(r2, B[1])), P(P(a, i), P(i, B[1])), P(r, P(r2, C[3])),
              P(i, P(a, r)), P(P(P(r, a), B[1]), g), P(g, P(g, a)), P(a, r, B[1], r2, C[1]), P(a, B[1], r, r2, C[4], B[4])):
        same(ctx, lab, f"simplify_op({s.label})", lambda: call(simp, [s.obj], {}), s)
    x, y = P(a, r), P(r2, B[1])
    same(ctx, lab, "simplify_op(Pipe, Pipe)", lambda: call(simp, [x.obj, y.obj], {}), P(x, y))
    for o in A:
        same(ctx, lab, f"simplify_op(Pipe, {short(o)})", lambda: call(simp, [x.obj, o.obj], {}), P(x, o), full=False)
        same(ctx, lab, f"simplify_op({short(o)}, Pipe)", lambda: call(simp, [o.obj, x.obj], {}), P(o, x), full=False)
    # translations held in curvilinear types
    for n in SHIFT_TYPES[1:]:
        for m in SHIFT_TYPES:
            u, v = s_shift(lab, "u.", n), s_shift(lab, "v.", m)
            same(ctx, lab, f"simplify_op({short(u)}, {short(v)})", lambda: call(simp, [u.obj, v.obj], {}), P(u, v), full=False)
            if ctx.thorough or n == m:
                u, v = s_trans(lab, "u.", n), s_trans(lab, "v.", m)
                same(ctx, lab, f"simplify_op({short(u)}, {short(v)})", lambda: call(simp, [u.obj, v.obj], {}), P(u, v), full=False)
    for n in ("CartesianPos2D", "PolarPos", "CartesianPos1D"):
        u, v = s_shift(lab, "u.", n), s_shift(lab, "v.", n)
        same(ctx, lab, f"simplify_op({short(u)}, {short(v)})", lambda: call(simp, [u.obj, v.obj], {}), P(u, v), full=False)
    fused(ctx, lab)


def short(o):
    return o.label.replace("Galilean", "").replace("Spatial", "").replace("[CartesianPos3D]", "").replace("[any matrix]", "")


def s_boost_of(lab, pre, dim):
    v = mkdiff(lab, f"CartesianVel{dim}D", pre, 1, sh=())
    w = [c.v for c in v.d.values()]
    return Sym(f"GalileanBoost[CartesianVel{dim}D]", build_op(lab, "GalileanBoost", v), lambda x, t: (plus(x, scaled(w, t)), t), timed=True,
               dim=dim)


def same(ctx, lab, key, f, op, full=True):
    """f() is the simplified form of op: it must act as op's map does."""
    w = op.obj.cls.qual
    call = lab.ip.call
    st = {}

    def acts(*a):
        return c16.acts(*a, generic="Cartesian" not in a[2])

    def make():
        lab.fresh()
        st["o"] = f()
        e = errors_feasible(lab, lab.ip.effects, eq=True)
        if e:
            return ctx.ob("noerror", key, Result("bad", err_text(*e)), w)
        bad = [x for x in branches(st["o"]) if not (isinstance(x, Obj) and is_op(lab, x))]
        return ob(ctx, "total", key, not bad, f"gives {bad[:1]!r}"[:80], w)
    ctx.guard("total", key, make, w)
    if "o" not in st:
        return
    o = st["o"]
    t = lab.q("time", TIME, sh=())
    for n in {1: ("CartesianPos1D",), 2: ("CartesianPos2D", "PolarPos") if full else ("CartesianPos2D",),
              3: ("CartesianPos3D", "SphericalPos") if full else ("CartesianPos3D",)}[op.dim]:
        q = mkpos(lab, n, n + ".", sh=())
        x, t2 = op.act(cart_of(q), t.v)
        acts(ctx, lab, f"{key}({n}, t)", lambda: call(o, [q, t], {}), {"x": x, "t": [t2]}, [n, "time"], w)
        if full and not op.timed:
            acts(ctx, lab, f"{key}({n})", lambda: call(o, [q], {}), {"x": x}, [n], w)
        if full and op.dim == 3:
            f4 = mk_four(lab, "f.", q, sh=())
            x, t2 = op.act(cart_of(q), f4.d["t"].v)
            acts(ctx, lab, f"{key}(FourVector of {n})", lambda: call(o, [f4], {}), {"x": x, "t": [t2], "c": [f4.d["c"].v]},
                 [f"FourVector of {n}"], w)
    if op.move:
        q = mkpos(lab, f"CartesianPos{op.dim}D", "q.", sh=())
        p = mkdiff(lab, f"CartesianVel{op.dim}D", "p.", 1, sh=())
        acts(ctx, lab, f"{key}(q, p)", lambda: call(o, [q, p], {}),
             {"x": op.act(cart_of(q), t.v)[0], "p": op.move([c.v for c in p.d.values()])}, [q.cls.name, p.cls.name], w)


def branches(v):
    return branches(v.a) + branches(v.b) if isinstance(v, Ite) else [v]


def is_op(lab, o):
    return any(c.name == "AbstractOperator" for c in o.cls.mro)


def tolerance(ctx, lab, simp, op):
    """Whatever decides that contents vanish does so with the tolerance asked for."""
    if op.obj.cls.name in ("Identity", "Pipe"):
        return
    w = op.obj.cls.qual
    for key, kw in (("default", {}), ("given", {"atol": lab.arr(lab.var("atol")), "rtol": lab.arr(lab.var("rtol"))})):
        def go():
            lab.fresh()
            lab.ip.call(simp, [op.obj], dict(kw))
            used = [e.data for e in lab.ip.effects if e.kind == "allclose"]
            bad = [d for d in used if set(d) != set(kw) or any(not V.same(d[k], kw[k]) for k in kw)]
            return ob(ctx, "tolerance", f"simplify_op({op.label}), tolerance {key}", used and not bad,
                      f"compares with {sorted(bad[0])}" if bad else "decides without a tolerance", w)
        ctx.guard("tolerance", f"simplify_op({op.label}), tolerance {key}", go, w)


def fused(ctx, lab):
    """Combining rotations with @ is the matrix product."""
    a, b = s_free(lab, "a."), s_free(lab, "b.")
    key = "a @ b"
    st = {}

    def go():
        lab.fresh()
        st["o"] = E.binop(lab.ip, "MatMult", a.obj, b.obj)
        return ob(ctx, "total", key, isinstance(st["o"], Obj) and is_op(lab, st["o"]))
    ctx.guard("total", key, go)
    if "o" in st:
        s = Sym("a @ b", st["o"], b.then(a))
        q, t = mkpos(lab, "CartesianPos3D", "q.", sh=()), lab.q("time", TIME, sh=())
        x, t2 = s.act(cart_of(q), t.v)
        acts(ctx, lab, f"(a @ b)(q, t)", lambda: lab.ip.call(st["o"], [q, t], {}), {"x": x, "t": [t2]}, [q.cls.name, "time"], a.obj.cls.qual)
