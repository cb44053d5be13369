"""C17: composition applies operators in order and inverts in reverse order."""
from .. import ext as E, opslib as O, ring as R
from ..opslib import *  # noqa: F403
from ..values import Obj
from ..vecs import *  # noqa: F403
from .c12 import ob
from .c16 import acts

MIN = 120


def check(ctx):
    ctx.rule("value", "the pipeline's action is that of its operators, leftmost first, in every call signature")
    ctx.rule("noerror", "no error check fires for valid input")
    ctx.rule("type", "the result has the type of the input")
    ctx.rule("sequence", "joining, slicing, indexing and iterating keep the operators and their order; a Galilean operator exposes "
                         "rotation, translation, boost")
    ctx.rule("inertial", "a sequence is inertial exactly if all its operators are")
    lab = ctx.lab()
    call = lab.ip.call
    a, r, b = s_shift(lab, "a."), s_rot(lab, "r.", "z"), s_boost(lab, "b.")
    r2 = s_rot(lab, "rr.", "x")
    tr = s_trans(lab, "T.")
    w1, w2 = s_vboost(lab, "w."), s_vboost(lab, "ww.")
    i = s_identity(lab)
    g = s_galilean(lab, "G.")
    P = lambda *ops: build_op(lab, "Pipe", tuple(o.obj for o in ops))
    join = lambda x, y: E.binop(lab.ip, "BitOr", x, y)
    frm = lambda *x: call(lab.attr(ocls(lab, "Pipe"), "from_"), list(x), {})
    # how a sequence can be built -> the operators it must hold
    build = {
        "Pipe(())": (lambda: build_op(lab, "Pipe", ()), ()),
        "Pipe((a,))": (lambda: P(a), (a,)),
        "Pipe(a)": (lambda: build_op(lab, "Pipe", a.obj), (a,)),
        "Pipe((a, r))": (lambda: P(a, r), (a, r)),
        "Pipe((r, a))": (lambda: P(r, a), (r, a)),
        "Pipe([a, r, b])": (lambda: build_op(lab, "Pipe", [a.obj, r.obj, b.obj]), (a, r, b)),
        "Pipe(Pipe)": (lambda: build_op(lab, "Pipe", P(a, r)), (a, r)),
        "Pipe.from_((b, r, a))": (lambda: frm((b.obj, r.obj, a.obj)), (b, r, a)),
        "Pipe.from_([r, T])": (lambda: frm([r.obj, tr.obj]), (r, tr)),
        "Pipe.from_(Pipe)": (lambda: frm(P(r, a)), (r, a)),
        "Pipe.from_({operators})": (lambda: frm({"operators": (r.obj, a.obj)}), (r, a)),
        "a | r": (lambda: join(a.obj, r.obj), (a, r)),
        "r | a": (lambda: join(r.obj, a.obj), (r, a)),
        "T | r": (lambda: join(tr.obj, r.obj), (tr, r)),
        "r | r2": (lambda: join(r.obj, r2.obj), (r, r2)),
        "a | r | b": (lambda: join(join(a.obj, r.obj), b.obj), (a, r, b)),
        "a | (r | b)": (lambda: join(a.obj, join(r.obj, b.obj)), (a, r, b)),
        "b | (r | a | T)": (lambda: join(b.obj, P(r, a, tr)), (b, r, a, tr)),
        "(a | r) | (b | r2)": (lambda: join(P(a, r), P(b, r2)), (a, r, b, r2)),
        "Pipe | identity": (lambda: join(P(a, r), i.obj), (a, r, i)),
        "identity | Pipe": (lambda: join(i.obj, P(r, a)), (i, r, a)),
        "w | w": (lambda: join(w1.obj, w2.obj), (w1, w2)),
        "w | a": (lambda: join(w1.obj, a.obj), (w1, a)),
        "G | a": (lambda: join(g.obj, a.obj), (g, a)),
        "a | G": (lambda: join(a.obj, g.obj), (a, g)),
        "G | Pipe": (lambda: join(g.obj, P(a, r)), (g, a, r)),
        "Pipe | G": (lambda: join(P(a, r), g.obj), (a, r, g)),
        "Pipe((Pipe, r2))": (lambda: build_op(lab, "Pipe", (P(a, r), r2.obj)), (a, r, r2)),
        "Pipe((a, Pipe, T))": (lambda: build_op(lab, "Pipe", (a.obj, P(r, b), tr.obj)), (a, r, b, tr)),
        "(a | r | b | T)[1:3]": (lambda: E.getitem(lab.ip, P(a, r, b, tr), slice(1, 3)), (r, b)),
        "(a | r | b | T)[::-1]": (lambda: E.getitem(lab.ip, P(a, r, b, tr), slice(None, None, -1)), (tr, b, r, a)),
        "(a | r | b | T)[:-1]": (lambda: E.getitem(lab.ip, P(a, r, b, tr), slice(None, -1)), (a, r, b)),
        "G[0:2]": (lambda: E.getitem(lab.ip, g.obj, slice(0, 2)), g.parts[:2]),
        "G[1:]": (lambda: E.getitem(lab.ip, g.obj, slice(1, None)), g.parts[1:]),
        "Pipe(tuple(G))": (lambda: build_op(lab, "Pipe", lab.attr(g.obj, "operators")), g.parts),
    }
    for key, (f, ops) in build.items():
        st = {}

        def make():
            lab.fresh()
            o = st["o"] = f()
            flat = flatten(lab, o)
            want = [x for p in ops for x in flatten(lab, p.obj)]
            ok = len(flat) == len(want) and all(V.same(x, y) for x, y in zip(flat, want))
            return ob(ctx, "sequence", key, ok, f"holds {names(flat)}, expected {names(want)}", ocls(lab, "Pipe").qual)
        ctx.guard("sequence", key, make)
        if isinstance(st.get("o"), Obj):
            calls(ctx, lab, key, st["o"], ops)
            inverse(ctx, lab, key, st["o"], ops)

            def inert():
                v = lab.attr(st["o"], "is_inertial")
                return ob(ctx, "inertial", key, v is True, f"is {v!r}")
            ctx.guard("inertial", key, inert)
    items(ctx, lab, g, P(a, r, b), (a, r, b))
    galilean(ctx, lab)


def names(ops):
    return [o.cls.name if isinstance(o, Obj) else repr(o) for o in ops]


def flatten(lab, o):
    """The elementary operators of a possibly nested sequence, identities left out."""
    if isinstance(o, Obj) and o.cls.name == "Identity":
        return []
    if isinstance(o, Obj) and o.cls.name == "Pipe":
        return [x for p in o.d["operators"] for x in flatten(lab, p)]
    if isinstance(o, Obj) and o.cls.name == "GalileanOperator":
        return [o.d["rotation"], o.d["translation"], o.d["velocity"]]
    return [o]


def chain(ops):
    return ops[0].then(*ops[1:]) if ops else (lambda x, t: (x, t))


def calls(ctx, lab, key, obj, ops):
    call = lab.ip.call
    timed = any(o.timed for o in ops)
    act = chain(ops)
    t = lab.q("time", TIME, sh=())
    w = obj.cls.qual
    for n in ("CartesianPos3D", "SphericalPos") if ops else ("CartesianPos3D",):
        q = mkpos(lab, n, n + ".", sh=())
        x, t2 = act(cart_of(q), t.v)
        acts(ctx, lab, f"({key})({n}, t)", lambda: call(obj, [q, t], {}), {"x": x, "t": [t2]}, [n, "time"], w)
        if not timed:
            acts(ctx, lab, f"({key})({n})", lambda: call(obj, [q], {}), {"x": x}, [n], w)
        f4 = mk_four(lab, "f.", q, sh=())
        x, t2 = act(cart_of(q), f4.d["t"].v)
        acts(ctx, lab, f"({key})(FourVector of {n})", lambda: call(obj, [f4], {}), {"x": x, "t": [t2], "c": [f4.d["c"].v]},
             [f"FourVector of {n}"], w)
    Q, xs = O.quantity(lab, "Q.", 3)
    x, t2 = act(xs, t.v)
    acts(ctx, lab, f"({key})(quantity, t)", lambda: call(obj, [Q, t], {}), {"x": x, "t": [t2]}, ["array of 3", "time"], w)
    if not timed:
        acts(ctx, lab, f"({key})(quantity)", lambda: call(obj, [Q], {}), {"x": x}, ["array of 3"], w)
    if ops and all(o.move for o in ops):
        p = mkdiff(lab, "CartesianVel3D", "p.", 1, sh=())
        q = mkpos(lab, "CartesianPos3D", "q.", sh=())
        v = [c.v for c in p.d.values()]
        for o in ops:
            v = o.move(v)
        acts(ctx, lab, f"({key})(q, p)", lambda: call(obj, [q, p], {}), {"x": act(cart_of(q), t.v)[0], "p": v},
             [q.cls.name, p.cls.name], w)


def inverse(ctx, lab, key, obj, ops):
    """The inverse is the sequence of the inverses, last one first."""
    st = {}

    def make():
        lab.fresh()
        inv = st["inv"] = lab.attr(obj, "inverse")
        flat = flatten(lab, inv)
        want = [lab.attr(o, "inverse") for o in reversed([x for p in ops for x in flatten(lab, p.obj)])]
        ok = len(flat) == len(want) and all(V.same(x, y) for x, y in zip(flat, want))
        return ob(ctx, "sequence", f"({key}).inverse", ok, f"is {names(flat)}, expected the inverses {names(want)}", obj.cls.qual)
    ctx.guard("sequence", f"({key}).inverse", make)
    if not isinstance(st.get("inv"), Obj):
        return
    q, t = mkpos(lab, "CartesianPos3D", "q.", sh=()), lab.q("time", TIME, sh=())
    x, t2 = chain(ops)(cart_of(q), t.v)
    moved = Obj(q.cls, {n: q.d[n].with_(v=v) for n, v in zip("xyz", x)})
    acts(ctx, lab, f"({key}).inverse(q, t)", lambda: lab.ip.call(st["inv"], [moved, t.with_(v=t2)], {}),
         {"x": cart_of(q), "t": [t.v]}, ["CartesianPos3D", "time"], obj.cls.qual)


def items(ctx, lab, g, pipe, ops):
    for key, o, want in (("Pipe((a, r, b))", pipe, [p.obj for p in ops]), ("GalileanOperator", g.obj, [p.obj for p in g.parts])):
        for i in (0, 1, 2, -1, -3):
            def go():
                lab.fresh()
                x = E.getitem(lab.ip, o, i)
                return ob(ctx, "sequence", f"{key}[{i}]", V.same(x, want[i]), f"is {names([x])[0]}, expected {names([want[i]])[0]}", o.cls.qual)
            ctx.guard("sequence", f"{key}[{i}]", go)

        def it():
            lab.fresh()
            xs = list(lab.ip.iterate(o))
            ok = len(xs) == len(want) and all(V.same(x, y) for x, y in zip(xs, want))
            return ob(ctx, "sequence", f"iterating {key}", ok, f"gives {names(xs)}", o.cls.qual)
        ctx.guard("sequence", f"iterating {key}", it)

        def ops_():
            xs = lab.attr(o, "operators")
            ok = len(xs) == len(want) and all(V.same(x, y) for x, y in zip(xs, want))
            return ob(ctx, "sequence", f"{key}.operators", ok, f"is {names(xs)}", o.cls.qual)
        ctx.guard("sequence", f"{key}.operators", ops_)


def galilean(ctx, lab):
    """Every way to give the parts of a Galilean operator, and its defaults."""
    r, tr, b = s_rot(lab, "r.", "z"), s_trans(lab, "T."), s_boost(lab, "b.")
    cases = {
        "GalileanOperator()": ({}, ()),
        "GalileanOperator(rotation)": ({"rotation": r.obj}, (r,)),
        "GalileanOperator(rotation array)": ({"rotation": r.obj.d["rotation"]}, (r,)),
        "GalileanOperator(translation)": ({"translation": tr.obj}, (tr,)),
        "GalileanOperator(translation vector)": ({"translation": tr.obj.d["translation"]}, (tr,)),
        "GalileanOperator(velocity)": ({"velocity": b.obj}, (b,)),
        "GalileanOperator(velocity vector)": ({"velocity": b.obj.d["velocity"]}, (b,)),
        "GalileanOperator(rotation, velocity)": ({"rotation": r.obj, "velocity": b.obj}, (r, b)),
        "GalileanOperator(rotation, translation, velocity)": ({"velocity": b.obj, "translation": tr.obj, "rotation": r.obj}, (r, tr, b)),
    }
    for key, (kw, ops) in cases.items():
        st = {}

        def make():
            lab.fresh()
            st["o"] = lab.ip.call(ocls(lab, "GalileanOperator"), [], dict(kw))
            return ob(ctx, "sequence", key, isinstance(st["o"], Obj))
        ctx.guard("sequence", key, make)
        if isinstance(st.get("o"), Obj):
            gcalls(ctx, lab, key, st["o"], ops)


def gcalls(ctx, lab, key, obj, ops):
    t = lab.q("time", TIME, sh=())
    q = mkpos(lab, "CartesianPos3D", "q.", sh=())
    x, t2 = chain(ops)(cart_of(q), t.v)
    acts(ctx, lab, f"{key}(q, t)", lambda: lab.ip.call(obj, [q, t], {}), {"x": x, "t": [t2]}, ["CartesianPos3D", "time"], obj.cls.qual)
    f4 = mk_four(lab, "f.", q, sh=())
    x, t2 = chain(ops)(cart_of(q), f4.d["t"].v)
    acts(ctx, lab, f"{key}(FourVector)", lambda: lab.ip.call(obj, [f4], {}), {"x": x, "t": [t2], "c": [f4.d["c"].v]},
         ["FourVector of CartesianPos3D"], obj.cls.qual)
