"""C31: no operation needs to know the value of a component while it is traced."""
from .. import axes as AX, ext as E, opslib as O
from ..lab import Result, OK
from ..opslib import every_op, every_frame, fourvec, shift, quantity
from ..specs import SPECS, KDIM
from ..values import AbsRaise, Ext, Undecided
from ..vecs import *  # noqa: F403
from .c04 import kwargs, P3
from .c20 import KINDS, ATTR, kind

MIN = 500
EXEMPT = ("simplify_op", "frame_transform_op")


def check(ctx):
    lab = ctx.lab()
    ctx.rule("construct", "building a vector, distance or angle from components, quantities, mappings or other vectors takes no Python decision on a component's value")
    ctx.rule("convert", "converting positions, velocities, accelerations, spaces, and units takes no Python decision on a component's value")
    ctx.rule("arithmetic", "arithmetic, comparison, norms, indexing and reshaping take no Python decision on a component's value")
    ctx.rule("operate", "applying, inverting and joining operators takes no Python decision on the value of a parameter or component")
    ctx.rule("frame", "applying a transformation between frames takes no Python decision on the value of a parameter or component")
    ctx.rule("distance", "distances, parallaxes and distance moduli are converted without a Python decision on their value")
    run = Runner(ctx, lab)
    for rule, section in (("construct", construct), ("convert", convert), ("arithmetic", arithmetic), ("operate", operate),
                          ("frame", frames), ("distance", distances)):
        try:
            section(run, lab)
        except AbsRaise:
            pass                             # its operands cannot be built: reported where building them is judged
        except Undecided as e:
            run(rule, "operands", lambda e=e: (_ for _ in ()).throw(e))


class Runner:
    def __init__(self, ctx, lab):
        self.ctx, self.lab = ctx, lab

    def __call__(self, rule, label, f, *a, **kw):
        lab = self.lab
        st = {}

        def go():
            lab.fresh()
            und = None
            try:
                f(*a, **kw)
            except AbsRaise:
                pass                     # refused whatever the values are
            except Undecided as e:
                und = e
            evs = [e for e in lab.ip.effects if e.kind == "concrete" and not any(x in fn for fn in e.stack for x in EXEMPT)]
            if evs:
                e = evs[0]
                where = st["where"] = str(e.loc)
                return Result("bad", f"needs the value ({e.data}), so the call cannot be compiled, vectorised or differentiated")
            if und is not None:
                raise und
            return OK
        self.ctx.guard(rule, label, lambda: (lambda r: self.ctx.ob(rule, label, r, st.get("where", "")))(go()))


def construct(run, lab):
    for name in SPECS:
        c = vcls(lab, name)
        rads = ("Quantity", "Distance", "Parallax", "DistanceModulus") if name in DIST_RAD else ("Quantity",)
        for rad in rads:
            tag = name if rad == "Quantity" else f"{name} with a {rad}"
            for sh in ((), AX.mk("a")):
                args = pos_args(lab, name, "c.", rad, sh)
                b = tag + (" batch" if sh else "")
                run("construct", f"{b}(...)", lambda: lab.ip.call(c, [], dict(args)))
                run("construct", f"{b}.from_(...)", lambda: lab.ip.call(lab.attr(c, "from_"), [], dict(args)))
                run("construct", f"{b}.from_(mapping)", lambda: lab.ip.call(lab.attr(c, "from_"), [dict(args)], {}))
        free = {k: v.with_(v=lab.var("free." + k), unit=v.unit) for k, v in pos_args(lab, name, "c.", sh=()).items()}
        run("construct", f"{name}.from_(... of any value)", lambda: lab.ip.call(lab.attr(c, "from_"), [], dict(free)))
        o = mkpos(lab, name)
        run("construct", f"{name}.from_(vector)", lambda: lab.ip.call(lab.attr(c, "from_"), [o], {}))
        for cls, order in ((SPECS[name].vel, 1), (SPECS[name].acc, 2)):
            d = mkdiff(lab, cls, "c.", order)
            k = vcls(lab, cls)
            run("construct", f"{cls}(...)", lambda: lab.ip.call(k, [], dict(d.d)))
            run("construct", f"{cls}.from_(mapping)", lambda: lab.ip.call(lab.attr(k, "from_"), [dict(d.d)], {}))
    for n, dim in ((1, "length"), (2, "length"), (3, "length"), (2, "speed"), (3, "speed"), (3, "acceleration")):
        kindn = {"length": "Pos", "speed": "Vel", "acceleration": "Acc"}[dim]
        name = f"Cartesian{kindn}{n}D"
        q = lab.q("arr" + dim, dim, sh=()).with_(v=[lab.var(f"arr{i}") for i in range(n)])
        run("construct", f"{name}.from_(quantity)", lambda: lab.ip.call(lab.attr(vcls(lab, name), "from_"), [q], {}))
        if n == 3:
            base = f"Abstract{kindn}3D"
            run("construct", f"{base}.from_(quantity)", lambda: lab.ip.call(lab.attr(lab.get("coordinax.vecs." + base), "from_"), [q], {}))
    for k in (0, 1, 2):
        nd = mk_nd(lab, k, "nd.")
        run("construct", f"{NDC[k][0]}.from_(quantity)", lambda: lab.ip.call(lab.attr(nd.cls, "from_"), [next(iter(nd.d.values()))], {}))
    F = lab.get("coordinax.vecs.FourVector")
    x4 = fourvec(lab, "f.")
    run("construct", "FourVector(t, q, c)", lambda: lab.ip.call(F, [], dict(x4.d)))
    q4, _ = quantity(lab, "q4.", 4)
    run("construct", "FourVector.from_(quantity)", lambda: lab.ip.call(lab.attr(F, "from_"), [q4], {}))
    q3, _ = quantity(lab, "q3.", 3)
    run("construct", "FourVector(t, quantity)", lambda: lab.ip.call(F, [], {"t": x4.d["t"], "q": q3}))
    S = lab.get("coordinax.Space")
    run("construct", "Space(...)", lambda: lab.ip.call(S, [], {"length": mkpos(lab, "SphericalPos"), "speed": mkdiff(lab, "SphericalVel", "s.", 1)}))


def convert(run, lab):
    thorough = run.ctx.thorough
    rep = lambda o, t, *a, **kw: lab.ip.call(lab.get("coordinax.represent_as"), [o, t, *a], kw)
    for dim, names in POS.items():
        for a in names:
            for rad in ("Quantity", "Parallax", "DistanceModulus") if a in DIST_RAD else ("Quantity",):
                p = mkpos(lab, a, "p.", rad)
                for d2 in POS:
                    for b in POS[d2]:
                        run("convert", f"{a} -> {b}" + ("" if rad == "Quantity" else f" (radius as {rad})"),
                            rep, p, vcls(lab, b), **kwargs(lab, a, b) if a != b else {})
            for b in names:
                if not thorough and P3 in (a, b) and a != b:
                    continue
                v, p = mkdiff(lab, SPECS[a].vel, "v.", 1), mkpos(lab, a, "p.")
                run("convert", f"{SPECS[a].vel} -> {SPECS[b].vel}", rep, v, vcls(lab, SPECS[b].vel), p, **kwargs(lab, a, b) if a != b else {})
                if P3 not in (a, b) and (thorough or a == names[0] or b == names[0]):
                    acc = mkdiff(lab, SPECS[a].acc, "a.", 2)
                    run("convert", f"{SPECS[a].acc} -> {SPECS[b].acc}", rep, acc, vcls(lab, SPECS[b].acc), v, p)
    v, p = mkdiff(lab, LCL, "v.", 1), mkpos(lab, "LonLatSphericalPos", "p.")
    for b in ("CartesianVel3D", "LonLatSphericalVel", LCL):
        run("convert", f"{LCL} -> {b}", rep, v, vcls(lab, b), p)
    run("convert", f"SphericalVel -> {LCL}", rep, mkdiff(lab, "SphericalVel", "v.", 1), vcls(lab, LCL), mkpos(lab, "SphericalPos", "p."))
    vec = lambda n: lab.get("coordinax.vecs." + n)
    usys = {"length": "km", "angle": "deg", "time": "s", "speed": "km/s", "acceleration": "km/s2", "angular speed": "rad/s",
            "angular acceleration": "rad/s2", "area": "km2", "diffusivity": "km2/s", "specific energy": "km2/s2"}
    for l, o in every(lab):
        call = lambda x, n, *a: lab.ip.call(lab.attr(x, n), list(a), {})
        run("convert", f"{l} in consistent units", call, o, "uconvert", lab.attr(vec("ToUnitsOptions"), "consistent"))
        run("convert", f"{l} in given units", call, o, "uconvert", usys)
        run("convert", f"{l} as a quantity", lambda o: lab.ip.call(Ext("plum.convert"), [o, E.Q["Quantity"]], {}), o)
        if l.startswith(("FourVector", "Space")):
            run("convert", f"{l} -> SphericalPos", call, o, "represent_as", vcls(lab, "SphericalPos"))


def arithmetic(run, lab):
    t = lab.q("time", TIME, sh=())
    k = lab.arr(lab.var("k"))
    call = lab.ip.call
    b = lambda op: (lambda x, y: E.binop(lab.ip, op, x, y))
    for l, o in every(lab):
        o = reshape_leaves(lab, o, [AX.mk("a"), ()])
        two = reshape_leaves(lab, o, [(), AX.mk("a")])
        for n, f, a in (("-v", lambda o: E.unop(lab.ip, "USub", o), ()), ("k*v", lambda o: E.binop(lab.ip, "Mult", k, o), ()),
                        ("v*k", b("Mult"), (k,)), ("v/k", b("Div"), (k,)), ("v*t", b("Mult"), (t,)),
                        ("v+v", b("Add"), (two,)), ("v-v", b("Sub"), (two,)), ("v==v", lambda o, p: E.compare(lab.ip, "Eq", o, p), (two,)),
                        ("v[None]", lambda o: E.getitem(lab.ip, o, None), ()), ("v[0]", lambda o: E.getitem(lab.ip, o, 0), ()),
                        ("reshape", lambda o: call(lab.attr(o, "reshape"), [-1], {}), ()),
                        ("flatten", lambda o: call(lab.attr(o, "flatten"), [], {}), ()), ("T", lambda o: lab.attr(o, "T"), ()),
                        ("astype", lambda o: call(lab.attr(o, "astype"), [Ext("jnp.float64")], {}), ()),
                        ("asdict", lambda o: call(lab.attr(o, "asdict"), [], {}), ()),
                        ("shape", lambda o: (lab.attr(o, "shape"), lab.attr(o, "shapes"), lab.attr(o, "size"), lab.attr(o, "ndim")), ())):
            run("arithmetic", f"{n} of {l}", f, o, *a)
    for name in SPECS:
        p, v, a = mkpos(lab, name, "p."), mkdiff(lab, SPECS[name].vel, "v.", 1), mkdiff(lab, SPECS[name].acc, "a.", 2)
        run("arithmetic", f"{name}.norm", lambda: call(lab.attr(p, "norm"), [], {}))
        run("arithmetic", f"{SPECS[name].vel}.norm", lambda: call(lab.attr(v, "norm"), [p], {}))
        run("arithmetic", f"{SPECS[name].acc}.norm", lambda: call(lab.attr(a, "norm"), [v, p], {}))
    for l in ("CartesianPos3D", "LonLatSphericalPos"):
        run("arithmetic", f"FourVector of {l}.norm", lambda: call(lab.attr(fourvec(lab, "f.", l), "norm"), [], {}))


def operate(run, lab):
    thorough = run.ctx.thorough
    t = lab.q("time", TIME, sh=())
    call = lab.ip.call
    names = ("CartesianPos3D", "SphericalPos", "LonLatSphericalPos", "CylindricalPos") if thorough else ("CartesianPos3D", "CylindricalPos")
    for l, op in every_op(lab):
        for n in names:
            q = mkpos(lab, n, "q.", sh=())
            run("operate", f"{l}({n})", lambda: call(op, [q], {}))
            run("operate", f"{l}({n}, time)", lambda: call(op, [q, t], {}))
        run("operate", f"{l}(FourVector)", lambda: call(op, [fourvec(lab, "x4.")], {}))
        arr, _ = quantity(lab, "arr.", 3)
        run("operate", f"{l}(quantity)", lambda: call(op, [arr], {}))
        run("operate", f"{l}(quantity, time)", lambda: call(op, [arr, t], {}))
        v = mkdiff(lab, "CartesianVel3D", "v.", 1)
        run("operate", f"{l}(velocity)", lambda: call(op, [v], {}))
        run("operate", f"{l}(position, velocity)", lambda: call(op, [mkpos(lab, "CartesianPos3D", "q.", sh=()), v], {}))
        for n in ("inverse", "is_inertial"):
            run("operate", f"{l}.{n}", lambda: lab.attr(op, n))
        run("operate", f"{l} | shift", lambda: E.binop(lab.ip, "BitOr", op, shift(lab, "o2.")))
        run("operate", f"{l}.from_({l})", lambda: call(lab.attr(op.cls, "from_"), [op], {}))
    ang = lab.q("ang", "angle", x=lab.angle("ang"), sh=())
    R_ = O.ocls(lab, "GalileanRotation")
    for ax in "xyz":
        run("operate", f"GalileanRotation.from_euler({ax})", lambda: call(lab.attr(R_, "from_euler"), [ax, ang], {}))


def frames(run, lab):
    fr = dict(every_frame(lab))
    call = lab.ip.call
    for a in fr:
        for b in fr:
            st = {}
            lab.fresh()
            try:
                st["op"] = call(lab.attr(fr[a], "transform_op"), [fr[b]], {})
            except (AbsRaise, Undecided):
                continue
            op = st["op"]
            if not isinstance(op, Obj):
                continue
            q, v = mkpos(lab, "CartesianPos3D", "q.", sh=()), mkdiff(lab, "CartesianVel3D", "v.", 1, sh=())
            arr, _ = quantity(lab, "arr.", 3)
            for n, args in (("position", (q,)), ("position, velocity", (q, v)), ("quantity", (arr,)), ("spherical", (mkpos(lab, "SphericalPos", "s.", sh=()),))):
                run("frame", f"{a} to {b} of {n}", lambda: call(op, list(args), {}))
            run("frame", f"{b} to {a}, inverse", lambda: call(lab.attr(op, "inverse"), [q], {}))


def distances(run, lab):
    for k in KINDS:
        q = kind(lab, k, ("B",))
        for b in KINDS:
            run("distance", f"{k}.{ATTR[b]}", lambda: lab.attr(q, ATTR[b]))
            c = lab.get("coordinax.distance." + b)
            for x, n in ((q, k), (q.with_(ty=E.Q["Quantity"]), f"quantity like {k}")):
                run("distance", f"{b}.from_({n})", lambda: lab.ip.call(lab.attr(c, "from_"), [x], {}))
        c = lab.get("coordinax.distance." + k)
        for neg in (True, False) if k == "Parallax" else (None,):
            run("distance", f"{k}(value, unit)" + ("" if neg is None else f" check_negative={neg}"),
                lambda: lab.ip.call(c, [lab.arr(lab.var("val"), ("B",)), q_unit(q)], {} if neg is None else {"check_negative": neg}))


def q_unit(q):
    return V.Unit(q.unit, q.dim)
