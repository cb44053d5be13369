"""C19: frame transformations are mutually inverse, consistent and refuse the null frame."""
from .. import ext as E, opslib as O, ring as R
from fractions import Fraction as Fr

from ..lab import OK, Result, compare
from ..opslib import *  # noqa: F403
from ..values import AbsRaise, Obj
from ..vecs import *  # noqa: F403
from .c06 import cart_obj
from .c12 import ob
from .c16 import acts

MIN = 120
ROLL0 = (585986320306, 10 ** 10)          # degrees: the roll of the Galactic plane, a constant of the ICRS


def check(ctx):
    ctx.rule("value", "positions and velocities go where the parameters of the frame say, and come back")
    ctx.rule("noerror", "no error check fires for valid input")
    ctx.rule("type", "vectors come back as Cartesian vectors, arrays as arrays")
    ctx.rule("place", "the Galactic centre is the origin; the Sun is at its height z_sun above the plane, on the negative x side, at the "
                      "distance of the Galactic centre, and moves with galcen_v_sun")
    ctx.rule("rigid", "distances and handedness are kept")
    ctx.rule("identity", "from a frame to itself nothing changes")
    ctx.rule("refuse", "the null frame is refused on either side, whatever the other frame")
    ctx.rule("inverse", "the inverse of a transformation is the transformation back; both are inertial")
    ctx.rule("default", "a Galactocentric frame not given a parameter has the documented one")
    ctx.rule("build", "frames are built from mappings and frames, and keep their parameters")
    lab = ctx.lab()
    null(ctx, lab)
    icrs = O.frame(lab, "ICRS")
    same_frame(ctx, lab, "ICRS", icrs)
    for dist in ("Distance", "Parallax", "DistanceModulus"):
        if dist == "Distance":
            g = gcf(lab, "g.", dist)
            Spec(ctx, lab, g, icrs, "Galactocentric").run()
            same_frame(ctx, lab, "Galactocentric", g)
            build(ctx, lab, g)
            defaults(ctx, lab, g)
            between(ctx, lab, g, gcf(lab, "h.", dist))
        else:
            g = gcf(lab, dist[0].lower() + ".", dist)
            s = Spec(ctx, lab, g, icrs, f"Galactocentric by {dist}")
            s.places()
            s.maps(short=True)


def gcf(lab, pre, dist):
    """A Galactocentric frame with symbolic parameters, the Sun closer to the plane than to the centre."""
    A, L = V.DIMS["angle"], KDIM["len"]
    gc = mkpos(lab, "LonLatSphericalPos", pre + "galcen.", sh=(), radius=dist)
    d = rad_value(gc.d["distance"])
    h = lab.var(pre + "h", -0.99, 0.99)                 # z_sun as a part of the distance
    lab.s.constraints.append(R.sub(R.const(1), R.mul(h, h)))
    z = R.mul(h, d)
    return O.frame(lab, "Galactocentric", galcen=gc, roll=lab.q(pre + "roll", A, x=lab.angle(pre + "roll"), sh=()),
                   z_sun=lab.q(pre + "z_sun", L, x=z, sh=()), galcen_v_sun=mkdiff(lab, "CartesianVel3D", pre + "v_sun.", 1, sh=()))


def xform(lab, a, b):
    return lab.ip.call(lab.get("coordinax.frames.frame_transform_op"), [a, b], {})


class Spec:
    def __init__(self, ctx, lab, g, icrs, name):
        self.ctx, self.lab, self.name, self.g, self.icrs = ctx, lab, name, g, icrs
        lab.fresh()
        self.op, self.back = xform(lab, icrs, g), xform(lab, g, icrs)
        gc = g.d["galcen"]
        self.d, self.z = rad_value(gc.d["distance"]), g.d["z_sun"].v
        self.v = [c.v for c in g.d["galcen_v_sun"].d.values()]
        self.M, self.off = self.expected()
        self.w = self.op.cls.qual

    def expected(self):
        """The matrix and offset, from the meaning of the parameters."""
        lab, g = self.lab, self.g
        gc = g.d["galcen"]
        one = R.const(1)
        sl, cl, sb, cb = (f(gc.d[k].v) for k in ("lon", "lat") for f in (R.sin, R.cos))
        # axes of the unrolled frame: towards the Galactic centre, eastwards and northwards there
        ex, ey, ez = [R.mul(cb, cl), R.mul(cb, sl), sb], [R.neg(sl), cl, R.const(0)], [R.neg(R.mul(sb, cl)), R.neg(R.mul(sb, sl)), cb]
        psi = R.sub(g.d["roll"].v, R.mul(R.const(Fr(*ROLL0)), R.div(R.pi(), R.const(180))))
        sp, cp = R.sin(psi), R.cos(psi)
        # rolled about x: a rotation by psi
        ry = [R.sub(R.mul(cp, a), R.mul(sp, b)) for a, b in zip(ey, ez)]
        rz = [R.add(R.mul(sp, a), R.mul(cp, b)) for a, b in zip(ey, ez)]
        # tilted so that the Sun, at -d along x, is at height z
        s = R.div(self.z, self.d)
        c = R.sqrt(R.sub(one, R.mul(s, s)))
        M = [[R.add(R.mul(c, a), R.mul(s, b)) for a, b in zip(ex, rz)], ry,
             [R.sub(R.mul(c, b), R.mul(s, a)) for a, b in zip(ex, rz)]]
        return M, [R.neg(R.mul(self.d, c)), R.const(0), self.z]

    def run(self):
        self.places()
        self.rigid()
        self.maps()
        self.inverse()

    def cmp(self, rule, key, f, want, exact=True):
        st = {}

        def go():
            self.lab.fresh()
            st["got"] = f()
            return self.ctx.ob(rule, key, compare(self.lab.s, list(zip(st["got"], want)), generic=True), self.w)
        self.ctx.guard(rule, key, go, self.w)
        return st.get("got")

    def arr(self, xs):
        return self.lab.q("arr", KDIM["len"], sh=()).with_(v=list(xs))

    def vel(self, xs):
        return self.lab.q("varr", V.DIMS["speed"], sh=()).with_(v=list(xs))

    def places(self):
        lab, call, n = self.lab, self.lab.ip.call, self.name
        zero = [R.const(0)] * 3
        gc = cart_of(self.g.d["galcen"])
        sun = self.off
        self.cmp("place", f"{n}: Galactic centre", lambda: call(self.op, [self.arr(gc)], {}).v, zero)
        self.cmp("place", f"{n}: Sun", lambda: call(self.op, [self.arr(zero)], {}).v, sun)
        self.cmp("place", f"{n}: Sun, from its place", lambda: call(self.back, [self.arr(sun)], {}).v, zero)
        self.cmp("place", f"{n}: Galactic centre, from the origin", lambda: call(self.back, [self.arr(zero)], {}).v, gc)
        self.cmp("place", f"{n}: velocity of the Sun", lambda: call(self.op, [self.arr(zero), self.vel(zero)], {})[1].v, self.v)
        self.cmp("place", f"{n}: velocity of the Sun, back", lambda: call(self.back, [self.arr(sun), self.vel(self.v)], {})[1].v, zero)

    def rigid(self):
        lab, call = self.lab, self.lab.ip.call
        for nm, op in (("to Galactocentric", self.op), ("from Galactocentric", self.back)):
            a, b, c = ([lab.var(f"{k}{i}") for i in range(3)] for k in "abc")
            st = {}

            def go():
                lab.fresh()
                o = call(op, [self.arr([R.const(0)] * 3)], {}).v
                st["m"] = [[V.tlift(R.sub, x, y) for x, y in zip(call(op, [self.arr(u)], {}).v, o)] for u in (a, b, c)]
                A, B = st["m"][:2]
                dot = lambda u, v: acc([V.tlift(R.mul, x, y) for x, y in zip(u, v)])
                return self.ctx.ob("rigid", f"distances, {nm}", compare(lab.s, [(dot(A, B), dot(a, b)), (dot(A, A), dot(a, a))]), self.w)
            self.ctx.guard("rigid", f"distances, {nm}", go, self.w)
            if "m" in st:
                def hand():
                    return self.ctx.ob("rigid", f"handedness, {nm}", compare(lab.s, [(det(st["m"]), det([a, b, c]))]), self.w)
                self.ctx.guard("rigid", f"handedness, {nm}", hand, self.w)

    def maps(self, short=False):
        """The whole map, in every call signature, both ways."""
        lab, call, ctx, n = self.lab, self.lab.ip.call, self.ctx, self.name
        M, off, v = self.M, self.off, self.v
        to = lambda x: plus(mat(M, x), off)
        tov = lambda p: plus(mat(M, p), v)
        T = [list(r) for r in zip(*M)]
        neg = lambda x: [V.tlift(R.neg, a) for a in x]
        fro = lambda x: mat(T, plus(x, neg(off)))
        frov = lambda p: mat(T, plus(p, neg(v)))
        for nm, op, f, fv in ((f"{n} from ICRS", self.op, to, tov), (f"ICRS from {n}", self.back, fro, frov)):
            w = op.cls.qual
            Q, xs = O.quantity(lab, "Q.", 3)
            P = self.vel([lab.var("P." + c) for c in "xyz"])
            acts(ctx, lab, f"{nm}(array)", lambda: call(op, [Q], {}), {"x": f(xs)}, ["array of 3"], w)
            self.cmp("value", f"{nm}(array, velocity array)", lambda: pair(call(op, [Q, P], {})), f(xs) + fv(P.v))
            if short:
                continue

            for k in POS[3]:
                if k == "ProlateSpheroidalPos" and not ctx.thorough:
                    continue
                q = mkpos(lab, k, k + ".", sh=())
                acts(ctx, lab, f"{nm}({k})", lambda: call(op, [q], {}), {"x": f(cart_of(cart_obj(lab, q)))}, ["CartesianPos3D"], w)
            for k, pv in (("CartesianPos3D", "CartesianVel3D"), ("SphericalPos", "SphericalVel"), ("LonLatSphericalPos", "LonLatSphericalVel"),
                          ("LonLatSphericalPos", "LonCosLatSphericalVel"), ("CylindricalPos", "CylindricalVel"),
                          ("CartesianPos3D", "SphericalVel"), ("SphericalPos", "CartesianVel3D")):
                q, p = mkpos(lab, k, k + ".", sh=()), mkdiff(lab, pv, pv + ".", 1, sh=())
                st = {}

                def cartesian():
                    lab.fresh()
                    st["p"] = [c.v for c in lab.call("represent_as", p, vcls(lab, "CartesianVel3D"), q).d.values()]
                    return "ok", ""
                ctx.guard("value", f"{nm}({k}, {pv}): velocity", cartesian, w)
                if "p" in st:
                    acts(ctx, lab, f"{nm}({k}, {pv})", lambda: call(op, [q, p], {}), {"x": f(cart_of(q)), "p": fv(st["p"])},
                         ["CartesianPos3D", "CartesianVel3D"], w)

    def inverse(self):
        lab, call, ctx = self.lab, self.lab.ip.call, self.ctx
        Q, xs = O.quantity(lab, "Q.", 3)
        P = self.vel([lab.var("P." + c) for c in "xyz"])
        for nm, a, b in (("there and back", self.op, self.back), ("back and there", self.back, self.op)):
            self.cmp("inverse", f"{nm}: array", lambda: call(b, [call(a, [Q], {})], {}).v, xs)
            self.cmp("inverse", f"{nm}: array, velocity array", lambda: pair(call(b, list(call(a, [Q, P], {})), {})), xs + P.v)

            def attr():
                lab.fresh()
                i = lab.attr(a, "inverse")
                return ctx.ob("inverse", f"{nm}: inverse", self.alike(i, b, Q, P), self.w)
            ctx.guard("inverse", f"{nm}: inverse", attr)

            def twice():
                lab.fresh()
                i = lab.attr(lab.attr(a, "inverse"), "inverse")
                return ctx.ob("inverse", f"{nm}: inverse of the inverse", self.alike(i, a, Q, P), self.w)
            ctx.guard("inverse", f"{nm}: inverse of the inverse", twice)

            def inert():
                x = lab.attr(a, "is_inertial")
                return ob(ctx, "inverse", f"{nm}: inertial", x is True, f"is {x!r}", self.w)
            ctx.guard("inverse", f"{nm}: inertial", inert)
            for k, f in (("a | b", lambda: E.binop(lab.ip, "BitOr", a, b)), ("Pipe", lambda: build_op(lab, "Pipe", (a, b)))):
                def joined():
                    lab.fresh()
                    return f()
                q, p = mkpos(lab, "CartesianPos3D", "q.", sh=()), mkdiff(lab, "CartesianVel3D", "p.", 1, sh=())
                acts(ctx, lab, f"{nm}: {k}(array)", lambda: call(joined(), [Q], {}), {"x": xs}, ["array of 3"], self.w)
                acts(ctx, lab, f"{nm}: {k}(q, p)", lambda: call(joined(), [q, p], {}),
                     {"x": cart_of(q), "p": [c.v for c in p.d.values()]}, ["CartesianPos3D", "CartesianVel3D"], self.w)

        def method():
            lab.fresh()
            x = lab.ip.call(lab.attr(self.icrs, "transform_op"), [self.g], {}), lab.ip.call(lab.attr(self.g, "transform_op"), [self.icrs], {})
            r = self.alike(x[0], self.op, Q, P)
            return ctx.ob("inverse", "transform_op", r if r.status != "ok" else self.alike(x[1], self.back, Q, P), self.w)
        ctx.guard("inverse", "transform_op", method)

    def alike(self, i, b, Q, P):
        """The same operator, or one of the same action."""
        if V.same(i, b):
            return OK
        call = self.lab.ip.call
        return compare(self.lab.s, list(zip(list(call(i, [Q], {}).v) + pair(call(i, [Q, P], {})),
                                            list(call(b, [Q], {}).v) + pair(call(b, [Q, P], {})))), generic=True)


def pair(out):
    return list(out[0].v) + list(out[1].v)


def det(m):
    mul, sub = (lambda a, b: V.tlift(R.mul, a, b)), (lambda a, b: V.tlift(R.sub, a, b))
    (a, b, c), (d, e, f), (g, h, i) = m
    return acc([mul(a, sub(mul(e, i), mul(f, h))), mul(b, sub(mul(f, g), mul(d, i))), mul(c, sub(mul(d, h), mul(e, g)))])


def null(ctx, lab):
    """No transformation from or to the absent frame."""
    no = O.frame(lab, "NoFrame")
    base = lab.get("coordinax.frames.AbstractReferenceFrame")
    others = [("NoFrame", no), ("ICRS", O.frame(lab, "ICRS")), ("Galactocentric", gcf(lab, "n.", "Distance"))]
    others.append(("a frame of the user", user_frame(lab, base)))
    err = lab.get("coordinax.frames.FrameTransformError")
    for n, f in others:
        for key, a, b in ((f"NoFrame to {n}", no, f), (f"{n} to NoFrame", f, no)):
            for how, go in (("frame_transform_op", lambda: xform(lab, a, b)), ("transform_op", lambda: lab.ip.call(lab.attr(a, "transform_op"), [b], {}))):
                def refuse():
                    lab.fresh()
                    try:
                        out = go()
                    except AbsRaise as e:
                        exc = e.exc
                        ok = isinstance(exc, Obj) and any(c is err for c in exc.cls.mro)
                        return ob(ctx, "refuse", f"{key}, {how}", ok, f"raises {exc!r}"[:120])
                    return ob(ctx, "refuse", f"{key}, {how}", False, f"gives {out!r}"[:120])
                ctx.guard("refuse", f"{key}, {how}", refuse)


def user_frame(lab, base):
    from ..values import Cls
    c = Cls("UserFrame", "user")
    c.bases, c.mro, c.is_dc = [base], [c] + list(base.mro), True
    return Obj(c, {})


def same_frame(ctx, lab, name, f):
    """From a frame to itself."""
    call = lab.ip.call
    q, p = mkpos(lab, "CartesianPos3D", "q.", sh=()), mkdiff(lab, "CartesianVel3D", "p.", 1, sh=())
    s = mkpos(lab, "SphericalPos", "s.", sh=())
    Q, xs = O.quantity(lab, "Q.", 3)
    st = {}

    def make():
        lab.fresh()
        st["op"] = xform(lab, f, f)
        return ob(ctx, "identity", f"{name} to itself", isinstance(st["op"], Obj))
    ctx.guard("identity", f"{name} to itself", make)
    if "op" not in st:
        return
    op = st["op"]
    for nm, o in ((f"{name} to itself", lambda: op), (f"{name} to itself, inverse", lambda: lab.attr(op, "inverse"))):
        acts(ctx, lab, f"{nm}(array)", lambda: call(o(), [Q], {}), {"x": xs}, ["array of 3"])
        acts(ctx, lab, f"{nm}(CartesianPos3D)", lambda: call(o(), [q], {}), {"x": cart_of(q)}, ["CartesianPos3D"])
        acts(ctx, lab, f"{nm}(SphericalPos)", lambda: call(o(), [s], {}), {"x": cart_of(s)}, ["SphericalPos"])
        acts(ctx, lab, f"{nm}(q, p)", lambda: call(o(), [q, p], {}), {"x": cart_of(q), "p": [c.v for c in p.d.values()]},
             ["CartesianPos3D", "CartesianVel3D"])


def between(ctx, lab, g, h):
    """Between two Galactocentric frames: through the ICRS."""
    call = lab.ip.call
    icrs = O.frame(lab, "ICRS")
    S, T = Spec(ctx, lab, g, icrs, "g"), Spec(ctx, lab, h, icrs, "h")
    Q, xs = O.quantity(lab, "Q.", 3)
    P = S.vel([lab.var("P." + c) for c in "xyz"])
    q = mkpos(lab, "CartesianPos3D", "q.", sh=())
    p = mkdiff(lab, "CartesianVel3D", "p.", 1, sh=())
    lab.fresh()
    gh, hg = differ(xform(lab, g, h)), differ(xform(lab, h, g))
    key = "Galactocentric to another"
    seq = lambda *a: call(T.op, a2(call(S.back, list(a), {})), {})
    S.cmp("value", f"{key}(array)", lambda: call(gh, [Q], {}).v, seq(Q).v)
    S.cmp("value", f"{key}(array, velocity array)", lambda: pair(call(gh, [Q, P], {})), pair(seq(Q, P)))
    # the origin of one frame in the other: the Galactic centre of the first
    S.cmp("inverse", f"{key}: there and back (array)", lambda: call(hg, [call(gh, [Q], {})], {}).v, xs)
    S.cmp("inverse", f"{key}: there and back (q, p)", lambda: cpair(call(hg, list(call(gh, [q, p], {})), {})), [c.v for o in (q, p) for c in o.d.values()])
    for k in h.d:           # frames that differ in one parameter only
        if k == "galcen":
            gc = g.d[k]
            h1 = Obj(g.cls, {**g.d, k: Obj(gc.cls, {**gc.d, "lat": h.d[k].d["lat"]})})
        else:
            h1 = Obj(g.cls, {**g.d, k: h.d[k]})
        T1 = Spec(ctx, lab, h1, icrs, "h")
        if k == "z_sun":
            continue        # its bound is the distance of the other frame
        S.cmp("value", f"{key}, of different {k}(array, velocity array)", lambda: pair(call(xform(lab, g, h1), [Q, P], {})),
              pair(call(T1.op, a2(call(S.back, [Q, P], {})), {})))
    S.cmp("inverse", f"{key}: inverse (array)", lambda: call(lab.attr(gh, "inverse"), [call(gh, [Q], {})], {}).v, xs)


def differ(v):
    """The operator where no parameter of the two frames is equal."""
    while isinstance(v, V.Ite):
        v = v.b
    return v


def a2(o):
    return list(o) if isinstance(o, (tuple, list)) else [o]


def cpair(out):
    return [c.v for o in out for c in o.d.values()]


DEFAULTS = {"galcen.lon": ("266.4051", "deg"), "galcen.lat": ("-28.936175", "deg"), "galcen.distance": ("8.122", "kpc"),
            "roll": ("0", "deg"), "z_sun": ("20.8", "pc"), "galcen_v_sun.d_x": ("12.9", "km/s"), "galcen_v_sun.d_y": ("245.6", "km/s"),
            "galcen_v_sun.d_z": ("7.78", "km/s"), "roll0": ("58.5986320306", "deg")}


def defaults(ctx, lab, g):
    """No parameter given, and one given: the others are the documented ones."""
    cls = g.cls
    for given in (None, *[k for k in g.d]):
        for path, (n, unit) in DEFAULTS.items():
            if path.split(".")[0] == given:
                continue
            key = f"{path} of Galactocentric({given + '=...' if given else ''})"

            def go(given=given, path=path, n=n, unit=unit, key=key):
                lab.fresh()
                o = lab.ip.call(cls, [], {given: g.d[given]} if given else {})
                for p in path.split("."):
                    o = lab.attr(o, p)
                want = R.mul(R.const(Fr(n)), E.parse_unit(unit).x)
                if isinstance(o.v, R.X) and R.is_zero(R.sub(o.v, want)):
                    return OK
                k = R.is_const(R.div(o.v, want)) if isinstance(o.v, R.X) and Fr(n) else None
                if k is not None and abs(k - 1) < Fr(1, 10 ** 6):       # written in another unit, and rounded
                    return OK
                return Result("bad", f"is {o.v!r}, not {n} {unit}"[:150])
            ctx.guard("default", key, go)


def build(ctx, lab, g):
    cls = g.cls
    icrs = O.frame(lab, "ICRS")
    frm = lambda c, x: lab.ip.call(lab.attr(c, "from_"), [x], {})
    cases = {
        "Galactocentric.from_(mapping)": (lambda: frm(cls, dict(g.d)), g),
        "Galactocentric.from_(Galactocentric)": (lambda: frm(cls, g), g),
        "ICRS.from_({})": (lambda: frm(icrs.cls, {}), icrs),
        "ICRS.from_(ICRS)": (lambda: frm(icrs.cls, icrs), icrs),
        "ICRS.from_(Galactocentric)": (lambda: frm(icrs.cls, g), None),
        "Galactocentric.from_(ICRS)": (lambda: frm(cls, icrs), None),
    }
    for key, (f, want) in cases.items():
        def go():
            lab.fresh()
            try:
                o = f()
            except AbsRaise as e:
                return ob(ctx, "build", key, want is None, f"raises {e.exc!r}"[:100])
            return ob(ctx, "build", key, want is not None and V.same(o, want), f"gives {o!r}"[:100])
        ctx.guard("build", key, go)
