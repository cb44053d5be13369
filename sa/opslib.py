"""Instances of every operator, frame, distance and angle class, with symbolic contents."""
from __future__ import annotations

from . import ext as E, values as V
from .specs import KDIM
from .vecs import mkpos, mkdiff, mk_four, TIME

SPEED = V.dim_mul(KDIM["len"], TIME, -1)


def ocls(lab, n):
    return lab.get("coordinax.ops." + n)


def build_op(lab, name, *a, **kw):
    saved, lab.ip.effects = lab.ip.effects, []
    try:
        return lab.ip.call(ocls(lab, name), list(a), kw)
    finally:
        lab.ip.effects = saved


def elementary(lab, axis, ang):
    """The array of the rotation about a Cartesian axis by an angle (active convention)."""
    from . import ring as R
    c, s = R.cos(ang), R.sin(ang)
    o, l = R.const(0), R.const(1)
    m = {"x": [[l, o, o], [o, c, R.neg(s)], [o, s, c]],
         "y": [[c, o, s], [o, l, o], [R.neg(s), o, c]],
         "z": [[c, R.neg(s), o], [s, c, o], [o, o, l]]}[axis]
    return lab.arr(m)


def rot_op(lab, pre, axes="z"):
    """GalileanRotation by the product of elementary rotations by symbolic angles."""
    from . import ring as R
    m = None
    for i, ax in enumerate(axes):
        e = elementary(lab, ax, lab.angle(f"{pre}{ax}{i}"))
        m = e if m is None else m.with_(v=matmul(m.v, e.v))
    return build_op(lab, "GalileanRotation", m)


def matmul(a, b):
    from . import ring as R
    n = len(b)
    out = []
    for r in a:
        row = []
        for j in range(len(b[0])):
            s = R.const(0)
            for k in range(n):
                s = R.add(s, R.mul(r[k], b[k][j]))
            row.append(s)
        out.append(row)
    return out


def fourvec(lab, pre, pos="CartesianPos3D", sh=()):
    return mk_four(lab, pre, mkpos(lab, pos, pre + "q.", sh=sh), sh=sh)


def shift(lab, pre, pos="CartesianPos3D"):
    return build_op(lab, "GalileanSpatialTranslation", mkpos(lab, pos, pre, sh=()))


def boost(lab, pre, name="GalileanBoost", vel="CartesianVel3D"):
    return build_op(lab, name, mkdiff(lab, vel, pre, 1, sh=()))


def trans(lab, pre, pos="CartesianPos3D"):
    return build_op(lab, "GalileanTranslation", fourvec(lab, pre, pos))


def galilean(lab, pre):
    return build_op(lab, "GalileanOperator", rotation=rot_op(lab, pre + "R.", "z"), translation=trans(lab, pre + "T."),
                    velocity=boost(lab, pre + "V."))


def frame(lab, name, *a, **kw):
    lab.fresh()
    return lab.ip.call(lab.get("coordinax.frames." + name), list(a), kw)


def galactocentric(lab, pre="gcf."):
    """A Galactocentric frame all of whose parameters are symbolic and valid."""
    A = V.DIMS["angle"]
    L = KDIM["len"]
    gc = mkpos(lab, "LonLatSphericalPos", pre + "galcen.", sh=())
    zs = lab.var(pre + "z_sun")
    return frame(lab, "Galactocentric", galcen=gc, roll=lab.q(pre + "roll", A, x=lab.angle(pre + "roll"), sh=()),
                 z_sun=lab.q(pre + "z_sun", L, x=zs, sh=()),
                 galcen_v_sun=mkdiff(lab, "CartesianVel3D", pre + "v_sun.", 1, sh=()))


def every_op(lab):
    """(label, operator) for every public operator class."""
    out = [("Identity", build_op(lab, "Identity")),
           ("GalileanSpatialTranslation", shift(lab, "st.")),
           ("GalileanTranslation", trans(lab, "gt.")),
           ("GalileanRotation", rot_op(lab, "gr.", "z")),
           ("GalileanBoost", boost(lab, "gb.")),
           ("VelocityBoost", boost(lab, "vb.", "VelocityBoost")),
           ("GalileanOperator", galilean(lab, "go."))]
    out.append(("Pipe", build_op(lab, "Pipe", (out[1][1], out[3][1], out[4][1]))))
    return out


def every_frame(lab):
    return [("ICRS", frame(lab, "ICRS")), ("NoFrame", frame(lab, "NoFrame")), ("Galactocentric", galactocentric(lab))]


# ------------------------------------------------------------------ operators with the map they must be
class Sym:
    """An operator with the map it must be: act(x, t) -> (x, t) and move(p) -> p on Cartesian value numbers."""

    def __init__(self, label, obj, act, move=None, dim=3, timed=False, shifts_time=False):
        self.label, self.obj, self.act, self.move, self.dim = label, obj, act, move, dim
        self.timed = timed               # needs a time to act on a position
        self.shifts_time = shifts_time

    def then(self, *others):
        """The map of a sequence, first operator first."""
        ops = (self,) + others

        def act(x, t):
            for o in ops:
                x, t = o.act(x, t)
            return x, t
        return act


def plus(a, b):
    from . import ring as R
    return [V.tlift(R.add, x, y) for x, y in zip(a, b)]


def scaled(a, k):
    from . import ring as R
    return [V.tlift(R.mul, x, k) for x in a]


def mat(m, x):
    return [acc([V.tlift(R_mul, m[i][j], x[j]) for j in range(3)]) for i in range(3)]


def R_mul(a, b):
    from . import ring as R
    return R.mul(a, b)


def acc(xs):
    from . import ring as R
    s = xs[0]
    for x in xs[1:]:
        s = V.tlift(R.add, s, x)
    return s


def rot_mat(lab, pre, axes):
    m = None
    for i, ax in enumerate(axes):
        e = elementary(lab, ax, lab.angle(f"{pre}{ax}{i}")).v
        m = e if m is None else matmul(m, e)
    return m


def s_identity(lab):
    return Sym("Identity", build_op(lab, "Identity"), lambda x, t: (x, t), lambda p: p)


def s_shift(lab, pre, pos="CartesianPos3D"):
    from .specs import SPECS
    from .vecs import cart_of
    p = mkpos(lab, pos, pre, sh=())
    b = cart_of(p)
    return Sym(f"GalileanSpatialTranslation[{pos}]", build_op(lab, "GalileanSpatialTranslation", p),
               lambda x, t: (plus(x, b), t), lambda p: p, dim=SPECS[pos].dim)


def s_trans(lab, pre, pos="CartesianPos3D"):
    from .vecs import cart_of
    f = fourvec(lab, pre, pos)
    b, t0 = cart_of(f.d["q"]), f.d["t"].v
    return Sym(f"GalileanTranslation[{pos}]", build_op(lab, "GalileanTranslation", f),
               lambda x, t: (plus(x, b), plus([t], [t0])[0]), timed=True, shifts_time=True)


def s_rot(lab, pre, axes="zxz"):
    m = rot_mat(lab, pre, axes)
    return Sym(f"GalileanRotation[{axes}]", build_op(lab, "GalileanRotation", lab.arr(m)), lambda x, t: (mat(m, x), t))


def s_boost(lab, pre):
    v = mkdiff(lab, "CartesianVel3D", pre, 1, sh=())
    w = [v.d["d_" + n].v for n in "xyz"]
    return Sym("GalileanBoost", build_op(lab, "GalileanBoost", v), lambda x, t: (plus(x, scaled(w, t)), t), timed=True)


def s_vboost(lab, pre):
    v = mkdiff(lab, "CartesianVel3D", pre, 1, sh=())
    w = [v.d["d_" + n].v for n in "xyz"]
    return Sym("VelocityBoost", build_op(lab, "VelocityBoost", v), lambda x, t: (x, t), lambda p: plus(p, w))


def s_galilean(lab, pre, axes="z"):
    r, tr, b = s_rot(lab, pre + "R.", axes), s_trans(lab, pre + "T."), s_boost(lab, pre + "V.")
    s = Sym("GalileanOperator", build_op(lab, "GalileanOperator", rotation=r.obj, translation=tr.obj, velocity=b.obj),
            r.then(tr, b), timed=True, shifts_time=True)
    s.parts = (r, tr, b)
    return s


def s_pipe(lab, label, obj, *ops):
    mv = None
    if all(o.move for o in ops):
        def mv(p):
            for o in ops:
                p = o.move(p)
            return p
    act = ops[0].then(*ops[1:]) if ops else (lambda x, t: (x, t))
    return Sym(label, obj, act, mv, dim=min([o.dim for o in ops], default=3), timed=any(o.timed for o in ops),
               shifts_time=any(o.shifts_time for o in ops))


SHIFT_TYPES = ("CartesianPos3D", "CylindricalPos", "SphericalPos", "LonLatSphericalPos", "MathSphericalPos")


def catalogue(lab, axes="zxz"):
    """Every operator class, with contents of every suitable type."""
    out = [s_identity(lab)]
    out += [s_shift(lab, "s.", p) for p in SHIFT_TYPES]
    out += [s_shift(lab, "s.", p) for p in ("CartesianPos2D", "PolarPos", "CartesianPos1D")]
    out += [s_trans(lab, "T.", p) for p in ("CartesianPos3D", "SphericalPos", "CylindricalPos")]
    out += [s_rot(lab, "R.", axes), s_boost(lab, "v."), s_vboost(lab, "w."), s_galilean(lab, "G.", axes)]
    a, r, b = s_shift(lab, "p1."), s_rot(lab, "p2.", "z"), s_boost(lab, "p3.")
    out.append(s_pipe(lab, "Pipe[shift, rotation]", build_op(lab, "Pipe", (a.obj, r.obj)), a, r))
    out.append(s_pipe(lab, "Pipe[shift, rotation, boost]", build_op(lab, "Pipe", (a.obj, r.obj, b.obj)), a, r, b))
    w, w2 = s_vboost(lab, "p4."), s_vboost(lab, "p5.")
    out.append(s_pipe(lab, "Pipe[velocity boost, shift]", build_op(lab, "Pipe", (w.obj, a.obj)), w, a))
    out.append(s_pipe(lab, "Pipe[velocity boost, velocity boost]", build_op(lab, "Pipe", (w.obj, w2.obj)), w, w2))
    g = s_galilean(lab, "p6.")
    out.append(s_pipe(lab, "Pipe[Galilean operator, shift]", build_op(lab, "Pipe", (g.obj, a.obj)), g, a))
    return out


# ------------------------------------------------------------------ calling
def quantity(lab, pre, n, names="xyzw"):
    xs = [lab.var(pre + names[i]) for i in range(n)]
    return lab.q(pre + "arr", KDIM["len"], sh=()).with_(v=xs), xs


def read(out):
    """Physical content of a call's result: dict of lists of Cartesian value numbers, and the types."""
    from .vecs import cart_of

    def where(o):
        return o if o.cls.name == "ProlateSpheroidalPos" else cart_of(o)
    d, ty = {}, []
    parts = out if isinstance(out, (tuple, list)) else [out]
    if parts is out and len(out) == 1:
        ty.append("a tuple with")
    for o in parts:
        if isinstance(o, V.Ite):
            raise V.Undecided("result depends on a gate")
        if isinstance(o, V.Obj) and o.cls.name == "FourVector":
            ty.append("FourVector of " + o.d["q"].cls.name)
            d["x"], d["t"], d["c"] = where(o.d["q"]), [o.d["t"].v], [o.d["c"].v]
        elif isinstance(o, V.Obj) and o.cls.name in ("CartesianVel3D", "CartesianVel2D", "CartesianVel1D"):
            ty.append(o.cls.name)
            d["p"] = [q.v for q in o.d.values()]
        elif isinstance(o, V.Obj):
            ty.append(o.cls.name)
            d["x"] = where(o)
        elif isinstance(o, V.Num) and isinstance(o.v, list):
            ty.append(f"array of {len(o.v)}")
            d["x"] = list(o.v)
        elif isinstance(o, V.Num):
            ty.append("time" if o.dim == TIME else f"scalar of {o.dim}")
            d["t" if o.dim == TIME else "s"] = [o.v]
        else:
            raise V.Undecided(f"result {o!r}"[:80])
    return d, ty


def light():
    """The speed of light, from its definition in metres per second."""
    from . import ring as R
    return R.div(R.mul(R.const(299792458), E.UNITS["m"][0]), E.UNITS["s"][0])
