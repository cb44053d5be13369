"""C20: distance, parallax and distance modulus denote one distance consistently."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, ext as E
from ..values import Num
from ..vecs import *  # noqa: F403

MIN = 40
KINDS = ("Distance", "Parallax", "DistanceModulus")
ATTR = {"Distance": "distance", "Parallax": "parallax", "DistanceModulus": "distance_modulus"}
DIM = {"Distance": "length", "Parallax": "angle", "DistanceModulus": "magnitude"}


def check(ctx):
    lab = ctx.lab()
    ctx.rule("attribute", "x.distance, x.parallax and x.distance_modulus are the kind of their name and denote the distance x denotes (AU / tan p; 5 log10(d / pc) - 5)")
    ctx.rule("constructor", "T.from_(x), x a distance, parallax, distance modulus or plain quantity, denotes the distance x denotes or is refused")
    ctx.rule("inverse", "converting to another kind and back restores the value")
    ctx.rule("convert", "plum conversion between a kind and Quantity keeps value, unit and dimension")
    ctx.rule("noerror", "no error check fires for a distance that is not negative")
    shapes = [("B",)] + ([(), ("B", "C")] if ctx.thorough else [])
    for sh in shapes:
        tag = "" if sh == ("B",) else f" shape {sh}"
        for a in KINDS:
            for b in KINDS:
                attribute(ctx, lab, a, b, sh, tag)
                inverse(ctx, lab, a, b, sh, tag)
                for src in (a, "Quantity " + a):
                    for dt in (False, True):
                        constructor(ctx, lab, src, b, sh, dt, tag)
            convert(ctx, lab, a, sh, tag)


def kind(lab, k, sh, pos=True):
    plain = k.startswith("Quantity ")
    q = radius_q(lab, "x." + k[-8:], "r", k.split()[-1]).with_(sh=sh)
    if k.endswith("Distance"):
        q = q.with_(v=lab.var("x.dist.r", pos=True, lo=0.2, hi=3))
    return q.with_(ty=E.Q["Quantity"]) if plain else q


def length(q, k=None):
    return rad_value(q.with_(ty=_N(k)) if k else q)


class _N:
    def __init__(self, name):
        self.name = name


def is_kind(r, k):
    if not isinstance(r, Num):
        return Result("und" if isinstance(r, (Ite, Top)) else "bad", f"gives {r!r}"[:150])
    if r.ty.name != k:
        return Result("bad", f"gives a {r.ty.name}")
    if r.dim != DIM_(k):
        return Result("bad", f"has dimension {r.dim}")
    return OK


def DIM_(k):
    return V.DIMS[DIM[k]]


def shaped(r, sh):
    return OK if r.sh == sh else Result("bad", f"the shape {sh} becomes {r.sh}")


def same(lab, r, src, k, b):
    return compare(lab.s, [(length(r, b), length(src, k))], ["the distance denoted"])


def attribute(ctx, lab, a, b, sh, tag):
    st = {}

    def go():
        lab.fresh()
        q = kind(lab, a, sh)
        r = lab.attr(q, ATTR[b])
        x = is_kind(r, b)
        if x.status != "ok":
            return x
        st["eff"] = list(lab.ip.effects)
        x = same(lab, r, q, a, b)
        return shaped(r, sh) if x.status == "ok" else x
    ctx.guard("attribute", f"{a}.{ATTR[b]}{tag}", go)

    def err():
        e = errors_feasible(lab, st["eff"])
        return Result("bad", err_text(*e)) if e else OK
    if "eff" in st:
        ctx.guard("noerror", f"{a}.{ATTR[b]}{tag}", err)


def inverse(ctx, lab, a, b, sh, tag):
    def go():
        lab.fresh()
        q = kind(lab, a, sh)
        r = lab.attr(lab.attr(q, ATTR[b]), ATTR[a])
        x = is_kind(r, a)
        if x.status != "ok":
            return x
        # a parallax is an angle: an arctangent that differs by a turn is a different parallax, so values are compared
        return compare(lab.s, [(length(r, a), length(q, a))], ["value after the round trip"]) if a == "Parallax" else \
            compare(lab.s, [(r.v, q.v)], ["value after the round trip"])
    ctx.guard("inverse", f"{a} -> {b} -> {a}{tag}", go)


def constructor(ctx, lab, src, b, sh, dt, tag):
    st = {}

    def go():
        lab.fresh()
        q = kind(lab, src, sh)
        kw = {"dtype": V.Ext("jax.numpy.float32")} if dt else {}
        try:
            r = lab.call(lab.attr(lab.get("coordinax.distance." + b), "from_"), q, **kw)
        except AbsRaise:
            return OK           # refused: no value is returned
        x = is_kind(r, b)
        if x.status != "ok":
            return x
        st["eff"] = list(lab.ip.effects)
        x = same(lab, r, q, src.split()[-1], b)
        return shaped(r, sh) if x.status == "ok" else x
    key = f"{b}.from_({src}{', dtype' if dt else ''}){tag}"
    ctx.guard("constructor", key, go)

    def err():
        e = errors_feasible(lab, st["eff"])
        return Result("bad", err_text(*e)) if e else OK
    if "eff" in st:
        ctx.guard("noerror", key, err)


def convert(ctx, lab, a, sh, tag):
    Q = E.Q["Quantity"]
    conv = V.Ext("plum.convert")

    def to():
        lab.fresh()
        q = kind(lab, a, sh)
        r = lab.call(conv, q, Q)
        if not isinstance(r, Num) or r.ty is not Q:
            return Result("bad" if isinstance(r, Num) else "und", f"gives {r!r}"[:150])
        if r.dim != q.dim or r.sh != q.sh:
            return Result("bad", f"dimension {r.dim}, shape {r.sh}")
        return compare(lab.s, [(r.v, q.v), (r.unit, q.unit)], ["value", "unit"])
    ctx.guard("convert", f"{a} to Quantity{tag}", to)

    def back():
        lab.fresh()
        q = kind(lab, "Quantity " + a, sh)
        r = lab.call(conv, q, lab.get("coordinax.distance." + a))
        x = is_kind(r, a)
        if x.status != "ok":
            return x
        if r.sh != q.sh:
            return Result("bad", f"shape {r.sh}")
        return compare(lab.s, [(r.v, q.v), (r.unit, q.unit)], ["value", "unit"])
    ctx.guard("convert", f"Quantity to {a}{tag}", back)
    for b in KINDS:
        def cross(b=b):
            lab.fresh()
            q = kind(lab, a, sh)
            try:
                r = lab.call(conv, q, lab.get("coordinax.distance." + b))
            except AbsRaise:
                return OK
            x = is_kind(r, b)
            return x if x.status != "ok" else same(lab, r, q, a, b)
        ctx.guard("convert", f"{a} to {b}{tag}", cross)
