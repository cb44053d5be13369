"""C23: every conversion and operation resolves to exactly one implementation, which ends."""
import itertools

from .. import apy as AP, ext as E
from ..lab import Result, OK
from ..opslib import every_op, every_frame
from ..plumm import matches, resolve_method, sig_le, signatures, PlumF
from ..values import AbsRaise, Cls, ClassM, Ext, Ite, Num, Obj, Top, Undecided, is_nan  # noqa: F401
from ..vecs import *  # noqa: F403

MIN = 900
P3 = "ProlateSpheroidalPos"
S2 = "TwoSpherePos"
VELS = {**{SPECS[n].vel: SPECS[n].dim for n in SPECS}, LCL: 3}
ACCS = {SPECS[n].acc: SPECS[n].dim for n in SPECS}


def check(ctx):
    lab = ctx.lab()
    ctx.rule("unique", "no two registered implementations of a dispatched function apply to the same argument types without one of them, or a third, being the more specific")
    ctx.rule("convert", "every pair of position, velocity and acceleration classes of one dimension, at positions of every class of that dimension, converts to the class asked for; only a two-sphere and a plane are refused, with NotImplementedError")
    ctx.rule("self", "an array of components, of any class, represented as its own class is of that class")
    ctx.rule("ends", "no conversion between any two public vector classes, and no sum, difference, product, quotient, comparison, negation, absolute value, norm or text of public vectors, dispatches to itself without end")
    unique(ctx, lab)
    convert(ctx, lab)
    ends(ctx, lab)


# ------------------------------------------------------------------ one implementation
def universe(lab):
    u = [o for _, o in every(lab)] + [o for _, o in every_op(lab)] + [o for _, o in every_frame(lab)]
    u += [lab.q("u" + d, d) for d in ("length", "speed", "acceleration", "angle", "angular speed", "time", "mass", "area", "dimensionless")]
    u += [lab.q("uq", "length", ty=E.Q["UncheckedQuantity"]), lab.q("ua", "angle", ty=lab.get("coordinax.angle.Angle"))]
    u += [radius_q(lab, "u.", "r", k) for k in ("Distance", "Parallax", "DistanceModulus")]
    u += [lab.arr(lab.var("uarr")), 1, 0.5, True, "m", None, [1], (1,), {}, lab.unit("uu", "length"), AP.quantity(lab.q("aq", "length"))]
    u += [AP.make(n) for n in AP.COMPS] + [Obj(AP.FRAMES[n], {"has_data": False}) for n in AP.FRAMES]
    seen = set()
    for m in list(lab.ip.modules.values()):
        for v in m.ns.values():
            if isinstance(v, Cls) and isinstance(v.module, str) and v.module.startswith("coordinax") and id(v) not in seen:
                seen.add(id(v))
                u.append(v)
    u += [E.Q[n] for n in ("Quantity", "UncheckedQuantity", "AbstractQuantity")]
    return u


def functions(lab):
    """(name, dispatched function) for functions, primitives and methods with registered implementations."""
    out = [(k, f) for k, f in lab.ip.plum.items()] + [("primitive " + k, f) for k, f in lab.ip.quax.items()]
    seen = set()
    for m in list(lab.ip.modules.values()):
        for c in m.ns.values():
            if isinstance(c, Cls) and id(c) not in seen:
                seen.add(id(c))
                for k, v in c.ns.items():
                    while isinstance(v, ClassM):
                        v = v.f
                    if isinstance(v, PlumF):
                        out.append((f"{c.name}.{k}", v))
    return [(k, f) for k, f in out if f.methods]


def where(m):
    return f"{m.fn.module.name}:{m.fn.node.lineno}"


def unique(ctx, lab):
    lab.fresh()
    u = universe(lab)
    memo = {}

    def reps(t):
        k = id(t)
        if k not in memo:
            memo[k] = (t, [i for i, v in enumerate(u) if matches(lab.ip, v, t) is True])
        return memo[k][1]

    for name, f in functions(lab):
        def go(name=name, f=f):
            ms = []
            for m in f.methods:
                if not m.abstract:
                    ms += [(m, s) for s in signatures(lab.ip, m)]
            pairs = 0
            for (m1, s1), (m2, s2) in itertools.combinations(ms, 2):
                if m1 is m2 or s1[1] is not None or s2[1] is not None or len(s1[0]) != len(s2[0]):
                    continue
                if sig_le(lab.ip, s1, s2) or sig_le(lab.ip, s2, s1):
                    continue
                both = [sorted(set(reps(a)) & set(reps(b))) for a, b in zip(s1[0], s2[0])]
                for tup in itertools.product(*both):
                    pairs += 1
                    try:
                        r = resolve_method(lab.ip, f, [u[i] for i in tup])
                    except Undecided:
                        continue
                    if isinstance(r, list):
                        return Result("bad", f"on ({', '.join(_name(u[i]) for i in tup)}) both {where(r[0])} and {where(r[1])} apply")
            return OK
        ctx.guard("unique", f"{name} ({len(f.methods)} implementations)", go)


def _name(v):
    if isinstance(v, Cls):
        return f"type {v.name}"
    return v.cls.name if isinstance(v, Obj) else v.ty.name if isinstance(v, Num) and isinstance(v.ty, Cls) else type(v).__name__


# ------------------------------------------------------------------ conversions
def prolate(*names):
    return any(n.startswith("Prolate") for n in names)


def kw_for(lab, source, target, at):
    """The focal length, when something has to become prolate."""
    if prolate(target) and (target[:19] != source[:19] or not prolate(at)) or prolate(source) and not prolate(at):
        return {"Delta": lab.q("target.Delta", "length", x=lab.var("target.Delta", pos=True, lo=0.5, hi=2), sh=())}
    return {}


def attempt(ctx, lab, rule, key, f, want, flat):
    """flat: the conversion involves a two-sphere and a plane, so it must be refused."""
    def go():
        lab.fresh()
        try:
            r = f()
        except AbsRaise as e:
            if flat and e.exc.cls.name == "NotImplementedError":
                return OK
            return Result("bad", f"{e}"[:160])
        if flat:
            return Result("bad", f"gives {r!r}"[:120])
        leaf = r
        while isinstance(leaf, Ite):
            leaf = leaf.a
        if not isinstance(leaf, Obj):
            return Result("und" if isinstance(leaf, Top) else "bad", f"gives {leaf!r}"[:120])
        return OK if leaf.cls.name == want else Result("bad", f"gives a {leaf.cls.name}")
    ctx.guard(rule, key, go)


def convert(ctx, lab):
    for a in SPECS:
        for b in SPECS:
            if SPECS[a].dim == SPECS[b].dim:
                attempt(ctx, lab, "convert", f"{a} -> {b}", lambda a=a, b=b: lab.call(
                    "represent_as", mkpos(lab, a), vcls(lab, b), **kw_for(lab, a, b, a)), b, (a == S2) != (b == S2))
    for a in VELS:
        for b in VELS:
            if VELS[a] != VELS[b]:
                continue
            for p in SPECS:
                if SPECS[p].dim != VELS[a]:
                    continue
                if not ctx.thorough and prolate(a, b, p) and p != (P3 if a.startswith("Prolate") else POS[3][0]):
                    continue
                s2 = {x.startswith("TwoSphere") for x in (a, b, p)}
                flat = len(s2) > 1 and not a == b      # the same class: the position is not used
                attempt(ctx, lab, "convert", f"{a} -> {b} at {p}", lambda a=a, b=b, p=p: lab.call(
                    "represent_as", mkdiff(lab, a, "v.", 1), vcls(lab, b), mkpos(lab, p), **kw_for(lab, a, b, p)), b, flat)
    for a in ACCS:
        for b in ACCS:
            if ACCS[a] != ACCS[b]:
                continue
            own = a.replace("Acc", "Pos")
            for p in SPECS:
                if SPECS[p].dim != ACCS[a]:
                    continue
                if not ctx.thorough and (p != P3 or a != "CartesianAcc3D" or prolate(b) if prolate(a, b, p)
                                         else ACCS[a] == 3 and a != "CartesianAcc3D" and p not in (own, POS[3][0])):
                    continue
                flat = len({x.startswith("TwoSphere") for x in (a, b, p)}) > 1
                attempt(ctx, lab, "convert", f"{a} -> {b} at {SPECS[p].vel}, {p}", lambda a=a, b=b, p=p: lab.call(
                    "represent_as", mkdiff(lab, a, "a.", 2), vcls(lab, b), mkdiff(lab, SPECS[p].vel, "v.", 1), mkpos(lab, p),
                    **kw_for(lab, a, b, p)), b, flat)

    # the place (and the velocity) as quantity arrays of Cartesian components
    for a in VELS:
        for b in VELS:
            # (a chart transform of a prolate rate is too large a polynomial;
            # there is no quantity form of a point on the two-sphere)
            if VELS[a] == VELS[b] and not a.startswith("Prolate") and "TwoSphere" not in a + b:
                cart = POS[VELS[a]][0]
                attempt(ctx, lab, "convert", f"{a} -> {b} at a quantity", lambda a=a, b=b, cart=cart: lab.call(
                    "represent_as", mkdiff(lab, a, "v.", 1), vcls(lab, b), arr(lab, cart, "length"), **kw_for(lab, a, b, cart)), b, False)
    for a in ACCS:
        for b in ACCS:
            cart = POS[ACCS[a]][0]
            if ACCS[a] != ACCS[b] or prolate(a, b) or "TwoSphere" in a + b or ACCS[a] == 3 and cart not in (a.replace("Acc", "Pos"), b.replace("Acc", "Pos")):
                continue
            for what, v, q in (("a velocity and a quantity", 0, 1), ("a quantity and a position", 1, 0), ("two quantities", 1, 1)):
                attempt(ctx, lab, "convert", f"{a} -> {b} at {what}", lambda a=a, b=b, cart=cart, v=v, q=q: lab.call(
                    "represent_as", mkdiff(lab, a, "a.", 2), vcls(lab, b),
                    arr(lab, cart, "speed") if v else mkdiff(lab, SPECS[cart].vel, "v.", 1),
                    arr(lab, cart, "length") if q else mkpos(lab, cart)), b, False)


def arr(lab, cart, dim):
    o = mkpos(lab, cart, "half." if cart == "CartesianPos1D" else "c.")
    return lab.q("arr." + dim, dim, sh=("B",)).with_(v=[x.v for x in o.d.values()])


# ------------------------------------------------------------------ termination
def type_of(o):
    """Position, velocity or acceleration; only alike ones have much to convert when adding."""
    return o.cls.name if "Pos" in o.cls.name else ""


def ends(ctx, lab):
    lab.fresh()
    vs = every(lab)
    seen = {}
    for label, o in vs:
        seen.setdefault(o.cls.name, (label, reshape_leaves(lab, o, [()])))
    vs = list(seen.values())

    def run(key, f):
        def go():
            try:
                f()
            except AbsRaise as e:
                m = str((e.exc.d.get("args") or ("",))[0])
                if "recursion" in m or "Ambiguous" in m:
                    return Result("bad", m[:140])
            except Undecided as e:
                if "depth" in str(e):
                    raise
            return OK
        ctx.guard("ends", key, go)
    for la, a in vs:
        for lb, b in vs:
            run(f"{la} represented as {b.cls.name}", lambda a=a, b=b: lab.call("represent_as", a, b.cls))
            for op in ("Add", "Sub", "Mult", "Div", "MatMult"):
                if op == "Sub" and not ctx.thorough and type_of(a) != type_of(b):
                    continue
                run(f"{op} of {la} and {lb}", lambda a=a, b=b, op=op: E.binop(lab.ip, op, a, b))
            run(f"comparison of {la} and {lb}", lambda a=a, b=b: E.compare(lab.ip, "Eq", a, b))
        run(f"negation of {la}", lambda a=a: E.unop(lab.ip, "USub", a))
        for m in ("norm", "__abs__", "__str__", "__hash__", "asdict"):
            run(f"{m} of {la}", lambda a=a, m=m: lab.call(lab.attr(a, m)))
        run(f"{la} represented as its own class", lambda a=a: lab.call("represent_as", a, a.cls))
