"""C26: space-time vectors have the Minkowski norm and act component-wise."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, ext as E, axes as AX, extfun
from ..values import Num
from ..vecs import *  # noqa: F403
from .c06 import refused
from .c27 import numbers, valid_four

MIN = 60
P3 = "ProlateSpheroidalPos"
MIXED = [AX.mk("a"), AX.mk("b", "a"), ()]
LEN, TIME_, SPEED = V.DIMS["length"], V.DIMS["time"], V.DIMS["speed"]
AREA = V.dim_mul(LEN, LEN)
LIGHT = 299792458


def check(ctx):
    lab = ctx.lab()
    ctx.rule("norm2", "the squared norm is (c t)^2 minus the squared Euclidean length of the position, an area, for every position type and all units")
    ctx.rule("norm", "norm() and abs() are the complex square root of the squared norm, one per element of the batch")
    ctx.rule("parts", "sums, differences, negation and division act on the time as on a number and on the position as on a position vector, and keep c and the types of the (left) operand")
    ctx.rule("delegate", "a component of the position read from the space-time vector is that component")
    ctx.rule("build", "the constructor keeps time and position, c is the speed of light unless given, and times that do not fit the batch of positions are refused")
    shapes = [[()], [AX.mk("a")], MIXED] + ([[AX.mk("a", "b")], [(), AX.mk("a")]] if ctx.thorough else [])
    for sh in shapes:
        tag = {(): ""}.get(tuple(sh[0]) if len(sh) == 1 else None, f" batch {'/'.join(str(AX.sizes(s)) for s in sh)}")
        for q in POS[3]:
            for k in ("Quantity", "Parallax", "DistanceModulus") if q in DIST_RAD else ("Quantity",):
                norms(ctx, lab, q, k, sh, tag)
            for q2 in POS[3]:
                for op in ("Add", "Sub"):
                    pair(ctx, lab, op, q, q2, sh, tag)
            single(ctx, lab, q, sh, tag)
            delegate(ctx, lab, q, sh, tag)
            build_(ctx, lab, q, sh, tag)
    refuse(ctx, lab)


def four(lab, q, pre, sh, k="Quantity"):
    """A space-time vector, or None where the shapes given do not make one."""
    o = reshape_leaves(lab, mk_four(lab, pre, mkpos(lab, q, pre + "q.", radius=k)), sh, ())
    o.d["c"] = o.d["c"].with_(sh=())
    return o if valid_four(o) else None


def full(o):
    return AX.sizes(AX.bcast(*[x.sh for x in o.d["q"].d.values()], o.d["t"].sh))


def fits(sh, o):
    """The shape broadcasts to that of the vector."""
    f = AX.bcast(*[x.sh for x in o.d["q"].d.values()], o.d["t"].sh)
    return AX.sizes(AX.bcast(sh, f)) == AX.sizes(f)


def norm2_of(o):
    t, c = o.d["t"].v, o.d["c"].v
    if o.d["q"].cls.name == P3:
        rho2, z2, *_ = prol_of(o.d["q"])
        r2 = V.tlift(R.add, rho2, z2)
    else:
        r2 = R.const(0)
        for x in cart_of(o.d["q"]):
            r2 = V.tlift(lambda a, b: R.add(a, R.mul(b, b)), r2, x)
    return V.tlift(lambda t, c, r: R.sub(R.mul(R.mul(c, t), R.mul(c, t)), r), t, c, r2)


def norms(ctx, lab, q, k, sh, tag):
    key = f"FourVector of {q}" + (f" (radius as {k})" if k != "Quantity" else "")

    def n2():
        lab.fresh()
        o = four(lab, q, "f.", sh, k)
        if o is None:
            return OK
        r = lab.call(lab.attr(o, "_norm2"))
        if not isinstance(r, Num):
            return Result("und", f"result {r!r}"[:100])
        if isinstance(r.v, list):
            return Result("bad", f"an array of {r.feat()} per vector")
        if r.dim != AREA:
            return Result("bad", f"dimension {r.dim}")
        if not fits(r.sh, o):
            return Result("bad", f"batch shape {r.sh}, the vector has {full(o)}")
        return compare(lab.s, [(r.v, norm2_of(o))], ["norm2"])
    ctx.guard("norm2", key + tag, n2)
    for how in ("norm", "__abs__"):
        def n1(how=how):
            lab.fresh()
            o = four(lab, q, "f.", sh, k)
            if o is None:
                return OK
            r = lab.call(lab.attr(o, how))
            if not isinstance(r, Num):
                return Result("und", f"result {r!r}"[:100])
            if isinstance(r.v, list):
                return Result("bad", f"an array of {r.feat()} per vector")
            if r.dim != LEN:
                return Result("bad", f"dimension {r.dim}")
            if not fits(r.sh, o):
                return Result("bad", f"batch shape {r.sh}, the vector has {full(o)}")
            if r.kind != "complex":
                return Result("bad", "a real square root, which is not a number for a space-like vector")
            x = compare(lab.s, [(r.v, V.tlift(R.sqrt, norm2_of(o)))], ["norm"])
            if x.status == "ok":
                return x
            return compare(lab.s, [(V.tlift(lambda a: R.mul(a, a), r.v), norm2_of(o))], ["norm squared"])
        ctx.guard("norm", f"{key}.{how.strip('_')}(){tag}", n1)


def same_parts(lab, got, left, t, q, sh):
    if not isinstance(got, Obj) or got.cls.name != "FourVector":
        return Result("und" if not isinstance(got, (Obj, Num)) else "bad", f"gives {got!r}"[:100])
    if got.d["q"].cls is not left.d["q"].cls:
        return Result("bad", f"the position is a {got.d['q'].cls.name}")
    ns, ws = [], []
    for lb, a, b in (("t", got.d["t"], t), ("c", got.d["c"], left.d["c"]), *[(f"q.{k}", got.d["q"].d[k], v) for k, v in q.d.items()]):
        if a.dim != b.dim:
            return Result("bad", f"{lb} has dimension {a.dim}")
        if isinstance(a.v, list) or AX.sizes(a.sh) != AX.sizes(b.sh):
            return Result("bad", f"{lb} has batch shape {a.sh}, wanted {b.sh}")
        if not V.same(a.v, b.v):
            ns.append((a.v, b.v))
            ws.append(lb)
    return compare(lab.s, ns, ws) if ns else OK


def pair(ctx, lab, op, qa, qb, sh, tag):
    def go():
        lab.fresh()
        a, b = four(lab, qa, "f.", sh), four(lab, qb, "g.", sh)
        if a is None or b is None:
            return OK
        r = E.binop(lab.ip, op, a, b)
        f = R.add if op == "Add" else R.sub
        t = a.d["t"].with_(v=V.tlift(f, a.d["t"].v, b.d["t"].v), sh=AX.bcast(a.d["t"].sh, b.d["t"].sh))
        return same_parts(lab, r, a, t, E.binop(lab.ip, op, a.d["q"], b.d["q"]), sh)
    ctx.guard("parts", f"FourVector of {qa} {'+' if op == 'Add' else '-'} FourVector of {qb}{tag}", go)


def single(ctx, lab, q, sh, tag):
    def neg(how):
        def f():
            lab.fresh()
            a = four(lab, q, "f.", sh)
            if a is None:
                return OK
            r = E.unop(lab.ip, "USub", a) if how == "-" else lab.call(lab.attr(a, "__neg__"))
            t = a.d["t"].with_(v=V.tlift(R.neg, a.d["t"].v))
            return same_parts(lab, r, a, t, E.unop(lab.ip, "USub", a.d["q"]), sh)
        return f
    ctx.guard("parts", f"-FourVector of {q}{tag}", neg("-"))

    def div():
        lab.fresh()
        a = four(lab, q, "f.", sh)
        if a is None:
            return OK
        s = lab.arr(lab.var("s"))
        try:
            r = E.binop(lab.ip, "Div", a, s)
        except AbsRaise as e:
            if refused(e):
                return OK
            raise
        t = a.d["t"].with_(v=V.tlift(R.div, a.d["t"].v, s.v))
        return same_parts(lab, r, a, t, E.binop(lab.ip, "Div", a.d["q"], s), sh)
    ctx.guard("parts", f"FourVector of {q} / number{tag}", div)


def delegate(ctx, lab, q, sh, tag):
    for n in SPECS[q].comps:
        def go(n=n[0]):
            lab.fresh()
            a = four(lab, q, "f.", sh)
            if a is None:
                return OK
            r = lab.attr(a, n)
            if not isinstance(r, Num) or r.dim != a.d["q"].d[n].dim or AX.sizes(r.sh) != AX.sizes(a.d["q"].d[n].sh):
                return Result("bad", f"gives {r!r}"[:100])
            return compare(lab.s, [(r.v, a.d["q"].d[n].v)], [n])
        ctx.guard("delegate", f"{n[0]} of a FourVector of {q}{tag}", go)


def build_(ctx, lab, q, sh, tag):
    for given in (False, True):
        for how in ("FourVector(...)", "from_ mapping"):
            def go(given=given, how=how):
                lab.fresh()
                a = four(lab, q, "f.", sh)
                if a is None:
                    return OK
                c = vcls(lab, "FourVector")
                kw = {"t": a.d["t"], "q": a.d["q"]}
                if given:
                    kw["c"] = a.d["c"]
                r = lab.ip.call(c, [], kw) if how[0] == "F" else lab.call(lab.attr(c, "from_"), kw)
                if not given:
                    got = r.d["c"] if isinstance(r, Obj) else None
                    if isinstance(got, Num) and got.dim == SPEED:
                        m, s = E.UNITS["m"][0], E.UNITS["s"][0]
                        x = compare(lab.s, [(got.v, R.div(R.mul(R.const(LIGHT), m), s))], ["c"])
                        if x.status != "ok":
                            return x
                        a.d["c"] = got
                return same_parts(lab, r, a, a.d["t"], a.d["q"], sh)
            ctx.guard("build", f"{how} with a {q}{' and c' if given else ''}{tag}", go)


def refuse(ctx, lab):
    for q in POS[3]:
        for ts, qs in (("a", ()), ("b", ("a",)), (("a", "b"), ("b",))):
            def go(ts=ts, qs=qs):
                lab.fresh()
                t, p = AX.mk(*ts), AX.mk(*qs) if qs else ()
                a = reshape_leaves(lab, mkpos(lab, q, "f.q."), [p])
                try:
                    r = lab.ip.call(vcls(lab, "FourVector"), [], {"t": lab.q("f.t", TIME_, sh=t), "q": a})
                except AbsRaise:
                    return OK
                return Result("bad", f"accepts a time of shape {t} with a position of shape {p}: {r!r}"[:200])
            ctx.guard("build", f"FourVector of {q} {qs} with a time of shape {tuple(ts)}", go)
