"""C06: arithmetic of vectors equals arithmetic of their Cartesian components."""
from ..lab import Result, OK, compare
from .. import ext as E, values as V, ring as R
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403

MIN = 40
P3 = "ProlateSpheroidalPos"
VELS = [SPECS[n].vel for d in (1, 2, 3) for n in POS[d]] + [LCL]
ACCS = [SPECS[n].acc for d in (1, 2, 3) for n in POS[d]]


def refused(e):
    """The operation is not offered for these operands."""
    m = str((e.exc.d.get("args") or ("",))[0])
    return "Refusing to materialise" in m or e.exc.cls.name == "TypeError" and "unsupported operand" in m


def scalar(lab, name="s", **kw):
    return lab.arr(lab.var(name, **kw))


def cart_obj(lab, o):
    """The operand as a Cartesian vector (conversion itself is C01's business)."""
    c = vcls(lab, POS[SPECS[o.cls.name].dim][0])
    if o.cls is c:
        return o
    if o.cls.name == P3:
        return lab.call("represent_as", o, c)
    return Obj(c, {n: lab.q("t." + n, "length", x=R.const(1)).with_(v=v)
                   for n, v in zip(("x", "y", "z"), cart_of(o))})


def cart_like(o, xs):
    return Obj(o.cls, {n: o.d[n].with_(v=v) for n, v in zip(("x", "y", "z"), xs)})


def cvals(o):
    return [o.d[n].v for n in ("x", "y", "z") if n in o.d]


def unit_mismatch(lab, eff):
    e = next((e for e in eff if e.kind == "tree_unit_mismatch"), None)
    return e and Result("bad", f"combines components by tree structure although units differ at {e.loc}")


def check(ctx):
    lab = ctx.lab()
    ctx.rule("type", "the result has the type (and the attributes) of the vector operand, the left one for sums")
    ctx.rule("value", "the Cartesian coordinates of the result are the operation applied to those of the operands")
    ctx.rule("noerror", "no error check fires for valid operands whose result the type can represent")
    ctx.rule("product", "the product of two positions is the quantity array of the products of their Cartesian coordinates")
    ctx.rule("component", "sums, differences, negation and scaling of velocities and accelerations act on each component and keep the type")
    for dim, names in POS.items():
        for a in names:
            rads = ["Quantity"] + (["Parallax", "DistanceModulus"] if a in DIST_RAD else [])
            for op in ("Add", "Sub"):
                for b in names:
                    if op == "Sub" and a == "RadialPos":
                        continue
                    pair(ctx, lab, op, a, b)
                for r in rads[1:]:
                    if op == "Add" or a != "RadialPos":
                        pair(ctx, lab, op, a, names[0], rada=r)
            for r in rads:
                if a != "RadialPos":
                    unary(ctx, lab, a, r)
                for op, left in (("Mult", True), ("Mult", False), ("Div", False)):
                    scale(ctx, lab, op, left, a, r)
            for b in names if ctx.thorough else {names[0], a}:
                product(ctx, lab, a, b)
    for v in VELS:
        diffs(ctx, lab, v, 1)
    for v in ACCS:
        diffs(ctx, lab, v, 2)
    for order in (0, 1, 2):
        nd(ctx, lab, order)


def calc(lab, f):
    lab.fresh()
    r = f()
    return r, list(lab.ip.effects)


def judge(ctx, lab, key, make, extra=None):
    """make() -> (operand, expected Cartesian object, thunk)."""
    st = {}

    def typ():
        o, want, f = make()
        r, eff = calc(lab, f)
        m = unit_mismatch(lab, eff)
        if m:
            return m
        if not isinstance(r, Obj):
            return Result("und", f"result {r!r}"[:100])
        if r.cls is not o.cls:
            return Result("bad", f"returns a {r.cls.name}")
        for n, v in o.d.items():
            if n == "Delta" and not (isinstance(r.d.get(n), Num) and V.same(r.d[n].v, v.v)):
                return Result("bad", f"{n} is not carried over")
        st.update(o=o, want=want, r=r, eff=eff)
        return OK
    res = ctx.guard("type", key, typ)
    if res is None or res.status != "ok":
        return
    ctx.guard("value", key, lambda: same_point(lab, st["r"], st["want"](), generic=True))

    def err():
        e = errors_feasible(lab, st["eff"])
        return Result("bad", err_text(*e)) if e else OK
    ctx.guard("noerror", key, err)


SYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}


def pair(ctx, lab, op, a, b, rada="Quantity"):
    key = f"{a} {SYM[op]} {b}" + (f" (radius as {rada})" if rada != "Quantity" else "")

    def make():
        A = mkpos(lab, a, f"l.{a}.", rada)
        pre = f"r.{b}."
        if a == "RadialPos" and b == "CartesianPos1D":
            lab.var("half.x", nonneg=True)
            pre = "half."
        B = mkpos(lab, b, pre)

        def want():
            ca, cb = cart_obj(lab, A), cart_obj(lab, B)
            f = R.add if op == "Add" else R.sub
            return cart_like(ca, [V.tlift(f, x, y) for x, y in zip(cvals(ca), cvals(cb))])
        return A, want, lambda: E.binop(lab.ip, op, A, B)
    judge(ctx, lab, key, make)


def unary(ctx, lab, a, rad):
    def make():
        A = mkpos(lab, a, radius=rad)

        def want():
            c = cart_obj(lab, A)
            return cart_like(c, [V.tlift(R.neg, x) for x in cvals(c)])
        return A, want, lambda: E.unop(lab.ip, "USub", A)
    judge(ctx, lab, f"-{a}" + (f" (radius as {rad})" if rad != "Quantity" else ""), make)


def scale(ctx, lab, op, left, a, rad):
    key = (f"s {SYM[op]} {a}" if left else f"{a} {SYM[op]} s") + (f" (radius as {rad})" if rad != "Quantity" else "")

    def make():
        A = mkpos(lab, a, radius=rad)
        s = scalar(lab, "s+", pos=True) if a == "RadialPos" else scalar(lab)

        def want():
            c = cart_obj(lab, A)
            f = R.mul if op == "Mult" else R.div
            return cart_like(c, [V.tlift(f, x, s.v) for x in cvals(c)])
        return A, want, lambda: E.binop(lab.ip, op, *((s, A) if left else (A, s)))
    judge(ctx, lab, key, make)


def product(ctx, lab, a, b):
    def go():
        A, B = mkpos(lab, a, f"l.{a}."), mkpos(lab, b, f"r.{b}.")
        r, eff = calc(lab, lambda: E.binop(lab.ip, "Mult", A, B))
        if not isinstance(r, Num) or not isinstance(r.v, list):
            return Result("und", f"result {r!r}"[:120])
        if r.dim != V.DIMS["area"]:
            return Result("bad", f"dimension {r.dim}")
        want = [V.tlift(R.mul, x, y) for x, y in zip(cvals(cart_obj(lab, A)), cvals(cart_obj(lab, B)))]
        if len(r.v) != len(want):
            return Result("bad", f"{len(r.v)} entries instead of {len(want)}")
        return compare(lab.s, list(zip(r.v, want)), ["x", "y", "z"], generic=True)
    ctx.guard("product", f"{a} * {b}", go)


def diffs(ctx, lab, name, order):
    p = "d_" if order == 1 else "d2_"
    names = [p + n for n, _ in (velcomps(name) if order == 1 else BYACC[name].comps)]

    def run(key, args, f, ref):
        def go():
            vals = args()
            try:
                r, eff = calc(lab, lambda: f(*vals))
            except AbsRaise as e:
                if refused(e):
                    return None
                raise
            m = unit_mismatch(lab, eff)
            if m:
                return m
            if not isinstance(r, Obj):
                return Result("und", f"result {r!r}"[:100])
            if r.cls.name != name:
                return Result("bad", f"returns a {r.cls.name}")
            e = errors_feasible(lab, eff)
            if e:
                return Result("bad", err_text(*e))
            for n in names:
                obj = next(v for v in vals if isinstance(v, Obj))
                if not isinstance(r.d[n], Num):
                    return Result("und", f"{n}: {r.d[n]!r}"[:100])
                if r.d[n].dim != obj.d[n].dim:
                    return Result("bad", f"{n} has dimension {r.d[n].dim}")
            want = [ref(*[v.d[n].v if isinstance(v, Obj) else v.v for v in vals]) for n in names]
            return compare(lab.s, [(r.d[n].v, w) for n, w in zip(names, want)], names)
        ctx.guard("component", key, go)

    def two():
        return mkdiff(lab, name, f"l.{name}.", order), mkdiff(lab, name, f"r.{name}.", order)
    B = lambda op: lambda x, y: E.binop(lab.ip, op, x, y)  # noqa: E731
    for op, f in (("Add", R.add), ("Sub", R.sub)):
        run(f"{name} {SYM[op]} {name}", two, B(op), lambda x, y, f=f: V.tlift(f, x, y))
    run(f"-{name}", lambda: (mkdiff(lab, name, f"{name}.", order),), lambda x: E.unop(lab.ip, "USub", x),
        lambda x: V.tlift(R.neg, x))
    for op, f in (("Mult", R.mul), ("Div", R.div)):
        one = lambda: (mkdiff(lab, name, f"{name}.", order), scalar(lab))  # noqa: E731
        run(f"{name} {SYM[op]} s", one, B(op), lambda x, y, f=f: V.tlift(f, x, y))
        if op == "Mult":
            run(f"s * {name}", lambda: tuple(reversed(one())), B(op), lambda x, y: V.tlift(R.mul, x, y))


ND = [("CartesianPosND", "q", "length"), ("CartesianVelND", "d_q", "speed"), ("CartesianAccND", "d2_q", "acceleration")]


def mknd(lab, order, pre, n=3):
    name, f, dim = ND[order]
    q = lab.q(pre + f, dim, x=R.const(1), sh=("B",)).with_(v=[lab.var(f"{pre}{f}{i}") for i in range(n)])
    o = Obj(vcls(lab, name), {f: q})
    o.frozen = True
    return o


def nd(ctx, lab, order):
    name, f, dim = ND[order]

    def run(key, mk, op, ref):
        def go():
            args = mk()
            try:
                r, eff = calc(lab, lambda: op(*args))
            except AbsRaise as e:
                if refused(e):
                    return None
                raise
            m = unit_mismatch(lab, eff)
            if m:
                return m
            if not isinstance(r, Obj) or r.cls.name != name:
                return Result("bad" if isinstance(r, Obj) else "und", f"returns {r!r}"[:100])
            q = r.d[f]
            if not isinstance(q.v, list):
                return Result("und", f"{q!r}"[:100])
            if q.dim != V.DIMS[dim]:
                return Result("bad", f"dimension {q.dim}")
            want = [ref(*[a.d[f].v[i] if isinstance(a, Obj) else a.v for a in args]) for i in range(3)]
            return compare(lab.s, list(zip(q.v, want)), ["q0", "q1", "q2"])
        ctx.guard("component", key, go)

    def two():
        return mknd(lab, order, "l."), mknd(lab, order, "r.")
    for op, g in (("Add", R.add), ("Sub", R.sub)):
        run(f"{name} {SYM[op]} {name}", two, lambda x, y, op=op: E.binop(lab.ip, op, x, y),
            lambda x, y, g=g: V.tlift(g, x, y))
    run(f"-{name}", lambda: (mknd(lab, order, "u."),), lambda x: E.unop(lab.ip, "USub", x), lambda x: V.tlift(R.neg, x))
    for op, g in (("Mult", R.mul), ("Div", R.div)):
        one = lambda: (mknd(lab, order, "u."), scalar(lab))  # noqa: E731
        run(f"{name} {SYM[op]} s", one, lambda x, y, op=op: E.binop(lab.ip, op, x, y), lambda x, y, g=g: V.tlift(g, x, y))
        if op == "Mult":
            run(f"s * {name}", lambda: tuple(reversed(one())), lambda x, y: E.binop(lab.ip, "Mult", x, y),
                lambda x, y: V.tlift(R.mul, x, y))
