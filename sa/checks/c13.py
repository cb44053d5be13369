"""C13: objects are frozen after construction and no operation writes to its operands."""
from .. import axes as AX, ext as E, effects as F
from ..opslib import *  # noqa: F403
from ..values import AbsRaise, Cls, Ext, Fn, Num, Obj, Prop, Top
from ..vecs import *  # noqa: F403
from .c12 import err, leaves, ob

MIN = 900
FROZEN_ROOTS = ("equinox.Module", "quax.ArrayValue", "quax.Value")
INPLACE = ("__iadd__", "__isub__", "__imul__", "__itruediv__", "__ior__", "__iand__", "__ipow__", "__imatmul__",
           "__ifloordiv__", "__imod__", "__ixor__", "__ilshift__", "__irshift__")
NAMESPACES = ("coordinax.vecs", "coordinax.ops", "coordinax.frames", "coordinax.distance", "coordinax.angle")


def check(ctx):
    ctx.rule("stores", "no function assigns, deletes or mutates in place an object it received, an object reachable from one, or a "
                       "table of the package other than while a class is being defined")
    ctx.rule("ambient", "no function changes process-wide state (configuration, warning filters, environment, streams)")
    ctx.rule("frozen", "every public value class is a frozen record: it inherits the frozen assignment of its base and does not override it")
    ctx.rule("assign", "assigning or deleting any component or attribute of an instance, and item assignment, is refused")
    ctx.rule("operands", "after any operation its operands hold what they held before")
    ctx.rule("own", "an object built from a mutable container, and a mapping returned by one, do not share that container")
    static(ctx)
    lab = ctx.lab()
    classes(ctx, lab)
    objs = [(l, o) for l, o in every(lab)] + every_op(lab) + every_frame(lab)
    dist = [("Distance", "Distance"), ("Parallax", "Parallax"), ("Angle", "Angle"), ("DistanceModulus", "DistanceModulus")]
    for label, o in objs:
        assigned(ctx, lab, label, o)
    operations(ctx, lab)
    ownership(ctx, lab)


# ------------------------------------------------------------------ effects
def static(ctx):
    p = F.Program(ctx.src)
    from ..run import Broken
    if len(p.funcs) < 300:
        raise Broken("the source tree has lost most of its functions")
    ctx.note_functions([f.where for f in p.funcs]) if hasattr(ctx, "note_functions") else None
    names = {}
    for f in p.funcs:
        base = f"{f.path}:{f.qual}"
        names[base] = names.get(base, 0) + 1
        key = base if names[base] == 1 else f"{base}#{names[base]}"
        bad = []
        for o, (line, what, chain) in f.effects.items():
            via = (" through " + " > ".join(chain)) if chain else ""
            if o[0] == "param":
                if not f.public:
                    continue          # judged at the callers that pass an existing object
                bad.append(f"line {line}: {what}, changing what the argument {o[1]!r} denotes{via}")
            elif o[0] == "global":
                if f.name in F.CONSTRUCTION:
                    continue
                users = p.users.get(o[1], set())
                if users <= {id(f)}:
                    continue          # a table private to this function
                bad.append(f"line {line}: {what}, changing the package's {o[1]}{via}")
        ob(ctx, "stores", key, not bad, "; ".join(bad)[:400], f.where)
    where = {}
    for f, line, what in p.banned:
        where.setdefault(f"{f.path}:{f.qual}", []).append((line, what))
    for key, ls in where.items():
        ob(ctx, "ambient", key, False, "; ".join(f"line {l}: {w}" for l, w in ls)[:300], key)
    for m in p.mods:
        ob(ctx, "ambient", m.rel, True)


# ------------------------------------------------------------------ classes
def classes(ctx, lab):
    seen = set()
    for ns in NAMESPACES:
        for k, c in sorted(lab.get(ns).ns.items()) if hasattr(lab.get(ns), "ns") else ():
            if not isinstance(c, Cls) or id(c) in seen or k.startswith("_"):
                continue
            seen.add(id(c))
            names = [x.name for x in c.mro if isinstance(x, Ext)]
            if not c.own_fields and not any(n in FROZEN_ROOTS for n in names) and not lab.ip.all_fields(c):
                continue              # exceptions, warnings, enumerations and flags hold no components
            if c.ext_base("enum.Enum") or c.name == "VectorAttribute" and c.dc_frozen:
                continue
            bad = []
            if not any(n in FROZEN_ROOTS for n in names) and not getattr(c, "dc_frozen", False):
                bad.append("is not a frozen record")
            for n in ("__setattr__", "__delattr__", "__setstate__", "__delitem__") + INPLACE:
                f, own = c.lookup(n)
                if f is not None and own.module.startswith("coordinax"):
                    bad.append(f"{own.name} defines {n}")
            for n in ("__setitem__", "__delitem__"):
                f, own = c.lookup(n)
                if f is not None and own.module.startswith("coordinax"):
                    if isinstance(f, Fn) and returns(f.node):
                        bad.append(f"{own.name}.{n} can return")
            if any(n.rsplit(".", 1)[-1].startswith("Mutable") for n in names):
                bad.append("inherits a mutable container interface")
            for n, d in c.ns.items():
                if isinstance(d, Prop) and getattr(d, "fset", None) is not None:
                    bad.append(f"property {n} has a setter")
            ob(ctx, "frozen", c.qual, not bad, "; ".join(bad)[:300], c.qual)


def returns(fn):
    """Can control reach the end of the function or a return?"""
    import ast

    def falls(body):
        for s in body:
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.Return):
                return True
            if isinstance(s, ast.If):
                if s.orelse and not falls(s.body) and not falls(s.orelse):
                    return False
        return True
    has = any(isinstance(x, ast.Return) for x in ast.walk(fn))
    return has or falls(fn.body)


# ------------------------------------------------------------------ instances
def assigned(ctx, lab, label, o):
    where = o.cls.qual
    for n in list(o.d):
        def go():
            try:
                lab.ip.setattr(o, n, o.d[n])
            except AbsRaise:
                return ob(ctx, "assign", f"{label}.{n}", True)
            return ob(ctx, "assign", f"{label}.{n}", False, "can be assigned", where)
        fr = o.frozen
        o.frozen = module_frozen(o.cls)
        ctx.guard("assign", f"{label}.{n}", go, where)
        o.frozen = fr
    f, own = o.cls.lookup("__setitem__")

    def item():
        for k in ([0] if not label.startswith("Space") else ["length", "new"]):
            try:
                lab.ip.setitem(o, k, next(iter(o.d.values()), None))
            except AbsRaise:
                continue
            return ob(ctx, "assign", f"{label}[...]", False, f"accepts the item {k!r}", where)
        return ob(ctx, "assign", f"{label}[...]", True)
    snap = snapshot(o)
    ctx.guard("assign", f"{label}[...]", item, where)
    ob(ctx, "assign", f"{label}[...] content", snapshot(o) == snap, "the refused item assignment changed the object", where)


def module_frozen(c):
    if c.lookup("__setattr__")[0] is not None:
        return False
    return c.ext_base(*FROZEN_ROOTS) or bool(getattr(c, "dc_frozen", False))


def snapshot(o, seen=None):
    """Structure and identity of everything an object holds."""
    if isinstance(o, Obj):
        return (id(o.cls), tuple((k, snapshot(v)) for k, v in o.d.items()))
    if isinstance(o, dict):
        return ("dict", tuple((k if isinstance(k, str) else id(k), snapshot(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v) for v in o))
    if isinstance(o, Num):
        return ("num", id(o.ty), repr(o.v), repr(o.sh), repr(o.unit))
    return repr(o)


def operations(ctx, lab):
    t = lab.q("time", TIME, sh=())
    k = lab.arr(lab.var("k", pos=True))

    def each(label, f, *ops):
        st = {}

        def go():
            lab.fresh()
            before = [snapshot(x) for x in ops]
            try:
                st["r"] = f(*ops)
            except AbsRaise:
                st["raised"] = True
            muts = [e for e in lab.ip.effects if e.kind == "mutate"]
            changed = [i for i, x in enumerate(ops) if snapshot(x) != before[i]]
            why = ""
            if changed:
                why = f"changes operand {changed[0]}"
            elif muts:
                why = f"assigns {muts[0].data[1] if isinstance(muts[0].data, tuple) else muts[0].data} of a finished object at {muts[0].loc}"
            return ob(ctx, "operands", label, not why, why, str(muts[0].loc) if muts else "")
        ctx.guard("operands", label, go)
    call = lab.ip.call
    vs = {l: reshape_leaves(lab, o, [AX.mk("a"), ()]) for l, o in every(lab)}
    for l, o in vs.items():
        un = {
            "-v": lambda o: E.unop(lab.ip, "USub", o), "+v": lambda o: E.unop(lab.ip, "UAdd", o),
            "abs": lambda o: call(lab.attr(o, "norm"), [], {}), "k*v": lambda o: E.binop(lab.ip, "Mult", k, o),
            "v/k": lambda o: E.binop(lab.ip, "Div", o, k), "v*t": lambda o: E.binop(lab.ip, "Mult", o, t),
            "v+v": lambda o: E.binop(lab.ip, "Add", o, o), 
            "v==v": lambda o: E.compare(lab.ip, "Eq", o, o) if hasattr(E, "compare") else None,
            "v[None]": lambda o: E.getitem(lab.ip, o, None), "reshape": lambda o: call(lab.attr(o, "reshape"), [-1], {}),
            "flatten": lambda o: call(lab.attr(o, "flatten"), [], {}), "T": lambda o: lab.attr(o, "T"),
            "consistent": lambda o: call(lab.attr(o, "uconvert"), [lab.attr(lab.get("coordinax.vecs.ToUnitsOptions"), "consistent")], {}),
            "asdict": lambda o: call(lab.attr(o, "asdict"), [], {}), "units": lambda o: lab.attr(o, "units"),
            "shapes": lambda o: lab.attr(o, "shapes"), "to_device": lambda o: call(lab.attr(o, "to_device"), [], {}),
            "str": lambda o: call(lab.attr(o, "__str__"), [], {}),
            "from_": lambda o: call(lab.attr(o.cls, "from_"), [o], {}),
        }
        for n, f in un.items():
            each(f"{n} of {l}", f, o)
    for a in ("CartesianPos3D", "SphericalPos", "CylindricalPos", "LonLatSphericalPos", "MathSphericalPos"):
        for b in ("CartesianPos3D", "SphericalPos", "CylindricalPos", "LonLatSphericalPos", "MathSphericalPos", "CartesianPos2D", "RadialPos"):
            each(f"represent_as {a} -> {b}", lambda o, b=b: call(lab.attr(o, "represent_as"), [vcls(lab, b)], {}), vs[a])
    for l, op in every_op(lab):
        q, f4 = mkpos(lab, "CartesianPos3D", "q.", sh=()), fourvec(lab, "x4.")
        each(f"{l}(q)", lambda op, q: call(op, [q], {}), op, q)
        each(f"{l}(q, t)", lambda op, q, t: call(op, [q, t], {}), op, q, t)
        each(f"{l}(x4)", lambda op, q: call(op, [q], {}), op, f4)
        for n in ("inverse", "is_inertial"):
            each(f"{l}.{n}", lambda op, n=n: lab.attr(op, n), op)
        each(f"{l}.simplify", lambda op: call(lab.attr(op, "simplify"), [], {}), op)
        each(f"{l} | shift", lambda op, p: E.binop(lab.ip, "BitOr", op, p), op, shift(lab, "o2."))
        each(f"shift | {l}", lambda op, p: E.binop(lab.ip, "BitOr", op, p), shift(lab, "o2."), op)
    fr = dict(every_frame(lab))
    for a in fr:
        for b in fr:
            each(f"{a} to {b}", lambda x, y: call(lab.attr(x, "transform_op"), [y], {}), fr[a], fr[b])


# ------------------------------------------------------------------ ownership
def mutable_inside(o, path=()):
    if isinstance(o, (list, dict, set)):
        return [path]
    if isinstance(o, tuple):
        return [p for i, v in enumerate(o) for p in mutable_inside(v, path + (str(i),))]
    if isinstance(o, Obj):
        st = {f.name for f in o.cls.own_fields if f.static}
        # a private table is the object's own: what counts is that nobody else holds it
        return [p for k, v in o.d.items() if k not in st and not (k.startswith("_") and isinstance(v, dict))
                for p in mutable_inside(v, path + (k,))]
    return []


def ownership(ctx, lab):
    def built(key, f, src):
        def go():
            lab.fresh()
            before = snapshot(src)
            o = f(src)
            why = ""
            inner = mutable_inside(o)
            if inner:
                why = f"holds a mutable container in {'.'.join(inner[0])}"
            elif shares(o, src):
                why = "keeps the caller's own container"
            elif snapshot(src) != before:
                why = "changes the caller's container"
            return ob(ctx, "own", key, not why, why)
        ctx.guard("own", key, go)
    call = lab.ip.call
    ops = [shift(lab, "a."), boost(lab, "b.")]
    built("Pipe from a list", lambda s: call(ocls(lab, "Pipe"), [s], {}), list(ops))
    built("Pipe.from_ a list", lambda s: call(lab.attr(ocls(lab, "Pipe"), "from_"), [s], {}), list(ops))
    mem = {"length": mkpos(lab, "CartesianPos3D", "m."), "speed": mkdiff(lab, "CartesianVel3D", "m.", 1)}
    built("Space from a mapping", lambda s: call(lab.get("coordinax.Space"), [s], {}), dict(mem))
    built("Space.from_ a mapping", lambda s: call(lab.attr(lab.get("coordinax.Space"), "from_"), [s], {}), dict(mem))
    for n in SPECS:
        built(f"{n}.from_ a mapping", lambda s, n=n: call(lab.attr(vcls(lab, n), "from_"), [s], {}),
              dict(pos_args(lab, n, "own.")))
    for label, o in every(lab):
        def go():
            lab.fresh()
            d = call(lab.attr(o, "asdict"), [], {})
            same = d is o.d or any(d is x for x in o.d.values())
            return ob(ctx, "own", f"{label}.asdict()", not same, "returns the object's own table")
        ctx.guard("own", f"{label}.asdict()", go)


def shares(o, src):
    """Does the object hold the very container it was given?"""
    if o is src:
        return True
    if isinstance(o, (list, tuple)):
        return any(shares(v, src) for v in o)
    if isinstance(o, dict):
        return any(shares(v, src) for v in o.values())
    if isinstance(o, Obj):
        return any(shares(v, src) for v in o.d.values())
    return False
