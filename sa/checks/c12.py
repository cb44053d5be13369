"""C12: array operations act on all components alike and keep type and attributes."""
from .. import axes as AX, ext as E, values as V
from ..vecs import *  # noqa: F403

MIN = 600

# batch shapes of the components, in order, cyclically; sizes named alike are equal
LAYOUTS = {
    "()": [()],
    "(a)": [("a",)],
    "(a),()": [("a",), ()],
    "(a,b)": [("a", "b")],
    "(b),(a,b),()": [("b",), ("a", "b"), ()],
    "(a,1),(1,b)": [("a", 1), (1, "b")],
    "(a,b,c)": [("a", "b", "c")],
    "(),(c),(a,1,c),(b,1)": [(), ("c",), ("a", 1, "c"), ("b", 1)],
    "(a,b,c,d)": [("a", "b", "c", "d")],
}
FULL = {"()": (), "(a)": ("a",), "(a),()": ("a",), "(a,b)": ("a", "b"), "(b),(a,b),()": ("a", "b"), "(a,1),(1,b)": ("a", "b"),
        "(a,b,c)": ("a", "b", "c"), "(),(c),(a,1,c),(b,1)": ("a", "b", "c"), "(a,b,c,d)": ("a", "b", "c", "d")}
QUICK = ("()", "(a),()", "(b),(a,b),()", "(),(c),(a,1,c),(b,1)")


def check(ctx):
    lab = ctx.lab()
    ctx.rule("meta", "shape, ndim, size and len describe the broadcast of the shapes of the components")
    ctx.rule("per-component", "shapes and sizes list each component's own shape and size")
    ctx.rule("layout", "each component of the result is the operation applied to that component, broadcast to the vector's shape")
    ctx.rule("keep", "the result has the operand's type; component values, units and classes and all attributes are unchanged")
    ctx.rule("reject", "an operation the shape does not admit is refused: mT below two axes, too many indices, reshape to another size")
    for label, o in every(lab):
        for lay, shs in LAYOUTS.items():
            shs = [AX.mk(*s) for s in shs]
            v = reshape_leaves(lab, o, shs)
            full = tuple(AX.Ax(n) for n in FULL[lay])
            n1 = len(leaves(v, ())) == 1
            if n1 and "),(" in lay:
                continue                    # a single component has one shape
            if not n1 and ctx.tier == "quick" and lay not in QUICK:
                continue
            full = AX.bcast_sizes((), outer(v))
            one(ctx, lab, f"{label} {lay}", v, full)


def ob(ctx, rule, key, ok, why="", where=""):
    ctx.ob(rule, key, ("ok" if ok else "bad", "" if ok else why), where)


def leaves(o, path):
    """(path, array) for every component array; attributes are left out."""
    if isinstance(o, Num):
        return [(path, o)]
    if isinstance(o, dict):
        return [x for k, v in o.items() for x in leaves(v, path + (k,))]
    if isinstance(o, Obj):
        a = ATTRS.get(o.cls.name, ())
        return [x for k, v in o.d.items() if k not in a for x in leaves(v, path + (k,))]
    return []


def attrs(o, path=()):
    if isinstance(o, dict):
        return [x for k, v in o.items() for x in attrs(v, path + (k,))]
    if isinstance(o, Obj):
        a = ATTRS.get(o.cls.name, ())
        return [(path + (k,), o.d.get(k)) for k in a] + [x for k, v in o.d.items() if k not in a
                                                         for x in attrs(v, path + (k,))]
    return []


def outer(o):
    sz = ()
    for _, n in leaves(o, ()):
        sz = AX.bcast_sizes(sz, AX.sizes(n.sh))
    return sz


def ops(full):
    """name -> (how to apply it to the object, its effect on a fully broadcast batch shape)"""
    n = len(full)
    tot = AX.prod(full)

    def meth(name, *a, **kw):
        return lambda lab, o: lab.ip.call(lab.attr(o, name), list(a), kw)

    def ix(i):
        return lambda lab, o: E.getitem(lab.ip, o, i)
    out = {
        "T": (lambda lab, o: lab.attr(o, "T"), lambda s: AX.transpose(s)),
        "mT": (lambda lab, o: lab.attr(o, "mT"), (lambda s: AX.swapaxes(s, -1, -2)) if n >= 2 else None),
        "flatten": (meth("flatten"), lambda s: AX.reshape(s, (tot,))),
        "ravel": (meth("ravel"), lambda s: AX.reshape(s, (tot,))),
        "reshape(-1)": (meth("reshape", -1), lambda s: AX.reshape(s, (tot,))),
        "reshape((1, size))": (meth("reshape", (1, tot)), lambda s: AX.reshape(s, (1, tot))),
        "reshape(1, size)": (meth("reshape", 1, tot), lambda s: AX.reshape(s, (1, tot))),
        "reshape(reversed)": (meth("reshape", *full[::-1]), lambda s: AX.reshape(s, full[::-1])) if n >= 2 else None,
        "reshape(other size)": (meth("reshape", AX.mul(tot, 2)), None),
        "to_device": (meth("to_device"), lambda s: s),
        "astype": (lambda lab, o: E.prim(lab.ip, "convert_element_type_p", [o], {
            "new_dtype": Ext("jnp.float32"), "weak_type": False, "sharding": None}), lambda s: s),
        "broadcast": (lambda lab, o: E.prim(lab.ip, "broadcast_in_dim_p", [o], {
            "shape": (AX.Ax("n"),) + full + (3,), "broadcast_dimensions": tuple(range(1, n + 2))}),
            lambda s: AX.broadcast_to(s, (AX.Ax("n"),) + full)),
        "[None]": (ix(None), lambda s: AX.index(s, None)),
        "[...]": (ix(Ellipsis), lambda s: s),
    }
    for key in (0, -1, slice(1, 3), (0, Ellipsis), (Ellipsis, 0), (Ellipsis, slice(2, None)), (slice(None), None),
                (slice(None), 0), (0, 1), (Ellipsis, -1, slice(None)), (0, slice(None), 2), (1, Ellipsis, 0), (0, Ellipsis, None),
                AX.Sel("mask", 1), AX.Sel("mask", 2), (slice(None), AX.Sel("idx")), tuple([0] * n), tuple([0] * (n + 1))):
        if isinstance(key, AX.Sel) and key.naxes > n:
            continue
        used = sum(getattr(k, "naxes", 1) for k in (key if isinstance(key, tuple) else (key,)) if k is not None and k is not Ellipsis)
        eff = (lambda s, key=key: AX.index(s, key)) if used <= n else None
        out[f"[{show(key)}]"] = (ix(key), eff)
    return {k: v for k, v in out.items() if v is not None}


def show(k):
    if isinstance(k, tuple):
        return ", ".join(map(show, k))
    if isinstance(k, slice):
        return f"{AX._b(k.start)}:{AX._b(k.stop)}"
    return "..." if k is Ellipsis else repr(k)


def one(ctx, lab, key, v, full):
    n = len(full)
    for name, want in (("shape", full), ("ndim", n), ("size", AX.prod(full)), ("__len__", full[0] if n else 0)):
        def go():
            try:
                got = lab.attr(v, name)
                if name == "__len__":
                    got = lab.ip.call(got, [], {})
            except AbsRaise as e:
                return ob(ctx, "meta", f"{key} {name}", False, f"raises {err(e)}", E_loc(lab, v, name))
            got = plain(got)
            ok = got == want
            return ob(ctx, "meta", f"{key} {name}", ok, "" if ok else f"is {got!r}, the broadcast has {want!r}", E_loc(lab, v, name))
        ctx.guard("meta", f"{key} {name}", go)
    for name, f in (("shapes", lambda s: s), ("sizes", AX.prod)):
        def go():
            try:
                got = lab.attr(v, name)
            except AbsRaise as e:
                return ob(ctx, "per-component", f"{key} {name}", False, f"raises {err(e)}", E_loc(lab, v, name))
            bad = []
            got = got if isinstance(got, dict) else {k: E.getitem(lab.ip, got, k) for k in lab.ip.iterate(got)}
            members = v.d["_data"] if "_data" in v.d else {k: x for k, x in v.d.items() if k not in ATTRS.get(v.cls.name, ())}
            if set(got) != set(members):
                bad.append(f"lists {sorted(got)}")
            for k, x in members.items():
                if k in got:
                    s = AX.sizes(x.sh) + x.feat() if isinstance(x, Num) else vshape(x)
                    if plain(got[k]) != f(s):
                        bad.append(f"{k}: {got[k]!r} instead of {f(s)!r}")
            return ob(ctx, "per-component", f"{key} {name}", not bad, "; ".join(bad), E_loc(lab, v, name))
        ctx.guard("per-component", f"{key} {name}", go)
    for name, (run, eff) in ops(full).items():
        if name in ("astype", "broadcast") and v.cls.name in ("FourVector", "Space"):
            continue                                  # no array interface: aval is not implemented
        ctx.guard("layout", f"{key} {name}", lambda: apply(ctx, lab, key, name, v, full, run, eff))


def vshape(o):
    """The batch shape of a vector by its own components."""
    sz = outer(o)
    return sz


def apply(ctx, lab, key, name, v, full, run, eff):
    lab.fresh()
    where = E_loc(lab, v, OPNAME.get(name.split("(")[0], "__getitem__" if name[0] == "[" else name.split("(")[0]))
    try:
        try:
            r = run(lab, v)
        except AX.Bad as e:
            lab.ip.raise_(e.cls, e.msg)
    except AbsRaise as e:
        return ob(ctx, "reject" if eff is None else "layout", f"{key} {name}", eff is None, f"raises {err(e)}", where)
    errs = [e for e in lab.ip.effects if e.kind == "error_if"]
    if eff is None:
        return ob(ctx, "reject", f"{key} {name}", bool(errs), "" if errs else f"accepted, shape {outer(r) if isinstance(r, Obj) else r!r}", where)
    if errs:
        raise Undecided(f"conditional error {errs[0].data!r}")
    bad = []
    if not isinstance(r, Obj) or r.cls is not v.cls:
        return ob(ctx, "keep", f"{key} {name}", False, f"gives {r!r}"[:150], where)
    a, b = dict(leaves(v, ())), dict(leaves(r, ()))
    if list(a) != list(b):
        return ob(ctx, "keep", f"{key} {name}", False, f"components {list(b)}"[:150], where)
    for p in a:
        if not (V.same(a[p].v, b[p].v) and a[p].ty is b[p].ty and V.same(a[p].unit, b[p].unit) and a[p].dim == b[p].dim):
            bad.append(f"{'.'.join(p)} is {b[p]!r}")
    x, y = dict(attrs(v)), dict(attrs(r))
    for p in x:
        if not isinstance(y.get(p), Num) or not V.same(x[p], y[p]):
            bad.append(f"attribute {'.'.join(p)} is {y.get(p)!r}")
    ob(ctx, "keep", f"{key} {name}", not bad, "; ".join(bad)[:200], where)
    bad = []
    want = None
    for p in a:
        w = eff(AX.broadcast_to(a[p].sh, full))
        want = AX.sizes(w)
        if not agrees(b[p].sh, w, a[p].sh):
            bad.append(f"{'.'.join(p)} {lay(b[p].sh)} instead of {lay(w)}")
    got = outer(r)
    if got != want:
        bad.append(f"result has shape {got} instead of {want}")
    return ob(ctx, "layout", f"{key} {name}", not bad, "; ".join(bad)[:200], where)


def agrees(got, want, orig):
    """Equal, or equal once axes the component does not depend on are left out."""
    if got == want:
        return True
    if not (got == () or AX.is_ax(got)):
        raise Undecided(f"shape {got!r}")
    dep = set(AX.sizes(orig))

    def cut(h):
        return {e for e in h if not (e[0] == "at" and e[1] not in dep)}
    try:
        return cut(AX.hist(got)) == cut(AX.hist(want)) and AX.bcast_sizes(AX.sizes(got), AX.sizes(want)) == AX.sizes(want)
    except AX.Bad:
        return False


def lay(sh):
    h = AX.hist(sh)
    return f"{AX.sizes(sh)}" + (f" by {h}" if h else "")


OPNAME = {}


def plain(x):
    if isinstance(x, Num) and x.sh == () and x.rank == 0:
        from .. import ring as R
        return x.v if isinstance(x.v, int) else x.v
    if isinstance(x, Shape):
        return AX.sizes(x.sh) + x.feat if x.sh == () or AX.is_ax(x.sh) else x
    return tuple(plain(y) for y in x) if isinstance(x, (tuple, list)) else x


def err(e):
    from ..vecs import err_text
    try:
        return err_text(e)
    except Exception:
        return repr(e)[:120]


def E_loc(lab, v, name):
    f, _ = v.cls.lookup(name)
    while hasattr(f, "f"):
        f = f.f
    m = getattr(f, "module", None)
    n = getattr(f, "node", None)
    if m is not None and n is not None:
        return f"{lab.ip.relpath(m.path)}:{n.lineno} in {f.name}"
    return f"{v.cls.name}.{name}"
