"""C11: unit conversion changes units only."""
from .. import ext as E, ring as R, values as V
from ..vecs import *  # noqa: F403
from .c12 import leaves, attrs, ob, err, E_loc

MIN = 250


def check(ctx):
    lab = ctx.lab()
    ctx.rule("value", "every component keeps its physical value, class and batch shape, every attribute stays as it is")
    ctx.rule("unit", "every component gets the unit the unit system or mapping holds for its dimension")
    ctx.rule("consistent", "components of one dimension get one unit, that of the first of them; others keep theirs")
    ctx.rule("type", "the vector keeps its class, and its members theirs")
    ctx.rule("reject", "a component whose dimension the mapping lacks is refused")
    vs = every(lab)
    for name, f in DIST_RAD.items():
        for kind in ("Parallax", "DistanceModulus"):
            vs.append((f"{name} with {kind}", mkpos(lab, name, f"{name}.{kind}.", radius=kind)))
    for label, v in vs:
        ls = leaves(v, ())
        dims = []
        for _, n in ls:
            if n.dim not in dims:
                dims.append(n.dim)
        mag = V.MAG and any(n.dim == V.DIMS["magnitude"] for _, n in ls)
        for form, name, arg, want in forms(lab, v, ls, dims, mag):
            for how in ("function", "method"):
                ctx.guard("value", f"{label} by {form} ({how})", lambda: one(ctx, lab, f"{label} by {form} ({how})", v, ls, arg, how, want, name))


def forms(lab, v, ls, dims, mag):
    us = E.unit_system(lab.ip, "any")
    if not mag:
        yield "unit system", "unit", us, lambda p, n: E.usys_unit(lab.ip, us, n.dim).x
    m = {Dim(d): lab.unit(f"want{k}", d) for k, d in enumerate(dims)}
    extra = {**m, Dim(V.DIMS["mass"]): lab.unit("wantM", V.DIMS["mass"])}
    tab = {d.d: u for d, u in m.items()}
    named = {}
    for d, u in m.items():
        nm = [k for k, x in V.DIMS.items() if x == d.d and k and "/" not in k]
        named[nm[0] if nm else d] = u
    if not mag:
        yield "mapping from dimensions", "unit", m, lambda p, n: tab[n.dim].x
        yield "mapping with names of dimensions", "unit", named, lambda p, n: tab[n.dim].x
        yield "mapping with other dimensions", "unit", extra, lambda p, n: tab[n.dim].x
        first = next(iter(m))
        if len(m) > 1:
            yield "incomplete mapping", "unit", {first: m[first]}, None
    opts = lab.get("coordinax.vecs.ToUnitsOptions")
    # per object: a member vector is made consistent by itself
    ref = {}
    for p, n in ls:
        ref.setdefault((p[:-1], n.dim), n.unit)
    yield "consistent option", "consistent", lab.attr(opts, "consistent"), lambda p, n: ref[(p[:-1], n.dim)]


def one(ctx, lab, key, v, ls, arg, how, want, rule):
    where = E_loc(lab, v, "uconvert") if how == "method" else "coordinax/_src/vectors/base/compat.py uconvert"
    lab.fresh()
    try:
        r = lab.call("uconvert", arg, v) if how == "function" else lab.call(lab.attr(v, "uconvert"), arg)
    except AbsRaise as e:
        if want is None:
            return ob(ctx, "reject", key, True)
        return ob(ctx, "value", key, False, f"raises {err(e)}", where)
    if want is None:
        return ob(ctx, "reject", key, False, f"accepted: {r!r}"[:150], where)
    if not isinstance(r, Obj) or r.cls is not v.cls:
        return ob(ctx, "type", key, False, f"gives {r.cls.name if isinstance(r, Obj) else r!r}", where)
    a, b = dict(ls), dict(leaves(r, ()))
    bad = [] if list(a) == list(b) else [f"components {list(b)}"]
    bad += [f"{'.'.join(p)} is a {y.cls.name}" for p, x, y in members(v, r) if x.cls is not y.cls]
    ob(ctx, "type", key, not bad, "; ".join(bad)[:200], where)
    if bad:
        return
    x, y = dict(attrs(v)), dict(attrs(r))
    bad = [f"attribute {'.'.join(p)} is {y.get(p)!r}" for p in x if not isinstance(y.get(p), Num) or not V.same(x[p], y[p])]
    ubad = []
    for p in a:
        g, o = b[p], a[p]
        if g.dim != o.dim or g.ty is not o.ty or g.sh != o.sh:
            bad.append(f"{'.'.join(p)} is a {g.ty.name} of dimension {Dim(g.dim)} and shape {g.sh}")
        elif not V.same(g.v, o.v):
            bad.append(f"{'.'.join(p)} has value {g.v!r}")
        if not V.same(g.unit, want(p, o)):
            ubad.append(f"{'.'.join(p)} in {g.unit!r} instead of {want(p, o)!r}")
    ob(ctx, "value", key, not bad, "; ".join(bad)[:200], where)
    ob(ctx, rule, key, not ubad, "; ".join(ubad)[:200], where)


def members(a, b, path=()):
    out = []
    da = a.d["_data"] if "_data" in a.d else a.d
    db = b.d["_data"] if "_data" in b.d else b.d
    for k in da:
        if isinstance(da[k], Obj) and isinstance(db.get(k), Obj):
            out.append((path + (k,), da[k], db[k]))
            out += members(da[k], db[k], path + (k,))
    return out
