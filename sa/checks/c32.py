"""C32: a vector describes its own components truthfully."""
from .. import axes as AX, values as V, ext as E
from .c12 import plain, vshape
from ..lab import Result, OK
from ..values import Num
from ..vecs import *  # noqa: F403

MIN = 150


def check(ctx):
    lab = ctx.lab()
    ctx.rule("components", "components lists exactly the component fields in the order of their declaration, for the class and its instances")
    ctx.rule("units", "units gives every component its own unit")
    ctx.rule("storage", "dtypes and devices give every component its own dtype and device")
    ctx.rule("sizes", "shapes and sizes give every component its own shape and size, also where the components have different shapes")
    ctx.rule("asdict", "asdict hands every field with its unchanged value, in order, to the chosen mapping type")
    ctx.rule("print", "the printed form names the class and the components in order with their units, and shows their values in those units in that order")
    ctx.rule("fields", "the fields, keys, values and items of a space are its members, and replacing a member changes that member only")
    shapes = [AX.mk("a", "b"), AX.mk(), AX.mk("b")]
    for label, o in every(lab):
        one(ctx, lab, label, o)
        for i in range(3):
            sizes(ctx, lab, f"{label}, component shapes {i + 1}", reshape_leaves(lab, o, shapes[i:] + shapes[:i]))


def sizes(ctx, lab, label, o):
    want = {k: AX.sizes(x.sh) + x.feat() if isinstance(x, Num) else vshape(x) for k, x in parts(o).items()}
    for name, f in (("shapes", lambda s: s), ("sizes", AX.prod)):
        def go():
            lab.fresh()
            got = mapping(lab, lab.attr(o, name))
            if list(got) != list(want):
                return Result("bad", f"lists {list(got)}, the components are {list(want)}")
            bad = [k for k in want if plain(got[k]) != f(want[k])]
            return Result("bad", f"{bad[0]} is {got[bad[0]]!r} instead of {f(want[bad[0]])!r}") if bad else OK
        ctx.guard("sizes", f"{name} of {label}", go)


def parts(o):
    """name -> value of the components, in order of declaration."""
    if "_data" in o.d:
        return dict(o.d["_data"])
    return {k: x for k, x in o.d.items() if k not in ATTRS.get(o.cls.name, ())}


def declared(lab, o):
    return [f.name for f in lab.ip.all_fields(o.cls) if f.name in o.d and f.name not in ATTRS.get(o.cls.name, ())]


def mapping(lab, m):
    return m if isinstance(m, dict) else {k: E.getitem(lab.ip, m, k) for k in lab.ip.iterate(m)}


def listed(lab, got, o, leaf, label=""):
    """The (nested) mapping `got` gives leaf(x) for every component x of o, in order."""
    got = mapping(lab, got)
    want = parts(o)
    if list(got) != list(want):
        return Result("bad", f"{label or 'it'} lists {list(got)}, the components are {list(want)}")
    for k, x in want.items():
        tag = f"{label}.{k}" if label else k
        if isinstance(x, Obj):
            if not isinstance(got[k], dict):
                return Result("bad", f"{tag} is {got[k]!r}, not the description of the components of a {x.cls.name}"[:200])
            r = listed(lab, got[k], x, leaf, tag)
            if r.status != "ok":
                return r
        elif not same(got[k], leaf(x)):
            return Result("bad", f"{tag} is {got[k]!r}, the component has {leaf(x)!r}"[:200])
    return OK


def same(a, b):
    if isinstance(a, (Num, Obj)) or isinstance(b, (Num, Obj)):
        return V.same(a, b)
    return type(a) is type(b) and repr(a) == repr(b)


def one(ctx, lab, label, o):
    space = o.cls.name == "Space"

    def guard(rule, what, f):
        def go():
            lab.fresh()
            return f()
        ctx.guard(rule, f"{label}{what}", go)

    def components(x):
        def go():
            got = lab.attr(x, "components")
            want = tuple(declared(lab, o))
            return OK if tuple(got) == want else Result("bad", f"is {got!r}, the component fields are {want}"[:200])
        return go

    def attr(name, leaf):
        return lambda: listed(lab, lab.attr(o, name), o, leaf)

    if not space:
        guard("components", "", components(o))
        guard("components", " (class)", components(o.cls))
        guard("units", "", attr("units", lambda x: lab.attr(x, "unit")))
        guard("print", "", lambda: printed(lab, o))
    for name in ("dtypes", "devices"):
        if o.cls.name != "FourVector" or name == "devices":      # the dtype of a spatial part is that of its array form
            guard("storage", f".{name}", attr(name, lambda x, n=name[:-1]: lab.attr(x, n)))

    def whole(m):
        m = mapping(lab, m)
        want = o.d["_data"] if space else o.d
        if list(m) != list(want):
            return Result("bad", f"has keys {list(m)}, the fields are {list(want)}")
        bad = [k for k in want if not (m[k] is want[k] or same(m[k], want[k]))]
        return Result("bad", f"{bad[0]} is {m[bad[0]]!r}, the field has {want[bad[0]]!r}"[:200]) if bad else OK

    guard("asdict", "", lambda: whole(lab.ip.call(lab.attr(o, "asdict"), [], {})))

    def factory():
        f = lab.ip.builtins["list"]
        r = lab.ip.call(lab.attr(o, "asdict"), [], {"dict_factory": f})
        if not isinstance(r, list):
            return Result("bad", f"gives {r!r} for dict_factory=list"[:150])
        return whole(dict(r if r and isinstance(r[0], tuple) else [(k, (o.d.get("_data") or o.d)[k]) for k in r]))
    guard("asdict", " dict_factory", factory)
    if space:
        members(guard, lab, o)


def members(guard, lab, o):
    ms = o.d["_data"]
    P = lab.ip.plum

    def as_list(x):
        return list(x.items()) if isinstance(x, dict) else list(lab.ip.iterate(x))

    def keys():
        got = as_list_keys(lab.ip.call(P["field_keys"], [o], {}))
        return OK if got == list(ms) else Result("bad", f"field_keys gives {got}"[:150])

    def as_list_keys(x):
        return list(x) if isinstance(x, dict) else list(lab.ip.iterate(x))

    def values():
        got = as_list_keys(lab.ip.call(P["field_values"], [o], {}))
        ok = len(got) == len(ms) and all(same(a, b) for a, b in zip(got, ms.values()))
        return OK if ok else Result("bad", f"field_values gives {got!r}"[:150])

    def items():
        got = as_list(lab.ip.call(P["field_items"], [o], {}))
        ok = [k for k, _ in got] == list(ms) and all(same(v, ms[k]) for k, v in got)
        return OK if ok else Result("bad", f"field_items gives {got!r}"[:150])

    def repl(k):
        def go():
            other = E.unop(lab.ip, "UAdd", ms[k])
            new = Obj(other.cls, {n: (x.with_(v=V.vmap1(lambda t: V.tlift(lambda y: V.R.mul(V.R.const(2), y), t), x.v))
                                      if isinstance(x, Num) and n not in ATTRS.get(other.cls.name, ()) else x) for n, x in other.d.items()})
            new.frozen = True
            r = lab.ip.call(P["replace"], [o], {k: new})
            d = r.d.get("_data") if isinstance(r, Obj) else None
            if not isinstance(d, dict) or list(d) != list(ms):
                return Result("bad", f"replace gives {r!r}"[:150])
            for n, m in ms.items():
                if not same(d[n], new if n == k else m):
                    return Result("bad", f"replacing {k}: {n} is {d[n]!r}"[:200])
            return OK
        return go
    guard("fields", " keys", keys)
    guard("fields", " values", values)
    guard("fields", " items", items)
    for k in ms:
        guard("fields", f" replace {k}", repl(k))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def printed(lab, o):
    lab.ip.printed = []
    s = lab.ip.call(lab.attr(o, "__str__"), [], {})
    if not isinstance(s, str):
        return Result("und", f"prints {s!r}"[:100])
    if o.cls.name not in s:
        return Result("bad", f"prints {s!r} without the class name"[:200])
    at, cs = 0, []
    for k, x in parts(o).items():
        cs += [(k, x)] if isinstance(x, Num) else [(n, y) for n, y in parts(x).items()]
    for k, x in cs:
        piece = f"{k}[{lab.attr(x, 'unit')!r}]"
        i = s.find(piece, at)
        if i < 0:
            return Result("bad" if "[" in s else "und", f"prints {s!r}: no {piece} after position {at}"[:250])
        at = i + len(piece)
    vs = lab.ip.printed
    if len(vs) != 1 or not isinstance(vs[0], Num) or not isinstance(vs[0].v, list):
        return Result("und", f"shows {vs!r}"[:150])
    want = []
    for _, x in cs:
        y = lab.attr(x, "value").v
        want.append(y)
    got = vs[0].v
    if len(cs) == 1 and isinstance(want[0], list):
        got, want = flat(got), want[0]
    if len(got) != len(want):
        return Result("bad", f"shows {len(got)} values for {len(want)} components")
    bad = [k for (k, _), g, w in zip(cs if len(cs) == len(got) else [(str(i), 0) for i in range(len(got))], got, want) if not V.same(g, w)]
    return Result("bad", f"the value shown for {bad[0]} is not its value in its unit") if bad else OK
