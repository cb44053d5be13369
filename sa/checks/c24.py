"""C24: position, velocity and acceleration classes are linked one to one."""
from ..lab import Result, OK
from .. import values as V
from ..specs import SPECS, KDIM
from ..vecs import *  # noqa: F403
from .. import ring as R

R_ONE = R.const(1)

MIN = 250
BASES = ("AbstractPos", "AbstractVel", "AbstractAcc")
ALT = {"LonCosLatSphericalVel": "LonLatSphericalVel"}      # a second velocity type of one position type
UNLINKED = ("PoincarePolarVector", "FourVector", "CartesianGeneric3D", "Space")
DIMS = ("length", "angle", "time", "speed", "angular speed", "acceleration", "angular acceleration", "area", "mass")


def check(ctx):
    lab = ctx.lab()
    ctx.rule("link", "differential_cls and integral_cls are inverse to each other, and each gives a class of the right order and dimension")
    ctx.rule("cartesian", "the Cartesian classes of linked classes are linked, and a Cartesian class is its own")
    ctx.rule("components", "linked classes have the same number of components, with the same names in the same order after d_ and d2_")
    ctx.rule("dimension", "a component accepts exactly the dimension of the position's component divided by time once or twice")
    ctx.rule("instance", "an instance reports the links, components and component order of its class")
    found = discover(lab)
    for name, (cls, order) in sorted(found.items()):
        if name in UNLINKED:
            continue
        links(ctx, lab, name, cls, order)
    for want in [n for s in SPECS.values() for n in (s.name, s.vel, s.acc)] + list(ALT) + [NDC[i][0] for i in range(3)]:
        def have(want=want):
            return OK if want in found else Result("bad", "is not a public concrete class of its kind")
        ctx.guard("link", f"{want} is public", have)
    for s in SPECS.values():
        dims(ctx, lab, s)
        for order, n in enumerate((s.name, s.vel, s.acc)):
            names(ctx, lab, n, [("", "d_", "d2_")[order] + c for c, _ in s.comps])
            instance(ctx, lab, s, order, n)
    for n, of in ALT.items():
        names(ctx, lab, n, ["d_lon_coslat", "d_lat", "d_distance"])
        dims_of(ctx, lab, n, {"d_lon_coslat": V.dim_mul(V.DIMS["angle"], V.DIMS["time"], -1), "d_lat": V.dim_mul(V.DIMS["angle"], V.DIMS["time"], -1),
                              "d_distance": V.DIMS["speed"]})
    for i in range(3):
        n, f, dim = NDC[i]
        names(ctx, lab, n, [f])
        dims_of(ctx, lab, n, {f: dim}, feat=3)


def discover(lab):
    """Public concrete classes and their order (0 position, 1 velocity, 2 acceleration)."""
    out = {}
    bases = [lab.get("coordinax.vecs." + b) for b in BASES]
    mod = lab.get("coordinax.vecs")
    for k in list(mod.ns):
        v = mod.ns[k]
        if isinstance(v, V.Cls) and not v.name.startswith("Abstract"):
            for i, b in enumerate(bases):
                if b in v.mro:
                    out[v.name] = (v, i)
    return out


def cls_of(x):
    return x if isinstance(x, V.Cls) else None


def links(ctx, lab, name, cls, order):
    INV = {"differential_cls": "integral_cls", "integral_cls": "differential_cls"}

    def link(attr, step):
        def go():
            lab.fresh()
            o = cls_of(lab.attr(cls, attr))
            if o is None:
                return Result("und", f"{attr} is not a known class")
            want = lab.get("coordinax.vecs." + BASES[order + step])
            if want not in o.mro:
                return Result("bad", f"{attr} is {o.name}, not a kind of {want.name}")
            a, b = dim_of(lab, cls), dim_of(lab, o)
            if a != b:
                return Result("bad", f"{attr} {o.name} has dimension {b}, {name} has {a}")
            back = cls_of(lab.attr(o, INV[attr]))
            if back is not cls and not (name in ALT and back is not None and back.name == ALT[name]):
                return Result("bad", f"{attr} is {o.name}, whose {INV[attr]} is {back.name if back else back}")
            if name in ALT:
                main = lab.get("coordinax.vecs." + ALT[name])
                return OK if lab.attr(main, attr) is o else Result("bad", f"{attr} is {o.name}, that of {ALT[name]} is not")
            return OK
        ctx.guard("link", f"{name}.{attr}", go)

        def cart():
            lab.fresh()
            o = lab.attr(cls, attr)
            a = lab.attr(lab.attr(cls, "_cartesian_cls"), attr)
            b = lab.attr(o, "_cartesian_cls")
            return OK if a is b else Result("bad", f"the Cartesian class of {o.name} is {b!r}, the {attr} of the Cartesian class is {a!r}")
        ctx.guard("cartesian", f"{name}, {attr}", cart)
    if order < 2:
        link("differential_cls", 1)
    if order > 0:
        link("integral_cls", -1)

    def own():
        lab.fresh()
        c = cls_of(lab.attr(cls, "_cartesian_cls"))
        if c is None:
            return Result("und", "_cartesian_cls is not a known class")
        if not c.name.startswith("Cartesian") or dim_of(lab, c) != dim_of(lab, cls) or lab.get("coordinax.vecs." + BASES[order]) not in c.mro:
            return Result("bad", f"_cartesian_cls is {c.name}")
        return OK if lab.attr(c, "_cartesian_cls") is c else Result("bad", f"{c.name} is not its own Cartesian class")
    ctx.guard("cartesian", f"{name}", own)


def dim_of(lab, c):
    for m in c.mro:
        if m.name[:8] == "Abstract" and m.name[-2:] in ("1D", "2D", "3D", "4D", "ND"):
            return m.name[-2:]
    return None


def names(ctx, lab, name, want):
    def go():
        lab.fresh()
        got = tuple(lab.attr(vcls(lab, name), "components"))
        return OK if got == tuple(want) else Result("bad", f"components {got}, wanted {tuple(want)}")
    ctx.guard("components", name, go)


def dims(ctx, lab, s):
    for order, n in enumerate((s.name, s.vel, s.acc)):
        d = {("", "d_", "d2_")[order] + c: V.dim_mul(KDIM[k], V.dim_pow(V.DIMS["time"], order), -1) if order else KDIM[k] for c, k in s.comps}
        dims_of(ctx, lab, n, d, skip={c for c, k in s.comps if k == "rad"} if order == 0 else ())


def dims_of(ctx, lab, name, dims, skip=(), feat=None):
    """Each component refuses a quantity of another dimension and takes one of its own."""
    def num(n, dim):
        q = lab.q(n, dim, sh=("B",))
        return q if feat is None else lab.q(n, dim, x=R_ONE, sh=("B",)).with_(v=[lab.var(f"{n}{i}") for i in range(feat)])
    for comp in dims:
        def go(comp=comp):
            lab.fresh()
            c = vcls(lab, name)
            good = {}
            for k, d in dims.items():
                good[k] = num(k, d)
            if name == "ProlateSpheroidalPos":
                good["Delta"] = lab.q("Delta", "length", x=lab.var("Delta", pos=True), sh=())
            try:
                o = lab.ip.call(c, [], dict(good))
            except AbsRaise as e:
                return Result("bad", f"refuses {dims}: {e}"[:150])
            got = o.d[comp]
            if not isinstance(got, V.Num) or got.dim != dims[comp]:
                return Result("bad", f"stores {got!r} of dimension {getattr(got, 'dim', None)}")
            for d in DIMS:
                t = V.DIMS[d]
                if t == dims[comp] or comp in skip and d == "angle":
                    continue
                try:
                    lab.ip.call(c, [], {**good, comp: num("wrong", t)})
                except AbsRaise:
                    continue
                return Result("bad", f"{comp} takes a quantity of dimension {d}")
            return OK
        ctx.guard("dimension", f"{name}.{comp}", go)


def instance(ctx, lab, s, order, name):
    def go():
        lab.fresh()
        o = mkpos(lab, name) if order == 0 else mkdiff(lab, name, "v.", order)
        want = [("", "d_", "d2_")[order] + c for c, _ in s.comps]
        if tuple(lab.attr(o, "components")) != tuple(want):
            return Result("bad", f"components {lab.attr(o, 'components')!r}")
        for a in (["differential_cls"] if order < 2 else []) + (["integral_cls"] if order else []) + ["_cartesian_cls"]:
            if lab.attr(o, a) is not lab.attr(o.cls, a):
                return Result("bad", f"{a} differs from that of the class")
        got = [k for k in o.d if k in want]
        return OK if got == want else Result("bad", f"stored in the order {got}")
    ctx.guard("instance", name, go)
