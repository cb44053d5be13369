"""C25: a space converts and transforms its members consistently."""
from ..lab import Result, OK, compare
from .. import values as V, ring as R, ext as E, axes as AX
from ..values import Num
from ..vecs import *  # noqa: F403
from .c27 import numbers

MIN = 60
P3 = "ProlateSpheroidalPos"
KEYS = ("length", "speed", "acceleration")
MIXED = [AX.mk("a"), AX.mk("b", "a"), ()]
HALF = V.dim_mul(V.DIMS["length"], V.dim_pow(V.DIMS["angular speed"], Fraction(1, 2)))


def check(ctx):
    lab = ctx.lab()
    ctx.rule("convert", "represent_as(space, T) holds, under the same keys, the position as a T, the velocity converted at the position of the space and the acceleration converted at its velocity and position")
    ctx.rule("same", "a space represented as a Space is that space")
    ctx.rule("poincare", "the Poincare vector of a space has its cylindrical rho, z and their speeds, and (pp_phi, d_pp_phi) has length sqrt(2 rho^2 |phi speed|) and the direction of phi")
    ctx.rule("back", "the space of a Poincare vector has its rho, z and their speeds, the direction of (pp_phi, d_pp_phi) as phi and their squared length over 2 rho^2 as phi speed; converting it again gives the Poincare vector back")
    ctx.rule("views", "len of the views, keys, values, items, asdict, indexing and membership show exactly the members under their keys")
    ctx.rule("negate", "-space negates every member")
    ctx.rule("units", "converting the units of a space converts those of every member")
    ctx.rule("reject", "members whose batch shapes do not broadcast, and keys that name one dimension twice, are refused")
    shapes = [[()], [AX.mk("a")], MIXED] + ([[AX.mk("a", "b")], [(), AX.mk("a")]] if ctx.thorough else [])
    for dim, names in POS.items():
        for a in names:
            for b in names:
                if P3 in (a, b) and not (ctx.thorough or a == names[0]):
                    continue
                for n in (1, 2, 3):
                    if n == 3 and (P3 in (a, b) or names[0] not in (a, b)) and not ctx.thorough:
                        continue
                    convert(ctx, lab, a, b, n)
    for sh in shapes:
        tag = {(): ""}.get(tuple(sh[0]) if len(sh) == 1 else None, f" batch {'/'.join(str(AX.sizes(s)) for s in sh)}")
        for a in [x for v in POS.values() for x in v]:
            for n in (1, 2, 3):
                members(ctx, lab, a, n, sh, tag)
            if a in POS[3]:
                poincare(ctx, lab, a, sh, tag)
        back(ctx, lab, sh, tag)
    reject(ctx, lab)


def mk(lab, a, n, sh=None):
    sp = SPECS[a]
    ms = dict(zip(KEYS, [lambda: mkpos(lab, a, "s.q."), lambda: mkdiff(lab, sp.vel, "s.v.", 1), lambda: mkdiff(lab, sp.acc, "s.a.", 2)][:n]))
    ms = {k: f() for k, f in ms.items()}
    if sh is not None:
        it = [list(sh)]
        for k in ms:
            ms[k] = reshape_leaves(lab, ms[k], it[0])
            it[0] = it[0][1:] + it[0][:1]
    return ms


def same_object(lab, got, want, label=""):
    if not isinstance(got, Obj):
        return Result("und" if not isinstance(got, Num) else "bad", f"{label} is {got!r}"[:120])
    if got.cls is not want.cls:
        return Result("bad", f"{label} is a {got.cls.name}, not a {want.cls.name}")
    (g, gs), (w, ws) = numbers(got), numbers(want)
    if list(g) != list(w):
        return Result("bad", f"{label} has fields {sorted(g)}")
    if [AX.sizes(s) if AX.is_ax(s) or s == () else s for s in gs] != [AX.sizes(s) if AX.is_ax(s) or s == () else s for s in ws]:
        return Result("bad", f"{label} has batch shapes {gs}, wanted {ws}"[:200])
    ps = [(k, g[k], w[k]) for k in w if not V.same(g[k], w[k])]
    return compare(lab.s, [(x, y) for _, x, y in ps], [f"{label}.{k}" for k, _, _ in ps]) if ps else OK


def same_space(lab, got, want):
    """got is a Space holding exactly the given members."""
    if not isinstance(got, Obj) or got.cls.name != "Space" or not isinstance(got.d.get("_data"), dict):
        return Result("und" if not isinstance(got, (Obj, Num)) else "bad", f"gives {got!r}"[:120])
    d = got.d["_data"]
    if set(d) != set(want):
        return Result("bad", f"keys {sorted(map(str, d))}, wanted {sorted(want)}")
    for k, w in want.items():
        x = same_object(lab, d[k], w, k)
        if x.status != "ok":
            return x
    return OK


def convert(ctx, lab, a, b, n):
    def go():
        lab.fresh()
        ms = mk(lab, a, n)
        s = mk_space(lab, **ms)
        try:
            r = lab.call("represent_as", s, vcls(lab, b))
        except AbsRaise:
            if b == P3 and a != P3:     # needs a focal length, which the call does not take
                return None
            raise
        T = SPECS[b]
        want = {"length": lab.call("represent_as", ms["length"], vcls(lab, b))}
        if n > 1:
            want["speed"] = lab.call("represent_as", ms["speed"], vcls(lab, T.vel), ms["length"])
        if n > 2:
            want["acceleration"] = lab.call("represent_as", ms["acceleration"], vcls(lab, T.acc), ms["speed"], ms["length"])
        return same_space(lab, r, want)
    ctx.guard("convert", f"Space of {a} ({', '.join(KEYS[:n])}) -> {b}", go)


def members(ctx, lab, a, n, sh, tag):
    key = f"Space of {a} ({', '.join(KEYS[:n])}){tag}"

    def space():
        lab.fresh()
        ms = mk(lab, a, n, sh)
        return mk_space(lab, **ms), ms

    def ident():
        s, ms = space()
        return same_space(lab, lab.call("represent_as", s, lab.get("coordinax.Space")), ms)
    ctx.guard("same", key, ident)

    def neg():
        s, ms = space()
        r = E.unop(lab.ip, "USub", s)
        return same_space(lab, r, {k: E.unop(lab.ip, "USub", m) for k, m in ms.items()})
    if a != "RadialPos":
        ctx.guard("negate", key, neg)

    def views():
        s, ms = space()
        ip = lab.ip
        ks = ip.iterate(ip.call(lab.attr(s, "keys"), [], {})) if hasattr(ip, "iterate") else list(ip.call(lab.attr(s, "keys"), [], {}))
        if list(ks) != list(ms):
            return Result("bad", f"keys {ks}")
        for nm, vs in (("values", list(ip.call(lab.attr(s, "values"), [], {}))), ("items", [x[1] for x in ip.call(lab.attr(s, "items"), [], {})]),
                       ("asdict", list(ip.call(lab.attr(s, "asdict"), [], {}).values())), ("indexing", [E.getitem(ip, s, k) for k in ms]),
                       ("indexing by dimension", [E.getitem(ip, s, V.Dim(V.DIMS[k])) for k in ms])):
            if len(vs) != len(ms):
                return Result("bad", f"{nm} has {len(vs)} members")
            for (k, m), v in zip(ms.items(), vs):
                x = same_object(lab, v, m, f"{nm} {k}")
                if x.status != "ok":
                    return x
        for k in KEYS:
            if E.compare(ip, "In", k, s) is not (k in ms):
                return Result("bad", f"{k} in space is {E.compare(ip, 'In', k, s)}")
        return OK
    ctx.guard("views", key, views)

    def units():
        s, ms = space()
        us = {k: lab.unit(f"to {k}", V.DIMS[k]) for k in KEYS}
        us.update({k: lab.unit(f"to {k}", V.DIMS[k]) for k in ("angle", "angular speed", "angular acceleration", "area", "diffusivity", "specific energy")
                   if k in V.DIMS})
        r = lab.ip.call(lab.attr(s, "uconvert"), [us], {})
        return same_space(lab, r, {k: lab.ip.call(lab.attr(m, "uconvert"), [us], {}) for k, m in ms.items()})
    if a != P3:
        ctx.guard("units", key, units)


def poincare(ctx, lab, a, sh, tag):
    def go():
        lab.fresh()
        ms = mk(lab, a, 2, sh)
        s = mk_space(lab, **ms)
        r = lab.call("represent_as", s, vcls(lab, "PoincarePolarVector"))
        q = lab.call("represent_as", ms["length"], vcls(lab, "CylindricalPos"))
        p = lab.call("represent_as", ms["speed"], vcls(lab, "CylindricalVel"), q)
        if not isinstance(r, Obj) or r.cls.name != "PoincarePolarVector":
            return Result("bad", f"gives {r!r}"[:100])
        pairs = []
        for n, w in (("rho", q.d["rho"]), ("z", q.d["z"]), ("d_rho", p.d["d_rho"]), ("d_z", p.d["d_z"])):
            if r.d[n].dim != w.dim:
                return Result("bad", f"{n} has dimension {r.d[n].dim}")
            pairs.append((n, r.d[n].v, w.v))
        for n in ("pp_phi", "d_pp_phi"):
            if r.d[n].dim != HALF:
                return Result("bad", f"{n} has dimension {r.d[n].dim}")
        rho, phi, w = q.d["rho"].v, q.d["phi"].v, p.d["d_phi"].v
        size = V.tlift(lambda r, w: R.sqrt(R.mul(R.mul(R.const(2), R.mul(r, r)), R.abs_(w))), rho, w)
        pairs.append(("pp_phi", r.d["pp_phi"].v, V.tlift(lambda s, f: R.mul(s, R.cos(f)), size, phi)))
        pairs.append(("d_pp_phi", r.d["d_pp_phi"].v, V.tlift(lambda s, f: R.mul(s, R.sin(f)), size, phi)))
        return compare(lab.s, [(x, y) for _, x, y in pairs], [n for n, _, _ in pairs])
    if a != P3:
        ctx.guard("poincare", f"Space of {a} -> PoincarePolarVector{tag}", go)


def back(ctx, lab, sh, tag):
    def mkp():
        c = vcls(lab, "PoincarePolarVector")
        L, S = V.DIMS["length"], V.DIMS["speed"]
        pos = lab.q("w.rho", L, x=lab.var("w.rho", pos=True))
        o = frozen(lab, c, {"rho": pos, "pp_phi": lab.q("w.pp", HALF), "z": lab.q("w.z", L), "d_rho": lab.q("w.d_rho", S),
                            "d_pp_phi": lab.q("w.dpp", HALF), "d_z": lab.q("w.d_z", S)})
        return reshape_leaves(lab, o, sh)

    def to():
        lab.fresh()
        w = mkp()
        r = lab.call("represent_as", w, lab.get("coordinax.Space"))
        d = r.d.get("_data") if isinstance(r, Obj) else None
        if not isinstance(d, dict) or set(d) != {"length", "speed"}:
            return Result("bad", f"gives {r!r}"[:120])
        q, p = d["length"], d["speed"]
        if q.cls.name != "CylindricalPos" or p.cls.name != "CylindricalVel":
            return Result("bad", f"holds a {q.cls.name} and a {p.cls.name}")
        a, b, rho = w.d["pp_phi"].v, w.d["d_pp_phi"].v, w.d["rho"].v
        h = V.tlift(lambda a, b: R.sqrt(R.add(R.mul(a, a), R.mul(b, b))), a, b)
        phi = q.d["phi"].v
        ps = [("rho", q.d["rho"].v, rho), ("z", q.d["z"].v, w.d["z"].v), ("d_rho", p.d["d_rho"].v, w.d["d_rho"].v), ("d_z", p.d["d_z"].v, w.d["d_z"].v),
              ("cos phi", V.tlift(lambda f, h: R.mul(R.cos(f), h), phi, h), a), ("sin phi", V.tlift(lambda f, h: R.mul(R.sin(f), h), phi, h), b),
              ("d_phi", V.tlift(lambda x, r: R.mul(R.mul(R.const(2), R.mul(r, r)), x), p.d["d_phi"].v, rho), V.tlift(lambda h: R.mul(h, h), h))]
        return compare(lab.s, [(x, y) for _, x, y in ps], [n for n, _, _ in ps])
    ctx.guard("back", f"PoincarePolarVector -> Space{tag}", to)

    def again():
        lab.fresh()
        w = mkp()
        r = lab.call("represent_as", lab.call("represent_as", w, lab.get("coordinax.Space")), vcls(lab, "PoincarePolarVector"))
        if not isinstance(r, Obj) or r.cls is not w.cls:
            return Result("bad", f"gives {r!r}"[:120])
        return compare(lab.s, [(r.d[n].v, w.d[n].v) for n in w.d], list(w.d))
    ctx.guard("back", f"PoincarePolarVector -> Space -> PoincarePolarVector{tag}", again)


def three(lab, a, s, i, j, third):
    ms = {"length": mkpos(lab, a, "s.q."), "speed": mkdiff(lab, s.vel, "s.v.", 1), "acceleration": mkdiff(lab, s.acc, "s.a.", 2)}
    shapes = [third] * 3
    shapes[i], shapes[j] = AX.mk("a"), AX.mk("b")
    return {k: reshape_leaves(lab, m, [sh]) for (k, m), sh in zip(ms.items(), shapes)}


def reject(ctx, lab):
    SP = lab.get("coordinax.Space")

    def expect(label, make):
        def go():
            lab.fresh()
            try:
                args, kw = make()
                r = lab.ip.call(SP, args, kw)
            except AbsRaise:
                return OK
            bad = errors_feasible(lab, lab.ip.effects)
            if bad and bad[0] is not None:
                return OK
            return Result("bad", f"accepted: {r!r}"[:200])
        ctx.guard("reject", label, go)

    for a in [x for v in POS.values() for x in v]:
        s = SPECS[a]
        expect(f"{a} of shape (a,), velocity of shape (b,)", lambda a=a, s=s: ([], {
            "length": reshape_leaves(lab, mkpos(lab, a, "s.q."), [AX.mk("a")]), "speed": reshape_leaves(lab, mkdiff(lab, s.vel, "s.v.", 1), [AX.mk("b")])}))
        if s.acc:
            for i, j in ((0, 1), (0, 2), (1, 2)):      # the third member fits both
                for third in (AX.mk(), AX.mk(1), AX.mk("a")):
                    expect(f"{a} and derivatives, members {i + 1} and {j + 1} of shapes (a,) and (b,), the other of shape {AX.sizes(third)!r}",
                           lambda a=a, s=s, i=i, j=j, third=third: ([], three(lab, a, s, i, j, third)))
        for k1, k2 in (("speed", "velocity"), ("velocity", "speed")):
            expect(f"{s.vel} under {k1} and {k2}", lambda s=s, k1=k1, k2=k2: ([{k1: mkdiff(lab, s.vel, "s.v.", 1, sh=()), k2: mkdiff(lab, s.vel, "s.w.", 1, sh=())}], {}))
