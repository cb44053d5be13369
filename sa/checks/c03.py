"""C03: lossy dimension changes always warn, lossless ones never do."""
from ..lab import Result, OK, feasible, joint
from .. import values as V
from ..vecs import *  # noqa: F403
from .c02 import UP, DOWN, OPTIONAL, run, _key, variants

MIN = 60


def warns(lab, eff):
    """(gated truth of 'a dimension warning is emitted', first site)."""
    t, site = False, None
    for e in eff:
        if e.kind != "warn":
            continue
        cat = e.data[0]
        if not (isinstance(cat, Cls) and cat.name == "IrreversibleDimensionChange"):
            continue
        g = True
        for p, val in e.guards:
            g = V.b_and(g, p if val else V.b_not(p)) if p is not True else g
        t = V.b_or(t, g)
        site = site or e.loc
    return t, site


def check(ctx):
    lab = ctx.lab()
    ctx.rule("warns", "every path of a conversion to lower dimension emits IrreversibleDimensionChange")
    ctx.rule("silent", "no path of a conversion to the same or a higher dimension emits IrreversibleDimensionChange")
    for (a, b) in DOWN + OPTIONAL:
        for rad in variants(ctx, a):
            for via in ("function", "method") if rad == "Quantity" or ctx.thorough else ("function",):
                one(ctx, lab, a, b, rad, via, (), True, (a, b) in OPTIONAL)
    for (a, b), names in UP.items():
        for rad in variants(ctx, a):
            for given in ((), names):
                one(ctx, lab, a, b, rad, "function", given, False)
    for names in POS.values():
        for a in names:
            for b in names:
                for rad in variants(ctx, a):
                    one(ctx, lab, a, b, rad, "function", (), False)


def one(ctx, lab, a, b, rad, via, given, want, optional=False):
    rule = "warns" if want else "silent"

    def go():
        neg_ok = not (a == "CartesianPos1D" and b in ("PolarPos", "CylindricalPos", "RadialPos"))
        try:
            o, kw, r, eff = run(lab, a, b, rad, via, given, neg_ok)
        except AbsRaise as e:
            if optional and e.exc.cls.name in ("LookupError", "NotFoundLookupError", "RecursionError"):
                return None
            raise
        t, site = warns(lab, eff)
        und = None
        for path, (leaf,) in joint([t]):
            if leaf is want:
                continue
            if not isinstance(leaf, bool):
                und = Result("und", f"{leaf!r}"[:100])
            elif feasible(lab.s, path):
                gate = " and ".join(f"{'' if v else 'not '}{p}" for p, v in path)
                return Result("bad", (f"returns without the warning" if want else f"emits the warning at {site}")
                              + (f" when {gate}" if gate else ""))
            else:
                und = Result("und", "gate feasibility")
        return und or OK
    ctx.guard(rule, _key(a, b, rad, via, given), go)
