"""Emptiness of a gate path in the polyhedral domain (rational linear inequalities over monomials).

The facts known about the atoms that occur (pi > 0, floors, declared ranges, nonnegative atoms) are
conjoined with the path; Fourier-Motzkin elimination decides emptiness of the relaxation.  An empty
relaxation means no input takes the path; a non-empty one means nothing.
"""
from fractions import Fraction
from . import ring as R

ONE = ()


def _rows(x, strict):
    """x > 0 (strict) or x >= 0 as rows over monomials; needs a denominator of known sign."""
    if x.d != R.ONEP:
        try:
            if not R.nonneg(R.X(x.d)):
                return None
        except Exception:  # noqa: BLE001
            return None
    return ({m: Fraction(c) for m, c in x.n.items()}, strict)


def facts(atoms):
    out = []
    todo, seen = list(atoms), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        at = R.ATOMS[a]
        x = R.atom(at)
        if at is R.PI or at.pos:
            out.append((x, True))
        elif at.nonneg:
            out.append((x, False))
        if a in R.BOUNDS:
            lo, hi = R.BOUNDS[a]
            out.append((R.sub(x, R.mul(R.const(lo), R.pi())), False))
            out.append((R.sub(R.mul(R.const(hi), R.pi()), x), False))
            todo += R.base_atoms(R.pi())
        if at.kind == "int" and at.meta is not None:
            y, m = at.meta
            r = R.sub(y, R.mul(m, x))
            out.append((r, False))
            out.append((R.sub(m, r), True))
            todo += list(_atoms(y)) + list(_atoms(m))
    return out


def _atoms(x):
    return {a for p in (x.n, x.d) for m in p for a, _ in m}


def empty(path, limit=3000):
    cons = []
    atoms = set()
    for p, val in path:
        if p.x is None:
            continue
        atoms |= _atoms(p.x)
        if p.kind == "lt0":
            cons.append((R.neg(p.x), True) if val else (p.x, False))
        elif p.kind == "eq0" and val:
            cons += [(p.x, False), (R.neg(p.x), False)]
    rows = []
    for x, st in cons + facts(atoms):
        r = _rows(x, st)
        if r is not None:
            rows.append(r)
    # disequalities sharpen non-strict rows with the same left-hand side
    for p, val in path:
        if p.kind == "eq0" and not val and p.x is not None:
            r = _rows(p.x, True)
            if r is None:
                continue
            for i, (c, st) in enumerate(rows):
                if not st and (c == r[0] or c == {m: -v for m, v in r[0].items()}):
                    rows[i] = (c, True)
    return fm(rows, limit)


def fm(rows, limit=3000):
    while True:
        vs = {}
        for c, _st in rows:
            for m, v in c.items():
                if m != ONE and v:
                    k = vs.setdefault(m, [0, 0])
                    k[v < 0] += 1
        for c, st in rows:
            if all(m == ONE or not v for m, v in c.items()):
                k = c.get(ONE, 0)
                if k < 0 or (st and k <= 0):
                    return True
        if not vs:
            return False
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1] - sum(vs[m]))
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        new = {}
        for r in rows:
            if not r[0].get(m, 0):
                _put(new, *r)
        for c, s in pos:
            for d, t in neg:
                a, b = c[m], -d[m]
                e = {}
                for k in set(c) | set(d):
                    v = c.get(k, 0) * b + d.get(k, 0) * a
                    if v:
                        e[k] = v
                _put(new, e, s or t)
        rows = list(new.values())
        if len(rows) > limit:
            return False


def _put(new, c, st):
    ks = sorted(c)
    if ks:
        n = abs(c[ks[0]])
        c = {k: v / n for k, v in c.items()}
    key = tuple(sorted(c.items()))
    if key in new:
        st = st or new[key][1]
    new[key] = (c, st)
