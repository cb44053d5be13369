"""Abstract inputs, refutation of unequal value numbers, and leaf-wise comparison.

``Lab`` loads the analysed package into the abstract interpreter and manufactures
abstract inputs: one symbol per component plus the range facts the component's
class guarantees.  ``compare`` decides whether two gated value numbers agree:

* per joint leaf, the gates on the way are assumed (signs, zeros) and both sides
  are compared in algebraic normal form: equal -> discharged;
* otherwise the two *value numbers* are evaluated at points of the valid domain:
  a point at which they differ refutes the obligation (the witness is reported);
* neither -> undecided (reported in the evidence, never an alarm).
"""
from __future__ import annotations

import math
import random
from fractions import Fraction

from . import ring as R
from . import values as V
from .values import *  # noqa: F403
from .values import AbsRaise, Undecided
from .interp import Interp
from . import ext as E
from . import num as N

TOL = 1e-7


class Skip(Exception):
    pass


# ------------------------------------------------------------------ evaluation
class Sampler:
    def __init__(self, seed=1):
        self.dist = {}          # atom id -> f(rng, env, ev) -> float
        self.constraints = []   # X that must be >= 0
        self.rng = random.Random(seed)
        self.ranges = {}

    def draw(self):
        return Point(self)

    def range_of(self, a):
        """Range of an input, from draws of its own distribution."""
        r = self.ranges.get(a)
        if r is None:
            try:
                vs = [self.dist[a](self.rng, Point(self)) for _ in range(60)]
                r = (min(vs), max(vs))
            except Exception:  # noqa: BLE001
                r = ()
            self.ranges[a] = r
        return r


def draw_near(s, path, i):
    """Every other draw moves one input next to a gate of the path, to meet narrow ranges."""
    pt = s.draw()
    gates = [p for p, _ in path if p.kind == "lt0"]
    if i % 2 == 0 or not gates:
        return pt
    p = s.rng.choice(gates)
    t = _solvable_any(p.x)
    if t is None or t[0] not in s.dist:
        return pt
    a, val = t
    lo = pt.atom(a)
    try:
        at = pt.x(val) + s.rng.choice((1e-3, 1e-2, 0.1)) * s.rng.uniform(-1, 1) * max(1e-3, abs(lo))
    except (ArithmeticError, ValueError, OverflowError):
        return pt
    q = s.draw()
    q.env.update({k: v for k, v in pt.env.items() if k in s.dist})
    q.env[a] = at
    # keep the input's own range
    rng = s.range_of(a)
    if rng and not rng[0] <= q.env[a] <= rng[1]:
        return pt
    return q


class Point:
    def __init__(self, s):
        self.s = s
        self.env = {}
        self.errs = {}          # running rounding-error bound of every atom
        self.ops = {}

    def atom(self, aid):
        v = self.env.get(aid)
        if v is None:
            v = self.env[aid] = self._atom(aid)
        return v

    def err(self, aid):
        """Rounding-error bound of an atom's evaluated value."""
        e = self.errs.get(aid)
        if e is None:
            v = self.atom(aid)
            e = self.errs[aid] = 4e-16 * (abs(v) + 1e-300) + self._err(aid, v)
        return e

    def _err(self, aid, v):
        at = R.ATOMS[aid]
        if aid in self.s.dist or at is R.PI:
            return 0.0
        k = at.kind
        if k in ("cos", "sin"):
            return (self.err(at.meta.id) if isinstance(at.meta, R.Atom) else self.xe(at.meta)[1]) + 4e-16
        if k == "sqrt":
            e = self.pe(at.meta)[1]
            return e / (2 * v) if v > math.sqrt(e) else math.sqrt(e)
        if k == "angle" and at.key[0] == "oangle":
            c, s = R.TRIG[("a", aid)]
            (cv, ce), (sv, se) = self.xe(c), self.xe(s)
            h = math.hypot(cv, sv)
            return (ce + se) / h if h else 7.0
        if k == "app":
            fn, xs = at.meta
            e = sum(self.xe(x)[1] for x in xs)
            x0 = self.xe(xs[0])[0]
            if fn == "log10":
                return e / abs(x0)
            if fn in ("pow10", "exp"):
                return e * abs(v) * 3
            if fn == "pow":
                return abs(v) * (e / max(abs(x0), 1e-300) * 8 + e * 8)
            if fn == "cbrt":
                return e / max(v * v, 1e-300)
            return e * 600
        return 0.0

    def pe(self, p):
        """(value, error bound) of a polynomial."""
        t = err = 0.0
        for m, c in p.items():
            v, rel = float(c), 2e-16
            for a, e in m:
                w = self.atom(a)
                v *= w ** e
                rel += abs(e) * self.err(a) / abs(w) if w else 1.0
            t += v
            err += abs(v) * rel
        return t, err

    def xe(self, x):
        n, e = self.pe(x.n)
        if x.d == R.ONEP:
            return n, e
        d, f = self.pe(x.d)
        return n / d, e / abs(d) + abs(n) * f / (d * d)

    def robust(self, x):
        """Is the sign of x beyond rounding doubt here?"""
        v, e = self.xe(x)
        return abs(v) > 1e3 * e and v != 0

    def _atom(self, aid):
        at = R.ATOMS[aid]
        rng = self.s.rng
        if aid in self.s.dist:
            return self.s.dist[aid](rng, self)
        if at is R.PI:
            return math.pi
        k = at.kind
        if k in ("cos", "sin"):
            a = self.atom(at.meta.id) if isinstance(at.meta, R.Atom) else self.x(at.meta)
            return math.cos(a) if k == "cos" else math.sin(a)
        if k == "sqrt":
            v = self.p(at.meta)
            if v < 0:
                if v > -1e-9:
                    return 0.0
                raise ArithmeticError("sqrt of a negative value")
            return math.sqrt(v)
        if k == "sgn":
            v = self.p(at.meta)
            return math.copysign(1.0, v) if v else 0.0
        if k == "int" and at.meta is not None:
            a, m = at.meta
            return math.floor(self.x(a) / self.x(m))
        if k == "angle" and at.key[0] == "oangle":
            c, s = R.TRIG[("a", aid)]
            return math.atan2(self.x(s), self.x(c))
        if k == "app":
            fn, xs = at.meta
            vs = [self.x(x) for x in xs]
            if fn == "log10":
                return math.log10(vs[0])
            if fn == "pow10":
                return 10.0 ** vs[0]
            if fn == "pow":
                return vs[0] ** vs[1]
            if fn == "cbrt":
                return math.copysign(abs(vs[0]) ** (1 / 3), vs[0])
            if fn == "exp":
                return math.exp(vs[0])
            # uninterpreted: an injective-looking pseudo-random function of its arguments
            return math.sin(sum((i + 1.7) * v for i, v in enumerate(vs)) * 12.9898 + len(fn)) * 43.7
        if at.pos:
            return rng.uniform(0.3, 3)
        if at.nonneg:
            return rng.uniform(0.1, 3)
        if at.integer:
            return rng.randint(-3, 3)
        return rng.uniform(-3, 3)

    def p(self, p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(a) ** e
            t += v
        return t

    def x(self, x):
        n = self.p(x.n)
        return n if x.d == R.ONEP else n / self.p(x.d)

    def pred(self, p):
        if p.kind == "lt0":
            return self.x(p.x) < 0
        if p.kind == "eq0":
            return self.x(p.x) == 0
        if p.id not in self.ops:
            self.ops[p.id] = self.s.rng.random() < 0.5
        return self.ops[p.id]

    def tree(self, v):
        while isinstance(v, Ite):
            v = v.a if self.pred(v.p) else v.b
        return v


# ------------------------------------------------------------------ comparison
class Result:
    """status: ok | bad | und"""
    __slots__ = ("status", "why", "witness")

    def __init__(self, status, why="", witness=None):
        self.status, self.why, self.witness = status, why, witness

    def __repr__(self):
        return f"{self.status}: {self.why}"


OK = Result("ok")


def joint(vals, path=()):
    """Enumerate the joint leaves of a list of gated values with their gate path."""
    top = None
    for v in vals:
        if isinstance(v, Ite) and (top is None or v.p.id < top.id):
            top = v.p
    if top is None:
        yield path, vals
        return
    for val in (True, False):
        yield from joint([V.assume(v, top, val) for v in vals], path + ((top, val),))


def apply_path(path, xs):
    """Specialise value numbers under assumed gates.  None: infeasible."""
    eqs, sg = [], []
    for p, val in path:
        if p.kind == "lt0":
            sg.append((p.x, val))
        elif p.kind == "eq0" and val:
            eqs.append(p.x)
    sub = {}
    for x in eqs:
        x = R.subst(x, sub) if sub else x
        if R.is_zero(x):
            continue
        if x.d == R.ONEP and list(x.n) == [()]:
            return None                     # a number that is not zero
        at = _solvable(x)
        if at is None:
            raise Undecided(f"gate {x!r} == 0")
        aid, val = at
        sub = {k: R.subst(v, {aid: val}) for k, v in sub.items()}
        sub[aid] = val
    if sub:
        xs = [R.subst(x, sub) for x in xs]
    ss = {}
    for x, val in sg:
        if sub:
            x = R.subst(x, sub)
        for a in _sgns(x, val):
            ss[a[0]] = R.const(a[1])
    if ss:
        xs = [R.subst(x, ss) for x in xs]
    return xs


def _sgns(x, lt):
    """sgn atoms determined by (x < 0) == lt (ignoring x == 0)."""
    try:
        s = R.sign(x)
    except Unknown:
        return []
    if s.d != R.ONEP or len(s.n) != 1:
        return []
    (m, c), = s.n.items()
    if len(m) != 1 or R.ATOMS[m[0][0]].kind != "sgn":
        return []
    v = -1 if lt else 1
    return [(m[0][0], v if c > 0 else -v)]


def _solvable(x):
    """x == 0 solved for an atom occurring linearly with an invertible coefficient."""
    if len(x.n) == 1:
        (m, _c), = x.n.items()
        cands = [a for a, e in m if e > 0 and not R.ATOMS[a].pos]
        if len(cands) == 1 and R.ATOMS[cands[0]].kind == "var":
            return cands[0], R.const(0)
        return None
    for m, c in x.n.items():
        for a, e in m:
            at = R.ATOMS[a]
            if at.kind != "var" or e != 1:
                continue
            coef, rest, ok = {}, {}, True
            for m2, c2 in x.n.items():
                d = dict(m2)
                if a in d:
                    if d[a] != 1:
                        ok = False
                        break
                    coef[tuple(t for t in m2 if t[0] != a)] = c2
                else:
                    rest[m2] = c2
            if not ok or len(coef) != 1:
                continue
            (cm, _cc), = coef.items()
            if all(R.ATOMS[i].pos for i, _ in cm) and a not in R.base_atoms(R.X(rest)):
                return a, R.neg(R.div(R.X(rest), R.X(coef)))
    return None


def _consistent(pt, path, cons):
    for x in cons:
        if pt.x(x) < 0:
            return False
    return all(pt.pred(p) == val for p, val in path)


def refute(s, path, pairs, close, tries=600, want=6):
    """Sample the domain; returns (witness|None, agreements)."""
    eqp = [p for p, val in path if p.kind == "eq0" and val]
    agree = 0
    bad = []
    for i in range(tries):
        pt = draw_near(s, path, i)
        try:
            if not _consistent(pt, [(p, v) for p, v in path if p not in eqp], s.constraints):
                continue
            vals = [(*pt.xe(a), *pt.xe(b)) for a, b in pairs]
        except (ArithmeticError, ValueError, OverflowError):
            continue
        if any(v != v or w != w or math.isinf(v) or math.isinf(w) or e > 1e-4 * (1e-30 + max(abs(v), abs(w)))
               and not close(v, e, w, f) for v, e, w, f in vals):
            continue
        if all(close(*t) for t in vals):
            agree += 1
            if agree >= want and not bad:
                break
        else:
            bad.append((pt, vals))
            if len(bad) >= 3:
                break
    return (bad[0] if len(bad) >= 2 or (bad and agree == 0) else None), agree


def _close(v, ev, w, ew):
    return abs(v - w) <= 1e-7 * (abs(v) + abs(w)) + 1e3 * (ev + ew)


def _close_angle(v, ev, w, ew):
    d = (v - w) % (2 * math.pi)
    return min(d, 2 * math.pi - d) <= 1e-6 + 1e3 * (ev + ew)


def _witness(pt, vals, labels):
    env = {}
    for a in pt.s.dist:
        if a in pt.env:
            env[R.ATOMS[a].name] = round(pt.env[a], 6)
    return {"inputs": env, "values": {n: (a, b) for n, (a, _, b, _) in zip(labels, vals)}}


def compare(s, pairs, labels=None, angle=False, equal=None, generic=False):
    """pairs: list of (got, expected) gated value numbers (X leaves).

    generic: leave out leaves that only hold where an equation between inputs holds."""
    labels = labels or [str(i) for i in range(len(pairs))]
    flat = [v for p in pairs for v in p]
    eq = equal or (R.same_angle if angle else R.eq)
    close = _close_angle if angle else _close
    und = None
    n = 0
    for path, vals in joint(flat):
        n += 1
        if n > 4000:
            return Result("und", "too many gates")
        if generic and any(p.kind == "eq0" and v for p, v in path):
            continue
        tops = [v for v in vals if isinstance(v, Top)]
        bads = [v for v in vals if not isinstance(v, (R.X, Top))]
        if bads:
            return Result("und", f"non numeric {bads[0]!r}"[:200])
        if tops:
            und = und or Result("und", tops[0].why)
            continue
        try:
            sp = apply_path(path, vals)
        except (Undecided, Unknown) as e:
            und = und or Result("und", str(e))
            continue
        if sp is None:
            continue
        open_ = []
        for i in range(0, len(sp), 2):
            try:
                if eq(sp[i], sp[i + 1]):
                    continue
            except Unknown:
                pass
            open_.append(i)
        if not open_:
            continue
        w, agree = refute(s, path, [(sp[i], sp[i + 1]) for i in open_], close)
        if w is not None:
            pt, vv = w
            names = [labels[i // 2] for i in open_]
            gate = " and ".join(f"{'' if val else 'not '}{p}" for p, val in path)
            j = next(k for k, t in enumerate(vv) if not close(*t))
            i = open_[j]
            return Result("bad", f"{names[j]}: computes {_short(sp[i])}, expected {_short(sp[i + 1])}"
                          + (f" when {gate}" if gate else ""), _witness(pt, vv, names))
        und = und or Result("und", f"normal forms differ but values agree at {agree} points: "
                            f"{labels[open_[0] // 2]}" if agree else f"no feasible point found: {labels[open_[0] // 2]} on {path}"[:300])
        if agree >= 5:
            und.status = "num"
    return und or OK


def _short(x, n=160):
    t = repr(x)
    return t if len(t) <= n else t[:n] + "..."


def truth_always(s, v, want=True):
    """Is gated boolean v always `want` on the domain?  ok/bad/und."""
    und = None
    for path, (leaf,) in joint([v]):
        if isinstance(leaf, bool):
            if leaf is want:
                continue
        else:
            und = und or Result("und", f"{leaf!r}"[:100])
            continue
        feas = feasible(s, path)
        if feas is True:
            gate = " and ".join(f"{'' if val else 'not '}{p}" for p, val in path)
            return Result("bad", f"{leaf} when {gate}" if gate else f"always {leaf}")
        if feas is None:
            und = und or Result("und", "gate feasibility")
    return und or OK


def _others(s, path, feas=None):
    """The path without its gate on the other elements of the batch, if that gate can have its value."""
    free = [(p, v) for p, v in path if p.kind == "others"]
    if not free:
        return path
    if len(free) > 1:
        return None
    p, v = free[0]
    for sub, (c,) in joint([V.OTHERS[p.id]]):
        if c is v and (feas or feasible)(s, sub):
            return tuple(g for g in path if g[0] is not p)
    return None


def feasible(s, path, tries=400):
    """True (witness found), None otherwise."""
    path = _others(s, path)
    if not path:
        return path if path is None else True
    if any(p.kind == "op" for p, _ in path):
        return None
    if any(p.kind == "eq0" and v for p, v in path):
        return None
    for i in range(tries):
        pt = draw_near(s, path, i)
        try:
            if _consistent(pt, path, s.constraints):
                # stay away from rounding noise
                if all(pt.robust(p.x) for p, _ in path if p.x is not None):
                    return True
        except (ArithmeticError, ValueError, OverflowError):
            continue
    return None


# ------------------------------------------------------------------ the lab
class Lab:
    def __init__(self, src="/repo/src"):
        V.reset()
        E._deftable()
        self.ip = Interp(src)
        self.ip.load("coordinax")
        self.s = Sampler()
        m = next(iter(E.UNITS["m"][0].n))[0][0]
        self.s.dist[m] = lambda rng, pt: rng.uniform(0.3, 3) * 1e-11     # keeps AU of order one
        self.nsym = 0

    # -- names
    def mod(self, name):
        return self.ip.load(name)

    def get(self, dotted):
        """Attribute of an analysed module, e.g. coordinax.vecs.SphericalPos"""
        mod, _, n = dotted.rpartition(".")
        m = self.ip.load(mod)
        if n not in m.ns:
            raise KeyError(dotted)
        return m.ns[n]

    def call(self, f, *a, **kw):
        if isinstance(f, str):
            f = self.ip.plum[f]
        return self.ip.call(f, list(a), kw)

    def attr(self, o, n):
        return self.ip.getattr(o, n)

    def fresh(self):
        self.ip.effects = []
        self.ip.guards = []

    # -- symbols
    def var(self, name, lo=-3.0, hi=3.0, nonneg=False, pos=False, dist=None):
        a = R.new_atom(("in", name), name, "var", nonneg=nonneg, pos=pos)
        if pos or nonneg:
            lo = max(lo, 0.1)
        self.s.dist[a.id] = dist or (lambda rng, pt: rng.uniform(lo, hi))
        return R.atom(a)

    def angle(self, name, lo=-math.pi, hi=math.pi, sin_nonneg=False, cos_nonneg=False):
        x = R.angle_atom(name, sin_nonneg=sin_nonneg, cos_nonneg=cos_nonneg)
        aid = next(iter(x.n))[0][0]
        self.s.dist[aid] = lambda rng, pt: rng.uniform(lo + 1e-3, hi - 1e-3)
        if abs(hi) <= 2 * math.pi and abs(lo) <= 2 * math.pi:
            R.BOUNDS[aid] = tuple(Fraction(round(2 * v / math.pi), 2) if abs(v * 2 / math.pi - round(2 * v / math.pi)) < 1e-9
                                  else (math.floor(v / math.pi) if v == lo else math.ceil(v / math.pi)) for v in (lo, hi))
        if sin_nonneg:
            R.NONNEG[R.frozen(x.n)] = True
            R.NONNEG[R.frozen(R.sub(R.pi(), x).n)] = True
        if cos_nonneg:
            h = R.div(R.pi(), R.const(2))
            R.NONNEG[R.frozen(R.sub(h, x).n)] = True
            R.NONNEG[R.frozen(R.add(h, x).n)] = True
        if lo >= 0 and not sin_nonneg:
            R.NONNEG[R.frozen(x.n)] = True
        return x

    def unit(self, name, dim):
        """An arbitrary unit of the given dimension."""
        a = R.new_atom(("uin", name), f"[{name}]", "unit", pos=True)
        if a.id not in self.s.dist:
            self.s.dist[a.id] = lambda rng, pt: rng.uniform(0.2, 4)
        return Unit(R.atom(a), dim)

    def q(self, name, dim, ty="Quantity", x=None, sh=("B",), unit=None, dt=None, **kw):
        if isinstance(dim, str):
            dim = V.DIMS[dim]
        if x is None:
            x = self.var(name, **kw)
        u = unit or self.unit(name, dim)
        return Num(E.Q[ty] if isinstance(ty, str) else ty, x, dim, u.x, sh, dt)

    def arr(self, x, sh=()):
        return Num(N.ARRAY, x, sh=sh)

    def rebatch(self, v, sh):
        return v.with_(sh=sh)


def feasible_eq(s, path, tries=400):
    """Feasibility of a gate path that may pin inputs to a boundary."""
    path = _others(s, path, feasible_eq)
    if path is None:
        return None
    eqs = [p for p, v in path if p.kind == "eq0" and v and not R.is_zero(p.x)]
    rest = [(p, v) for p, v in path if not (p.kind == "eq0" and v)]
    if any(p.kind == "op" for p, _ in path):
        return None
    for i in range(tries):
        try:
            pt = draw_near(s, rest, i)
            for p in eqs:
                pt = _pin(s, pt, p.x)
                if pt is None:
                    break
            if pt is None or any(abs(pt.x(p.x)) > 1e-9 for p in eqs):
                continue
            if any(pt.x(c) < -1e-12 for c in s.constraints):
                continue
            ok = True
            for p, v in rest:
                if p.kind == "lt0" and any(R.eq(q.x, p.x) or R.eq(q.x, R.neg(p.x)) for q in eqs):
                    ok = v is False
                elif pt.pred(p) != v or not pt.robust(p.x):
                    ok = False
                if not ok:
                    break
            if ok:
                return True
        except (ArithmeticError, ValueError, OverflowError):
            continue
    return None


def _pin(s, pt, x):
    """The point moved along one input so that x == 0."""
    def at(a, v):
        q = s.draw()
        q.env.update({k: w for k, w in pt.env.items() if k in s.dist})
        q.env[a] = v
        return q
    t = _solvable_any(x)
    if t is not None:
        return at(t[0], pt.x(t[1]))
    pt.x(x)
    ids = [a for a in R.base_atoms(x) if a in s.dist]
    s.rng.shuffle(ids)
    for a in ids:
        r = s.range_of(a)
        if not r:
            continue
        n = 24
        vs = [r[0] + (r[1] - r[0]) * k / n for k in range(n + 1)]
        fs = [at(a, v).x(x) for v in vs]
        for k in range(n):
            if fs[k] == 0:
                return at(a, vs[k])
            if fs[k] * fs[k + 1] < 0:
                lo, hi, fl = vs[k], vs[k + 1], fs[k]
                for _ in range(80):
                    mid = (lo + hi) / 2
                    fm = at(a, mid).x(x)
                    if fm * fl > 0:
                        lo = mid
                    else:
                        hi = mid
                q = at(a, lo)
                if abs(q.x(x)) < 1e-9:
                    return q
    return None


def _solvable_any(x):
    """x == 0 solved for an input occurring linearly with a constant coefficient (angles included)."""
    t = _solvable(x)
    if t is not None:
        return t
    for m, c in x.n.items():
        if len(m) == 1 and m[0][1] == 1 and R.ATOMS[m[0][0]].kind in ("angle", "var"):
            a = m[0][0]
            rest = {k: v for k, v in x.n.items() if k != m}
            if a not in R.base_atoms(R.X(rest)) and x.d == R.ONEP:
                return a, R.div(R.neg(R.X(rest)), R.const(c))
    return None


def same_condition(s, got, want, names=("fires", "must fire")):
    """Do two gated booleans agree on the whole domain, boundaries included?"""
    und = None
    for path, (g, w) in joint([got, want]):
        if not isinstance(g, bool) or not isinstance(w, bool):
            und = und or Result("und", f"{g!r} / {w!r}"[:120])
            continue
        if g == w:
            continue
        f = feasible_eq(s, path)
        gate = " and ".join(f"{'' if v else 'not '}{p}" for p, v in path)
        if f:
            return Result("bad", (f"accepts" if w else "rejects") + f" when {gate}")
        und = und or Result("und", f"not shown feasible: {gate}"[:200])
    return und or OK
