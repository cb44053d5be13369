"""The abstract numeric domain: value numbers in algebraic normal form.

An element ``X`` stands for *all* runtime values an expression can take, written
as a quotient of Laurent polynomials with rational coefficients over interned
atoms.  Atoms are program inputs (``rho``, ``x`` ...), unit symbols, and
applications of the few non-polynomial functions the code base uses (square
roots, sines and cosines of angle atoms, signs, logarithms).  Atoms may carry a
quadratic relation ``a**2 = p`` (``sin**2 = 1 - cos**2``, ``sqrt(p)**2 = p``,
``sgn**2 = 1``), so equality of two value numbers is decided exactly by clearing
denominators and reducing: no sampling, no solver.
"""
from __future__ import annotations

from fractions import Fraction
from math import isqrt


class Unknown(Exception):
    """The domain cannot express the value (top)."""


class TooBig(Unknown):
    pass


MAXTERMS = 6000


class Atom:
    __slots__ = ("id", "key", "name", "nonneg", "pos", "sq", "kind", "meta", "integer")

    def __init__(self, id, key, name, kind, nonneg=False, pos=False, meta=None,
                 integer=False):
        self.id = id
        self.key = key
        self.name = name
        self.kind = kind
        self.nonneg = nonneg or pos
        self.pos = pos
        self.sq = None  # poly dict
        self.meta = meta
        self.integer = integer

    def __repr__(self):
        return self.name


ATOMS: list[Atom] = []
BYKEY: dict = {}
SQRT_OF: dict = {}   # frozen poly -> Atom/X (positive square root)
TRIG: dict = {}      # angle key -> (cos X, sin X)
ANGLES: list = []    # candidate angle X's for inverse-trig recognition: (X, cos, sin)
BOUNDS: dict = {}    # angle atom id -> (lo, hi) in half turns
NONNEG: dict = {}    # frozen poly -> True (invariants assumed >= 0)


def reset():
    global PI, ONE_ATOM
    ATOMS.clear()
    BYKEY.clear()
    SQRT_OF.clear()
    TRIG.clear()
    ANGLES.clear()
    NONNEG.clear()
    BOUNDS.clear()
    PI = new_atom(("const", "pi"), "pi", "const", pos=True)


def new_atom(key, name, kind, **kw) -> Atom:
    a = BYKEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), key, name, kind, **kw)
        ATOMS.append(a)
        BYKEY[key] = a
    return a


# ---------------------------------------------------------------- polynomials
# poly: dict[ tuple[(aid, exp), ...] -> Fraction ]

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a: Atom, e=1):
    return {((a.id, e),): Fraction(1)}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + k * c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def p_scale(p, c):
    c = Fraction(c)
    return {m: v * c for m, v in p.items()} if c else {}


def p_mul_raw(p, q):
    if len(p) * len(q) > 400000:
        raise TooBig("polynomial product")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig("polynomial too large")
    return r


def p_reduce(p):
    """Apply a**2 -> sq(a) until every related atom has exponent in {..., 0, 1}."""
    while True:
        out = None
        for m, c in p.items():
            hit = None
            for a, e in m:
                at = ATOMS[a]
                if at.sq is not None and (e >= 2 or (e < 0 and at.kind == "sgn")):
                    hit = (a, e)
                    break
            if hit:
                if out is None:
                    out = dict(p)
                a, e = hit
                at = ATOMS[a]
                if at.kind == "sgn":
                    k, rest = (e - (e % 2)) // 2, e % 2
                    fac = {(): Fraction(1)}
                else:
                    k, rest = divmod(e, 2)
                    fac = {(): Fraction(1)}
                    for _ in range(k):
                        fac = p_mul_raw(fac, at.sq)
                base = tuple(x for x in m if x[0] != a)
                if rest:
                    base = m_mul(base, ((a, rest),))
                s = out.get(m, 0) - c
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
                for m2, c2 in fac.items():
                    mm = m_mul(base, m2)
                    s = out.get(mm, 0) + c * c2
                    if s:
                        out[mm] = s
                    else:
                        out.pop(mm, None)
        if out is None:
            return p
        if len(out) > MAXTERMS:
            raise TooBig("polynomial too large")
        p = out


def p_mul(p, q):
    return p_reduce(p_mul_raw(p, q))


def p_clear(p):
    """Return (monomial m with positive exps, p*m) such that p*m has no negative exps."""
    mins = {}
    for m in p:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return (), p
    mm = tuple(sorted((a, -e) for a, e in mins.items()))
    return mm, {m_mul(m, mm): c for m, c in p.items()}


def frozen(p):
    return frozenset(p.items())


def p_iszero(p):
    for _ in range(8):
        if not p:
            return True
        mm, q = p_clear(p)
        q = p_reduce(q)
        if q == p:
            return not p
        p = q
    return not p


def m_str(m):
    return "*".join(
        ATOMS[a].name if e == 1 else f"{ATOMS[a].name}^{e}" for a, e in m
    )


def p_str(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: str(m_str(t[0]))):
        s = m_str(m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return " + ".join(out).replace("+ -", "- ")


ONEP = {(): Fraction(1)}


class X:
    """n/d with n a Laurent polynomial, d a polynomial with no monomial content."""

    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=None):
        self.n = n
        self.d = ONEP if d is None else d
        self._k = None

    def __repr__(self):
        s = p_str(self.n)
        if len(s) > 300:
            s = s[:300] + "..."
        if self.d == ONEP:
            return s
        return f"({s})/({p_str(self.d)})"

    def key(self):
        if self._k is None:
            self._k = (frozen(self.n), frozen(self.d))
        return self._k


def mk(n, d=None) -> X:
    n = p_reduce(n)
    if d is None or d == ONEP:
        return X(n)
    d = p_reduce(d)
    if not d or p_iszero(d):
        raise Unknown("division by zero")
    if not n:
        return X({})
    if len(d) == 1:
        (m, c), = d.items()
        inv = tuple((a, -e) for a, e in m)
        return X(p_reduce({m_mul(k, inv): v / c for k, v in n.items()}))
    # strip monomial + rational content of d
    mm, d2 = p_clear(d)
    if mm:
        n = {m_mul(k, mm): v for k, v in n.items()}
        d = d2
    com = m_common(d)
    if com:
        inv = tuple((a, -e) for a, e in com)
        n = {m_mul(k, inv): v for k, v in n.items()}
        d = {m_mul(k, inv): v for k, v in d.items()}
    lead = d[max(d, key=lambda m: m_str(m))]
    if lead != 1:
        n = p_scale(n, 1 / lead)
        d = p_scale(d, 1 / lead)
    # exact ratio?
    n = p_reduce(n)
    r = p_ratio(n, d)
    if r is not None:
        return X(r)
    return X(n, d)


def p_ratio(n, d):
    """n == monomial*d ?  (cheap exact cancellation)"""
    if len(n) != len(d) or not d:
        return None
    dm = max(d)
    for nm in n:
        q = m_mul(nm, tuple((a, -e) for a, e in dm))
        c = n[nm] / d[dm]
        if all(n.get(m_mul(m, q)) == c * v for m, v in d.items()):
            return {q: c}
    return None


def m_common(p):
    it = iter(p)
    try:
        first = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        d = dict(m)
        for a in list(first):
            e = d.get(a, 0)
            f = first[a]
            if (e > 0) != (f > 0) or e == 0:
                del first[a]
            else:
                first[a] = min(e, f) if f > 0 else max(e, f)
        if not first:
            break
    return tuple(sorted(first.items()))


def const(c) -> X:
    if isinstance(c, float):
        c = Fraction(repr(c)) if c == c and abs(c) != float("inf") else None
        if c is None:
            raise Unknown("non-finite constant")
    return X(p_const(c))


def atom(a: Atom) -> X:
    return X(p_atom(a))


def pi() -> X:
    return atom(PI)


def is_const(x: X):
    """Rational value if x is a rational constant, else None."""
    if x.d != ONEP:
        return None
    if not x.n:
        return Fraction(0)
    if len(x.n) == 1 and () in x.n:
        return x.n[()]
    return None


def add(a: X, b: X, k=1) -> X:
    if a.d == b.d:
        return mk(p_add(a.n, b.n, k), a.d)
    return mk(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), k), p_mul(a.d, b.d))


def sub(a, b):
    return add(a, b, -1)


def neg(a: X) -> X:
    return X(p_scale(a.n, -1), a.d)


def mul(a: X, b: X) -> X:
    if a.d == ONEP and b.d == ONEP:
        return X(p_mul(a.n, b.n))
    an, bn, ad, bd = a.n, b.n, a.d, b.d
    if frozen(an) == frozen(bd):
        an, bd = ONEP, ONEP
    if frozen(bn) == frozen(ad):
        bn, ad = ONEP, ONEP
    return mk(p_mul(an, bn), p_mul(ad, bd))


def inv(a: X) -> X:
    if p_iszero(a.n):
        raise Unknown("division by zero")
    return mk(a.d, a.n)


def div(a, b):
    return mul(a, inv(b))


def powi(a: X, n: int) -> X:
    if n < 0:
        return powi(inv(a), -n)
    r = const(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def is_zero(a: X) -> bool:
    return p_iszero(a.n)


def eq(a: X, b: X) -> bool:
    if a.key() == b.key():
        return True
    if a.d == b.d:
        return p_iszero(p_add(a.n, b.n, -1))
    return p_iszero(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1))


# ------------------------------------------------------------------- signs
def _interval(p):
    """Bounds (in half turns) of a linear form in bounded angles and pi, or None."""
    lo = hi = 0
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        b = (1, 1) if ATOMS[a] is PI else BOUNDS.get(a)
        if b is None:
            return None
        lo += c * (b[0] if c > 0 else b[1])
        hi += c * (b[1] if c > 0 else b[0])
    return lo, hi


def nonneg_p(p):
    """True: provably >= 0; False: provably <= 0; None unknown."""
    if not p:
        return True
    b = _interval(p) if BOUNDS else None
    if b is not None:
        if b[0] >= 0:
            return True
        if b[1] <= 0:
            return False
    f = frozen(p)
    if f in NONNEG:
        return True
    if frozen(p_scale(p, -1)) in NONNEG:
        return False
    signs = set()
    for m, c in p.items():
        for a, e in m:
            at = ATOMS[a]
            if e % 2 and not at.nonneg:
                return _nonneg_factor(p)
        signs.add(c > 0)
    if signs == {True}:
        return True
    if signs == {False}:
        return False
    return _nonneg_factor(p)


def _nonneg_factor(p):
    """Pull out a common monomial of known sign and retry on registered invariants."""
    com = m_common(p)
    mm, q = p_clear(p)
    if mm:
        if all(ATOMS[a].nonneg or e % 2 == 0 for a, e in mm):
            s = nonneg_p_simple(p_reduce(q))
            if s is not None:
                return s
    if com:
        if all(ATOMS[a].nonneg or e % 2 == 0 for a, e in com):
            invm = tuple((a, -e) for a, e in com)
            q = {m_mul(k, invm): v for k, v in p.items()}
            return nonneg_p_simple(q)
    for g in NONNEG:
        if len(g) == len(p):
            r = p_ratio(p, dict(g))
            if r is not None:
                (m, c), = r.items()
                if all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m):
                    return c > 0
    return None


def nonneg_p_simple(p):
    f = frozen(p)
    if f in NONNEG:
        return True
    if frozen(p_scale(p, -1)) in NONNEG:
        return False
    # scaled invariants
    for g in NONNEG:
        d = dict(g)
        r = p_ratio(p, d)
        if r is not None:
            (m, c), = r.items()
            if all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m):
                return c > 0
    sg = set()
    for m, c in p.items():
        for a, e in m:
            if e % 2 and not ATOMS[a].nonneg:
                return None
        sg.add(c > 0)
    return sg.pop() if len(sg) == 1 else None


def nonneg(x: X):
    a, b = nonneg_p(x.n), nonneg_p(x.d)
    if a is None or b is None:
        return None
    return a == b


def _sgn_canon(p):
    """p -> (rational sign, [(atom id odd-unknown)...], remaining primitive poly|None)"""
    mm, q = p_clear(p)
    q = p_reduce(q)
    extra = [a for a, e in mm if e % 2 and not ATOMS[a].nonneg]
    com = m_common(q)
    if com:
        invm = tuple((a, -e) for a, e in com)
        q = {m_mul(k, invm): v for k, v in q.items()}
        extra += [a for a, e in com if e % 2 and not ATOMS[a].nonneg]
    nn = nonneg_p(q)
    if nn is True:
        return 1, extra, None
    if nn is False:
        return -1, extra, None
    lead = q[max(q, key=m_str)]
    s = 1 if lead > 0 else -1
    q = p_scale(q, 1 / lead)
    return s, extra, q


def sign(x: X) -> X:
    """sign, ignoring the measure-zero value 0."""
    if is_zero(x):
        return const(0)
    r = const(1)
    for p in (x.n, x.d):
        s, extra, q = _sgn_canon(p)
        r = mul(r, const(s))
        for a in extra:
            at = ATOMS[a]
            if at.kind == "sgn":
                r = mul(r, atom(at))
            else:
                r = mul(r, atom(sgn_atom(p_atom(at))))
        if q is not None:
            r = mul(r, atom(sgn_atom(q)))
    return r


def sgn_atom(p):
    a = new_atom(("sgn", frozen(p)), f"sgn({p_str(p)})", "sgn", meta=p)
    if a.sq is None:
        a.sq = dict(ONEP)
    return a


def abs_(x: X) -> X:
    return mul(sign(x), x) if not is_zero(x) else x


# ------------------------------------------------------------------- sqrt
def _frac_sqrt(c: Fraction):
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def _poly_sqrt(p):
    """Exact square root of a multivariate polynomial with non-negative exponents."""
    if not p:
        return {}
    ids = sorted({a for m in p for a, _ in m})

    def order(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in ids)

    def lt(q):
        m = max(q, key=order)
        return m, q[m]

    m, c = lt(p)
    r = _frac_sqrt(c)
    if r is None or any(e % 2 for _, e in m):
        return None
    s = {tuple((a, e // 2) for a, e in m): r}
    lm, lc = lt(s)
    for _ in range(60):
        rem = p_add(p, p_mul_raw(s, s), -1)
        if not rem:
            return s
        m2, c2 = lt(rem)
        q = m_mul(m2, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in q) or q in s:
            return None
        s = p_add(s, {q: c2 / (2 * lc)})
    return None


def sqrt(x: X) -> X:
    if is_zero(x):
        return x
    if x.d != ONEP:
        # sqrt(n/d) = sqrt(n*d)/|d|
        return div(sqrt(X(p_mul(x.n, x.d))), abs_(X(x.d)))
    p = x.n
    outer = const(1)
    # clear negative exponents by even powers
    for _ in range(4):
        mm, _q = p_clear(p)
        if not mm:
            break
        half = tuple((a, (e + 1) // 2) for a, e in mm)
        dbl = tuple((a, 2 * e) for a, e in half)
        p = p_reduce({m_mul(m, dbl): c for m, c in p.items()})
        outer = mul(outer, X({tuple((a, -e) for a, e in half): Fraction(1)}))
    # |.| of the factor taken out
    outer = abs_(outer)
    com = m_common(p)
    if com:
        take = tuple((a, e // 2) for a, e in com if e // 2)
        if take:
            dbl = tuple((a, -2 * e) for a, e in take)
            p = {m_mul(m, dbl): c for m, c in p.items()}
            outer = mul(outer, abs_(X({take: Fraction(1)})))
    if not p:
        return const(0)
    # rational content: make coefficients primitive
    lead = p[max(p, key=m_str)]
    alead = abs(lead)
    rs = _frac_sqrt(alead)
    if rs is not None:
        p = p_scale(p, 1 / alead)
        outer = mul(outer, const(rs))
    f = frozen(p)
    if f in SQRT_OF:
        return mul(outer, SQRT_OF[f])
    # try removing common single atoms: sqrt(a*q) with registered sqrt(q)
    com = m_common(p)
    if com and len(p) > 1:
        invm = tuple((a, -e) for a, e in com)
        q = {m_mul(m, invm): c for m, c in p.items()}
        if all(ATOMS[a].nonneg for a, _ in com):
            g = frozen(q)
            if g in SQRT_OF or _poly_sqrt(q) is not None:
                return mul(mul(outer, sqrt(X(q))), sqrt(X({com: Fraction(1)})))
    s = _poly_sqrt(p)
    if s is not None:
        return mul(outer, abs_(X(s)))
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) > 1 and c > 0 and all(ATOMS[a].nonneg for a, _ in m):
            r = outer
            if c != 1:
                r = mul(r, sqrt(const(c)))
            for a, e in m:
                r = mul(r, powi(sqrt(X(p_atom(ATOMS[a]))), e))
            return r
    a = new_atom(("sqrt", f), f"sqrt({p_str(p)})", "sqrt", nonneg=True, meta=p)
    a.sq = p
    SQRT_OF[f] = atom(a)
    return mul(outer, atom(a))


def register_sqrt(p: X, root: X):
    """Declare sqrt(p) = root (root >= 0)."""
    assert p.d == ONEP
    SQRT_OF[frozen(p.n)] = root


# ------------------------------------------------------------------- angles
def angle_atom(name, *, sin_nonneg=False, cos_nonneg=False) -> X:
    a = new_atom(("angle", name), name, "angle")
    x = atom(a)
    if ("a", a.id) not in TRIG:
        c = new_atom(("cos", name), f"cos({name})", "cos", nonneg=cos_nonneg, meta=a)
        s = new_atom(("sin", name), f"sin({name})", "sin", nonneg=sin_nonneg, meta=a)
        s.sq = p_add(ONEP, p_mul_raw(p_atom(c), p_atom(c)), -1)
        # sqrt(1 - cos^2) = |sin|
        SQRT_OF[frozen(p_scale(s.sq, -1))] = None  # placeholder, never valid
        del SQRT_OF[frozen(p_scale(s.sq, -1))]
        q = dict(s.sq)
        lead = q[max(q, key=m_str)]
        key = frozen(p_scale(q, 1 / abs(lead)))
        SQRT_OF[key] = abs_(atom(s))
        TRIG[("a", a.id)] = (atom(c), atom(s))
        ANGLES.append((x, atom(c), atom(s)))
    return x


def opaque_angle(key, name, cosx, sinx) -> X:
    a = new_atom(("oangle", key), name, "angle")
    if ("a", a.id) not in TRIG:
        TRIG[("a", a.id)] = (cosx, sinx)
        ANGLES.append((atom(a), cosx, sinx))
    return atom(a)


def _rot(cs1, cs2):
    c1, s1 = cs1
    c2, s2 = cs2
    return sub(mul(c1, c2), mul(s1, s2)), add(mul(s1, c2), mul(c1, s2))


def cossin(x: X):
    """(cos x, sin x)"""
    if x.d != ONEP:
        return _opaque_trig(x)
    acc = (const(1), const(0))
    for m, c in x.n.items():
        acc = _rot(acc, _term_trig(m, c))
    return acc


def _opaque_trig(x):
    k = ("x", x.key())
    if k not in TRIG:
        nm = f"<{x!r}>"
        c = new_atom(("cos", k), f"cos{nm}", "cos", meta=x)
        s = new_atom(("sin", k), f"sin{nm}", "sin", meta=x)
        s.sq = p_add(ONEP, p_mul_raw(p_atom(c), p_atom(c)), -1)
        TRIG[k] = (atom(c), atom(s))
    return TRIG[k]


def _term_trig(m, c):
    ids = [a for a, _ in m]
    sg = [t for t in m if ATOMS[t[0]].kind == "sgn" and t[1] % 2]
    if sg:
        # cos is even, sin odd, and a sign is +-1
        c0, s0 = _term_trig(tuple(t for t in m if ATOMS[t[0]].kind != "sgn"), c)
        for a, _e in sg:
            s0 = mul(s0, atom(ATOMS[a]))
        return c0, s0
    # rational multiple of pi
    if m == ((PI.id, 1),):
        t = c % 2
        tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0),
               Fraction(3, 2): (0, -1)}
        if t in tab:
            return const(tab[t][0]), const(tab[t][1])
        return _opaque_trig(X({m: t}))
    if m == ():
        if c == 0:
            return const(1), const(0)
        return _opaque_trig(const(c)) if c > 0 else _negate(_opaque_trig(const(-c)))
    # pi * integer atom
    if len(m) == 2 and PI.id in ids and all(e == 1 for _, e in m):
        other = ATOMS[[a for a in ids if a != PI.id][0]]
        if other.integer:
            if c % 2 == 0:
                return const(1), const(0)
    if len(m) == 1 and m[0][1] == 1 and ("a", m[0][0]) in TRIG:
        base = TRIG[("a", m[0][0])]
    else:
        base = None
    if base is not None and c.denominator == 1:
        n = int(c)
        if abs(n) > 8:
            return _opaque_trig(X({m: c}))
        acc = (const(1), const(0))
        for _ in range(abs(n)):
            acc = _rot(acc, base)
        return acc if n >= 0 else _negate(acc)
    if c < 0:
        return _negate(_opaque_trig(X({m: -c})))
    return _opaque_trig(X({m: c}))


def _negate(cs):
    return cs[0], neg(cs[1])


def cos(x):
    return cossin(x)[0]


def sin(x):
    return cossin(x)[1]


def tan(x):
    c, s = cossin(x)
    return div(s, c)


def atan2(y: X, x: X) -> X:
    if is_zero(y):
        sx = nonneg(x)
        if sx is True:
            return const(0)
        if sx is False:
            return pi()
    for a, c, s in ANGLES:
        if eq(mul(y, c), mul(x, s)):
            # (x, y) = k (cos a, sin a); need k > 0
            k = None
            if not is_zero(c):
                k = nonneg(div(x, c))
            if k is None and not is_zero(s):
                k = nonneg(div(y, s))
            if k is None and not is_zero(c):
                # x/c may hide a common factor: (x*c + y*s) = k
                k = nonneg(add(mul(x, c), mul(y, s)))
            if k is True:
                return a
            if k is False:
                return add(a, pi())
            if k is None:
                sg = sign(add(mul(x, c), mul(y, s)))
                # angle = a + pi*(1-sg)/2
                return add(a, mul(pi(), div(sub(const(1), sg), const(2))))
    up = nonneg(y) is True
    if up:
        for a, c, s in ANGLES:
            # (x, y) = k (-cos a, sin a) with k > 0 and a in [0, pi]
            if not is_zero(s) and nonneg(s) is True and eq(mul(y, c), neg(mul(x, s))) and nonneg(div(y, s)) is True:
                return sub(pi(), a)
    h = sqrt(add(mul(x, x), mul(y, y)))
    if is_zero(h):
        raise Unknown("atan2(0,0)")
    key = ("atan2", y.key(), x.key())
    a = opaque_angle(key, f"atan2({y!r},{x!r})", div(x, h), div(y, h))
    NONNEG[frozen(sub(pi(), a).n)] = True
    NONNEG[frozen(add(pi(), a).n)] = True
    if up:
        NONNEG[frozen(a.n)] = True
    BOUNDS[next(iter(a.n))[0][0]] = (0 if up else -1, 1)
    return a


def acos(u: X) -> X:
    k = is_const(u)
    if k is not None and k in (1, 0, -1):
        return {1: const(0), 0: div(pi(), const(2)), -1: pi()}[k]
    for a, c, s in ANGLES:
        if eq(u, c) and nonneg(s) is True:
            return a
        if eq(u, neg(c)) and nonneg(s) is True:
            return sub(pi(), a)
        # acos(sin b) = pi/2 - b for b in [-pi/2, pi/2]
        if eq(u, s) and nonneg(c) is True:
            return sub(div(pi(), const(2)), a)
    s = sqrt(sub(const(1), mul(u, u)))
    a = opaque_angle(("acos", u.key()), f"acos({u!r})", u, s)
    NONNEG[frozen(a.n)] = True
    NONNEG[frozen(sub(pi(), a).n)] = True
    BOUNDS[next(iter(a.n))[0][0]] = (0, 1)
    return a


def asin(u: X) -> X:
    k = is_const(u)
    if k is not None and k in (1, 0, -1):
        return {1: div(pi(), const(2)), 0: const(0), -1: neg(div(pi(), const(2)))}[k]
    for a, c, s in ANGLES:
        if eq(u, s) and nonneg(c) is True:
            return a
        if eq(u, c) and nonneg(s) is True:
            return sub(div(pi(), const(2)), a)
    c = sqrt(sub(const(1), mul(u, u)))
    a = opaque_angle(("asin", u.key()), f"asin({u!r})", c, u)
    h = div(pi(), const(2))
    NONNEG[frozen(sub(h, a).n)] = True
    NONNEG[frozen(add(h, a).n)] = True
    BOUNDS[next(iter(a.n))[0][0]] = (Fraction(-1, 2), Fraction(1, 2))
    return a


def same_angle(a: X, b: X) -> bool:
    """equal modulo 2*pi"""
    d = sub(a, b)
    if is_zero(d):
        return True
    ca, sa = cossin(a)
    cb, sb = cossin(b)
    return eq(ca, cb) and eq(sa, sb)


def mod(a: X, m: X) -> X:
    """a - m*floor(a/m), floor(a/m) an integer-valued atom."""
    ka, km = is_const(a), is_const(m)
    if ka is not None and km:
        return const(ka - km * (ka // km))
    q = is_const(div(a, m))
    if q is not None:
        return mul(const(q - q // 1), m)
    if m.d == ONEP and a.d == ONEP:
        b, w = _interval(a.n), _interval(m.n)
        if b is not None and w is not None and w[0] == w[1] and w[0] > 0:
            n = b[0] // w[0]
            if b[1] <= (n + 1) * w[0]:      # (the excluded upper end has measure zero)
                return sub(a, mul(const(n), m))
    # strip whole multiples already present
    k = new_atom(("floor", a.key(), m.key()), f"floor[({a!r})/({m!r})]", "int",
                 integer=True, meta=(a, m))
    return sub(a, mul(m, atom(k)))


def app(fn: str, *xs: X) -> X:
    a = new_atom(("app", fn, tuple(x.key() for x in xs)),
                 f"{fn}({', '.join(map(repr, xs))})", "app", meta=(fn, xs))
    return atom(a)


def log10(x: X) -> X:
    k = is_const(x)
    if k is not None and k > 0:
        n = 0
        while k >= 10 and k % 10 == 0:
            k /= 10
            n += 1
        while k < 1 and (k * 10).numerator and n > -40:
            k *= 10
            n -= 1
        if k == 1:
            return const(n)
        return add(const(n), app("log10", const(k)))
    if x.d != ONEP or len(x.n) != 1:
        return app("log10", x)
    (m, c), = x.n.items()
    out = log10(const(c)) if c > 0 else app("log10", const(c))
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "app" and at.meta[0] == "pow10":
            out = add(out, mul(const(e), at.meta[1][0]))
        else:
            out = add(out, mul(const(e), app("log10", atom(at))))
    return out


def pow10(x: X) -> X:
    if x.d != ONEP:
        return app("pow10", x)
    out = const(1)
    rest = {}
    for m, c in x.n.items():
        if m == () and c.denominator == 1:
            out = mul(out, powi(const(10), int(c)))
            continue
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "app" and at.meta[0] == "log10":
                out = mul(out, powi(at.meta[1][0], int(c)))
                continue
        rest[m] = c
    if rest:
        a = new_atom(("app", "pow10", (X(rest).key(),)), f"10^({p_str(rest)})", "app",
                     meta=("pow10", (X(rest),)), pos=True)
        out = mul(out, atom(a))
    return out


# -------------------------------------------------------------- substitution
def subst(x: X, sub_: dict) -> X:
    """Replace atoms (by id) by X values, re-evaluating derived atoms."""
    memo = {}

    def at_val(aid):
        if aid in sub_:
            return sub_[aid]
        if aid in memo:
            return memo[aid]
        at = ATOMS[aid]
        memo[aid] = atom(at)
        if at.kind == "sqrt":
            r = sqrt(go(X(at.meta)))
        elif at.kind == "sgn":
            v = go(X(at.meta))
            r = sign(v)
        elif at.kind == "app":
            fn, xs = at.meta
            vs = [go(v) for v in xs]
            r = {"log10": log10, "pow10": pow10}.get(fn, lambda *a: app(fn, *a))(*vs)
        elif at.kind in ("cos", "sin") and at.meta is not None:
            old = atom(at.meta) if isinstance(at.meta, Atom) else at.meta
            v = go(old)
            r = atom(at) if v.key() == old.key() else cossin(v)[at.kind == "sin"]
        elif at.kind == "angle" and at.key[0] == "oangle":
            c, s_ = TRIG[("a", aid)]
            vc, vs = go(c), go(s_)
            r = atom(at) if vc.key() == c.key() and vs.key() == s_.key() else atan2(vs, vc)
        elif at.kind == "int" and at.meta is not None:
            a_, m_ = at.meta
            va, vm = go(a_), go(m_)
            r = atom(at) if va.key() == a_.key() and vm.key() == m_.key() else div(sub(va, mod(va, vm)), vm)
        else:
            r = atom(at)
        memo[aid] = r
        return r

    def go_p(p):
        acc = const(0)
        for m, c in p.items():
            t = const(c)
            for a, e in m:
                t = mul(t, powi(at_val(a), e))
            acc = add(acc, t)
        return acc

    def go(y):
        n = go_p(y.n)
        return n if y.d == ONEP else div(n, go_p(y.d))

    return go(x)


def base_atoms(x: X, acc=None):
    """ids of atoms in x, including inside derived atoms."""
    acc = set() if acc is None else acc
    for p in (x.n, x.d):
        for m in p:
            for a, _ in m:
                if a in acc:
                    continue
                acc.add(a)
                at = ATOMS[a]
                if at.kind in ("sqrt", "sgn"):
                    base_atoms(X(at.meta), acc)
                elif at.kind == "app":
                    for y in at.meta[1]:
                        base_atoms(y, acc)
                elif at.kind in ("cos", "sin") and isinstance(at.meta, X):
                    base_atoms(at.meta, acc)
                elif at.kind in ("cos", "sin") and isinstance(at.meta, Atom):
                    acc.add(at.meta.id)
                elif at.kind == "angle" and ("a", a) in TRIG and at.key[0] == "oangle":
                    for y in TRIG[("a", a)]:
                        base_atoms(y, acc)
    return acc


# -------------------------------------------------------------- derivative
def diff(x: X, v: Atom) -> X:
    def d_atom(aid):
        at = ATOMS[aid]
        if at is v:
            return const(1)
        k = at.kind
        if k == "sqrt":
            return div(diff(X(at.meta), v), mul(const(2), atom(at)))
        if k in ("cos", "sin"):
            if isinstance(at.meta, Atom):
                dA = d_atom(at.meta.id)
                if is_zero(dA):
                    return dA
                c, s = TRIG[("a", at.meta.id)]
            else:
                dA = diff(at.meta, v)
                if is_zero(dA):
                    return dA
                c, s = _opaque_trig(at.meta)
            return neg(mul(s, dA)) if k == "cos" else mul(c, dA)
        if k == "angle" and at.key[0] == "oangle":
            c, s = TRIG[("a", aid)]
            return sub(mul(c, diff(s, v)), mul(s, diff(c, v)))
        if k == "app":
            if all(v.id not in base_atoms(y) for y in at.meta[1]):
                return const(0)
            raise Unknown(f"derivative of {at.name}")
        return const(0)

    def d_p(p):
        acc = const(0)
        cache = {}
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                if a not in cache:
                    cache[a] = d_atom(a)
                da = cache[a]
                if is_zero(da):
                    continue
                rest = m_mul(m, ((a, -1),))
                acc = add(acc, mul(X(p_reduce({rest: c * e})), da))
        return acc

    if x.d == ONEP:
        return d_p(x.n)
    n, d = X(x.n), X(x.d)
    return div(sub(mul(d_p(x.n), d), mul(n, d_p(x.d))), mul(d, d))


reset()
