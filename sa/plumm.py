"""Multiple-dispatch model: types of annotations, subtyping, resolution (plum semantics)."""
from __future__ import annotations

import ast

from . import values as V
from .num import ARRAY, is_q
from .values import *  # noqa: F403


class TAny:
    def __repr__(self):
        return "Any"


ANY = TAny()


class TUnion:
    def __init__(self, ts):
        self.ts = []
        for t in ts:
            self.ts.extend(t.ts if isinstance(t, TUnion) else [t])

    def __repr__(self):
        return " | ".join(map(repr, self.ts))


class TType:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"type[{self.t!r}]"


class TLit:
    def __init__(self, vs):
        self.vs = vs


class JT:
    """jaxtyping annotation."""
    def __init__(self, kind, base, shape):
        if isinstance(base, JT):
            shape = (shape + " " + base.shape).strip()
            base = base.base
        self.kind, self.base, self.shape = kind, base, shape

    def __repr__(self):
        return f"{self.kind}[{self.base!r}, {self.shape!r}]"


def as_type(v):
    if isinstance(v, (Cls, TUnion, TType, JT, TAny, TLit, Ext)) or v is None or isinstance(v, type) or (
            isinstance(v, Prim) and v.name in ("type", "classmethod", "staticmethod", "property")):
        return v
    return None


def strip_tv(t):
    """TypeVars and opaque typing constructs are Any."""
    return t


def norm_type(ip, t, env_ev=None):
    if isinstance(t, Ext):
        if t.name in ("typing.Any", "builtins.object") or t.name.startswith("typing.TypeVar"):
            return ANY
        return t
    return t


def is_namedtuple(v):
    return isinstance(v, Obj) and any(isinstance(k, Cls) and k.name == "NamedTuple" and k.module == "saprelude"
                                      for k in v.cls.mro)


def isinstance_(ip, v, t):
    if isinstance(t, tuple):
        return any(isinstance_(ip, v, x) for x in t)
    if isinstance(v, Ite):
        return ip.lift_obj(lambda x: isinstance_(ip, x, t), v)
    r = matches(ip, v, t)
    if r is None:
        raise Undecided(f"isinstance({v!r}, {t!r})")
    return r


def matches(ip, v, t):
    """True/False/None."""
    if isinstance(t, TAny):
        return True
    if isinstance(t, TUnion):
        rs = [matches(ip, v, x) for x in t.ts]
        return True if True in rs else (None if None in rs else False)
    if isinstance(t, Top):
        return None
    if isinstance(t, TLit):
        return any(type(v) is type(x) and v == x for x in t.vs)
    if isinstance(t, TType):
        if not isinstance(v, (Cls, Ext, type)) and not isinstance(v, JT):
            return False
        if isinstance(v, Ext) and not v.name.split(".")[-1][:1].isupper():
            return False
        return subtype(ip, v, t.t)
    if isinstance(t, JT):
        b = matches(ip, v, t.base)
        if b is not True:
            return b
        return shape_match(v, t)
    if t is None:
        return v is None
    if isinstance(t, Prim):
        if t.name == "type":
            return isinstance(v, (Cls, Ext, type))
        if t.name == "property":
            return isinstance(v, Prop)
        if t.name == "classmethod":
            return type(v) is ClassM
        if t.name == "staticmethod":
            return type(v) is StaticM
        return None
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            return v.cls.issub(t)
        if isinstance(v, Num):
            if not isinstance(v.ty, Cls):
                return False
            if t.param is not None:
                return v.ty.issub(t.origin) and v.dim == t.param
            return v.ty.issub(t)
        if isinstance(v, Top):
            return None
        return False
    if isinstance(t, type):
        from .ext import Sym
        if t is tuple and isinstance(v, Shape):
            return True
        if isinstance(v, Sym):
            return None if t in (int, float, tuple) else False
        if t is float and isinstance(v, Fraction_):
            return True
        if t is int and isinstance(v, bool):
            return True
        if isinstance(v, Top):
            return None
        if t is tuple and is_namedtuple(v):
            return True
        return isinstance(v, t)
    if isinstance(t, Ext):
        n = t.name
        if n in ("typing.Any", "builtins.object") or n.startswith("typevar"):
            return True
        if n in ("jaxtyping.Array", "jax.Array"):
            return isinstance(v, Num) and v.ty is ARRAY or isinstance(v, Num) and not is_q(v)
        if n in ("jaxtyping.ArrayLike", "unxt.ArrayLike"):
            if isinstance(v, (Num,)):
                return not is_q(v)
            return isinstance(v, (bool, int, float, complex, Fraction_))
        if n in ("abc.Mapping", "typing.Mapping"):
            if isinstance(v, dict):
                return True
            if isinstance(v, Obj):
                return v.cls.ext_base("abc.Mapping", "xmmutablemap.ImmutableMap", "builtins.dict")
            return False
        if n in ("abc.Sequence", "typing.Sequence"):
            return isinstance(v, (list, tuple, str)) or is_namedtuple(v)
        if n in ("abc.Iterable", "typing.Iterable"):
            return isinstance(v, (list, tuple, str, dict, set)) or is_namedtuple(v)
        if n in ("abc.Callable", "typing.Callable"):
            return isinstance(v, (Fn, Prim, Bound, Part, PlumF, Cls)) or (
                isinstance(v, Obj) and v.cls.lookup("__call__")[0] is not None)
        if n in ("dataclassish.DataclassInstance", "dataclassish._src.types.DataclassInstance"):
            from .ext import is_module
            return (isinstance(v, Obj) and (v.cls.is_dc or is_module(v.cls))) or is_q(v)
        if n in ("astropy.units.Unit", "astropy.units.UnitBase", "astropy.units.CompositeUnit", "unxt.Unit",
                 "unxt.AbstractUnits"):
            return isinstance(v, Unit)
        if n == "astropy.units.PhysicalType":
            return isinstance(v, Dim)
        if n.startswith("astropy.") or n.startswith("dataclassish.flags"):
            if isinstance(v, Obj):
                return v.cls.issub(t) or v.tag == n or (v.tag is not None and ext_sub(v.tag, n))
            return is_q(v) and v.ty.issub(t)
        if isinstance(v, Obj):
            if v.cls.issub(t):
                return True
            if v.tag is not None:
                return ext_sub(v.tag, n)
            return False
        if is_q(v):
            return v.ty.issub(t)
        if n == "dataclasses.Field":
            return isinstance(v, FieldSpec)
        if isinstance(v, (int, float, str, list, tuple, dict, bool, type(None), Num, Unit, Cls, Dim)):
            return False
        return None
    return None


from fractions import Fraction as Fraction_  # noqa: E402

# astropy class hierarchy used by the interop modules
EXT_SUB = {
    "astropy.coordinates.CartesianRepresentation": "astropy.coordinates.BaseRepresentation",
    "astropy.coordinates.CylindricalRepresentation": "astropy.coordinates.BaseRepresentation",
    "astropy.coordinates.SphericalRepresentation": "astropy.coordinates.BaseRepresentation",
    "astropy.coordinates.PhysicsSphericalRepresentation": "astropy.coordinates.BaseRepresentation",
    "astropy.coordinates.UnitSphericalRepresentation": "astropy.coordinates.BaseRepresentation",
    "astropy.coordinates.CartesianDifferential": "astropy.coordinates.BaseDifferential",
    "astropy.coordinates.CylindricalDifferential": "astropy.coordinates.BaseDifferential",
    "astropy.coordinates.SphericalDifferential": "astropy.coordinates.BaseDifferential",
    "astropy.coordinates.SphericalCosLatDifferential": "astropy.coordinates.BaseDifferential",
    "astropy.coordinates.PhysicsSphericalDifferential": "astropy.coordinates.BaseDifferential",
    "astropy.coordinates.Distance": "astropy.units.Quantity",
    "astropy.coordinates.Angle": "astropy.units.Quantity",
}


def ext_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXT_SUB.get(a)
    return False


def shape_match(v, t):
    s = t.shape.split()
    if not isinstance(v, Num):
        return True
    var = [i for i, x in enumerate(s) if x.lstrip("#").startswith("*") or x == "..."]
    feat = list(v.feat())
    if var:
        i = var[-1]
        tail = s[i + 1:]
    else:
        tail = s
        if v.sh != ():
            # known number of axes, symbolic batch: cannot be this shape unless axes are named
            if len(s) == 0:
                return False
            if len(s) <= len(feat):
                return False
            return None if len(s) > len(feat) + 1 else _tail_ok(s, feat, True)
        if len(tail) != len(feat):
            return False
    return _tail_ok(tail, feat, v.sh != () )


def _tail_ok(tail, feat, more):
    k = len(tail)
    if k > len(feat):
        # named/size axes reaching into the (symbolic) batch
        need = tail[:k - len(feat)]
        if not more:
            return False
        if any(x.lstrip("#").isdigit() for x in need):
            return False          # a generic batch axis is not a fixed size
        tail = tail[k - len(feat):]
        k = len(tail)
    for x, f in zip(tail, feat[len(feat) - k:]):
        x = x.lstrip("#")
        if x.isdigit() and int(x) != f:
            return False
    return True


def subtype(ip, a, b):
    """a <= b as types (both annotation values)."""
    if a is b:
        return True
    if isinstance(b, TAny) or isinstance(b, Ext) and (b.name in ("typing.Any", "builtins.object") or b.name.startswith("typevar")):
        return True
    if isinstance(a, TAny) or isinstance(a, Ext) and (a.name in ("typing.Any", "builtins.object") or a.name.startswith("typevar")):
        return False
    if isinstance(a, TUnion):
        return all(subtype(ip, x, b) for x in a.ts)
    if isinstance(b, TUnion):
        return any(subtype(ip, a, x) for x in b.ts)
    if isinstance(b, JT):
        return isinstance(a, JT) and a.kind == b.kind and a.shape == b.shape and _teq(ip, a.base, b.base)
    if isinstance(a, JT):
        return subtype(ip, a.base, b)
    if isinstance(a, TType):
        if isinstance(b, TType):
            return subtype(ip, a.t, b.t)
        return isinstance(b, Prim) and b.name == "type"
    if isinstance(b, TType):
        return False
    if isinstance(a, TLit):
        if isinstance(b, TLit):
            return set(a.vs) <= set(b.vs)
        return all(matches(ip, x, b) for x in a.vs)
    if isinstance(b, TLit):
        return False
    if isinstance(a, Cls):
        if isinstance(b, Cls):
            if b.param is not None:
                return a.param is not None and a.param == b.param and a.origin.issub(b.origin)
            return b in a.mro
        if isinstance(b, Ext):
            if b.name in ("dataclassish.DataclassInstance", "dataclassish._src.types.DataclassInstance"):
                return a.is_dc
            if b.name in ("abc.Callable",):
                return a.lookup("__call__")[0] is not None
            return a.issub(b)
        return False
    if isinstance(a, Ext):
        if isinstance(b, Ext):
            if a.name == b.name or ext_sub(a.name, b.name):
                return True
            if a.name in ("jaxtyping.Array", "jax.Array") and b.name in ("jaxtyping.ArrayLike", "jaxtyping.Array", "jax.Array"):
                return True
        return False
    if isinstance(a, type):
        if isinstance(b, type):
            return issubclass(a, b)
        if isinstance(b, Ext):
            if b.name == "jaxtyping.ArrayLike":
                return a in (bool, int, float, complex)
            if b.name in ("abc.Mapping", "typing.Mapping"):
                return a is dict
            if b.name in ("abc.Sequence",):
                return a in (list, tuple, str)
            if b.name in ("abc.Iterable",):
                return a in (list, tuple, str, dict, set)
        return False
    if a is None:
        return b is None
    return False


def _teq(ip, a, b):
    return subtype(ip, a, b) and subtype(ip, b, a)


def typeval(ip, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Num):
        return v.ty
    if isinstance(v, Ite):
        return ip.lift_obj(lambda x: typeval(ip, x), v)
    if isinstance(v, (Cls,)):
        return Ext("builtins.type")
    if isinstance(v, Top):
        raise Undecided("type of unknown value")
    if isinstance(v, (Fn, Bound, Prim, Part)):
        return Ext("types.FunctionType")
    return type(v)


# ------------------------------------------------------------------ methods
class Method:
    __slots__ = ("fn", "raw", "pf", "_sig", "_var", "precedence", "given", "npos", "order", "abstract", "_ret")

    def __repr__(self):
        return f"{self.pf.name}{self._sig}"


def ann_type(ip, a, env):
    """Evaluate an annotation expression to a type value."""
    if a is None:
        return ANY
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        a = ast.parse(a.value, mode="eval").body
    v = ip.ev(_destring(a), env)
    return fix(ip, v)


class _D(ast.NodeTransformer):
    def visit_Subscript(self, n):
        base = ast.unparse(n.value).split(".")[-1]
        if base in ("Literal",) or base in ("Quantity", "AbstractQuantity", "UncheckedQuantity"):
            return n
        if base in ("Shaped", "Float", "Int", "Real", "Bool", "Num", "Inexact"):
            if isinstance(n.slice, ast.Tuple):
                n.slice.elts[0] = self.visit(n.slice.elts[0])
            return n
        self.generic_visit(n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str):
            try:
                return ast.parse(n.value, mode="eval").body
            except SyntaxError:
                return n
        return n


def _destring(a):
    import copy
    return _D().visit(copy.deepcopy(a))


def fix(ip, v):
    if isinstance(v, Ext) and (v.name in ("typing.Any", "builtins.object", "typing.Self", "typing_extensions.Self")
                               or v.name.startswith("typevar")):
        return ANY
    if isinstance(v, TUnion):
        return TUnion([fix(ip, x) for x in v.ts])
    if isinstance(v, Obj) and v.cls.name == "TypeVar":
        return ANY
    if isinstance(v, TType):
        return TType(fix(ip, v.t))
    if isinstance(v, Prim) and v.name == "type":
        return TType(ANY)
    return v


def register_method(ip, v, env, fn, pf=None, precedence=0, sig=None, abstract=False):
    target = v
    if isinstance(v, PlumF):
        # several decorators: the dispatch result of the previous one
        pf = pf or v
        return v
    f = fn
    while isinstance(target, (ClassM,)):
        target = target.f
    if pf is None:
        if env is not None and env.cls is not None:
            cur = env.d.get(f.name)
            while isinstance(cur, ClassM):
                cur = cur.f
            pf = cur if isinstance(cur, PlumF) else PlumF(f.name, env.cls)
        else:
            pf = ip.plum.setdefault(f.name, PlumF(f.name))
    m = Method()
    m.fn, m.raw, m.pf, m._sig, m._var, m.precedence, m.given = f, target, pf, None, None, precedence, sig
    m.order = len(pf.methods)
    m.npos = m._ret = None
    m.abstract = abstract
    pf.methods.append(m)
    return pf


def signatures(ip, m):
    """List of (types, vararg type|None); default arguments register shorter signatures."""
    if m._sig is not None:
        return m._sig
    a = m.fn.node.args
    if m.given is not None:
        m._sig = [([fix(ip, t) for t in m.given], None)]
        return m._sig
    env = m.fn.env
    pos = a.posonlyargs + a.args
    ts = [ann_type(ip, p.annotation, env) for p in pos]
    var = ann_type(ip, a.vararg.annotation, env) if a.vararg is not None else None
    out = [(ts, var)]
    nd = len(m.fn.defaults)
    for k in range(1, nd + 1):
        out.append((ts[:len(ts) - k], None))
    m._sig = out
    return out


def sig_match(ip, sig, args):
    ts, var = sig
    if len(args) < len(ts) or (len(args) > len(ts) and var is None):
        return False
    res = True
    for i, a in enumerate(args):
        t = ts[i] if i < len(ts) else var
        r = matches(ip, a, t)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def sig_le(ip, s1, s2):
    """s1 <= s2 (s1 at least as specific)."""
    (t1, v1), (t2, v2) = s1, s2
    if v1 is None and v2 is None and len(t1) != len(t2):
        return False
    if v1 is not None and v2 is None:
        return False
    n = max(len(t1), len(t2))
    if len(t1) < len(t2) and v1 is None:
        return False
    if len(t2) < len(t1) and v2 is None:
        return False
    for i in range(n):
        a = t1[i] if i < len(t1) else v1
        b = t2[i] if i < len(t2) else v2
        if not subtype(ip, a, b):
            return False
    if v1 is not None and v2 is not None and not subtype(ip, v1, v2):
        return False
    return True


class Ambiguous(Exception):
    pass


def resolve_method(ip, pf, args):
    """Returns Method, None (not found) or a list (ambiguous)."""
    cands = []
    for m in pf.methods:
        if m.abstract:
            continue
        for s in signatures(ip, m):
            r = sig_match(ip, s, args)
            if r is None:
                raise Undecided(f"dispatch of {pf.name} on an argument of unknown type")
            if r:
                cands.append((m, s))
    # later registration with an equal signature replaces the earlier
    uniq = []
    for m, s in cands:
        uniq = [(m2, s2) for m2, s2 in uniq if not (sig_le(ip, s, s2) and sig_le(ip, s2, s))]
        uniq.append((m, s))
    best = []
    for m, s in uniq:
        if any(sig_le(ip, s2, s) and not sig_le(ip, s, s2) for m2, s2 in uniq if m2 is not m or s2 is not s):
            continue
        best.append((m, s))
    if not best:
        return None
    if len(best) > 1:
        top = max(m.precedence for m, _ in best)
        hi = [(m, s) for m, s in best if m.precedence == top]
        if len(hi) > 1:
            return [m for m, _ in hi]
        best = hi
    return best[0][0]


def plum_call(ip, pf, args, kw, method=False):
    for i, a in enumerate(args):
        if isinstance(a, Ite) and any_obj(a):
            return ip.split(lambda x: plum_call(ip, pf, list(args[:i]) + [x] + list(args[i + 1:]), kw, method), a)
    m = resolve_method(ip, pf, args)
    if isinstance(m, list):
        ip.raise_("LookupError", f"AmbiguousLookupError: {pf.name} on ({', '.join(_tn(ip, a) for a in args)}): "
                  + "; ".join(f"{x.fn.module.name}:{x.fn.node.lineno}" for x in m))
    if m is not None:
        if ip.trace_dispatch is not None:
            ip.trace_dispatch.append((pf.name, tuple(_tn(ip, a) for a in args), m))
        return returned(ip, m, ip.call(m.raw, args, kw))
    if pf.fallback is not None:
        return pf.fallback(ip, args, kw)
    if pf.owner is not None and args:
        c = args[0] if isinstance(args[0], Cls) else ip.type_of(args[0])
        seen = False
        for k in c.mro:
            if k is pf.owner:
                seen = True
                continue
            if seen and isinstance(k, Cls) and pf.name in k.ns:
                v = k.ns[pf.name]
                while isinstance(v, ClassM) and not isinstance(v, Prop):
                    v = v.f
                return ip.call(v, args, kw)
    ip.raise_("LookupError", f"NotFoundLookupError: {pf.name} on ({', '.join(_tn(ip, a) for a in args)})")


def any_obj(v):
    return any_obj(v.a) or any_obj(v.b) if isinstance(v, Ite) else isinstance(v, Obj)


def returned(ip, m, v):
    """The declared result type of the method is enforced by conversion."""
    if m._ret is None:
        m._ret = (ANY,)
        if m.fn.node.returns is not None:
            try:
                m._ret = (ann_type(ip, m.fn.node.returns, m.fn.env),)
            except (AbsRaise, Undecided):
                pass
    t = m._ret[0]
    if isinstance(t, (TAny, Top)) or isinstance(v, Top):
        return v
    if isinstance(v, Ite):
        return ip.lift_obj(lambda x: returned(ip, m, x), v)
    if t is tuple:
        return v if isinstance(v, (tuple, Shape)) or is_namedtuple(v) else tuple(v) if isinstance(v, list) else (v,) if isinstance(v, (Obj, Num)) else v
    if t is list:
        return v if isinstance(v, list) else list(v) if isinstance(v, tuple) else [v] if isinstance(v, (Obj, Num)) else v
    if isinstance(v, (Obj, Num)) and (isinstance(t, Cls) or isinstance(t, TUnion) and all(isinstance(x, Cls) for x in t.ts)):
        if matches(ip, v, t) is False:
            return convert(ip, v, t)
    return v


def _tn(ip, a):
    if isinstance(a, Obj):
        return a.cls.name
    if isinstance(a, Num):
        return (a.ty.name if isinstance(a.ty, Cls) else "Array") + (str(list(a.feat())) if a.rank else "")
    if isinstance(a, Cls):
        return f"type[{a.name}]"
    return type(a).__name__


# ------------------------------------------------------------------ conversions
def conversion_method(ip, a, b, fn):
    ip.conv.append((a, b, fn))
    return fn


def promotion_rule(ip, a, b, c):
    ip.promo.append((a, b, c))


AQ = Ext("astropy.units.Quantity")


class _BuiltinConv:
    def __init__(self, f):
        self.f = f


def _q_to(name):
    def f(ip, v):
        from . import ext
        t = ext.Q[name]
        return v if v.ty.issub(t) else Num(t, v.v, v.dim, v.unit, v.sh)
    return f


def _to_apy(ip, v):
    from . import apy
    return apy.quantity(v)


def convert(ip, v, t):
    """plum.convert: most specific conversion method on (type(obj), type_to)."""
    from . import apy, ext
    t = fix(ip, t)
    if isinstance(v, Ite):
        return ip.lift_obj(lambda x: convert(ip, x, t), v)
    table = [(ext.Q["AbstractQuantity"], ext.Q["UncheckedQuantity"], _BuiltinConv(_q_to("UncheckedQuantity"))),
             (ext.Q["AbstractQuantity"], ext.Q["Quantity"], _BuiltinConv(_q_to("Quantity"))),
             (ext.Q["AbstractQuantity"], AQ, _BuiltinConv(_to_apy)),
             (AQ, ext.Q["Quantity"], _BuiltinConv(_q_to("Quantity"))),
             (AQ, ext.Q["UncheckedQuantity"], _BuiltinConv(_q_to("UncheckedQuantity")))] + ip.conv
    sel = []
    for a, b, fn in table:
        if matches(ip, v, a) is True and subtype(ip, t, b):
            sel = [x for x in sel if not (_teq(ip, x[0], a) and _teq(ip, x[1], b))]
            sel.append((a, b, fn))
    best = [x for x in sel if not any(
        y is not x and subtype(ip, y[0], x[0]) and subtype(ip, y[1], x[1])
        and not (subtype(ip, x[0], y[0]) and subtype(ip, x[1], y[1])) for y in sel)]
    if len(best) > 1:
        ip.raise_("LookupError", f"AmbiguousLookupError: convert {_tn(ip, v)} to {t!r}")
    if best:
        f = best[0][2]
        return f.f(ip, v) if isinstance(f, _BuiltinConv) else ip.call(f, [v], {})
    r = matches(ip, v, t)
    if r is True:
        return v
    ip.raise_("TypeError", f"Cannot convert {_tn(ip, v)} to {t!r}")
