"""Small Python functions: the interpreter of sa must return for each what CPython returns (tools/selftest.py)."""
import functools
import itertools
import operator
from collections.abc import Callable, Mapping
from dataclasses import KW_ONLY, dataclass, field, replace
from typing import Any, ClassVar


def c_sum_start():
    return sum((x * x for x in (1, 2, 3)), start=10), sum([1, 2], 4)


def c_iter_next():
    it = iter((1, 2, 3))
    return next(it), next(it), next(it), next(it, "end")


def c_gen_once():
    g = (x for x in (1, 2, 3))
    return list(g), list(g)


def c_gen_fn():
    def rows():
        for k in "abc":
            yield k, ord_(k)

    def ord_(k):
        return {"a": 1, "b": 2, "c": 3}[k]

    return dict(rows())


def c_yield_from():
    def g():
        yield from (1, 2)
        yield 3
        return

    return tuple(g())


def c_nested_generator_does_not_make_outer_one():
    def outer():
        def inner():
            yield 1

        return [*inner(), 2]

    return outer()


def c_match():
    def f(x):
        match x:
            case int() | float() if x > 3:
                return "big"
            case int():
                return "int"
            case str(s):
                return s
            case (a, b):
                return a + b
            case [a, *rest]:
                return rest
            case {"k": v, **other}:
                return v, other
            case None:
                return "none"
            case _:
                return "other"

    return [f(x) for x in (5, 1, "s", (1, 2), [1, 2, 3], {"k": 1, "j": 2}, None, 2.5)]


def c_while_else():
    out = []
    n = 3
    while n:
        n -= 1
        if n == 1:
            continue
        out.append(n)
    else:
        out.append("else")
    return out


def c_for_else_break():
    for x in (1, 2, 3):
        if x == 2:
            break
    else:
        x = 10
    return x


def c_star():
    a, *b, c = range(5)
    return a, b, c, [*b, a], {**{"x": 1}, "y": 2}


def c_walrus():
    return [(y := x + 1, y * 2) for x in (1, 2)], (z := 4) + z


def c_try():
    out = []
    try:
        out.append(1)
        raise KeyError("k")
    except (ValueError, LookupError) as e:
        out.append(type(e) is KeyError)
    else:
        out.append("no")
    finally:
        out.append("f")
    return out


def c_try_return_finally():
    out = []

    def f():
        try:
            return 1
        finally:
            out.append("f")

    return f(), out


def c_reraise():
    def f():
        try:
            {}["a"]
        except KeyError:
            raise TypeError("t") from None

    try:
        f()
    except TypeError:
        return "typed"
    return "not"


def c_closure_counter():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n

    inc()
    inc()
    return n


def c_late_binding():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]


def c_defaults():
    def f(a, b=2, *c, d=4, **e):
        return a, b, c, d, e

    return f(1), f(1, 3, 5, 6, d=7, g=8), f(*(1, 2), **{"d": 9})


def c_posonly():
    def f(a, /, b, *, c=1):
        return a, b, c

    return f(1, b=2), f(1, 2, c=3)


def c_missing_arg():
    def f(a, b):
        return a

    try:
        f(1)
    except TypeError:
        return "missing"
    return "ok"


def c_extra_kw():
    def f(a):
        return a

    try:
        f(1, b=2)
    except TypeError:
        return "extra"
    return "ok"


def c_twice_kw():
    def f(a, b=1):
        return a

    try:
        f(1, a=2)
    except TypeError:
        return "twice"
    return "ok"


def c_sorted():
    return (sorted([3, 1, 2], reverse=True), sorted("bca"), sorted([(1, "b"), (0, "a")], key=lambda t: t[0]),
            sorted(["bb", "a", "cc"], key=len, reverse=True))


def c_minmax():
    return min(3, 1, 2), max([1, 5, 2]), min([], default=7), max(["a", "bbb"], key=len)


def c_zip():
    z = zip((1, 2), "ab", strict=True)
    return list(z), list(z), dict(zip("ab", (1, 2)))


def c_zip_pairs():
    it = iter((1, 2, 3, 4))
    return list(zip(it, it))


def c_zip_strict():
    try:
        list(zip((1, 2), (1,), strict=True))
    except ValueError:
        return "strict"
    return "no"


def c_itertools():
    return (list(itertools.chain((1,), [2])), list(itertools.chain.from_iterable([(1,), (2, 3)])),
            list(itertools.product((1, 2), "a")), list(itertools.combinations((1, 2, 3), 2)),
            list(itertools.starmap(lambda a, b: a * b, [(1, 2), (3, 4)])), list(itertools.accumulate((1, 2, 3))),
            list(itertools.pairwise((1, 2, 3))), list(itertools.islice((1, 2, 3), 2)))


def c_itertools_more():
    return (list(itertools.takewhile(lambda x: x < 2, (1, 2, 1))), list(itertools.dropwhile(lambda x: x < 2, (1, 2, 1))),
            list(itertools.repeat(3, 2)), list(zip(itertools.count(1), "ab")),
            [(k, list(g)) for k, g in itertools.groupby("aab")])


def c_operator():
    class A:
        x = 3

        def m(self, y):
            return y + 1

    return (operator.attrgetter("x")(A()), operator.itemgetter(1)((1, 2)), operator.itemgetter(0, 1)((1, 2)),
            operator.methodcaller("m", 4)(A()), operator.add(1, 2), operator.mul(2, 3), operator.neg(1),
            operator.or_({"a": 1}, {"b": 2}))


def c_reduce():
    return functools.reduce(lambda a, x: a * x, (1, 2, 3), 2), functools.reduce(operator.add, [(1,), (2,)])


def c_partial():
    def f(a, b, c=0):
        return a, b, c

    return functools.partial(f, 1)(2), functools.partial(f, c=5)(1, 2), functools.partial(f, b=1)(3)


def c_decorator():
    def twice(f):
        @functools.wraps(f)
        def g(*a, **k):
            return f(f(*a, **k))

        return g

    def add(n):
        def deco(f):
            return lambda x: f(x) + n

        return deco

    @add(5)
    @twice
    def inc(x):
        return x + 1

    return inc(1)


def c_dict_ops():
    d = {"a": 1} | {"b": 2}
    d |= {"c": 3}
    d.update(e=5)
    x = d.pop("a")
    y = d.pop("zz", None)
    d.setdefault("q", []).append(1)
    del d["b"]
    return d, x, y, list(d), list(d.items()), "c" in d, "b" not in d, d.get("zz", 3)


def c_dict_views():
    d = {"a": 1, "b": 2}
    return d.keys() == {"a", "b"}, sorted(d.keys() - {"a"}), sorted(d.keys() | {"c"}), "a" in d.keys(), set(d) <= {"a", "b", "c"}


def c_dict_comp():
    return {k: v for k, v in zip("ab", (1, 2)) if v > 1}, {x for x in (1, 1, 2)} == {1, 2}


def c_dict_fromkeys():
    return dict.fromkeys("ab", 0), dict([("a", 1)], b=2), dict(a=1)


def c_set():
    s = {1, 2}
    s.add(3)
    s |= {4}
    return s & {1, 9} == {1}, s - {1} == {2, 3, 4}, s ^ {1} == {2, 3, 4}, s.union((7,)) == {1, 2, 3, 4, 7}, s.issubset({1, 2, 3, 4}), frozenset((1,)) == {1}, s.isdisjoint({8})


def c_list():
    xs = [3, 1, 2]
    xs.sort()
    xs.insert(0, 9)
    xs[1] = 7
    xs += [5]
    xs.reverse()
    ys = xs.copy()
    ys.pop()
    del xs[0]
    xs.extend(y for y in (0, 1))
    return xs, ys, xs[::-1], xs[1:3], xs.index(0), xs.count(1), xs * 2, (1,) + (2,), [0] * 3


def c_slice_assign():
    xs = [1, 2, 3]
    xs[1:2] = [8, 9]
    return xs


def c_str():
    s = "d2_abc"
    return (s.removeprefix("d2_"), s.split("_"), s.replace("a", "x"), s.startswith(("d_", "d2_")), f"{s}_{1 + 1}", f"{s!r:>10}",
            "_".join(["a", "b"]), s[3:], s.partition("_"), s.upper(), s.strip("d"), "%s-%d" % ("a", 1), "{}:{x}".format(1, x=2), s.find("a"), s.count("_"))


def c_compare_chain():
    return 1 < 2 < 3, 1 < 3 < 2, not 1, 1 and 2, 0 or "x", None or 0


def c_ifexp():
    return (1 if [] else 2), ("a" if "x" else "b")


def c_is():
    a = object()
    return a is a, None is None, a is not None, type(1) is int, isinstance(1, (str, int)), issubclass(bool, int)


def c_class():
    class A:
        k: ClassVar[int] = 1

        def __init__(self, x):
            self.x = x

        @property
        def y(self):
            return self.x + 1

        @classmethod
        def make(cls, x):
            return cls(x)

        @staticmethod
        def s(x):
            return x * 2

        def __add__(self, o):
            return A(self.x + o.x)

        def __radd__(self, o):
            return A(self.x + o)

        def __eq__(self, o):
            return isinstance(o, A) and self.x == o.x

        def __len__(self):
            return 4

        def __getitem__(self, i):
            return i

        def __contains__(self, i):
            return i == 3

        def __iter__(self):
            yield from (1, 2)

        def __call__(self, z):
            return z

        def __bool__(self):
            return False

    class B(A):
        k = 2

        @property
        def y(self):
            return super().y + 10

        @classmethod
        def make(cls, x):
            return super().make(x + 1)

    a, b = A(1), B.make(4)
    return (a.y, b.y, b.x, type(b).__name__, A.s(3), b.s(2), (a + b).x, (3 + a).x, a == A(1), a != A(1), a != A(2), len(a), a[5],
            3 in a, list(a), a(9), bool(a), not a, A.k, B.k, B.__mro__[1] is A, hasattr(a, "zz"), getattr(a, "zz", 1), a is a, tuple(a), [*a])


def c_mro():
    class A:
        def f(self):
            return ["A"]

    class B(A):
        def f(self):
            return ["B", *super().f()]

    class C(A):
        def f(self):
            return ["C", *super().f()]

    class D(B, C):
        def f(self):
            return ["D", *super().f()]

    return D().f()


def c_dataclass():
    @dataclass(frozen=True)
    class P:
        x: int
        y: int = 2
        _: KW_ONLY
        z: list = field(default_factory=list)

        def __post_init__(self):
            object.__setattr__(self, "w", self.x + self.y)

    p = P(1)
    q = replace(p, y=5)
    return p.x, p.y, p.z, p.w, q.y, q.w, P(1) == P(1), P(1) == P(2), P(1, 2, z=[1]).z


def c_init_subclass():
    class A:
        reg: ClassVar[list] = []

        def __init_subclass__(cls, tag=None, **kw):
            super().__init_subclass__(**kw)
            A.reg.append((cls.__name__, tag))

    class B(A, tag="b"):
        pass

    class C(B):
        pass

    return A.reg


def c_setattr():
    class A:
        pass

    a = A()
    setattr(a, "x", 1)
    a.y = 2
    a.y += 3
    return a.x, a.y, vars(a), hasattr(a, "x")


def c_numbers():
    return 7 // 2, -7 // 2, 7 % 3, 2**10, -3 % 5, abs(-2), round(2.6), divmod(7, 2), pow(2, 3), int(3.7), float(2), bool(0), 1 / 4 == 0.25, 5 & 3, 1 << 3


def c_any_all():
    return any(x > 2 for x in (1, 3)), all([]), any([]), all(x for x in (1, 0))


def c_map_filter():
    return list(map(lambda a, b: a + b, (1, 2), (3, 4))), list(filter(None, (0, 1, "")), ), list(map(str, (1, 2)))


def c_enumerate():
    return list(enumerate("ab", start=1)), list(reversed((1, 2))), list(range(5, 0, -2)), list(enumerate("a"))


def c_unpack_nested():
    (a, (b, c)), d = (1, (2, 3)), 4
    for i, (k, v) in enumerate({"x": 1}.items()):
        d += v + i
    return a, b, c, d


def c_star_call():
    def f(*a, **k):
        return a, k

    return f(*[1], 2, *(3,), **{"x": 1}, y=2)


def c_assert():
    try:
        assert 1 == 2, "no"
    except AssertionError:
        return "asserted"
    return "passed"


def c_with():
    class M:
        def __init__(self):
            self.log = []

        def __enter__(self):
            self.log.append("in")
            return self

        def __exit__(self, *a):
            self.log.append("out")
            return False

    m = M()
    with m as k:
        k.log.append("body")
    return m.log


def c_comprehension_scope():
    x = 5
    ys = [x for x in (1, 2)]
    return x, ys, [(a, b) for a in (1, 2) for b in (3, 4) if a + b > 4]


def c_mutable_alias():
    a = [1]
    b = a
    b.append(2)
    c = tuple(a)
    return a, c, a is b


def c_global_fn():
    return helper(2)


def helper(x):
    return x * K


K = 21


def c_lambda():
    return (lambda x, *a, k=3, **kw: (x, a, k, kw))(1, 2, z=4)


def c_recursion():
    def fact(n):
        return 1 if n == 0 else n * fact(n - 1)

    return fact(5)


def c_mapping_abc():
    class M(Mapping):
        def __init__(self, d):
            self._d = d

        def __getitem__(self, k):
            return self._d[k]

        def __iter__(self):
            return iter(self._d)

        def __len__(self):
            return len(self._d)

    m = M({"a": 1, "b": 2})
    return list(m), dict(m), list(m.items()), list(m.values()), "a" in m, m.get("z", 3), {**m}, len(m), isinstance(m, Mapping), m == M({"a": 1, "b": 2})


def c_aug_alias():
    a = (1,)
    b = a
    a += (2,)
    return a, b


def c_del_name():
    x = 1
    del x
    try:
        return x
    except NameError:
        return "gone"


def c_iter_obj():
    class It:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            if self.n > 3:
                raise StopIteration
            return self.n

    return list(It())


def c_notimplemented():
    class A:
        def __add__(self, o):
            return NotImplemented

    class B:
        def __radd__(self, o):
            return "radd"

    try:
        A() + 1
    except TypeError:
        return A() + B()
    return "none"


def c_subclass_radd_first():
    class A:
        def __add__(self, o):
            return "A.add"

    class B(A):
        def __radd__(self, o):
            return "B.radd"

    return A() + B()


def c_eq_default():
    class A:
        pass

    a, b = A(), A()
    return a == a, a == b, a != b, a in [b], a in [a]


def c_kwonly_dict():
    kw = {"a": 1, "b": 2}
    a, kw2 = kw.pop("a"), kw
    return a, kw2, kw is kw2, {k: v for k, v in kw.items()}


def c_getattr_hook():
    class A:
        def __getattr__(self, n):
            if n.startswith("x"):
                return n
            raise AttributeError(n)

    return A().xy, hasattr(A(), "b"), getattr(A(), "b", 2)


def c_descriptor():
    class D:
        def __set_name__(self, o, n):
            self.n = n

        def __get__(self, i, o=None):
            return (self.n, i is None)

    class A:
        q = D()

    return A.q, A().q


def c_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def p(self):
            A.n += 1
            return 5

    a = A()
    return a.p, a.p


def c_singledispatch():
    @functools.singledispatch
    def f(x):
        return "obj"

    @f.register
    def _(x: int):
        return "int"

    @f.register(str)
    def _(x):
        return "str"

    return f(1), f("a"), f(2.0)


def c_ann_local():
    x: int = 3
    y: Any
    f: Callable = lambda: x
    return f()


def c_string_cat():
    s = ""
    for c in "abc":
        s = c + s
    return s, "ab" "cd", "ab" * 2, "a" in "cab", "b" < "c"


def c_tuple_compare():
    return (1, 2) < (1, 3), (1, 2) == (1, 2), [1] == [1], (1,) != (2,), {"a": 1} == {"a": 1}


def c_exception_args():
    try:
        raise ValueError("a", 1)
    except Exception as e:
        return e.args, isinstance(e, ValueError)


def c_else_return():
    def f(x):
        if x > 1:
            y = "big"
        elif x == 1:
            y = "one"
        else:
            return "small"
        return y

    return f(2), f(1), f(0)


def c_inner_class_method_ref():
    class A:
        def f(self):
            return 1

        g = f

    return A().g(), A.f(A())


def c_namedtuple():
    from typing import NamedTuple

    class N(NamedTuple):
        a: int
        b: int = 2

    n = N(1)
    return n.a, n.b, tuple(n), n._replace(a=5).a, n[0], N(*(3, 4))._asdict()


def c_enum():
    import enum

    class E(enum.Enum):
        A = 1
        B = 2

    return E.A.value, E.B.name, E(1) is E.A, [e.name for e in E], E["B"] is E.B, E.A == E.A


def c_getattribute():
    class A:
        k = 3

        def __init__(self):
            self.x = 1

        def __getattr__(self, name):
            if name == "y":
                return object.__getattribute__(self, "x") + 10
            try:
                return object.__getattribute__(self, name)
            except AttributeError:
                return "none:" + name

    class B:
        def __init__(self):
            self.z = 4

        def __getattribute__(self, name):
            if name == "w":
                return "special"
            return object.__getattribute__(self, name)

    a, b = A(), B()
    return a.x, a.y, a.k, a.q, b.z, b.w


def c_namedtuple_more():
    from typing import NamedTuple

    class N(NamedTuple):
        a: int
        b: tuple = (1, 2)

        def total(self):
            return self.a + sum(self.b)

        @property
        def first(self):
            return self[0]

    n = N(4)
    a, (b, c) = n
    x, *rest = n

    def f(*args):
        return args

    return (a, b, c, x, rest, f(*n), len(n), n == (4, (1, 2)), n.total(), n.first, n[-1], n + (9,), n[:1],
            isinstance(n, tuple), N._make([1, 2]).b, [y for y in n], 4 in n, dict(zip(N._fields, n)))


def c_namedtuple_fn():
    from collections import namedtuple

    P = namedtuple("P", ["x", "y"])
    p = P(1, y=2)
    x, y = p
    return x, y, p.x, p.y, tuple(p), p._replace(x=8)[0], P._fields
