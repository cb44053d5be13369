"""Functions of jax.numpy and jax.lax in terms of the modelled ones (the name has `__` for `.`)."""
import functools
import operator

import jax
import quaxed.numpy as jnp


def jnp__signbit(x):
    return x < jnp.zeros_like(x)


def jnp__copysign(x, y):
    return jnp.where(y < jnp.zeros_like(y), -abs(x), abs(x))


def jnp__reciprocal(x):
    return 1 / x


def lax__rsqrt(x):
    return 1 / jnp.sqrt(x)


def jnp__positive(x):
    return +x


def jnp__fabs(x):
    return abs(x)


def jnp__float_power(x, y):
    return x**y


def jnp__fmin(x, y):
    return jnp.minimum(x, y)


def jnp__fmax(x, y):
    return jnp.maximum(x, y)


def jnp__logical_xor(x, y):
    return (x & ~y) | (~x & y)


def jnp__isfinite(x):
    return x == x


def lax__is_finite(x):
    return x == x


def jnp__isnan(x):
    return x != x


def jnp__isinf(x):
    return x != x


def jnp__nan_to_num(x, *args, **kwargs):
    return x


def jnp__vdot(x, y):
    return jnp.sum(x * y)


def jnp__inner(x, y):
    return jnp.sum(x * y, axis=-1)


def jnp__vecdot(x, y, /, *, axis=-1):
    return jnp.sum(x * y, axis=axis)


def jnp__linalg__vecdot(x, y, /, *, axis=-1):
    return jnp.sum(x * y, axis=axis)


def jnp__outer(x, y):
    return x[:, None] * y[None, :]


def jnp__linalg__outer(x, y, /):
    return x[:, None] * y[None, :]


def jnp__cross(x, y):
    return jnp.stack([x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1],
                      x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2],
                      x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]], axis=-1)


def jnp__linalg__cross(x, y, /, *, axis=-1):
    return jnp__cross(x, y)


def jnp__linalg__matmul(x, y, /):
    return x @ y


def jnp__linalg__multi_dot(xs):
    return functools.reduce(operator.matmul, xs)


def jnp__trace(x):
    return sum((x[i, i] for i in range(1, x.shape[-1])), start=x[0, 0])


def jnp__linalg__trace(x, /):
    return jnp__trace(x)


def jnp__linalg__matrix_transpose(x, /):
    return jnp.matrix_transpose(x)


def jnp__unstack(x, /, *, axis=0):
    if axis == -1 or (axis == 0 and len(x.shape) == 1):
        return tuple(x[..., i] for i in range(x.shape[-1]))
    if axis == 0:
        return tuple(x)
    return tuple(jnp.moveaxis(x, axis, 0))


def lax__select_n(which, *cases):
    first, second = cases
    return jnp.where(which, second, first)


def lax__clamp(lo, x, hi):
    return jnp.clip(x, lo, hi)


def lax__bitwise_and(x, y):
    return x & y


def lax__bitwise_or(x, y):
    return x | y


def lax__bitwise_not(x):
    return ~x


def lax__concatenate(xs, dimension):
    return jnp.concatenate(xs, axis=dimension)


def lax__fori_loop(lower, upper, body, init):
    for i in range(lower, upper):
        init = body(i, init)
    return init


def jax__tree__reduce(f, tree, *init):
    return functools.reduce(f, jax.tree.leaves(tree), *init)


def jax__tree__all(tree):
    return all(jax.tree.leaves(tree))


def copy__copy(x):
    return x


def copy__deepcopy(x):
    return x


class NamedTuple:
    """Base of the classes declared with typing.NamedTuple (made frozen dataclasses)."""

    def __iter__(self):
        return iter([getattr(self, k) for k in self._fields])

    def __len__(self):
        return len(self._fields)

    def __getitem__(self, i):
        return tuple(self)[i]

    def __eq__(self, other):
        return tuple(self) == tuple(other)

    def __ne__(self, other):
        return tuple(self) != tuple(other)

    def __contains__(self, x):
        return x in tuple(self)

    def __add__(self, other):
        return tuple(self) + tuple(other)

    def __radd__(self, other):
        return tuple(other) + tuple(self)

    def index(self, x):
        return tuple(self).index(x)

    def count(self, x):
        return tuple(self).count(x)

    def _asdict(self):
        return {k: getattr(self, k) for k in self._fields}

    def _replace(self, **kwargs):
        return type(self)(**{**self._asdict(), **kwargs})

    @classmethod
    def _make(cls, xs):
        return cls(*xs)
