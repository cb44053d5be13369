"""The mathematical definitions of the coordinate systems (the oracle).

Every position type: its components, their dimension and valid range, and the
Cartesian coordinates it denotes.  Coordinates are evaluated over jets (value,
first and second time derivative), so one definition is the oracle for
positions, velocities and accelerations.
"""
from __future__ import annotations

import math

from . import ring as R
from . import values as V
from .values import *  # noqa: F403


class J:
    """Second-order jet in time over value numbers."""
    __slots__ = ("c",)

    def __init__(self, *c):
        self.c = tuple(c) + (R.const(0),) * (3 - len(c))

    def __add__(self, o):
        return J(*[R.add(a, b) for a, b in zip(self.c, o.c)])

    def __sub__(self, o):
        return J(*[R.sub(a, b) for a, b in zip(self.c, o.c)])

    def __mul__(self, o):
        a, b = self.c, o.c
        two = R.const(2)
        return J(R.mul(a[0], b[0]), R.add(R.mul(a[0], b[1]), R.mul(a[1], b[0])),
                 R.add(R.add(R.mul(a[0], b[2]), R.mul(two, R.mul(a[1], b[1]))), R.mul(a[2], b[0])))


def jcos(a):
    c, s = R.cossin(a.c[0])
    return J(c, R.neg(R.mul(s, a.c[1])),
             R.neg(R.add(R.mul(c, R.mul(a.c[1], a.c[1])), R.mul(s, a.c[2]))))


def jsin(a):
    c, s = R.cossin(a.c[0])
    return J(s, R.mul(c, a.c[1]), R.sub(R.mul(c, a.c[2]), R.mul(s, R.mul(a.c[1], a.c[1]))))


def jsqrt(a):
    r = R.sqrt(a.c[0])
    two = R.const(2)
    d1 = R.div(a.c[1], R.mul(two, r))
    # r r'' + r'^2 = a''/2
    d2 = R.div(R.sub(R.div(a.c[2], two), R.mul(d1, d1)), r)
    return J(r, d1, d2)


def _prol(mu, nu, phi, delta):
    s = R.sign(nu.c[0])
    S, D = J(s), J(delta)
    anu = S * nu
    D2 = D * D
    iD = J(R.inv(delta))
    rho = iD * jsqrt((mu - D2) * (D2 - anu))
    z = S * iD * jsqrt(mu * anu)
    return [rho * jcos(phi), rho * jsin(phi), z]


def jconst(k):
    return J(R.const(k))


def _sph(r, theta, phi):
    st = jsin(theta)
    return [r * st * jcos(phi), r * st * jsin(phi), r * jcos(theta)]


def _lonlat(lon, lat, r):
    cl = jcos(lat)
    return [r * cl * jcos(lon), r * cl * jsin(lon), r * jsin(lat)]


L, A, AREA = V.DIMS["length"], V.DIMS["angle"], V.DIMS["area"]


class Spec:
    def __init__(self, name, dim, comps, cart, vel, acc):
        self.name, self.dim, self.comps, self.cart = name, dim, comps, cart
        self.vel, self.acc = vel, acc

    def names(self):
        return [c for c, _ in self.comps]


# component kinds: len, rad (length >= 0), az (azimuth), pol (0..pi), lat (-pi/2..pi/2)
SPECS = {}


def _s(name, dim, comps, cart, vel, acc):
    SPECS[name] = Spec(name, dim, comps, cart, vel, acc)


_s("CartesianPos1D", 1, [("x", "len")], lambda x: [x], "CartesianVel1D", "CartesianAcc1D")
_s("RadialPos", 1, [("r", "rad")], lambda r: [r], "RadialVel", "RadialAcc")
_s("CartesianPos2D", 2, [("x", "len"), ("y", "len")], lambda x, y: [x, y], "CartesianVel2D", "CartesianAcc2D")
_s("PolarPos", 2, [("r", "rad"), ("phi", "az")], lambda r, p: [r * jcos(p), r * jsin(p)], "PolarVel", "PolarAcc")
_s("CartesianPos3D", 3, [("x", "len"), ("y", "len"), ("z", "len")], lambda x, y, z: [x, y, z],
   "CartesianVel3D", "CartesianAcc3D")
_s("CylindricalPos", 3, [("rho", "rad"), ("phi", "az"), ("z", "len")],
   lambda r, p, z: [r * jcos(p), r * jsin(p), z], "CylindricalVel", "CylindricalAcc")
_s("SphericalPos", 3, [("r", "rad"), ("theta", "pol"), ("phi", "az")], _sph, "SphericalVel", "SphericalAcc")
_s("MathSphericalPos", 3, [("r", "rad"), ("theta", "az"), ("phi", "pol")],
   lambda r, t, p: _sph(r, p, t), "MathSphericalVel", "MathSphericalAcc")
_s("LonLatSphericalPos", 3, [("lon", "az"), ("lat", "lat"), ("distance", "rad")], _lonlat,
   "LonLatSphericalVel", "LonLatSphericalAcc")
_s("ProlateSpheroidalPos", 3, [("mu", "mu"), ("nu", "nu"), ("phi", "az")], None,
   "ProlateSpheroidalVel", "ProlateSpheroidalAcc")
_s("TwoSpherePos", 2, [("theta", "pol"), ("phi", "az")], None, "TwoSphereVel", "TwoSphereAcc")

KDIM = {"len": L, "rad": L, "az": A, "pol": A, "lat": A, "mu": AREA, "nu": AREA}


def symbol(lab, kind, name):
    """Value number of a component in its valid range."""
    if kind == "len":
        return lab.var(name)
    if kind == "rad":
        return lab.var(name, nonneg=True)
    if kind == "az":
        return lab.angle(name, 0, 2 * math.pi)
    if kind == "pol":
        return lab.angle(name, 0, math.pi, sin_nonneg=True)
    if kind == "lat":
        return lab.angle(name, -math.pi / 2, math.pi / 2, cos_nonneg=True)
    raise KeyError(kind)
