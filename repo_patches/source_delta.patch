From 2e36a80c031831f8a234f7fc6fca693d4be6b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 01/51] fix: accept negative distance moduli as radial
 distances

---
 src/coordinax/_src/vectors/checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index b94a9a0..b4560bb 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -10,6 +10,7 @@ import unxt as u
 from unxt.quantity import AbstractQuantity
 
 from coordinax._src.angles import Angle, BatchableAngleQ
+from coordinax._src.distances import DistanceModulus
 
 _0d = Angle(0, "rad")
 _pid = Angle(180, "deg")
@@ -36,6 +37,9 @@ def check_r_non_negative(r: AbstractQuantity) -> AbstractQuantity:
     ... except Exception: pass
 
     """
+    # A distance modulus is logarithmic: any value is a (positive) distance.
+    if isinstance(r, DistanceModulus):
+        return r
     return check_non_negative(r, name="radial distance r")
 
 
-- 
2.43.0


From 5a1c1c0ed4a6b4d6c444b16ab9308026f8b9688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 02/51] fix: wrap azimuths given as Angle into one turn

---
 src/coordinax/_src/vectors/d2/polar.py           | 4 +---
 src/coordinax/_src/vectors/d2/spherical.py       | 5 +----
 src/coordinax/_src/vectors/d3/cylindrical.py     | 5 +----
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 4 +---
 src/coordinax/_src/vectors/d3/mathspherical.py   | 4 +---
 src/coordinax/_src/vectors/d3/spherical.py       | 4 +---
 src/coordinax/_src/vectors/d3/spheroidal.py      | 5 +----
 7 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..10df94f 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -43,9 +43,7 @@ class PolarPos(AbstractPos2D):
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
     phi: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Polar angle, generally :math:`\phi \in [0,2\pi)`."""
 
diff --git a/src/coordinax/_src/vectors/d2/spherical.py b/src/coordinax/_src/vectors/d2/spherical.py
index 60ce03b..4476fdd 100644
--- a/src/coordinax/_src/vectors/d2/spherical.py
+++ b/src/coordinax/_src/vectors/d2/spherical.py
@@ -9,7 +9,6 @@ from typing_extensions import override
 import equinox as eqx
 
 import unxt as u
-from dataclassish.converters import Unless
 
 import coordinax._src.typing as ct
 from .base import AbstractAcc2D, AbstractPos2D, AbstractVel2D
@@ -68,9 +67,7 @@ class TwoSpherePos(AbstractPos2D):
     r"""Inclination angle :math:`\theta \in [0,180]`."""
 
     phi: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Azimuthal angle :math:`\phi \in [0,360)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/cylindrical.py b/src/coordinax/_src/vectors/d3/cylindrical.py
index 1fd292b..c853e80 100644
--- a/src/coordinax/_src/vectors/d3/cylindrical.py
+++ b/src/coordinax/_src/vectors/d3/cylindrical.py
@@ -14,7 +14,6 @@ import equinox as eqx
 
 import quaxed.numpy as xp
 import unxt as u
-from dataclassish.converters import Unless
 
 import coordinax._src.typing as ct
 from .base import AbstractAcc3D, AbstractPos3D, AbstractVel3D
@@ -39,9 +38,7 @@ class CylindricalPos(AbstractPos3D):
     r"""Cylindrical radial distance :math:`\rho \in [0,+\infty)`."""
 
     phi: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Azimuthal angle, generally :math:`\phi \in [0,360)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..a797974 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -101,9 +101,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
     """
 
     lon: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Longitude (azimuthal) angle :math:`\in [0,360)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..e566c14 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -61,9 +61,7 @@ class MathSphericalPos(AbstractSphericalPos):
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
     theta: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Azimuthal angle, generally :math:`\theta \in [0,360)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..f69a7db 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -60,9 +60,7 @@ class SphericalPos(AbstractSphericalPos):
     r"""Inclination angle :math:`\theta \in [0,180]`."""
 
     phi: BatchableAngle = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Azimuthal angle, generally :math:`\phi \in [0,360)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/spheroidal.py b/src/coordinax/_src/vectors/d3/spheroidal.py
index 0b084be..bff5027 100644
--- a/src/coordinax/_src/vectors/d3/spheroidal.py
+++ b/src/coordinax/_src/vectors/d3/spheroidal.py
@@ -11,7 +11,6 @@ from jaxtyping import Shaped
 
 import quaxed.numpy as jnp
 import unxt as u
-from dataclassish.converters import Unless
 
 import coordinax._src.typing as ct
 from .base import AbstractAcc3D, AbstractPos3D, AbstractVel3D
@@ -99,9 +98,7 @@ class ProlateSpheroidalPos(AbstractPos3D):
     r"""Spheroidal nu coordinate :math:`\lambda \in [-\infty,+\infty)`."""
 
     phi: BatchableAngleQ = eqx.field(
-        converter=Unless(
-            Angle, lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
-        )
+        converter=lambda x: converter_azimuth_to_range(Angle.from_(x, dtype=float))
     )
     r"""Azimuthal angle, generally :math:`\phi \in [0,360)`."""
 
-- 
2.43.0


From ab8e4d053540159c56fcac4ad033524262c06a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 03/51] fix: convert parallax and distance-modulus radii in
 dimension changes

---
 src/coordinax/_src/vectors/transform/d1.py |  6 +++---
 src/coordinax/_src/vectors/transform/d2.py |  4 ++--
 src/coordinax/_src/vectors/transform/d3.py | 16 ++++++++--------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d1.py b/src/coordinax/_src/vectors/transform/d1.py
index ca27163..d0f031b 100644
--- a/src/coordinax/_src/vectors/transform/d1.py
+++ b/src/coordinax/_src/vectors/transform/d1.py
@@ -284,7 +284,7 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(x=current.r, y=y)
+    return target(x=current.r.distance, y=y)
 
 
 @dispatch
@@ -364,7 +364,7 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(x=current.r, y=y, z=z)
+    return target(x=current.r.distance, y=y, z=z)
 
 
 @dispatch
@@ -468,4 +468,4 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(rho=current.r, phi=phi, z=z)
+    return target(rho=current.r.distance, phi=phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d2.py b/src/coordinax/_src/vectors/transform/d2.py
index b4900fb..a1d2263 100644
--- a/src/coordinax/_src/vectors/transform/d2.py
+++ b/src/coordinax/_src/vectors/transform/d2.py
@@ -245,7 +245,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.cos(current.phi))
 
 
 @dispatch
@@ -364,4 +364,4 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(rho=current.r, phi=current.phi, z=z)
+    return target(rho=current.r.distance, phi=current.phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..c0f9b85 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -293,7 +293,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.theta) * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi))
 
 
 @dispatch
@@ -352,8 +352,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.theta) * jnp.cos(current.phi)
-    y = current.r * jnp.sin(current.theta) * jnp.sin(current.phi)
+    x = current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi)
+    y = current.r.distance * jnp.sin(current.theta) * jnp.sin(current.phi)
     return target(x=x, y=y)
 
 
@@ -382,7 +382,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    return target(r=current.r.distance * jnp.sin(current.theta), phi=current.phi)
 
 
 # =============================================================================
@@ -417,7 +417,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.phi) * jnp.cos(current.theta))
+    return target(x=current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta))
 
 
 @dispatch
@@ -476,8 +476,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.phi) * jnp.cos(current.theta)
-    y = current.r * jnp.sin(current.phi) * jnp.sin(current.theta)
+    x = current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta)
+    y = current.r.distance * jnp.sin(current.phi) * jnp.sin(current.theta)
     return target(x=x, y=y)
 
 
@@ -506,7 +506,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    return target(r=current.r.distance * jnp.sin(current.phi), phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From 811661380c1f82552287586ce714143c17b8df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 04/51] fix: do not treat negative distance moduli as negative
 distances in from_

---
 .../_src/vectors/d3/lonlatspherical.py          | 17 ++++++++++++-----
 src/coordinax/_src/vectors/d3/mathspherical.py  | 17 ++++++++++++-----
 src/coordinax/_src/vectors/d3/spherical.py      | 17 ++++++++++++-----
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index a797974..fe9b5a0 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -27,7 +27,12 @@ from .base_spherical import (
     _180d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import (
+    AbstractDistance,
+    BatchableDistance,
+    Distance,
+    DistanceModulus,
+)
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -221,10 +226,12 @@ def from_(
     distance = fields["distance"].metadata["converter"](distance)
 
     # 2) handle negative distances
-    distance_pred = distance < jnp.zeros_like(distance)
-    distance = qlax.select(distance_pred, -distance, distance)
-    lon = qlax.select(distance_pred, lon + _180d, lon)
-    lat = qlax.select(distance_pred, -lat, lat)
+    # (a distance modulus is logarithmic, so it is never a negative distance)
+    if not isinstance(distance, DistanceModulus):
+        distance_pred = distance < jnp.zeros_like(distance)
+        distance = qlax.select(distance_pred, -distance, distance)
+        lon = qlax.select(distance_pred, lon + _180d, lon)
+        lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
     # TODO: fix when lat < -180, lat > 180
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index e566c14..a870a4c 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -30,7 +30,12 @@ from .base_spherical import (
     _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import (
+    AbstractDistance,
+    BatchableDistance,
+    Distance,
+    DistanceModulus,
+)
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -166,10 +171,12 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
 
     # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    theta = qlax.select(r_pred, theta + _180d, theta)
-    phi = qlax.select(r_pred, _180d - phi, phi)
+    # (a distance modulus is logarithmic, so it is never a negative distance)
+    if not isinstance(r, DistanceModulus):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        theta = qlax.select(r_pred, theta + _180d, theta)
+        phi = qlax.select(r_pred, _180d - phi, phi)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     phi = jnp.mod(phi, _360d)  # wrap to [0, 360) deg
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f69a7db..dad9adb 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -22,7 +22,12 @@ from .base_spherical import (
     _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import (
+    AbstractDistance,
+    BatchableDistance,
+    Distance,
+    DistanceModulus,
+)
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -144,10 +149,12 @@ def from_(
     phi = fields["phi"].metadata["converter"](phi)
 
     # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    phi = qlax.select(r_pred, phi + _180d, phi)
-    theta = qlax.select(r_pred, _180d - theta, theta)
+    # (a distance modulus is logarithmic, so it is never a negative distance)
+    if not isinstance(r, DistanceModulus):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        phi = qlax.select(r_pred, phi + _180d, phi)
+        theta = qlax.select(r_pred, _180d - theta, theta)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     theta = jnp.mod(theta, _360d)  # wrap to [0, 360) deg
-- 
2.43.0


From f7033073fa5b7a13d73af784f9145fce165c32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 05/51] fix: wrap latitudes beyond half a turn in
 LonLatSphericalPos.from_

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index fe9b5a0..7d42f1e 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -25,6 +25,7 @@ from .base_spherical import (
     AbstractSphericalVel,
     _90d,
     _180d,
+    _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
 from coordinax._src.distances import (
@@ -234,7 +235,7 @@ def from_(
         lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
-    # TODO: fix when lat < -180, lat > 180
+    lat = jnp.mod(lat + _180d, _360d) - _180d  # wrap to [-180, 180) deg
     lat_pred = lat < -_90d
     lat = qlax.select(lat_pred, -_180d - lat, lat)
     lon = qlax.select(lat_pred, lon + _180d, lon)
-- 
2.43.0


From 7e38e257e92d4ab8f109adc84f458d66bc7a80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 06/51] fix: resolve LonCosLatSphericalVel self-conversion at a
 quantity position

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..45fe77f 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -105,7 +105,7 @@ def represent_as(
     (
         LonCosLatSphericalVel,
         type[LonCosLatSphericalVel],
-        AbstractPos,
+        AbstractPos | u.Quantity["length"],
     ),
     (MathSphericalVel, type[MathSphericalVel], AbstractPos),
     (ProlateSpheroidalVel, type[ProlateSpheroidalVel], AbstractPos),
@@ -113,7 +113,7 @@ def represent_as(
 def represent_as(
     current: AbstractVel3D,
     target: type[AbstractVel3D],
-    position: AbstractPos,
+    position: AbstractPos | u.Quantity["length"],
     /,
     **kwargs: Any,
 ) -> AbstractVel3D:
-- 
2.43.0


From 3a386444bf692140ff7a3d5c8b93a86578e3d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 07/51] fix: forward conversion options from
 LonCosLatSphericalVel to the target

---
 src/coordinax/_src/vectors/d3/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 45fe77f..67a3b89 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -928,7 +928,7 @@ def represent_as(
     # Transform the differential to LonLatSphericalVel
     current = represent_as(current, LonLatSphericalVel, posvec)
     # Transform the position to the required type
-    return represent_as(current, target, posvec)
+    return represent_as(current, target, posvec, **kwargs)
 
 
 # =============================================================================
-- 
2.43.0


From 379d0a2c77c7e3c5a984f7e0d57bf055a6e26627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 08/51] fix: convert velocities away from prolate spheroidal
 coordinates

---
 src/coordinax/_src/vectors/transform/velocities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..c847eda 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -131,7 +131,9 @@ def represent_as(
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    # The components are batched, the attributes (e.g. ``Delta``) are not.
+    pos_axes = jax.tree.map(lambda x: 0 if jnp.ndim(x) > 0 else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(pos_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From 5e73b6dc490530a958137ffe8fb03c0e14f38b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 09/51] fix: convert accelerations to and from prolate
 spheroidal coordinates

---
 .../_src/vectors/transform/accelerations.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..b638fb4 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 from dataclasses import replace
+from functools import partial
 from math import prod
 from typing import Any
 
@@ -16,6 +17,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +150,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,6 +165,10 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    tmp = partial(represent_as, **kwargs)
+    # The components are batched, the attributes (e.g. ``Delta``) are not.
+    pos_axes = jax.tree.map(lambda x: 0 if jnp.ndim(x) > 0 else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(pos_axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
@@ -171,9 +177,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -197,7 +203,3 @@ def represent_as(
     #       This is necessary for the df/dt * vel term in the chain rule.
 
     return newvec  # noqa: RET504
-
-
-# TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
-- 
2.43.0


From 4111b1fd3414a6bde880487edd663225c50fd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 10/51] fix: include the changing Jacobian when converting
 accelerations

---
 .../_src/vectors/transform/accelerations.py   | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index b638fb4..7696a47 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -157,7 +157,7 @@ def represent_as(
 
     # Start by transforming the velocity to the type required by the
     # differential to construct the Jacobian.
-    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)  # noqa: F841  # pylint: disable=unused-variable
+    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)
 
     # Takes the Jacobian through the representation transformation function.  This
     # returns a representation of the target type, where the value of each field the
@@ -182,24 +182,44 @@ def represent_as(
         for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
+    # The Jacobian changes along the trajectory. Its time derivative is its
+    # derivative with respect to the position, contracted with the velocity. This
+    # is structured like the Jacobian, with one more level of nesting:
+    # {row_i: {col_j: {col_k: Quantity(value, row.unit / (col_j.unit * col_k.unit))}}}
+    hess_rep_as = eqx.filter_jit(
+        jax.vmap(jax.jacfwd(jax.jacfwd(tmp)), in_axes=(pos_axes, None))
+    )
+    hess_nested_vecs = hess_rep_as(current_pos, target.integral_cls.integral_cls)
+    hess_rows = {
+        f"d2_{k}": {
+            (kk, kkk): u.Quantity(vvv.value, unit=v.unit / (vv.unit * vvv.unit))
+            for kk, vv in field_items(AttrFilter, v.value)
+            for kkk, vvv in field_items(AttrFilter, vv.value)
+        }
+        for k, v in field_items(AttrFilter, hess_nested_vecs)
+    }
+
     # Now we can use the Jacobian to transform the differential.
     flat_current = current.reshape(flat_shape)
-    newvec = target(
-        **{  # Each field is the dot product of the row of the J and the diff column.
-            k: jnp.sum(  # Doing the dot product.
+    return target(
+        **{
+            # Each field is the dot product of the row of the J and the diff column
+            # plus the dot product of the row of dJ/dt and the velocity column.
+            k: jnp.sum(
                 jnp.stack(
                     tuple(
                         j_c * getattr(flat_current, f"d2_{kk}")
                         for kk, j_c in j_r.items()
                     )
+                    + tuple(
+                        h_c
+                        * getattr(current_vel, f"d_{kk}")
+                        * getattr(current_vel, f"d_{kkk}")
+                        for (kk, kkk), h_c in hess_rows[k].items()
+                    )
                 ),
                 axis=0,
             )
             for k, j_r in jac_rows.items()
         }
     ).reshape(shape)
-
-    # TODO: add  df(q)/dt, which is 0 for all current transforms
-    #       This is necessary for the df/dt * vel term in the chain rule.
-
-    return newvec  # noqa: RET504
-- 
2.43.0


From a78f17aba98d4f6a0617bb53279dba017725f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 11/51] fix: add and subtract vectors whose components have
 different units

---
 src/coordinax/_src/utils.py                | 11 +++++++++++
 src/coordinax/_src/vectors/d1/cartesian.py | 12 ++++++------
 src/coordinax/_src/vectors/d2/cartesian.py | 10 +++++-----
 src/coordinax/_src/vectors/d3/cartesian.py | 12 ++++++------
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/coordinax/_src/utils.py b/src/coordinax/_src/utils.py
index 7cb38d8..9343ecd 100644
--- a/src/coordinax/_src/utils.py
+++ b/src/coordinax/_src/utils.py
@@ -7,6 +7,8 @@ from dataclasses import dataclass
 from typing import Annotated as Ann, Generic, TypeVar
 from typing_extensions import Doc
 
+from unxt.quantity import AbstractQuantity
+
 GetterRetT = TypeVar("GetterRetT")
 EnclosingT = TypeVar("EnclosingT")
 
@@ -138,3 +140,12 @@ def classproperty(
     fget = func if isinstance(func, classmethod | staticmethod) else classmethod(func)
     # Return the wrapped function as a class-level property
     return ClassPropertyDescriptor[EnclosingT, GetterRetT](fget)
+
+
+def is_quantity(obj: object, /) -> bool:
+    """Whether the object is a quantity.
+
+    This is the ``is_leaf`` of a `jax.tree.map` over the components of vectors,
+    which otherwise maps over the values, irrespective of the units.
+    """
+    return isinstance(obj, AbstractQuantity)
diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..149a5cb 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -19,7 +19,7 @@ from quaxed import lax as qlax
 import coordinax._src.typing as ct
 from .base import AbstractAcc1D, AbstractPos1D, AbstractVel1D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -89,7 +89,7 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return jax.tree.map(qlax.add, lhs, cart, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +158,7 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return jax.tree.map(qlax.sub, self, cart, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -225,7 +225,7 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +316,7 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +371,4 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return jax.tree.map(qlax.sub, self, other, is_leaf=is_quantity)
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..acc4a6e 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -24,7 +24,7 @@ from unxt.quantity import AbstractQuantity, Quantity
 import coordinax._src.typing as ct
 from .base import AbstractAcc2D, AbstractPos2D, AbstractVel2D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -98,7 +98,7 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return jax.tree.map(qlax.add, lhs, cart, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +155,7 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return jax.tree.map(qlax.sub, lhs, cart, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -232,7 +232,7 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -345,7 +345,7 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..73a7729 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -27,7 +27,7 @@ import coordinax._src.typing as ct
 from .base import AbstractAcc3D, AbstractPos3D, AbstractVel3D
 from .generic import CartesianGeneric3D
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
 
@@ -148,7 +148,7 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return jax.tree.map(qlax.sub, lhs, cart, is_leaf=is_quantity)
 
 
 # =====================================================
@@ -286,7 +286,7 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +302,7 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return jax.tree.map(qlax.sub, lhs, other, is_leaf=is_quantity)
 
 
 #####################################################################
@@ -386,7 +386,7 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return jax.tree.map(qlax.add, lhs, rhs, is_leaf=is_quantity)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +415,4 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return jax.tree.map(qlax.sub, lhs, rhs, is_leaf=is_quantity)
-- 
2.43.0


From 10b954635cbda1f1b70ec1452c68c17d4ab5146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 12/51] fix: divide positions, not their angles, by scalars

---
 src/coordinax/_src/vectors/base/base_pos.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..8e0bb55 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -23,7 +23,7 @@ from .base import AbstractVector
 from .flags import AttrFilter
 from .mixins import AvalMixin
 from coordinax._src.distances import BatchableLength
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.api import represent_as
 
 PosT = TypeVar("PosT", bound="AbstractPos")
@@ -214,6 +214,14 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
+    # Angles do not scale with the vector, so divide in Cartesian coordinates.
+    if any(
+        is_quantity(v) and u.dimension_of(v) == u.dimension("angle")
+        for _, v in field_items(AttrFilter, lhs)
+    ):
+        cart = lhs.represent_as(lhs._cartesian_cls)  # noqa: SLF001
+        return qlax.div(cart, rhs).represent_as(type(lhs))
+
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
     )
-- 
2.43.0


From 933907bc8e9366056246b303efc2a6da4f720bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 13/51] fix: keep the attributes of positions in arithmetic

---
 src/coordinax/_src/vectors/base/base_pos.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 8e0bb55..6cd7fe0 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -177,6 +177,12 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
 # Register primitives
 
 
+def _attributes(obj: AbstractPos, /) -> dict[str, Any]:
+    """The fields that are not components, e.g. ``Delta`` of spheroidal coordinates."""
+    return {k: v for k, v in field_items(obj) if k not in obj.components}
+
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
     # The base implementation is to convert to Cartesian and perform the
@@ -191,7 +197,7 @@ def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
     )
     return qlax.add(  # re-dispatch on the Cartesian class
         lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)
-    ).represent_as(type(lhs))
+    ).represent_as(type(lhs), **_attributes(lhs))
 
 
 # ------------------------------------------------
@@ -220,7 +226,7 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
         for _, v in field_items(AttrFilter, lhs)
     ):
         cart = lhs.represent_as(lhs._cartesian_cls)  # noqa: SLF001
-        return qlax.div(cart, rhs).represent_as(type(lhs))
+        return qlax.div(cart, rhs).represent_as(type(lhs), **_attributes(lhs))
 
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
@@ -329,7 +335,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
 
     rc = rhs.represent_as(rhs._cartesian_cls)  # noqa: SLF001
     nr = qlax.mul(lhs, rc)
-    return nr.represent_as(type(rhs))
+    return nr.represent_as(type(rhs), **_attributes(rhs))
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -410,7 +416,7 @@ def _neg_pos(obj: AbstractPos, /) -> AbstractPos:
     """
     cart = represent_as(obj, obj._cartesian_cls)  # noqa: SLF001
     negcart = jnp.negative(cart)
-    return represent_as(negcart, type(obj))
+    return represent_as(negcart, type(obj), **_attributes(obj))
 
 
 # ------------------------------------------------
@@ -465,4 +471,4 @@ def _sub_qq(lhs: AbstractPos, rhs: AbstractPos) -> AbstractPos:
     return qlax.sub(
         lhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
         rhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
-    ).represent_as(type(lhs))
+    ).represent_as(type(lhs), **_attributes(lhs))
-- 
2.43.0


From ff99528f31acee6556867f2b6e5f030ccf463431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 14/51] fix: scale polar and mathematical spherical positions
 by negative scalars

---
 src/coordinax/_src/vectors/d2/polar.py         | 6 ++++--
 src/coordinax/_src/vectors/d3/mathspherical.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index 10df94f..c4c2cf2 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -10,6 +10,7 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
+import quaxed.numpy as jnp
 import unxt as u
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -86,8 +87,9 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance, reversing the direction for negative scalars
+    phi = rhs.phi + u.Quantity(jnp.where(lhs < 0, 180, 0), "deg")
+    return replace(rhs, r=jnp.abs(lhs) * rhs.r, phi=phi)
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index a870a4c..7a581a7 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -220,8 +220,10 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance, reversing the direction for negative scalars
+    flip = Quantity(jnp.where(lhs < 0, 180, 0), "deg")
+    phi = jnp.where(lhs < 0, -1, 1) * rhs.phi + flip
+    return replace(rhs, r=jnp.abs(lhs) * rhs.r, theta=rhs.theta + flip, phi=phi)
 
 
 ##############################################################################
-- 
2.43.0


From 885dd8827ca60e46a3dc174d7408f77cc08806d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 15/51] fix: scale distances, not parallaxes or distance
 moduli, in position arithmetic

---
 src/coordinax/_src/vectors/base/base_pos.py    | 8 +++++---
 src/coordinax/_src/vectors/d2/polar.py         | 3 ++-
 src/coordinax/_src/vectors/d3/mathspherical.py | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 6cd7fe0..0689872 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -22,7 +22,7 @@ from dataclassish import field_items
 from .base import AbstractVector
 from .flags import AttrFilter
 from .mixins import AvalMixin
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import AbstractDistance, BatchableLength
 from coordinax._src.utils import classproperty, is_quantity
 from coordinax._src.vectors.api import represent_as
 
@@ -220,9 +220,11 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
-    # Angles do not scale with the vector, so divide in Cartesian coordinates.
+    # Angles do not scale with the vector, nor do distances given as parallaxes or
+    # distance moduli, so divide in Cartesian coordinates.
     if any(
-        is_quantity(v) and u.dimension_of(v) == u.dimension("angle")
+        isinstance(v, AbstractDistance)
+        or is_quantity(v) and u.dimension_of(v) == u.dimension("angle")
         for _, v in field_items(AttrFilter, lhs)
     ):
         cart = lhs.represent_as(lhs._cartesian_cls)  # noqa: SLF001
diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index c4c2cf2..f16a618 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -89,7 +89,8 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     )
     # Scale the radial distance, reversing the direction for negative scalars
     phi = rhs.phi + u.Quantity(jnp.where(lhs < 0, 180, 0), "deg")
-    return replace(rhs, r=jnp.abs(lhs) * rhs.r, phi=phi)
+    r = rhs.r.distance if isinstance(rhs.r, AbstractDistance) else rhs.r
+    return replace(rhs, r=jnp.abs(lhs) * r, phi=phi)
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 7a581a7..844fef9 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -223,7 +223,8 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     # Scale the radial distance, reversing the direction for negative scalars
     flip = Quantity(jnp.where(lhs < 0, 180, 0), "deg")
     phi = jnp.where(lhs < 0, -1, 1) * rhs.phi + flip
-    return replace(rhs, r=jnp.abs(lhs) * rhs.r, theta=rhs.theta + flip, phi=phi)
+    r = rhs.r.distance if isinstance(rhs.r, AbstractDistance) else rhs.r
+    return replace(rhs, r=jnp.abs(lhs) * r, theta=rhs.theta + flip, phi=phi)
 
 
 ##############################################################################
-- 
2.43.0


From 4010c76d8c8a40ea3aca9796393d4c134df857ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 16/51] fix: compute the norm of two-dimensional Cartesian
 velocities

---
 src/coordinax/_src/vectors/d2/cartesian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index acc4a6e..7fe662e 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -185,6 +185,12 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector."""
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From 2cc78f7764eaa611e31c06a6c9cdeec60e8dd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 17/51] fix: accept a velocity and position in norms of
 Cartesian accelerations

---
 src/coordinax/_src/vectors/d1/cartesian.py | 7 ++++++-
 src/coordinax/_src/vectors/d2/cartesian.py | 7 ++++++-
 src/coordinax/_src/vectors/d3/cartesian.py | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 149a5cb..1a1540c 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -280,7 +280,12 @@ class CartesianAcc1D(AvalMixin, AbstractAcc1D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractPos1D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel1D | None = None,
+        position: AbstractPos1D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 7fe662e..3ce0840 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -293,7 +293,12 @@ class CartesianAcc2D(AvalMixin, AbstractAcc2D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel2D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel2D | None = None,
+        position: AbstractPos2D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 73a7729..9ac8adb 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -338,7 +338,12 @@ class CartesianAcc3D(AvalMixin, AbstractAcc3D):
 
     @override
     @partial(eqx.filter_jit, inline=True)
-    def norm(self, _: AbstractVel3D | None = None, /) -> ct.BatchableAcc:
+    def norm(
+        self,
+        velocity: AbstractVel3D | None = None,
+        position: AbstractPos3D | None = None,
+        /,
+    ) -> ct.BatchableAcc:
         """Return the norm of the vector.
 
         Examples
-- 
2.43.0


From 34673d49de0aa91e0d4032f0515a6c0e49c2d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 18/51] fix: convert the units of space-time vectors and spaces

---
 src/coordinax/_src/vectors/base/compat.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/compat.py b/src/coordinax/_src/vectors/base/compat.py
index 8295153..4f2e62b 100644
--- a/src/coordinax/_src/vectors/base/compat.py
+++ b/src/coordinax/_src/vectors/base/compat.py
@@ -224,7 +224,9 @@ def uconvert(usys: u.AbstractUnitSystem, vector: AbstractVector, /) -> AbstractV
     return replace(
         vector,
         **{
-            k: u.uconvert(usys[u.dimension_of(v)], v)
+            k: u.uconvert(
+                usys if isinstance(v, AbstractVector) else usys[u.dimension_of(v)], v
+            )
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -267,7 +269,9 @@ def uconvert(
     return replace(
         vector,
         **{
-            k: u.uconvert(units_[u.dimension_of(v)], v)
+            k: u.uconvert(
+                units if isinstance(v, AbstractVector) else units_[u.dimension_of(v)], v
+            )
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -318,6 +322,9 @@ def uconvert(
     dim2unit = {}
     units_ = {}
     for k, v in field_items(AttrFilter, vector):
+        if isinstance(v, AbstractVector):
+            units_[k] = flag
+            continue
         pt = u.dimension_of(v)
         if pt not in dim2unit:
             dim2unit[pt] = u.unit_of(v)
-- 
2.43.0


From 69ec2f787200b72ec46ff8825666b6016901c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 19/51] fix: broadcast the components of space-time vectors and
 spaces

---
 src/coordinax/_src/vectors/utils.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..3ff8097 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -2,11 +2,11 @@
 
 __all__: list[str] = []
 
-from dataclasses import replace as _dataclass_replace
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items, replace
+from unxt.quantity import AbstractQuantity
 
 from .base.flags import AttrFilter
 
@@ -32,5 +32,20 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
-    return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+    return _broadcast_components(obj, obj.shape)
+
+
+def _broadcast_components(obj: Any, shape: tuple[int, ...], /) -> Any:
+    """Broadcast a quantity or all the components of a vector to the shape."""
+    if isinstance(obj, AbstractQuantity):
+        return jnp.broadcast_to(obj, shape)
+
+    # The components can themselves be vectors, e.g. in `FourVector` and `Space`,
+    # or have trailing feature axes, e.g. in `CartesianPosND`.
+    return replace(
+        obj,
+        **{
+            k: _broadcast_components(v, (*shape, *v.shape[obj.ndim :]))
+            for k, v in field_items(AttrFilter, obj)
+        },
+    )
-- 
2.43.0


From 25973d9441b69661dbaa8e435a279c56ce33f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 20/51] fix: broadcast the components before reshaping or
 transposing a vector

---
 src/coordinax/_src/vectors/base/base.py  | 12 ++++++++----
 src/coordinax/_src/vectors/space/core.py |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..4e35557 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -347,7 +347,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -436,7 +437,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -742,8 +744,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            full, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -763,7 +766,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.ravel() for k, v in field_items(AttrFilter, full)})
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..7f55c15 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -217,7 +218,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        return Space(**{k: v[key] for k, v in full_shaped(self).items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
-- 
2.43.0


From b47fe1d031b1601498add733305307055fc95b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 21/51] fix: transpose N-dimensional vectors with three or more
 batch axes

---
 src/coordinax/_src/vectors/dn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..50953c2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -70,7 +70,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -206,7 +206,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -345,7 +345,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
-- 
2.43.0


From 4d05f6bc2b3e7adf044167fe63b12e83d3e3282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 22/51] fix: index and ravel only the batch axes of
 N-dimensional vectors

---
 src/coordinax/_src/vectors/dn/base.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 50953c2..6c3e3f8 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -24,6 +24,14 @@ if TYPE_CHECKING:
     from typing import Never
 
 
+def _batch_index(index: Any, /) -> tuple[Any, ...]:
+    """Complete an index into the batch axes with the axis of the components."""
+    index = index if isinstance(index, tuple) else (index,)
+    if not any(i is Ellipsis for i in index):
+        index = (*index, Ellipsis)
+    return (*index, slice(None))
+
+
 class AbstractPosND(AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
@@ -111,6 +119,9 @@ class AbstractPosND(AbstractPos):
             self, q=qlax.transpose(self.q, (*range(self.ndim)[::-1], self.ndim))
         )
 
+    def __getitem__(self, index: Any) -> "Self":
+        return replace(self, q=self.q[_batch_index(index)])
+
     # ===============================================================
     # Further array methods
 
@@ -131,6 +142,9 @@ class AbstractPosND(AbstractPos):
         """
         return replace(self, q=jnp.reshape(self.q, (self.size, self.q.shape[-1]), "C"))
 
+    def ravel(self) -> "Self":
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the N-dimensional position.
 
@@ -247,6 +261,9 @@ class AbstractVelND(AbstractVel):
             self, d_q=qlax.transpose(self.d_q, (*range(self.ndim)[::-1], self.ndim))
         )
 
+    def __getitem__(self, index: Any) -> "Self":
+        return replace(self, d_q=self.d_q[_batch_index(index)])
+
     # ===============================================================
     # Further array methods
 
@@ -268,6 +285,9 @@ class AbstractVelND(AbstractVel):
             self, d_q=jnp.reshape(self.d_q, (self.size, self.d_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
@@ -386,6 +406,9 @@ class AbstractAccND(AbstractAcc):
             d2_q=qlax.transpose(self.d2_q, (*range(self.ndim)[::-1], self.ndim)),
         )
 
+    def __getitem__(self, index: Any) -> "Self":
+        return replace(self, d2_q=self.d2_q[_batch_index(index)])
+
     # ===============================================================
     # Further array methods
 
@@ -407,6 +430,9 @@ class AbstractAccND(AbstractAcc):
             self, d2_q=jnp.reshape(self.d2_q, (self.size, self.d2_q.shape[-1]), "C")
         )
 
+    def ravel(self) -> "Self":
+        return self.flatten()
+
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the vector.
 
-- 
2.43.0


From 2982f17ac5346f6743e58d9bcd89f70beac7d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 23/51] fix: keep attributes out of primitives that act on
 components

---
 src/coordinax/_src/vectors/base/base_pos.py            | 2 +-
 src/coordinax/_src/vectors/base/register_primitives.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 0689872..7d4f4f6 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -455,7 +455,7 @@ def _reshape_pos(
         operand,
         **{
             k: quaxify(jax.lax.reshape_p.bind)(v, new_sizes=new_sizes, **kwargs)
-            for k, v in field_items(operand)
+            for k, v in field_items(AttrFilter, operand)
         },
     )
 
diff --git a/src/coordinax/_src/vectors/base/register_primitives.py b/src/coordinax/_src/vectors/base/register_primitives.py
index 3368038..e475d75 100644
--- a/src/coordinax/_src/vectors/base/register_primitives.py
+++ b/src/coordinax/_src/vectors/base/register_primitives.py
@@ -11,6 +11,7 @@ import quaxed.numpy as jnp
 from dataclassish import field_items, replace
 
 from .base import AbstractVector
+from .flags import AttrFilter
 
 
 @register(jax.lax.convert_element_type_p)  # type: ignore[misc]
@@ -20,7 +21,7 @@ def _convert_element_type_p(operand: AbstractVector, **kwargs: Any) -> AbstractV
     convert_p = quaxify(jax.lax.convert_element_type_p.bind)
     return replace(
         operand,
-        **{k: convert_p(v, **kwargs) for k, v in field_items(operand)},
+        **{k: convert_p(v, **kwargs) for k, v in field_items(AttrFilter, operand)},
     )
 
 
@@ -135,5 +136,8 @@ def _broadcast_in_dim_p(
     c_shape = shape[:-1]
     return replace(
         operand,
-        **{k: jnp.broadcast_to(v, c_shape) for k, v in field_items(operand)},
+        **{
+            k: jnp.broadcast_to(v, (*c_shape, *v.shape[operand.ndim :]))
+            for k, v in field_items(AttrFilter, operand)
+        },
     )
-- 
2.43.0


From 6ec8294037e96acb88500b4bed82e9d1f0a0b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 24/51] fix: reshape N-dimensional vectors to a shape given as
 a tuple

---
 src/coordinax/_src/vectors/dn/base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 6c3e3f8..0a9bb20 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -32,6 +32,13 @@ def _batch_index(index: Any, /) -> tuple[Any, ...]:
     return (*index, slice(None))
 
 
+def _batch_shape(shape: tuple[Any, ...], /) -> tuple[int, ...]:
+    """Return the new batch shape, given as integers or as a single tuple."""
+    if len(shape) == 1 and isinstance(shape[0], tuple | list):
+        return tuple(shape[0])
+    return shape
+
+
 class AbstractPosND(AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
@@ -160,7 +167,9 @@ class AbstractPosND(AbstractPos):
         (1, 2, 1)
 
         """
-        return replace(self, q=self.q.reshape(*shape, self.q.shape[-1], order=order))
+        return replace(
+            self, q=self.q.reshape(*_batch_shape(shape), self.q.shape[-1], order=order)
+        )
 
 
 #####################################################################
@@ -304,7 +313,8 @@ class AbstractVelND(AbstractVel):
 
         """
         return replace(
-            self, d_q=self.d_q.reshape(*shape, self.d_q.shape[-1], order=order)
+            self,
+            d_q=self.d_q.reshape(*_batch_shape(shape), self.d_q.shape[-1], order=order),
         )
 
 
@@ -448,5 +458,8 @@ class AbstractAccND(AbstractAcc):
 
         """
         return replace(
-            self, d2_q=self.d2_q.reshape(*shape, self.d2_q.shape[-1], order=order)
+            self,
+            d2_q=self.d2_q.reshape(
+                *_batch_shape(shape), self.d2_q.shape[-1], order=order
+            ),
         )
-- 
2.43.0


From fc208ea32211895ebf6bb4152caa4b0f3ea17b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 25/51] fix: joining an operator with a pipeline prepends the
 operator

---
 src/coordinax/_src/operators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/base.py b/src/coordinax/_src/operators/base.py
index 3e4a844..23c483b 100644
--- a/src/coordinax/_src/operators/base.py
+++ b/src/coordinax/_src/operators/base.py
@@ -232,7 +232,7 @@ class AbstractOperator(eqx.Module):  # type: ignore[misc]
         from .pipe import Pipe
 
         if isinstance(other, Pipe):
-            return other.__ror__(self)
+            return Pipe((self, *other.operators))
         return Pipe((self, other))
 
 
-- 
2.43.0


From 21155640504acbd8b46a579ed9d4aa621617b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 26/51] fix: fuse consecutive rotations in the order they act

---
 src/coordinax/_src/operators/galilean/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..aec7bc2 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -432,8 +432,9 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     >>> op3
     GalileanRotation(rotation=f32[3,3])
 
-    >>> jnp.allclose(op3.rotation, op1.rotation @ op2.rotation)
+    >>> jnp.allclose(op3.rotation, op2.rotation @ op1.rotation)
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # op1 acts first, so its matrix is on the right.
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From d52cb91d78433623659e5794e3dda949022e6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 27/51] fix: operators keep the speed of light of a FourVector

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..1e778aa 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -215,7 +216,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 @AbstractOperator.__call__.dispatch
-- 
2.43.0


From ba5ceec2a5a19de6f709c34b348212fa4a14d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 28/51] fix: composite operators accept quantities, alone and
 with a time

---
 src/coordinax/_src/operators/compat.py | 43 +++++++++++++++++---------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 1e778aa..e5c5518 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -12,7 +12,7 @@ from plum import convert
 import unxt as u
 
 from .base import AbstractOperator
-from .pipe import Pipe
+from .composite import AbstractCompositeOperator
 from coordinax._src.typing import TimeBatchOrScalar
 from coordinax._src.vectors.d1 import CartesianPos1D
 from coordinax._src.vectors.d2 import CartesianPos2D
@@ -25,7 +25,10 @@ from coordinax._src.vectors.d4 import FourVector
 Q1: TypeAlias = Shaped[u.Quantity["length"], "*#batch 1"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1),
+    (AbstractCompositeOperator, Q1),
+)
 def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     """Dispatch to the operator's `__call__` method.
 
@@ -44,7 +47,10 @@ def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     return convert(self(CartesianPos1D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q1, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q1, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q1, TimeBatchOrScalar]:
@@ -73,7 +79,10 @@ def call(
 Q2: TypeAlias = Shaped[u.Quantity["length"], "*#batch 2"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2),
+    (AbstractCompositeOperator, Q2),
+)
 def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     """Dispatch to the operator's `__call__` method.
 
@@ -91,7 +100,10 @@ def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     return convert(self(CartesianPos2D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q2, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q2, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q2, TimeBatchOrScalar]:
@@ -122,7 +134,7 @@ Q3: TypeAlias = Shaped[u.Quantity["length"], "*#batch 3"]
 
 @AbstractOperator.__call__.dispatch_multi(
     (AbstractOperator, Q3),
-    (Pipe, Q3),
+    (AbstractCompositeOperator, Q3),
 )
 def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     r"""Operate on a 3D Quantity.
@@ -153,7 +165,10 @@ def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     return convert(result.represent_as(CartesianPos3D), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q3, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q3, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q3, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q3, TimeBatchOrScalar]:
@@ -187,6 +202,8 @@ def call(
 # ============================================================================
 # 4-Dimensional
 
+Q4: TypeAlias = Shaped[u.Quantity["length"], "*batch 4"]
+
 
 @AbstractOperator.__call__.dispatch
 def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector:
@@ -219,13 +236,11 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
     return replace(v4, t=t, q=q)
 
 
-@AbstractOperator.__call__.dispatch
-def call(
-    self: AbstractOperator,
-    x: Shaped[u.Quantity["length"], "*batch 4"],
-    /,
-    **kwargs: Any,
-) -> Shaped[u.Quantity["length"], "*batch 4"]:
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q4),
+    (AbstractCompositeOperator, Q4),
+)
+def call(self: AbstractOperator, x: Q4, /, **kwargs: Any) -> Q4:
     """Dispatch to the operator's `__call__` method.
 
     Examples
-- 
2.43.0


From 49c5fb9d1e978d993fc0f668df5d85a6feb990b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 29/51] fix: simplify translations and boosts of any dimension

---
 src/coordinax/_src/operators/boost.py                        | 3 ++-
 src/coordinax/_src/operators/galilean/boost.py               | 3 ++-
 src/coordinax/_src/operators/galilean/spatial_translation.py | 5 ++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/operators/boost.py b/src/coordinax/_src/operators/boost.py
index 64d7da7..33a7340 100644
--- a/src/coordinax/_src/operators/boost.py
+++ b/src/coordinax/_src/operators/boost.py
@@ -286,7 +286,8 @@ def simplify_op(op: VelocityBoost, /, **kwargs: Any) -> VelocityBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    vel = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(vel, jnp.zeros(vel.shape), **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/boost.py b/src/coordinax/_src/operators/galilean/boost.py
index c0f47c7..9271217 100644
--- a/src/coordinax/_src/operators/galilean/boost.py
+++ b/src/coordinax/_src/operators/galilean/boost.py
@@ -227,7 +227,8 @@ def simplify_op(op: GalileanBoost, /, **kwargs: Any) -> GalileanBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    vel = convert(op.velocity, u.Quantity).value
+    if jnp.allclose(vel, jnp.zeros(vel.shape), **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..c27950e 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -388,9 +388,8 @@ def simplify_op(
 
     """
     # Check if the translation is zero.
-    if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
-    ):
+    shift = convert(op.translation, u.Quantity).value
+    if jnp.allclose(shift, jnp.zeros(shift.shape), **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From 1ab7258f1118da2a928db9b80db505044b49423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 30/51] fix: pipelines accept a single argument of any kind

---
 src/coordinax/_src/operators/pipe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..bb2d8c2 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -89,7 +89,7 @@ class Pipe(AbstractCompositeOperator):
     @AbstractOperator.__call__.dispatch
     def __call__(
         self: "AbstractCompositeOperator", *args: object, **kwargs: Any
-    ) -> tuple[object, ...]:
+    ) -> Any:
         """Apply the operators to the coordinates.
 
         This is the default implementation, which applies the operators in
@@ -104,9 +104,11 @@ class Pipe(AbstractCompositeOperator):
         (1, 2, 3)
 
         """
+        out: Any = args
         for op in self.operators:
-            args = op(*args, **kwargs)
-        return args
+            out = op(*args, **kwargs)
+            args = out if isinstance(out, tuple) else (out,)
+        return out
 
     @AbstractOperator.__call__.dispatch(precedence=1)
     def __call__(
-- 
2.43.0


From d799be62c63992f92bc9132dc12d727b73449c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:23 +0000
Subject: [PATCH 31/51] fix: rotate ProlateSpheroidalPos: keep its focal length

---
 src/coordinax/_src/operators/galilean/rotation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index aec7bc2..ea1fa91 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -17,6 +17,7 @@ from quax import quaxify
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 
 from .base import AbstractGalileanOperator
 from coordinax._src.angles import Angle
@@ -286,7 +287,9 @@ class GalileanRotation(AbstractGalileanOperator):
             u.Quantity,
         )
         rcart = CartesianPos3D.from_(vec_matmul(self.rotation, vec))
-        return rcart.represent_as(type(q))
+        # Non-component fields, e.g. the focal length of spheroidal coordinates.
+        attrs = {k: v for k, v in field_items(q) if k not in q.components}
+        return rcart.represent_as(type(q), **attrs)
 
     @AbstractOperator.__call__.dispatch
     def __call__(
-- 
2.43.0


From 58864bbdf687a8186be4edac20241e698b21ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 32/51] fix: place the Galactic centre given by a parallax or
 distance modulus

---
 src/coordinax/_coordinax_space_frames/frame_transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_coordinax_space_frames/frame_transforms.py b/src/coordinax/_coordinax_space_frames/frame_transforms.py
index 7d75802..6c38e2a 100644
--- a/src/coordinax/_coordinax_space_frames/frame_transforms.py
+++ b/src/coordinax/_coordinax_space_frames/frame_transforms.py
@@ -96,13 +96,13 @@ def _icrs_cartesian_to_gcf_cartesian_matrix_vectors(
 
     # Now need to translate by Sun-Galactic center distance around x' and
     # rotate about y' to account for tilt due to Sun's height above the plane
-    z_d = u.ustrip("", frame.z_sun / frame.galcen.distance)  # [radian]
+    z_d = u.ustrip("", frame.z_sun / frame.galcen.distance.distance)  # [radian]
     H = GalileanRotation.from_euler("y", u.Quantity(jnp.asin(z_d), "rad"))
 
     # compute total matrices
     A = H @ R
     offset = GalileanSpatialTranslation(
-        -H.rotation @ (frame.galcen.distance * jnp.asarray([1.0, 0.0, 0.0]))
+        -H.rotation @ (frame.galcen.distance.distance * jnp.asarray([1.0, 0.0, 0.0]))
     )
 
     return A, offset, convert(frame.galcen_v_sun, u.Quantity)
-- 
2.43.0


From ee2e7e33fab0d5192e5793976ee6996d6d42afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 33/51] fix: frame transformations accept a position vector

---
 .../_coordinax_space_frames/frame_transforms.py        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/coordinax/_coordinax_space_frames/frame_transforms.py b/src/coordinax/_coordinax_space_frames/frame_transforms.py
index 6c38e2a..7ee5b9f 100644
--- a/src/coordinax/_coordinax_space_frames/frame_transforms.py
+++ b/src/coordinax/_coordinax_space_frames/frame_transforms.py
@@ -289,6 +289,11 @@ class _ICRS2GCFOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Apply the operator to a position vector."""
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
@@ -522,6 +527,11 @@ class _GCF2ICRSOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Apply the operator to a position vector."""
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
-- 
2.43.0


From df4ebf74dd989fdf9e344725e01de3356732bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 34/51] fix: 1D vectors built from an array of scalars keep
 every element

The array was indexed on its last axis as if it were the component axis, so
all but the first element were silently dropped.
---
 src/coordinax/_src/vectors/d1/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/base.py b/src/coordinax/_src/vectors/d1/base.py
index e7f443f..55b41a4 100644
--- a/src/coordinax/_src/vectors/d1/base.py
+++ b/src/coordinax/_src/vectors/d1/base.py
@@ -8,7 +8,6 @@ from dataclasses import fields
 
 from jaxtyping import Shaped
 
-import quaxed.numpy as jnp
 import unxt as u
 
 from coordinax._src.utils import classproperty
@@ -69,7 +68,8 @@ def from_(
     RadialPos(r=Distance(value=f32[], unit=Unit("m")))
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -129,7 +129,8 @@ def from_(
     RadialVel( d_r=Quantity[...]( value=i32[], unit=Unit("m / s") ) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
 
@@ -183,5 +184,6 @@ def from_(
     RadialAcc( d2_r=Quantity[...](value=i32[], unit=Unit("m / s2")) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    obj = obj if obj.shape[-1:] == (1,) else obj[..., None]
+    comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From dc7ecef07562dc743f730b5d3e795f05153bc26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 35/51] fix: refuse component arrays of the wrong length

CartesianPos3D, CartesianGeneric3D and CartesianAcc2D clamped the index or
dropped components when the last axis did not have one entry per component.
---
 src/coordinax/_src/vectors/d2/cartesian.py | 4 +++-
 src/coordinax/_src/vectors/d3/cartesian.py | 3 +++
 src/coordinax/_src/vectors/d3/generic.py   | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 3ce0840..12b5c37 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -316,7 +316,9 @@ class CartesianAcc2D(AvalMixin, AbstractAcc2D):
 
 
 @CartesianAcc2D.from_.dispatch  # type: ignore[attr-defined, misc]
-def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D:
+def from_(
+    cls: type[CartesianAcc2D], obj: Shaped[AbstractQuantity, "*batch 2"], /
+) -> CartesianAcc2D:
     """Construct a 2D Cartesian velocity.
 
     Examples
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 9ac8adb..eb940f8 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -88,6 +88,9 @@ def from_(
     )
 
     """
+    if obj.shape[-1:] != (3,):
+        msg = f"expected 3 components on the last axis, got shape {obj.shape}."
+        raise ValueError(msg)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..e4e054b 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -95,5 +95,8 @@ def from_(
     )
 
     """
+    if obj.shape[-1:] != (3,):
+        msg = f"expected 3 components on the last axis, got shape {obj.shape}."
+        raise ValueError(msg)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From 7a14e9f984394fbbfd9931a7b20725cf67d27bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 36/51] fix: convert CartesianPosND to every quantity class
 without an extra axis

Only the conversion to Quantity was specialised; the generic one stacked the
single array component on a new axis.
---
 src/coordinax/_src/vectors/dn/cartesian.py | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..064c827 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity, UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -192,6 +193,24 @@ def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"
     return obj.q
 
 
+@conversion_method(CartesianPosND, AbstractQuantity)  # type: ignore[misc]
+def _vec_to_absq(obj: CartesianPosND, /) -> Shaped[AbstractQuantity, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `unxt.AbstractQuantity`."""
+    return obj.q
+
+
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(obj: CartesianPosND, /) -> Shaped[UncheckedQuantity, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `unxt.UncheckedQuantity`."""
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Shaped[Distance, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `coordinax.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_vcnd(lhs: CartesianPosND, rhs: AbstractPos, /) -> CartesianPosND:
     """Add two vectors.
-- 
2.43.0


From aba866453b33bfbf6ba2372049fed7c3042a1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 37/51] fix: broadcast time and position of a FourVector when
 converting it

The conversion failed for a scalar time with a batch of positions.
---
 src/coordinax/_src/vectors/d4/compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/compat.py b/src/coordinax/_src/vectors/d4/compat.py
index 4ec6cf8..d22b44c 100644
--- a/src/coordinax/_src/vectors/d4/compat.py
+++ b/src/coordinax/_src/vectors/d4/compat.py
@@ -10,10 +10,12 @@ import quaxed.numpy as jnp
 import unxt as u
 
 from .spacetime import FourVector
+from coordinax._src.vectors.utils import full_shaped
 
 
 @conversion_method(type_from=FourVector, type_to=u.Quantity)  # type: ignore[misc]
 def vec_to_q(obj: FourVector, /) -> Shaped[u.Quantity["length"], "*batch 4"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`."""
+    obj = full_shaped(obj)
     cart = convert(obj.q, u.Quantity)
     return jnp.concat([obj.c * obj.t[..., None], cart], axis=-1)
-- 
2.43.0


From 27c34ba18fdbcae3c952cee32758a934f6ab6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:23 +0000
Subject: [PATCH 38/51] fix: compare vectors field by field, as quantities

Equality failed for vectors whose fields have different units, and N-dimensional
vectors compared their components axis as if it were a batch axis.
---
 src/coordinax/_src/vectors/base/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 4e35557..ea968ab 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -15,7 +15,7 @@ from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -615,9 +615,17 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
-        return jax.numpy.logical_and.reduce(comp_leaves)
+        lhs, rhs = dict(field_items(self)), dict(field_items(other))
+        if lhs.keys() != rhs.keys():
+            return False
+
+        # Compare the fields as quantities, so that their units can differ.
+        equal = jax.numpy.asarray(True)
+        for k, v in lhs.items():
+            # Fields can have trailing feature axes, e.g. in `CartesianPosND`.
+            axes = tuple(range(min(self.ndim - v.ndim, 0), 0))
+            equal = equal & jnp.all(jnp.equal(v, rhs[k]), axis=axes)
+        return equal
 
     # ---------------------------------------------------------------
     # methods
-- 
2.43.0


From 330d49805fcfa643c93661c27dfaec05c2964b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:23 +0000
Subject: [PATCH 39/51] fix: compare positions of the same type without
 converting

Equality of FourVector and TwoSpherePos raised, as these have no conversion to
themselves.
---
 src/coordinax/_src/vectors/base/base_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 7d4f4f6..5fe3865 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,7 +133,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
+        rhs = other if type(other) is type(self) else other.represent_as(type(self))
         return super().__eq__(rhs)
 
     # ===============================================================
-- 
2.43.0


From da78b08e6ce4e53996556823d22b4031a4ff395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 40/51] fix: convert velocities at positions with integer
 radius or focal length

The Jacobian of the position conversion requires floating-point values, but the
radius (when passed as a Distance) and Delta keep the dtype they were given.
---
 src/coordinax/_src/vectors/transform/accelerations.py | 2 ++
 src/coordinax/_src/vectors/transform/velocities.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 7696a47..4cc79f1 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -154,6 +154,8 @@ def represent_as(
             if isinstance(v, AbstractDistance)
         },
     )
+    # Differentiation requires floating-point values
+    current_pos = jax.tree.map(partial(jnp.asarray, dtype=float), current_pos)
 
     # Start by transforming the velocity to the type required by the
     # differential to construct the Jacobian.
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index c847eda..75da8c9 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -123,6 +123,8 @@ def represent_as(
             if isinstance(v, AbstractDistance)
         },
     )
+    # Differentiation requires floating-point values
+    current_pos = jax.tree.map(partial(jnp.asarray, dtype=float), current_pos)
 
     # Takes the Jacobian through the representation transformation function.  This
     # returns a representation of the target type, where the value of each field the
-- 
2.43.0


From fda4d3a576bdcf11ca6f4b97e5cfa58eab99df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:38 +0000
Subject: [PATCH 41/51] fix: the polar angle of the origin is not NaN

Converting the zero vector to spherical coordinates gave theta = acos(0 / 0).
---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 67a3b89..11bffa7 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -221,7 +221,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(xp.sqrt(current.x**2 + current.y**2), current.z)
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,7 +305,7 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    theta = xp.atan2(current.rho, current.z)
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From f9494d746a0293e0a38db1386de29348d1d41347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 42/51] fix: FourVector norm with a parallax or
 distance-modulus radius

---
 src/coordinax/_src/vectors/d4/spacetime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..b5012a1 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -22,7 +22,7 @@ from unxt.quantity import AbstractQuantity, Quantity
 
 import coordinax._src.typing as ct
 from .base import AbstractPos4D
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import AbstractDistance, BatchableLength
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractVector, AttrFilter, VectorAttribute
 from coordinax._src.vectors.d3.base import AbstractPos3D
@@ -223,7 +223,10 @@ class FourVector(AbstractPos4D):
         Quantity['area'](Array(8.987552e+16, dtype=float32), unit='m2')
 
         """
-        return -(self.q.norm() ** 2) + (self.c * self.t) ** 2  # for units
+        r = self.q.norm()
+        if isinstance(r, AbstractDistance):  # e.g. a parallax
+            r = r.distance
+        return -(r**2) + (self.c * self.t) ** 2  # for units
 
     @override
     @partial(eqx.filter_jit, inline=True)
-- 
2.43.0


From 1fcf09a6606924c4cef011edb0220ab6e16a313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 43/51] fix: Space reports duplicate dimension keys

---
 src/coordinax/_src/vectors/space/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 7f55c15..e933233 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -114,7 +114,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
-- 
2.43.0


From 87be91dde92ee37b22b95129f27356247cac509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 44/51] fix: broadcast velocities, accelerations and their
 points to a common batch shape

---
 .../_src/vectors/transform/accelerations.py        | 14 +++++++-------
 src/coordinax/_src/vectors/transform/velocities.py | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 4cc79f1..b5fff29 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
+from coordinax._src.vectors.utils import _broadcast_components
 
 
 # TODO: implement for cross-representations
@@ -119,10 +120,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -139,8 +136,11 @@ def represent_as(
             velocity
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
-    velvec = velvec.reshape(flat_shape)  # flattened
+    # TODO: not require the shape munging / support more shapes
+    shape = jnp.broadcast_shapes(current.shape, velvec.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = _broadcast_components(posvec, shape).reshape(flat_shape)  # flattened
+    velvec = _broadcast_components(velvec, shape).reshape(flat_shape)  # flattened
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -202,7 +202,7 @@ def represent_as(
     }
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = _broadcast_components(current, shape).reshape(flat_shape)
     return target(
         **{
             # Each field is the dot product of the row of the J and the diff column
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 75da8c9..9a034f6 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractVel1D
 from coordinax._src.vectors.d2 import AbstractVel2D
 from coordinax._src.vectors.d3 import AbstractVel3D
+from coordinax._src.vectors.utils import _broadcast_components
 
 
 # TODO: implement for cross-representations
@@ -97,10 +98,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -109,7 +106,10 @@ def represent_as(
             position
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
+    # TODO: not require the shape munging / support more shapes
+    shape = jnp.broadcast_shapes(current.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = _broadcast_components(posvec, shape).reshape(flat_shape)  # flattened
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -150,7 +150,7 @@ def represent_as(
     }
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = _broadcast_components(current, shape).reshape(flat_shape)
     newvec = target(
         **{  # Each field is the dot product of the row of the J and the diff column.
             k: jnp.sum(  # Doing the dot product.
-- 
2.43.0


From 905823d81ccaa01a78d71776a4c0654bae05dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 45/51] fix: accelerations convert the velocity at the position
 it was given

---
 src/coordinax/_src/vectors/transform/accelerations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index b5fff29..8f0278e 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -159,7 +159,7 @@ def represent_as(
 
     # Start by transforming the velocity to the type required by the
     # differential to construct the Jacobian.
-    current_vel = represent_as(velvec, current.integral_cls, current_pos, **kwargs)
+    current_vel = represent_as(velvec, current.integral_cls, posvec, **kwargs)
 
     # Takes the Jacobian through the representation transformation function.  This
     # returns a representation of the target type, where the value of each field the
-- 
2.43.0


From 5352ad76efad2011fa81a6dea3e6b6bd4bf9fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 46/51] fix: angular two-sphere vectors do not recurse
 endlessly in represent_as

---
 src/coordinax/_src/vectors/d2/transform.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/transform.py b/src/coordinax/_src/vectors/d2/transform.py
index dcac1d7..ef18b83 100644
--- a/src/coordinax/_src/vectors/d2/transform.py
+++ b/src/coordinax/_src/vectors/d2/transform.py
@@ -11,6 +11,7 @@ import quaxed.numpy as xp
 from .base import AbstractPos2D, AbstractVel2D
 from .cartesian import CartesianAcc2D, CartesianPos2D, CartesianVel2D
 from .polar import PolarPos, PolarVel
+from .spherical import TwoSpherePos, TwoSphereVel
 from coordinax._src.vectors.base import AbstractPos
 
 
@@ -28,6 +29,7 @@ def represent_as(
 @dispatch.multi(
     (CartesianPos2D, type[CartesianPos2D]),
     (PolarPos, type[PolarPos]),
+    (TwoSpherePos, type[TwoSpherePos]),
 )
 def represent_as(
     current: AbstractPos2D, target: type[AbstractPos2D], /, **kwargs: Any
@@ -39,6 +41,7 @@ def represent_as(
 @dispatch.multi(
     (CartesianVel2D, type[CartesianVel2D], AbstractPos),
     (PolarVel, type[PolarVel], AbstractPos),
+    (TwoSphereVel, type[TwoSphereVel], AbstractPos),
 )
 def represent_as(
     current: AbstractVel2D,
@@ -137,3 +140,19 @@ def represent_as(
 
     """
     return current
+
+
+# =============================================================================
+# TwoSpherePos
+
+
+@dispatch.multi(
+    (TwoSpherePos, type[AbstractPos2D]),
+    (AbstractPos2D, type[TwoSpherePos]),
+)
+def represent_as(
+    current: AbstractPos2D, target: type[AbstractPos2D], /, **kwargs: Any
+) -> AbstractPos2D:
+    """The two-sphere is a curved surface: it has no representation on the plane."""
+    msg = f"{type(current).__name__} cannot be represented as {target.__name__}."
+    raise NotImplementedError(msg)
-- 
2.43.0


From 8d8831dc12072cdc1c0ffb697fcede53ca4fb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 47/51] fix: conversions to LonCosLatSphericalVel pass keyword
 arguments on

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 11bffa7..74b701c 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -868,10 +868,10 @@ def represent_as(
         )
 
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
 
     # Transform the position to the required type
-    posvec = represent_as(posvec, current.integral_cls)
+    posvec = represent_as(posvec, current.integral_cls, **kwargs)
 
     # Calculate the differential in the new system
     return target(
-- 
2.43.0


From 647524a89f23e243a5104ad466c504900131bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 48/51] fix: from_ of a Space is no longer ambiguous

---
 src/coordinax/_src/vectors/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index ea968ab..6999b7f 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -995,7 +995,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
 # Register additional constructors
 
 
-@AbstractVector.from_.dispatch  # type: ignore[attr-defined, misc]
+@AbstractVector.from_.dispatch(precedence=1)  # type: ignore[attr-defined, misc]
 def from_(cls: type[AbstractVector], obj: AbstractVector, /) -> AbstractVector:
     """Construct a vector from another vector.
 
-- 
2.43.0


From 2537e59ea37939557bebcfdff3e13b8d33dbba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 49/51] fix: parallax and distance-modulus radii convert to
 astropy as distances

---
 .../_interop/coordinax_interop_astropy/converters.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/converters.py b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
index ba591a1..682b8c0 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/converters.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
@@ -204,7 +204,7 @@ def sph_to_apysph(obj: cx.SphericalPos, /) -> apyc.PhysicsSphericalRepresentatio
 
     """
     return apyc.PhysicsSphericalRepresentation(
-        r=convert(obj.r, apyu.Quantity),
+        r=convert(obj.r.distance, apyu.Quantity),
         phi=convert(obj.phi, apyu.Quantity),
         theta=convert(obj.theta, apyu.Quantity),
     )
@@ -260,7 +260,7 @@ def lonlatsph_to_apysph(
     return apyc.SphericalRepresentation(
         lon=convert(obj.lon, apyu.Quantity),
         lat=convert(obj.lat, apyu.Quantity),
-        distance=convert(obj.distance, apyu.Quantity),
+        distance=convert(obj.distance.distance, apyu.Quantity),
     )
 
 
-- 
2.43.0


From 65c9ef18163b4005923fe1365897843273721aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 50/51] fix: LonLatSphericalPos converts to astropy
 SphericalRepresentation

---
 src/coordinax/_interop/coordinax_interop_astropy/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/converters.py b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
index 682b8c0..1e82b16 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/converters.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
@@ -238,7 +238,7 @@ def apysph_to_sph(obj: apyc.PhysicsSphericalRepresentation, /) -> cx.SphericalPo
 
 
 @conversion_method(cx.vecs.LonLatSphericalPos, apyc.BaseRepresentation)  # type: ignore[misc]
-@conversion_method(cx.vecs.LonLatSphericalPos, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.SphericalRepresentation)  # type: ignore[misc]
 def lonlatsph_to_apysph(
     obj: cx.vecs.LonLatSphericalPos, /
 ) -> apyc.SphericalRepresentation:
-- 
2.43.0


From af71916e4560a31404c7e271253554b5d55f12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:05 +0000
Subject: [PATCH 51/51] fix: FourVector.units and devices describe the
 components of the spatial part

FourVector.units listed None for the spatial part, and FourVector.devices
those of the spatial part in place of its own components.
---
 src/coordinax/_src/vectors/d4/spacetime.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index b5012a1..a682ccd 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -4,6 +4,7 @@ __all__ = ["FourVector"]
 
 from dataclasses import KW_ONLY, fields, replace
 from functools import partial
+from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, final
 from typing_extensions import override
 
@@ -279,6 +280,21 @@ class FourVector(AbstractPos4D):
         )
         return f"<{cls_name} ({comps})\n    {vs}>"
 
+    # The spatial part is itself a vector: it has the units and devices of its
+    # components.
+
+    @override
+    @property
+    def units(self) -> MappingProxyType[str, Any]:  # type: ignore[override]
+        """Get the units of the vector's components."""
+        return MappingProxyType({"t": u.unit_of(self.t), "q": self.q.units})
+
+    @override
+    @property
+    def devices(self) -> MappingProxyType[str, Any]:  # type: ignore[override]
+        """Get the devices of the vector's components."""
+        return MappingProxyType({"t": self.t.device, "q": self.q.devices})
+
 
 # -----------------------------------------------
 # Register additional from_s
-- 
2.43.0

