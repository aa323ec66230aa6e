From ed8978903ee2f031dace24e5c4a3d41f2367253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 01/59] fix: compute the transfer angle without losing
 precision near 0 and 180 degrees

arccos returned nan, or lost half of the digits, for nearly collinear vectors.
---
 src/lamberthub/utils/angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..debe186 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -47,7 +47,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
     r1_norm = norm(r1)
     r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    theta0 = np.arctan2(norm(cross_r1r2), dot(r1, r2))
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-- 
2.43.0


From 6cca914ae40cf870bc049d585b09cf5708955e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 02/59] fix: validate the final position vector too

assert_position_vectors_are_valid checked the initial vector twice.
---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From b3c4775a0392450155ab4801352b4a30ad1bf75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 03/59] fix: reject multi-revolution requests in the direct
 transfer solvers

Battin, Gauss and Vallado ignored M and returned the direct transfer.
---
 src/lamberthub/p_solvers/battin.py          | 4 ++++
 src/lamberthub/p_solvers/gauss.py           | 4 ++++
 src/lamberthub/universal_solvers/vallado.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..8cf034c 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -85,6 +85,10 @@ def battin1984(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..f02d00c 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -88,6 +88,10 @@ def gauss1809(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..69c689e 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -88,6 +88,10 @@ def vallado2013(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
-- 
2.43.0


From 237da753a56e4d85c2a2a393ec670ce8df7df34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 04/59] fix: reject collinear position vectors in all the
 solvers

Battin, Thorne, Avanzini, Gooding, Vallado and De la Torre returned nan, inf or
unrelated velocities for transfer angles of 0 or 180 degrees.
---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 8 +++++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/gooding.py | 2 ++
 src/lamberthub/universal_solvers/vallado.py | 6 +++++-
 6 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..95fca02 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 8cf034c..3f53bc2 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,11 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def battin1984(
@@ -94,6 +98,8 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..bf774e3 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..4aafc23 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..c8d39a9 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 69c689e..aa872db 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.stumpff import c2, c3
 
 
@@ -96,6 +99,7 @@ def vallado2013(
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
 
     # Compute Vallado's transfer angle parameter
     A = _get_A(r1_norm, r2_norm, dtheta)
-- 
2.43.0


From 90f661ecf2f4beb455121a0d796f0b5bc41126f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 05/59] fix: validate the input and honor full_output in
 izzo2015

Invalid input returned nan or raised a bare assertion, and full_output, documented
for all the solvers, was not accepted.
---
 src/lamberthub/universal_solvers/izzo.py | 47 +++++++++++++++++++-----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..b400cac 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,20 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +92,25 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+
+    # The plane of the orbit is not defined for collinear position vectors
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _izzo2015(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve for the velocity vectors and the number of iterations."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +141,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +155,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +192,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +361,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +376,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 14a85dbf86293f92c4efc9927cf5b5b38818e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 06/59] fix: stop Izzo's iteration when the solution is a
 parabola

The derivatives are singular for x = 1, so parabolic transfers did not converge.
---
 src/lamberthub/universal_solvers/izzo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index b400cac..28c512a 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -365,6 +365,12 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
+
+        # Stop if the residual already is at rounding level: the derivatives are
+        # singular for x = 1, so no further step can be taken from a parabola
+        if abs(fval) <= 1e-14 * T0:
+            return p0, numiter
+
         fder = _tof_equation_p(p0, y, T, ll)
         fder2 = _tof_equation_p2(p0, y, T, fder, ll)
         fder3 = _tof_equation_p3(p0, y, T, fder, fder2, ll)
-- 
2.43.0


From 1b075849a5dcd07d628ba87c33a7ea1b72101cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 07/59] fix: correct u and the continued fraction of Battin's
 solver

Solutions were off by up to 1e-2.
---
 src/lamberthub/p_solvers/battin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 3f53bc2..b777e17 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -385,7 +385,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
@@ -445,7 +445,7 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
+        1,
         1,
         1,
         1,
@@ -453,7 +453,7 @@ def _xi_at_x(x, levels=125):
 
     while np.abs(u) > 1e-18 and m1 <= levels:
         m1 += 1
-        gamma = (m1 + 3) ** 2 / (4 * (m1 + 3) ** 2 - 1)
+        gamma = (m1 + 2) ** 2 / (4 * (m1 + 2) ** 2 - 1)
         delta = 1 / (1 + gamma * eta * delta)
         u = u * (delta - 1)
         sigma = sigma + u
-- 
2.43.0


From 8b9b131dd97ac4c6a315f06c30cf3f5a6778e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 08/59] fix: correct p and f_dot in Gauss's solver

The final velocity used r1 twice and p was wrong for large transfers.
---
 src/lamberthub/p_solvers/gauss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index f02d00c..872ea1a 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -148,7 +148,7 @@ def gauss1809(
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * (1 - 2 * x)
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
@@ -157,7 +157,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From a22ed70f5b7e338201386621cb88db654ad7f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 09/59] fix: use the right parabolic time and discard false
 brackets in Pan's solver

The parabolic time of flight had the wrong scale, and discontinuities of the
transfer time were accepted as roots.
---
 src/lamberthub/p_solvers/pan.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..47bd890 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -177,14 +177,20 @@ def _find_argument_of_periapsis(mu, geometry, tof, maxiter, atol, rtol):
     if not brackets:
         raise ValueError("No feasible solution, try lower M!")
 
-    omega_low, omega_high = brackets[0]
-
     def residual(omega):
         """Evaluate the transfer-time residual for the current bracket."""
         return _tof_at_omega(mu, geometry, omega) - tof
 
-    omega, numiter = _bezier_root(residual, omega_low, omega_high, maxiter, atol, rtol)
-    return omega, numiter
+    for omega_low, omega_high in brackets:
+        omega, numiter = _bezier_root(
+            residual, omega_low, omega_high, maxiter, atol, rtol
+        )
+        # The residual also changes sign where the transfer time is discontinuous
+        bound = min(abs(residual(omega_low)), abs(residual(omega_high)))
+        if abs(residual(omega)) <= bound:
+            return omega, numiter
+
+    raise ValueError("No feasible solution, try lower M!")
 
 
 def _get_omega_brackets(mu, geometry, tof):
@@ -331,7 +337,7 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
-    return np.sqrt(semi_latus_rectum**3 / (2 * mu)) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    return np.sqrt(semi_latus_rectum**3 / mu) / 2 * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
 
 
 def _true_to_eccentric_anomaly(true_anomaly, eccentricity):
-- 
2.43.0


From fb9ba217c4b56cec832b7ad89c699375a570df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 10/59] fix: use the sum of the radii when readjusting psi in
 Vallado's solver

The loop never ended for some hyperbolic transfers.
---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index aa872db..dd73bdc 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -121,7 +121,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From d2e1e49bd7778a4cf97d3ca8b3e033a6eab07741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 11/59] fix: solve parabolic and near-parabolic transfers in
 Der's solver

The y for a parabola is not sigma but its sign.
---
 src/lamberthub/universal_solvers/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..b914c5e 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -148,7 +148,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
@@ -212,7 +212,7 @@ def _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol):
 
 def _solve_hyperbolic_bracketed(sigma, tau, maxiter, atol, rtol):
     """Solve Sun's hyperbolic Lambert equation on the valid path interval."""
-    lower = 1.0 + 1.4901161193847656e-08
+    lower = 1.0 + 1e-5
     upper = 2.0
 
     def hyperbolic_equation(x):
-- 
2.43.0


From 6f6e39cc4db2c73dfe895a0b7084e3c6cfcf20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 12/59] fix: split the paths of Der's multi-revolution solver
 at the minimum time

The high and low paths meet at the minimum time of flight, not at x = 0.
---
 src/lamberthub/universal_solvers/der.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index b914c5e..03630c3 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        x_min, tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -107,6 +108,7 @@ def der2011(
         tau_p,
         M,
         is_low_path,
+        x_min,
         maxiter,
         atol,
         rtol,
@@ -142,6 +144,7 @@ def _find_path_parameter(
     tau_p,
     M,
     is_low_path,
+    x_min,
     maxiter,
     atol,
     rtol,
@@ -156,28 +159,29 @@ def _find_path_parameter(
     if M == 0:
         x0 = -0.5 if is_elliptic and tau > tau_me else 0.5
     else:
-        x0 = 0.5 if is_low_path else -0.5
+        x0 = 0.5 * (x_min + 1) if is_low_path else 0.5 * (x_min - 1)
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        return _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation."""
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
-    if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+    # With M > 0, the solutions of both paths lie at different sides of x_min
+    if needs_fallback or (M > 0 and (x - x_min) * (x0 - x_min) < 0):
+        return _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    lower, upper = (-1 + eps, x_min) if x0 < x_min else (x_min, 1 - eps)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -460,7 +464,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         x = 0.1
     else:
         y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return x, 2 * (1 / x - sigma**3 / y) / 3
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -468,7 +472,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return x, 2 * (1 / x - sigma**3 / y) / 3
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0


From 76f851edc7dbec2aa6e7bfc80a3631cea0aba5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 13/59] fix: use the Stumpff series further from zero in De la
 Torre's solver

Cancellation prevented convergence of near-parabolic transfers.
---
 src/lamberthub/regularization/delatorre.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index bf774e3..bbf1502 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -244,19 +244,19 @@ def _tof_equation_y(P, Q, mu, z, M):
 
 def _stumpff0(z):
     """Evaluate the zeroth Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-1:
         return np.cos(np.sqrt(z))
-    if z < -1e-8:
+    if z < -1e-1:
         return np.cosh(np.sqrt(-z))
     return _stumpff(0, z)
 
 
 def _stumpff1(z):
     """Evaluate the first Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-1:
         sqrt_z = np.sqrt(z)
         return np.sin(sqrt_z) / sqrt_z
-    if z < -1e-8:
+    if z < -1e-1:
         sqrt_neg_z = np.sqrt(-z)
         return np.sinh(sqrt_neg_z) / sqrt_neg_z
     return _stumpff(1, z)
@@ -264,19 +264,19 @@ def _stumpff1(z):
 
 def _stumpff2(z):
     """Evaluate the second Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-1:
         return (1 - np.cos(np.sqrt(z))) / z
-    if z < -1e-8:
+    if z < -1e-1:
         return (np.cosh(np.sqrt(-z)) - 1) / (-z)
     return _stumpff(2, z)
 
 
 def _stumpff3(z):
     """Evaluate the third Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-1:
         sqrt_z = np.sqrt(z)
         return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-    if z < -1e-8:
+    if z < -1e-1:
         sqrt_neg_z = np.sqrt(-z)
         return (np.sinh(sqrt_neg_z) - sqrt_neg_z) / (-z * sqrt_neg_z)
     return _stumpff(3, z)
-- 
2.43.0


From b66064f26d9ebe27af975dbba107ee04d5e38296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 14/59] fix: enclose hyperbolic and near-parabolic roots with
 Negrete's contours

Contours ended at the origin or left the admissible region.
---
 src/lamberthub/universal_solvers/negrete.py | 39 +++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..bc2a7f9 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -113,11 +113,12 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
             center, radius, ok = _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof)
             if not ok:
                 raise ValueError("Could not bracket hyperbolic contour!")
-            z_min, z_max = center - radius, 0.0
+            z_min, z_max = center - radius, center + radius
         else:
-            center = 2.0 * np.pi**2
-            radius = 2.0 * np.pi**2 - 0.5
-            z_min, z_max = 0.0, 4.0 * np.pi**2
+            z_min, z_max = _elliptic_floor(r1_norm, r2_norm, A), 4.0 * np.pi**2
+            left = z_min if z_min < 0.0 else 0.5
+            center = 0.5 * (z_max - 0.5 + left)
+            radius = 0.5 * (z_max - 0.5 - left)
 
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
@@ -266,19 +267,43 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
 def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
     """Build a negative-z contour for hyperbolic single-revolution transfers."""
     z_low = -1.0
+    z_up, z_floor = 0.0, 0.0
     success = False
     for _ in range(64):
         y = _y_at_z(np.complex128(z_low), r1_norm, r2_norm, A).real
         if y > 0.0 and _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
             success = True
             break
-        z_low *= 2.0
 
-    center = 0.5 * z_low
-    radius = abs(center) * (1.0 - 1e-6)
+        # Values with a negative y lie beyond the one for which the time of
+        # flight vanishes: search between them and the last admissible value
+        if y > 0.0:
+            z_up = z_low
+        else:
+            z_floor = z_low
+        z_low = 2.0 * z_low if z_floor == 0.0 else 0.5 * (z_up + z_floor)
+
+    # Extend the contour past the origin so it encloses near-parabolic roots
+    center = 0.5 * (z_low + 0.5)
+    radius = 0.5 * (0.5 - z_low)
     return center, radius, success
 
 
+@jit(cache=True, fastmath=True)
+def _elliptic_floor(r1_norm, r2_norm, A):
+    """Return the lower end of the single-revolution elliptic range.
+
+    It is negative, so the contour encloses near-parabolic roots, unless y
+    vanishes too close to the origin.
+    """
+    z_floor = -1.0
+    while _y_at_z(np.complex128(z_floor), r1_norm, r2_norm, A).real <= 0.0:
+        z_floor *= 0.5
+        if z_floor > -5e-3:
+            return 0.0
+    return 0.5 * z_floor
+
+
 @jit(cache=True, fastmath=True)
 def _real_solution(z, atol, rtol):
     """Return a contour root if its imaginary component is negligible."""
-- 
2.43.0


From cef961fe26b0fd7d63dfecbf4ba69fd010246572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 15/59] fix: keep Negrete's refinement contours from enclosing
 two roots

Both paths converged to wrong values when they were close to each other.
---
 src/lamberthub/universal_solvers/negrete.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index bc2a7f9..7359a7f 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -162,11 +162,13 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     if r1r > r2r:
         r1r, r2r = r2r, r1r
 
+    # Keep each one of the refinement contours from enclosing the other root
+    z_mid = 0.5 * (r1r + r2r)
     refined_lo = _refine_single_root(
-        r1r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r1r, z_min, z_mid, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     refined_hi = _refine_single_root(
-        r2r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r2r, z_mid, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
-- 
2.43.0


From e9d0d05e5399fe138a3aec2008f2bea8aab45615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 16/59] fix: raise if the value found by Negrete's solver is
 not a root

A coarse quadrature returned wrong or nan velocities silently.
---
 src/lamberthub/universal_solvers/negrete.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 7359a7f..99765df 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -93,6 +93,10 @@ def negrete2024(
     z = _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol)
     tpi = (time.perf_counter() - tic) / (3 * numiter) if full_output else 0.0
 
+    # Too coarse or ill-conditioned contours lead to values which are not a root
+    if not abs(_tof_at_z(z, mu, r1_norm, r2_norm, A) - tof) <= atol + rtol * tof:
+        raise RuntimeError("Failed to converge")
+
     y = _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real
     f = 1.0 - y / r1_norm
     g = A * np.sqrt(y / mu)
-- 
2.43.0


From 77fe204900d37825390cea4cb2b0a2797b25b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 17/59] fix: raise if Gooding's solver does not converge

Running out of iterations returned the last iterate.
---
 src/lamberthub/universal_solvers/gooding.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index c8d39a9..40985bf 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -450,9 +450,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
+        else:
             raise ValueError("Exceeded max iterations!")
 
         # Now proceed from T(min) to full starter
@@ -466,7 +464,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, xpl, numiter, 0.0
 
         else:
             n = 3
@@ -553,7 +551,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -565,10 +563,10 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
         x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        if x_atol <= atol and (x_rtol <= rtol or x_atol <= rtol):
             return x, numiter
 
-    return x, maxiter
+    raise ValueError("Exceeded max iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 312dc5edee32e5accdf5f38af467f227dd9159fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 18/59] fix: stop McElreath's iteration on the time residual
 too

Near-parabolic transfers did not converge.
---
 src/lamberthub/universal_solvers/mcelreath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..337cc89 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -305,8 +305,9 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
                     boundary = hi if sign > 0 else lo
                     x = x_old + 0.5 * (boundary - x_old)
 
+        # The derivatives are too noisy around the parabola to rely on the step
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
-        if err < tolerance:
+        if err < tolerance or (M == 0 and abs(residual) <= rtol * tof):
             return _clean_root(x), numiter
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 481b15dc9485fae019ab2aba7c03c2a09a36ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 19/59] fix: return an inclination of 180 degrees for
 retrograde coplanar orbits

Avanzini's solver returned a prograde orbit for them.
---
 src/lamberthub/utils/angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index debe186..4031820 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -127,7 +127,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # If the orbit is coplanar with fundamental plane, neither inc or raan are
     # defined. TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc, raan = (0.0 if i_h[2] > 0 else np.pi), 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From 3e8baef3c9d0946fb2af18b46f08d87c852abc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 20/59] fix: convert parabolic and retrograde equatorial orbits
 to elements

rv2coe returned nan for parabolas and wrong angles for retrograde equatorial orbits.
---
 src/lamberthub/utils/elements.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..3916a49 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -20,7 +20,6 @@ import numpy as np
 from numpy import cos, cross, sin, sqrt
 
 from lamberthub.linalg import dot
-from lamberthub.utils.angles import E_to_nu, H_to_nu
 
 
 @jit(cache=True)
@@ -231,7 +230,6 @@ def rv2coe(k, r, v, tol=1e-8):
     h = cross(r, v)
     n = cross(np.array([0.0, 0.0, 1.0]), h)
     r_norm = sqrt(dot(r, r))
-    v_norm = sqrt(dot(v, v))
     h_norm = sqrt(dot(h, h))
     e = ((dot(v, v) - k / r_norm) * r - dot(r, v) * v) / k
     ecc = sqrt(dot(e, e))
@@ -239,11 +237,13 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    retrograde = abs(inc - np.pi) < tol
+    equatorial = abs(inc) < tol or retrograde
+    sense = -1.0 if retrograde else 1.0
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -253,19 +253,10 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
-        a = p / (1 - (ecc**2))
-        ka = k * a
-        if a > 0:
-            e_se = dot(r, v) / sqrt(ka)
-            e_ce = r_norm * dot(v, v) / k - 1
-            nu = E_to_nu(np.arctan2(e_se, e_ce), ecc)
-        else:
-            e_sh = dot(r, v) / sqrt(-ka)
-            e_ch = r_norm * (v_norm**2) / k - 1
-            nu = H_to_nu(np.log((e_ch + e_sh) / (e_ch - e_sh)) / 2, ecc)
-
+        # Valid for all the conics, the parabola included
+        nu = np.arctan2(sqrt(p / k) * dot(r, v), p - r_norm)
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
         px = dot(r, n)
         py = dot(r, cross(h, n)) / h_norm
-- 
2.43.0


From 65b469b0f2301cad04b0eca2ee5dc095ad92220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 21/59] fix: insert the generated report in the README verbatim

Backslashes in the report were interpreted as a regular expression template.
---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From b87b8fc07bc88731ee95c366a58b3ecc0f85c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 22/59] fix: take the node line of equatorial orbits along the
 first axis in Avanzini's solver

---
 src/lamberthub/ecc_solvers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 95fca02..a47f619 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -516,7 +516,7 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
     # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
-- 
2.43.0


From 3c889ea05e7bf48fbccd45fe9217750771c74a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 23/59] fix: bracket minimum-energy ellipses in Jiang's solver

---
 src/lamberthub/p_solvers/jiang.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..123f684 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -319,11 +319,13 @@ def _find_and_solve_elliptic(
     Combines bracket expansion and the Newton-bisection iteration into a single
     JIT-compiled function, removing all Python closure overhead.
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
+    if np.abs(f_lower) <= atol + rtol * tof:
+        return lower, 0
+
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
     while f_lower * f_upper > 0:
         upper *= 2
-- 
2.43.0


From 3ff000ea71f8bfdce3a5dbdeb43630875545190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 24/59] fix: bracket minimum-energy ellipses in Thorne's solver

---
 src/lamberthub/series_solvers/thorne.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 4aafc23..e266062 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -218,6 +218,9 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
     if np.isclose(tof, t_p, atol=atol, rtol=rtol):
         return np.inf, "P", 1
 
+    if np.isclose(tof, t_min, atol=atol, rtol=rtol):
+        return s / 2, "A", 1
+
     if tof < t_p:
         branch = "H"
         lower = -s / 2
@@ -225,11 +228,11 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, lower)
     elif tof < t_min:
         branch = "A"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
     else:
         branch = "B"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
 
     def f(a):
-- 
2.43.0


From dd1a628cd7310e58b88a06fe334dad1f79eac10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 25/59] fix: solve direct minimum-energy transfers in Der's
 solver

---
 src/lamberthub/universal_solvers/der.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 03630c3..13cc9e5 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -182,6 +182,9 @@ def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
     lower, upper = (-1 + eps, x_min) if x0 < x_min else (x_min, 1 - eps)
+    if M == 0:
+        # The time of flight is monotonic, there is only one path
+        lower, upper = -1 + eps, 1 - eps
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
-- 
2.43.0


From 120b7108e1162a1191fb3604b24d63ba4fcd700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 26/59] fix: reject the spurious roots of Gauss's equations

---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 872ea1a..add00d3 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -132,6 +132,11 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The variable y is the ratio between the areas of the sector and the triangle
+    # defined by both position vectors, so any other sign is a spurious root
+    if y * np.sin(dtheta) < 0:
+        raise ValueError("Failed to converge to a feasible solution.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable
     if x > 0:
-- 
2.43.0


From 1ee4ec9afe37a1e3718e907f8a8af59fae3948c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 27/59] fix: raise where the truncated series of Gauss's solver
 is not accurate

---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index add00d3..ef9ab9d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -137,6 +137,11 @@ def gauss1809(
     if y * np.sin(dtheta) < 0:
         raise ValueError("Failed to converge to a feasible solution.")
 
+    # Far from the parabola, the truncated series is no longer accurate
+    X = _X_at_x(x)
+    if np.abs(_X_at_x(x, 100) - X) > atol * np.abs(X):
+        raise ValueError("Failed to converge to a feasible solution.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable
     if x > 0:
-- 
2.43.0


From 28cd9be9a0778e94f713ca7acbfff7189d61f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 28/59] fix: tell discontinuities and near-rectilinear orbits
 apart in Pan's solver

---
 src/lamberthub/p_solvers/pan.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 47bd890..3373a0c 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -187,7 +187,7 @@ def _find_argument_of_periapsis(mu, geometry, tof, maxiter, atol, rtol):
         )
         # The residual also changes sign where the transfer time is discontinuous
         bound = min(abs(residual(omega_low)), abs(residual(omega_high)))
-        if abs(residual(omega)) <= bound:
+        if abs(residual(omega)) <= max(atol, bound / 2):
             return omega, numiter
 
     raise ValueError("No feasible solution, try lower M!")
@@ -296,15 +296,18 @@ def _tof_from_elements(mu, theta, elements):
     """Compute time of flight from conic elements and terminal anomalies."""
     semi_major_axis, eccentricity, _, f1, f2 = elements
 
+    # The eccentricity of a nearly straight ellipse or hyperbola is close to one
+    # too, so the semi-major axis is compared with the distances to the attractor
+    p_over_r = 1 + eccentricity * np.cos([f1, f2])
+    if np.abs(1 - eccentricity**2) <= 1e-8 * min(p_over_r):
+        p = semi_major_axis * (1 - eccentricity**2)
+        return _parabolic_tof(mu, p, f1, f2)
+
     if eccentricity < 1:
         if semi_major_axis <= 0:
             raise ValueError("Invalid elliptic semi-major axis.")
         return _elliptic_tof(mu, semi_major_axis, eccentricity, f1, f2)
 
-    if np.isclose(eccentricity, 1.0):
-        p = semi_major_axis * (1 - eccentricity**2)
-        return _parabolic_tof(mu, p, f1, f2)
-
     if semi_major_axis >= 0:
         raise ValueError("Invalid hyperbolic semi-major axis.")
     return _hyperbolic_tof(mu, semi_major_axis, eccentricity, f1, f2)
-- 
2.43.0


From 3f69dd37b39846af6e5554b5460e3415c8efc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 29/59] fix: do not depend on the sign of zero in McElreath's
 solver

---
 src/lamberthub/universal_solvers/mcelreath.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 337cc89..42fe28b 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -347,6 +347,19 @@ def _tof_at_x(x, r1_norm, r2_norm, m):
     return (2 * u1_star * m + u3).real
 
 
+@jit(cache=True, fastmath=True)
+def _get_alpha_sqrt(alpha):
+    """Return the square root of alpha in the positive real or imaginary axis.
+
+    The sign of the null imaginary part of a negative alpha, on which the
+    principal value depends, is not reliable.
+    """
+    alpha_sqrt = np.sqrt(alpha)
+    if alpha_sqrt.real + alpha_sqrt.imag < 0:
+        alpha_sqrt = -alpha_sqrt
+    return alpha_sqrt
+
+
 @jit(cache=True, fastmath=True)
 def _tof_equation(x, r_norm_sum, m):
     """Evaluate the reference scaled transfer-time function (complex result)."""
@@ -354,7 +367,7 @@ def _tof_equation(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
@@ -369,7 +382,7 @@ def _tof_equation_full(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1 = np.sin(x) * alpha_sqrt_inv
@@ -437,7 +450,7 @@ def _alpha_and_universal_values(x, r1_norm, r2_norm, m):
     u0 = np.cos(x)
     u0_star = np.cos(x / 2)
     alpha = (1 - u0) / (r1_norm + r2_norm - 2 * m * u0_star)
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha)
     u1_star = np.sin(x / 2) / alpha_sqrt
     u3 = (x - np.sin(x)) / (alpha * alpha_sqrt)
     return alpha, u1_star, u0_star, u3
-- 
2.43.0


From f2962432d1ced7da1b209ba10f32870ca211164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 30/59] fix: solve minimum-energy transfers in Gooding's solver

---
 src/lamberthub/universal_solvers/gooding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 40985bf..2ba0ff7 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -562,8 +562,9 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and (x_rtol <= rtol or x_atol <= rtol):
+        # The previous value is null for a minimum-energy transfer
+        step = np.abs(x - xold)
+        if step <= atol and step <= rtol * max(np.abs(xold), 1.0):
             return x, numiter
 
     raise ValueError("Exceeded max iterations!")
-- 
2.43.0


From 3ba56ad7df6c44ea81b720dd0d9de6264433a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 31/59] fix: do not divide by zero for parabolic transfers in
 McElreath's solver

---
 src/lamberthub/universal_solvers/mcelreath.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 42fe28b..7f9193c 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -96,9 +96,8 @@ def mcelreath2025(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    _, _, u0_star, _ = _alpha_and_universal_values(
-        np.complex128(x), r1_norm, r2_norm, m
-    )
+    # Computing alpha too would divide zero by zero for a parabola
+    u0_star = np.cos(0.5 * x)
     p = (
         r1_norm
         * r2_norm
-- 
2.43.0


From 0562d98b6b2d89e7e68ad31b84ac030be8a09079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 32/59] fix: compute McElreath's hyperbolic guess without
 branch cuts

---
 src/lamberthub/universal_solvers/mcelreath.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 7f9193c..0661ec3 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -151,9 +151,8 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
         x_tau = 1j * np.log(tau + np.sqrt(tau**2 - 1))
         x_1 = x_tau * np.exp(-2.5)
         tof_x1 = _tof_equation(np.complex128(x_1), r_norm_sum, m)
-        tof_p_16 = np.complex128(tof_p) ** 1.6
-        tof_x1_16 = np.complex128(tof_x1) ** 1.6
-        exponent = 2.5 / (np.log(-tof_p_16) - np.log(tof_x1_16 - tof_p_16))
+        # The times of flight of the hyperbolas are lower than the parabolic one
+        exponent = -2.5 / np.log(1 - (tof_x1.real / tof_p) ** 1.6)
         x_0 = x_tau * (1 - (tof / tof_p) ** 1.6) ** exponent
         x_0 = np.complex128(1j * x_0.imag)
         lo, hi = 0.0, x_tau.imag
-- 
2.43.0


From 9ae55454f34d8c1886aed4dd88d4998962f7f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 33/59] fix: bracket the ellipses of Der's solver away from the
 parabola

---
 src/lamberthub/universal_solvers/der.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 13cc9e5..21b4fb7 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -183,8 +183,9 @@ def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     eps = 2.220446049250313e-16
     lower, upper = (-1 + eps, x_min) if x0 < x_min else (x_min, 1 - eps)
     if M == 0:
-        # The time of flight is monotonic, there is only one path
-        lower, upper = -1 + eps, 1 - eps
+        # The time of flight is monotonic, there is only one path. Its value is
+        # just noise next to the parabola.
+        lower, upper = -1 + eps, 1 - 1e-5
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
-- 
2.43.0


From ba25b26b6ea62aab35ff1339773afa6327569e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 34/59] fix: stop Jiang's bracket expansion next to the
 parabola

---
 src/lamberthub/p_solvers/jiang.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 123f684..dc8c392 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -328,6 +328,9 @@ def _find_and_solve_elliptic(
 
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
     while f_lower * f_upper > 0:
+        # Larger axes can not be told from the parabola
+        if upper > 1e16 * a_min:
+            raise ValueError("Exceeded maximum number of iterations!")
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
 
@@ -384,6 +387,9 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     upper = -eps * max(s, c, 1.0)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
+        # Larger axes can not be told from the parabola
+        if lower < -1e16 * max(s, c, 1.0):
+            raise ValueError("Exceeded maximum number of iterations!")
         lower *= 2
 
     x = (lower + upper) / 2
-- 
2.43.0


From 179af13d74ef2cff933db18ebcf924edc69d9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 35/59] fix: raise if the series of Gauss's solver overflows

---
 src/lamberthub/p_solvers/gauss.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index ef9ab9d..19c0a13 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -126,9 +126,13 @@ def gauss1809(
         if np.abs(y - y0) <= atol:
             tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
             break
-        else:
-            # The new initial guess is the previously computed y value
-            y0 = y
+
+        # The series may overflow, and no ratio of areas is null or infinite
+        if y * y == 0 or not np.isfinite(y):
+            raise ValueError("Exceeded maximum number of iterations.")
+
+        # The new initial guess is the previously computed y value
+        y0 = y
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
-- 
2.43.0


From d2fcc94d3f484b6194b700bef23faeaf18c4e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 36/59] fix: do not evaluate McElreath's time equation at the
 parabola

---
 src/lamberthub/universal_solvers/mcelreath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 0661ec3..b5b408a 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -276,6 +276,10 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
     tolerance = rtol if rtol < 1e-10 else 1e-10
 
     for numiter in range(1, maxiter + 1):
+        # The time equation is singular at the parabola
+        if M == 0 and abs(x) < 1e-7:
+            break
+
         tof_current, tof_prime, tof_2prime, tof_3prime = _tof_equation_full(
             x, r_norm_sum, m
         )
-- 
2.43.0


From 5bce75375e914f04fc119f283cfc1ed829901c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 37/59] fix: give exactly polar transfers complementary angles

---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 4031820..85654a1 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde is True:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From d604b8cdeea818057d526224d8264f2b4c2b0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 38/59] fix: reconstruct Thorne's velocities in the sense of
 the transfer angle

---
 src/lamberthub/series_solvers/thorne.py | 35 ++++++-------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index e266062..be4cf7e 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -117,8 +117,8 @@ def thorne2004(
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     x = get_x_from_semimajor_axis(a, semiperimeter, branch)
-    y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
-    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
+    y = get_y_from_x(x, semiperimeter, c_norm)
+    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, dtheta)
 
     return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
@@ -296,41 +296,22 @@ def get_x_from_semimajor_axis(a, s, branch):
     return -x if branch == "B" else x
 
 
-def get_y_from_x(x, r1, r2, s, c, is_prograde):
+def get_y_from_x(x, s, c):
     """Compute the Lancaster-Blanchard y variable for the transfer geometry."""
-    ll = get_lambda(r1, r2, s, c, is_prograde)
-    return np.sqrt(1 - ll**2 * (1 - x**2))
+    return np.sqrt(1 - (1 - c / s) * (1 - x**2))
 
 
-def get_lambda(r1, r2, s, c, is_prograde):
-    """Compute the signed transfer-angle parameter."""
-    i_r1 = r1 / norm(r1)
-    i_r2 = r2 / norm(r2)
-    i_h = cross(i_r1, i_r2)
-    i_h = i_h / norm(i_h)
-
-    ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-
-    return -ll if is_prograde is False else ll
-
-
-def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
+def reconstruct(x, y, mu, r1, r2, s, c, dtheta):
     """Reconstruct initial and final velocities from geometry and x-y values."""
     r1_norm, r2_norm = norm(r1), norm(r2)
     i_r1, i_r2 = r1 / r1_norm, r2 / r2_norm
     i_h = cross(i_r1, i_r2)
     i_h = i_h / norm(i_h)
 
+    # The sense of the motion is the one of the transfer angle
     ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-        i_t1, i_t2 = cross(i_r1, i_h), cross(i_r2, i_h)
-    else:
-        i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
-
-    if is_prograde is False:
+    i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
+    if dtheta > np.pi:
         ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
 
     gamma = np.sqrt(mu * s / 2)
-- 
2.43.0


From bc1e97aa024c302870581c89c9a8925d2a45ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 39/59] fix: take the angle of the chord in the sense of the
 transfer angle

---
 src/lamberthub/ecc_solvers/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index a47f619..c4f788f 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -67,7 +67,11 @@ def get_geometry(r1, r2, is_prograde):
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
     assert_transfer_angle_not_pi(dtheta)
-    w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
+
+    # The chord vector and r2 lie at the same side of r1
+    c = r2 - r1
+    w_c = np.arctan2(norm(cross(r1, c)), np.dot(r1, c))
+    w_c = w_c if dtheta < np.pi else 2 * np.pi - w_c
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
 
-- 
2.43.0


From dd41b335ec83bc9972600c77d331fb62ede6fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 40/59] fix: keep Negrete's solver from returning the other
 path

---
 src/lamberthub/universal_solvers/negrete.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 99765df..070e157 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -176,7 +176,18 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
-    return refined_lo if is_low_path else refined_hi
+    z = refined_lo if is_low_path else refined_hi
+
+    # Too coarse contours may lead to the root of the other path or of another
+    # number of revolutions: the time of flight decreases along the low path
+    # and increases along the high one
+    h = 1e-4
+    slope = _tof_at_z(z + h, mu, r1_norm, r2_norm, A) - _tof_at_z(
+        z - h, mu, r1_norm, r2_norm, A
+    )
+    if not z_min < z < z_max or (slope > 0.0) == is_low_path:
+        raise ValueError("Contour integral did not separate the solutions!")
+    return z
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From 79830f29d97a9efeab3841310adf6d9bc111a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 41/59] fix: raise the usual error if Negrete's integrals
 cannot be evaluated

---
 src/lamberthub/universal_solvers/negrete.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 070e157..9783efd 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -90,7 +90,11 @@ def negrete2024(
 
     numiter = max(4, int(maxiter))
     tic = time.perf_counter() if full_output else 0.0
-    z = _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol)
+    try:
+        z = _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol)
+    except ZeroDivisionError:
+        # A quadrature point coincides with a root, or the integrals vanish
+        raise RuntimeError("Failed to converge") from None
     tpi = (time.perf_counter() - tic) / (3 * numiter) if full_output else 0.0
 
     # Too coarse or ill-conditioned contours lead to values which are not a root
-- 
2.43.0


From 0c921049fc73408a35dc43fdeaa12a89dd082090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 42/59] fix: reject transfers of 180 degrees in Arora's solver

---
 src/lamberthub/universal_solvers/arora.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..96c6fa3 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
-- 
2.43.0


From b7515e28f6fcf0b41f0891135b06073cd6d58b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 43/59] fix: recognize collinear vectors despite the rounding
 of their cross product

---
 src/lamberthub/utils/angles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 85654a1..336f52c 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -31,11 +31,11 @@ def get_transfer_angle(r1, r2, is_prograde):
         Transfer angle in radians.
 
     """
-    # Check if both position vectors are collinear. If so, check if the transfer
-    # angle is 0 or pi.
+    # Check if both position vectors are collinear, rounding errors of the cross
+    # product included. If so, check if the transfer angle is 0 or pi.
     cross_r1r2 = cross(r1, r2)
-    if np.all(cross_r1r2 == 0):
-        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi
+    if norm(cross_r1r2) <= 2.3e-16 * norm(r1) * norm(r2):
+        return 0 if dot(r1, r2) > 0 else np.pi
 
     # Solve for a unitary vector normal to the vector plane. Its direction and
     # sense the one given by the cross product (right-hand) from r1 to r2.
-- 
2.43.0


From 574c043b94b5435f5e6a50c6156f08281d0b441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 44/59] fix: raise the usual error if the equations of
 McElreath's and Avanzini's solvers degenerate

---
 src/lamberthub/ecc_solvers/avanzini.py        | 10 +++++++---
 src/lamberthub/universal_solvers/mcelreath.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..e5d6ff2 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -125,9 +125,13 @@ def avanzini2008(
     # variable, so this root solver is the one required rather than the pure N-R
     # one.
     tic = time.perf_counter() if full_output else 0.0
-    x_sol, numiter = _secant(
-        _f, 0.0, (eccT_at_x, mu, geometry, tof), maxiter, atol, rtol
-    )
+    try:
+        x_sol, numiter = _secant(
+            _f, 0.0, (eccT_at_x, mu, geometry, tof), maxiter, atol, rtol
+        )
+    except ZeroDivisionError:
+        # Kepler's equation degenerates, such as for almost rectilinear transfers
+        raise RuntimeError("Failed to converge") from None
 
     # Compute the time per iteration
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index b5b408a..5ff2a96 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -91,9 +91,13 @@ def mcelreath2025(
     tof = np.sqrt(mu) * tof
 
     tic = time.perf_counter() if full_output else 0.0
-    x, numiter = _find_x(
-        tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
-    )
+    try:
+        x, numiter = _find_x(
+            tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
+        )
+    except ZeroDivisionError:
+        # The time equation degenerates, such as for almost rectilinear transfers
+        raise RuntimeError("Failed to converge") from None
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     # Computing alpha too would divide zero by zero for a parabola
-- 
2.43.0


From 5ad24c519762d8b3a1f4644e2f351e672fc91125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 45/59] fix: raise if Jiang's solver finds no semi-latus rectum

---
 src/lamberthub/p_solvers/jiang.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index dc8c392..c470a21 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -121,6 +121,10 @@ def jiang2016(
     else:
         tpi = 0.0
 
+    # The semi-latus rectum is lost for almost rectilinear orbits
+    if not p > 0:
+        raise ValueError("Failed to converge to a feasible solution!")
+
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
     return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
-- 
2.43.0


From 760a61c24465a75428c5aad0a0fa09e64ea61ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 46/59] fix: make the tolerances of the jiang solver
 independent of the units of the problem

---
 src/lamberthub/p_solvers/jiang.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index c470a21..41612dc 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -95,25 +95,29 @@ def jiang2016(
     c = norm(r2 - r1)
     s = (r1_norm + r2_norm + c) / 2
 
-    tof_parabolic = _tof_parabolic(mu, s, c, theta)
+    # The tolerances apply whatever the units of length and time are
+    k = c / s
+    tof = tof * np.sqrt(mu / s**3)
+
+    tof_parabolic = _tof_parabolic(1.0, 1.0, k, theta)
 
     tic = time.perf_counter() if full_output else 0.0
     if np.isclose(tof, tof_parabolic, rtol=rtol, atol=atol):
         p = _parabolic_p(r1_norm, r2_norm, c, s, theta)
         numiter = 0
     elif tof > tof_parabolic:
-        a_min = s / 2
-        tof_min_energy = _tof_elliptic(mu, a_min, s, c, theta, long_period=False)
+        a_min = 0.5
+        tof_min_energy = _tof_elliptic(1.0, a_min, 1.0, k, theta, long_period=False)
         long_period = tof > tof_min_energy
         a, numiter = _find_and_solve_elliptic(
-            mu, tof, a_min, s, c, theta, long_period, maxiter, atol, rtol
+            1.0, tof, a_min, 1.0, k, theta, long_period, maxiter, atol, rtol
         )
-        p = _elliptic_p(a, r1_norm, r2_norm, c, s, theta, long_period)
+        p = _elliptic_p(a * s, r1_norm, r2_norm, c, s, theta, long_period)
     else:
         a, numiter = _find_and_solve_hyperbolic(
-            mu, tof, s, c, theta, maxiter, atol, rtol
+            1.0, tof, 1.0, k, theta, maxiter, atol, rtol
         )
-        p = _hyperbolic_p(a, r1_norm, r2_norm, c, s, theta)
+        p = _hyperbolic_p(a * s, r1_norm, r2_norm, c, s, theta)
 
     if full_output:
         tac = time.perf_counter()
-- 
2.43.0


From aee8b456b3a6a62116f633a7d3867b3b6d9258ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 47/59] fix: make the tolerances of the pan solver independent
 of the units of the problem

---
 src/lamberthub/p_solvers/pan.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 3373a0c..080ba5c 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -94,7 +94,7 @@ def pan2016(
     assert_transfer_angle_not_zero(theta)
     assert_transfer_angle_not_pi(theta)
 
-    if np.isclose(norm(r1), norm(r2), rtol=1e-8, atol=atol):
+    if np.isclose(norm(r1), norm(r2), rtol=1e-8, atol=0.0):
         return vallado2013(
             mu,
             r1,
@@ -109,14 +109,17 @@ def pan2016(
             full_output=full_output,
         )
 
-    geometry = _get_planar_geometry(r1, r2, theta, is_prograde)
+    # The tolerances apply whatever the units of length and time are
+    unit = norm(r1)
+    speed = np.sqrt(mu / unit)
+    geometry = _get_planar_geometry(r1 / unit, r2 / unit, theta, is_prograde)
 
     tic = time.perf_counter() if full_output else 0.0
     try:
         omega, numiter = _find_argument_of_periapsis(
-            mu,
+            1.0,
             geometry,
-            tof,
+            tof * speed / unit,
             maxiter,
             atol,
             rtol,
@@ -138,7 +141,8 @@ def pan2016(
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     elements = _elements_at_omega(geometry, omega)
-    v1, v2 = _reconstruct_velocities(mu, geometry, elements)
+    v1, v2 = _reconstruct_velocities(1.0, geometry, elements)
+    v1, v2 = speed * v1, speed * v2
 
     return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
-- 
2.43.0


From e4056e6f32d5869c0e67862f5b89148073d3b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 48/59] fix: make the tolerances of the delatorre solver
 independent of the units of the problem

---
 src/lamberthub/regularization/delatorre.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index bbf1502..e8fd108 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -88,7 +88,10 @@ def delatorre2018(
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
 
-    z, numiter = _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol)
+    # The tolerances apply whatever the units of length and time are
+    z, numiter = _find_z(
+        1.0, Q / P, 1.0, tof * np.sqrt(mu / P**3), M, is_low_path, maxiter, atol, rtol
+    )
 
     V = P - Q * _stumpff0(z)
     p = r1_norm * r2_norm * (1 - np.cos(dtheta)) / V
-- 
2.43.0


From 99a6b9af8d860209bc60d49589b7abf41ec5bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 49/59] fix: make the tolerances of the thorne solver
 independent of the units of the problem

---
 src/lamberthub/series_solvers/thorne.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index be4cf7e..e3a2ca8 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -110,12 +110,16 @@ def thorne2004(
     t_p = get_parabolic_tof(mu, semiperimeter, c_norm, mp)
     t_min = get_minimum_energy_tof(mu, semiperimeter, c_norm, mp)
 
+    # The tolerances apply whatever the units of length and time are
+    k, unit = c_norm / semiperimeter, np.sqrt(semiperimeter**3 / mu)
+
     tic = time.perf_counter() if full_output else 0.0
     a, branch, numiter = get_semimajor_axis(
-        mu, semiperimeter, c_norm, tof, t_p, t_min, mp, maxiter, atol, rtol
+        1.0, 1.0, k, tof / unit, t_p / unit, t_min / unit, mp, maxiter, atol, rtol
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
+    a = a * semiperimeter
     x = get_x_from_semimajor_axis(a, semiperimeter, branch)
     y = get_y_from_x(x, semiperimeter, c_norm)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, dtheta)
-- 
2.43.0


From 6890453979e5d07a7b602ceac76f48aae0eb7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 50/59] fix: make the tolerances of the mcelreath solver
 independent of the units of the problem

---
 src/lamberthub/universal_solvers/mcelreath.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 5ff2a96..2be5e8b 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -88,12 +88,24 @@ def mcelreath2025(
         raise RuntimeError("Cannot compute orbit, phase angle is 180 degrees")
 
     m = (-1) ** M * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
-    tof = np.sqrt(mu) * tof
+
+    # The tolerances apply whatever the units of length and time are
+    unit = r1_norm + r2_norm
+    tof = np.sqrt(mu) * tof / unit**1.5
 
     tic = time.perf_counter() if full_output else 0.0
     try:
         x, numiter = _find_x(
-            tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
+            tof,
+            r1_norm / unit,
+            r2_norm / unit,
+            m / unit,
+            dtheta,
+            M,
+            is_low_path,
+            maxiter,
+            atol,
+            rtol,
         )
     except ZeroDivisionError:
         # The time equation degenerates, such as for almost rectilinear transfers
-- 
2.43.0


From 8a99e5351e90fb7058ad4b1b7b1174a60607cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 51/59] fix: compute products of integer vectors with real
 numbers

---
 src/lamberthub/linalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/linalg.py b/src/lamberthub/linalg.py
index 591521d..0fca2a6 100644
--- a/src/lamberthub/linalg.py
+++ b/src/lamberthub/linalg.py
@@ -26,7 +26,11 @@ def dot(v1, v2):
     this issue: https://github.com/numba/numba/issues/8676
 
     """
-    return v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2]
+    return (
+        float(v1[0]) * float(v2[0])
+        + float(v1[1]) * float(v2[1])
+        + float(v1[2]) * float(v2[2])
+    )
 
 
 @jit(cache=True, fastmath=True)
@@ -46,7 +50,7 @@ def cross(v1, v2):
         Resultant vector of the cross product between the two vectors.
 
     """
-    return np.cross(v1, v2)
+    return np.cross(1.0 * v1, 1.0 * v2)
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From 0854c5f955f397633a5e2c1a6cfdbe2d1a3132c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 52/59] fix: compute the chord geometry of the Avanzini solver
 with real numbers

---
 src/lamberthub/ecc_solvers/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index c4f788f..0458d58 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -18,9 +18,8 @@ taken from the following publications [1] [2] [3].
 
 from numba import njit as jit
 import numpy as np
-from numpy import cross
-from numpy.linalg import norm
 
+from lamberthub.linalg import cross, dot, norm
 from lamberthub.utils.angles import (
     get_orbit_inc_and_raan_from_position_vectors,
     get_orbit_normal_vector,
@@ -70,7 +69,7 @@ def get_geometry(r1, r2, is_prograde):
 
     # The chord vector and r2 lie at the same side of r1
     c = r2 - r1
-    w_c = np.arctan2(norm(cross(r1, c)), np.dot(r1, c))
+    w_c = np.arctan2(norm(cross(r1, c)), dot(r1, c))
     w_c = w_c if dtheta < np.pi else 2 * np.pi - w_c
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
-- 
2.43.0


From 759051fac72f0bd0936773d05105a474af3d1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 53/59] fix: refuse several revolutions in less than the
 parabolic time in the Arora solver

---
 src/lamberthub/universal_solvers/arora.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 96c6fa3..25d87a4 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -121,6 +121,10 @@ def arora2013(
     # Compute the parabolic time of flight
     tof_p = S * np.sqrt(1 - np.sqrt(2) * tau) * (tau + np.sqrt(2)) / 3
 
+    # Several revolutions take longer than the parabola
+    if M > 0 and tof <= tof_p:
+        raise ValueError("No feasible solution, try lower M!")
+
     # Compare actual and parabolic TOF to generate the initial guess
     if tof <= tof_p:
         # The final orbit is expected to be hyperbolic. The initial guess is
-- 
2.43.0


From 83bd728f3cb7ed5b71b30d34de675687075c0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 54/59] fix: take the plane of Pan's transfers from the
 positions as they were given

---
 src/lamberthub/p_solvers/pan.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 080ba5c..f17f137 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -112,7 +112,7 @@ def pan2016(
     # The tolerances apply whatever the units of length and time are
     unit = norm(r1)
     speed = np.sqrt(mu / unit)
-    geometry = _get_planar_geometry(r1 / unit, r2 / unit, theta, is_prograde)
+    geometry = _get_planar_geometry(r1, r2, unit, theta, is_prograde)
 
     tic = time.perf_counter() if full_output else 0.0
     try:
@@ -147,11 +147,13 @@ def pan2016(
     return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
 
-def _get_planar_geometry(r1, r2, theta, is_prograde):
+def _get_planar_geometry(r1, r2, unit, theta, is_prograde):
     """Project the boundary vectors into the transfer-orbit plane."""
+    # Scaling may flip the polar component of the normal of a polar orbit
+    i_h = get_orbit_normal_vector(r1, r2, is_prograde)
+    r1, r2 = r1 / unit, r2 / unit
     r1_norm, r2_norm = norm(r1), norm(r2)
     i_x = r1 / r1_norm
-    i_h = get_orbit_normal_vector(r1, r2, is_prograde)
     i_y = np.cross(i_h, i_x)
 
     x1, y1 = r1_norm, 0.0
-- 
2.43.0


From 67a987ecad3faa3080d516c20d0d407d3e32d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 55/59] fix: report the semi-major axis of the parabola in the
 Avanzini solver

---
 src/lamberthub/ecc_solvers/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 0458d58..5798fff 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -268,7 +268,11 @@ def a_at_eccT(ecc_T, ecc_F, p):
         Semi-major axis of the transfer orbit.
 
     """
-    a = p / (1 - ecc_F**2 - ecc_T**2)
+    ecc = ecc_at_eccT(ecc_T, ecc_F)
+    if ecc == 1:
+        # Parabola
+        return np.inf
+    a = p / ((1 - ecc) * (1 + ecc))
     return a
 
 
-- 
2.43.0


From a7fcb5b45320caad00df4376b12f9573a4c879db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 56/59] fix: evaluate Gooding's time of flight at minimum
 energy when q is zero

---
 src/lamberthub/universal_solvers/gooding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 2ba0ff7..45070ec 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -201,7 +201,7 @@ def tlamb(m, q, qsqfm1, x, n):
             a = z - qx
             b = q * z - x
 
-        if qx <= 0.0 and lm1:
+        if qx < 0.0 and lm1:
             aa = qsqfm1 / a
             bb = qsqfm1 * (qsq * u - xsq) / b
 
-- 
2.43.0


From ad1c5160301dd527b906bacf91707390530a19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 57/59] fix: take numpy booleans for what they are

---
 src/lamberthub/ecc_solvers/avanzini.py        | 2 +-
 src/lamberthub/p_solvers/battin.py            | 2 +-
 src/lamberthub/p_solvers/gauss.py             | 2 +-
 src/lamberthub/p_solvers/jiang.py             | 2 +-
 src/lamberthub/p_solvers/pan.py               | 2 +-
 src/lamberthub/regularization/delatorre.py    | 2 +-
 src/lamberthub/series_solvers/thorne.py       | 2 +-
 src/lamberthub/universal_solvers/arora.py     | 4 ++--
 src/lamberthub/universal_solvers/der.py       | 2 +-
 src/lamberthub/universal_solvers/gooding.py   | 4 ++--
 src/lamberthub/universal_solvers/izzo.py      | 6 +++---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 src/lamberthub/universal_solvers/negrete.py   | 2 +-
 src/lamberthub/universal_solvers/vallado.py   | 2 +-
 src/lamberthub/utils/angles.py                | 4 ++--
 15 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index e5d6ff2..b1af317 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -143,7 +143,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b777e17..59a3e9b 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -167,7 +167,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 19c0a13..cbfa1ee 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -179,7 +179,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 41612dc..ecafe65 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -130,7 +130,7 @@ def jiang2016(
         raise ValueError("Failed to converge to a feasible solution!")
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index f17f137..bb6a4c3 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -144,7 +144,7 @@ def pan2016(
     v1, v2 = _reconstruct_velocities(1.0, geometry, elements)
     v1, v2 = speed * v1, speed * v2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_planar_geometry(r1, r2, unit, theta, is_prograde):
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index e8fd108..7085652 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -106,7 +106,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol):
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index e3a2ca8..d6fad6c 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -124,7 +124,7 @@ def thorne2004(
     y = get_y_from_x(x, semiperimeter, c_norm)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, dtheta)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def get_parabolic_tof(mu, s, c, mp):
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 25d87a4..abb24f1 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -329,7 +329,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
@@ -398,7 +398,7 @@ def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
     if abs(tof - tof_min) <= atol:
         return k_min
 
-    lower, upper = (k_min, k_right) if is_low_path is True else (k_left, k_min)
+    lower, upper = (k_min, k_right) if is_low_path else (k_left, k_min)
     return brentq(
         lambda k: tof_at(k) - tof,
         lower,
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 21b4fb7..f21c3f6 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -117,7 +117,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 45070ec..6c60a24 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -136,7 +136,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -661,7 +661,7 @@ def vlamb(
 
     # Filter the solution
     if n_sol > 1:
-        if is_low_path is True:
+        if is_low_path:
             x_sol = np.max([x1_sol, x2_sol])
         else:
             x_sol = np.min([x1_sol, x2_sol])
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 28c512a..924b4fc 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -105,7 +105,7 @@ def izzo2015(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -135,7 +135,7 @@ def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol)
 
     # Correct transfer angle parameter and tangential vectors regarding orbit's
     # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_prograde is False else (ll, i_t1, i_t2)
+    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if not is_prograde else (ll, i_t1, i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
@@ -316,7 +316,7 @@ def _initial_guess(T, ll, M, is_low_path):
         # Filter out the solution
         x_0 = (
             np.max(np.array([x_0l, x_0r]))
-            if is_low_path is True
+            if is_low_path
             else np.min(np.array([x_0l, x_0r]))
         )
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 2be5e8b..dc3c9d2 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -132,7 +132,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 9783efd..3c9517a 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -109,7 +109,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index dd73bdc..00d307e 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -150,7 +150,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 336f52c..043dcc7 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -50,7 +50,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     theta0 = np.arctan2(norm(cross_r1r2), dot(r1, r2))
 
     # Fix the value of theta if necessary
-    if is_prograde is True:
+    if is_prograde:
         dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
@@ -89,7 +89,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
 
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
-    if is_prograde is True:
+    if is_prograde:
         i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
-- 
2.43.0


From 45c645e899a117efaee16f540df5686b58ed1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 58/59] fix: refuse numbers which are not finite

---
 src/lamberthub/utils/assertions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 7cff373..4d1fb0d 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -42,7 +42,7 @@ def assert_gravitational_parameter_is_positive(mu):
 
     """
     # Check positive gravitational parameter
-    if mu <= 0:
+    if not 0 < mu < np.inf:
         raise ValueError("Gravitational parameter must be positive!")
     else:
         return True
@@ -67,6 +67,9 @@ def assert_position_vector_is_valid(r):
     if np.all(r == 0):
         raise ValueError("Position vector cannot be the null vector [0,0,0]!")
 
+    if not np.all(np.isfinite(r)):
+        raise ValueError("Position vector must be finite!")
+
     return True
 
 
@@ -109,7 +112,7 @@ def assert_time_of_flight_is_positive(tof):
     ValueError
 
     """
-    if tof <= 0:
+    if not 0 < tof < np.inf:
         raise ValueError("Time of flight must be positive!")
     else:
         return True
-- 
2.43.0


From aaf9ba7c2486a858e895accf6730353c43e403f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 59/59] fix: keep the line endings of the README

---
 scripts/generate_benchmark_report.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index d165fb9..cea7af7 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -263,19 +263,21 @@ def build_section(reports):
 
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
-    content = readme_path.read_text(encoding="utf-8")
+    # Do not translate the line endings, they are not always those of the system
+    with readme_path.open(encoding="utf-8", newline="") as file_handler:
+        content = file_handler.read()
     if START_MARKER in content and END_MARKER in content:
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
         pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
+            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}(?:\r?\n)?",
             flags=re.DOTALL,
         )
         updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-    readme_path.write_text(updated, encoding="utf-8")
+    readme_path.write_text(updated, encoding="utf-8", newline="")
 
 
 def main():
-- 
2.43.0

