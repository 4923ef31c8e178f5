From 6748e6cd0758bf84925057c2760465494ae5715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/20] fix: use the Yoshida constants of each composition
 level in the order 6 and 8 integrators

The nested order-4 and order-6 stages used the constants of the outermost
order, so Geodesic(order=6) and Geodesic(order=8) were only second order.
---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 48cd04ee8cdc1f2bb3d1cd99269a65303a81d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 02/20] fix: sign of the radial derivative of g_phi_phi in the
 Kerr Christoffel symbols

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..8725f97 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = (-2 * r - ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From 77b77dc986ff07518d718fb4c107562a6689e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 03/20] fix: include the charge in the Kerr-Newman metric and
 its derivatives

---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..3fc17f6 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From 82287f2f039dbeacc73fe6e1d1b103c1675ed537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 04/20] fix: contract the electromagnetic tensor with the
 covariant velocity in the Kerr-Newman equations of motion

---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3fc17f6..06730d9 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] += self.q.value * (F_contra @ g_cov @ vec[4:])
 
         return vals
 
-- 
2.43.0


From 60d84562e894ed5ca47cc01e5cb37f72adf47c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 05/20] fix: convert black-hole parameters to SI units instead
 of dropping their units

---
 src/einsteinpy/metric/base_metric.py | 6 +++---
 src/einsteinpy/metric/kerrnewman.py  | 2 +-
 src/einsteinpy/units.py              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..4bb6e94 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -92,9 +92,9 @@ class BaseMetric:
         """
         self.name = name
         self.coords = coords
-        self.M = M
-        self.a = a
-        self.Q = Q
+        self.M = M.to(u.kg)
+        self.a = a.to(u.one)
+        self.Q = Q.to(u.C)
         self.metric_cov = metric_cov
         self.christoffels = christoffels
         self.f_vec = f_vec
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 06730d9..f23754e 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -46,7 +46,7 @@ class KerrNewman(BaseMetric):
             christoffels=self._christoffels,
             f_vec=self._f_vec,
         )
-        self.q = q
+        self.q = q.to(u.C / u.kg)
         # Precomputed list of tuples, containing indices \
         # of non-zero Christoffel Symbols for Kerr-Newman Metric \
         # in Boyer-Lindquist Coordinates
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..3b2f55b 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -7,7 +7,7 @@ __all__ = ["primitive"]
 
 def primitive(*args):
     """
-    Strips out units and returns numpy.float64 values \
+    Strips out units and returns numpy.float64 values, in SI units, \
     out of ``astropy.units.quantity.Quantity``
 
     Parameters
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 21517935922c501c7faa1c7483ded42cfa7bd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/20] fix: azimuthal velocity of points with x=0 in the
 Cartesian to Boyer-Lindquist conversion

---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From 7e453a52bd923ba47dff24c6aa8f85831cfea04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 07/20] fix: keep the sign of the charge in the Kerr-Newman
 potential and field

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index f23754e..79eb880 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -431,7 +431,7 @@ class KerrNewman(BaseMetric):
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
 
         A = np.zeros((4,), dtype=float)
@@ -483,7 +483,7 @@ class KerrNewman(BaseMetric):
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
         # Partial derivatives of rho2
         drho2_dr = 2 * r
-- 
2.43.0


From c97dbfb18a307c42ec8e9f24bd86a903f1656686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 08/20] fix: use every component of a user-supplied metric for
 the initial 4-momentum

---
 src/einsteinpy/geodesic/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..54e9774 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,11 +41,14 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
+    B = 2 * (guu[0, 1] * P[1] + guu[0, 2] * P[2] + guu[0, 3] * P[3])
     C = (
         guu[1, 1] * P[1] * P[1]
         + guu[2, 2] * P[2] * P[2]
         + guu[3, 3] * P[3] * P[3]
+        + 2 * guu[1, 2] * P[1] * P[2]
+        + 2 * guu[1, 3] * P[1] * P[3]
+        + 2 * guu[2, 3] * P[2] * P[3]
         + int(time_like)
     )
 
-- 
2.43.0


From 8864fcd77698cc154a7126c224d93c2c7defe259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 09/20] fix: make RK4naive honour t_bound

---
 src/einsteinpy/integrators/runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..9968294 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
-- 
2.43.0


From 732497dbfd8e19092682a319aa399bf309f2f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 10/20] fix: StressEnergyMomentumTensor.change_config returns a
 StressEnergyMomentumTensor

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 5af81fd48b34f2faa245ba10df4fea11d271e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 11/20] fix: transform covariant indices with the inverse
 matrix in lorentz_transform

---
 src/einsteinpy/symbolic/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..9e8478d 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -437,12 +437,15 @@ class BaseRelativityTensor(Tensor):
 
         """
         tm = sympy.Array(transformation_matrix)
+        if "l" in self.config:
+            # covariant indices transform with the inverse matrix
+            tm_inv = sympy.Array(sympy.Matrix(tm.tolist()).inv().tolist())
         t = self.tensor()
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From ddffcdddf24ac3312c76953b9e164d6587af2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 12/20] fix: recompute the free variables of transformed and
 multiplied tensors

---
 src/einsteinpy/symbolic/tensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 9e8478d..813ad9d 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,6 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
     )
 
 
@@ -456,7 +454,5 @@ class BaseRelativityTensor(Tensor):
             syms=self.syms,
             config=self.config,
             parent_metric=None,
-            variables=self.variables,
-            functions=self.functions,
             name=_change_name(self.name, context="__lt"),
         )
-- 
2.43.0


From bfa23406c1414217bcd58cdf9c6d542b7ea8a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 13/20] fix: keep the index configuration in Tensor.subs

---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 813ad9d..94411ef 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -232,7 +232,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self.config)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From 91ae5f453ac0fe1cf8505e4c2470be1ba7ded0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 14/20] fix: expand the de Sitter space-time in time instead of
 x

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From 655c531bedb0ce1f04f2e7be57a5c7719edd4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 15/20] fix: order and argument of the Bessel functions in
 BesselGravitationalWave

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From e3e68ad1e276cb24deee0323cc5c128e0dea78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 16/20] fix: distance from the bubble centre in the Alcubierre
 metric

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From cbfa5b131f56280edd6f495978c1c6ace320ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 17/20] fix: angular components of the Janis-Newman-Winicour
 metric in units of time

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From c3a9101fa646f3153939782ecd6a03e82da224fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 18/20] fix: do not truncate the mass in the turning-point
 equation of the shadow

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From d4808fe1960bf8716125996250e7e5babd2a920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 19/20] fix: radius of the ergosphere in the geodesic plots

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 50157c06e9ac850ad2bb840f6350e02e5f33ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:51 +0000
Subject: [PATCH 20/20] fix: polar angle on the rotation axis stays defined
 when z/r rounds past one

---
 src/einsteinpy/coordinates/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index d903607..be9dd4f 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -66,7 +66,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arccos(np.minimum(np.maximum(z / r, -1.0), 1.0))
     phi = np.arctan2(y, x)
     dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
     v_r = (1 / (2 * r)) * (
@@ -91,7 +91,7 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arccos(np.minimum(np.maximum(z / r, -1.0), 1.0))
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0

