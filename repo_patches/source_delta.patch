From 474fc470746db16933f14dd160803b2b8b8b37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/37] fix: conversions do not modify their input or truncate
 integer elements

---
 pyorb/kepler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..adde4d6 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,11 @@ considered not inclined
 """
 
 
+def _float_dtype(dtype):
+    '''The given data-type if it is a floating point type, else float64.'''
+    return dtype if np.issubdtype(dtype, np.floating) else np.dtype(np.float64)
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -264,7 +269,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=_float_dtype(kep.dtype))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -304,7 +309,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=_float_dtype(equi.dtype))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -374,6 +379,9 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
             f'Input data must have at least 6 variables along axis 0:\
              input shape is {cart.shape}')
 
+    # work on a floating point copy, the input must not be modified
+    cart = np.array(cart, dtype=_float_dtype(cart.dtype))
+
     if len(cart.shape) < 2:
         input_is_vector = True
         try:
@@ -1717,6 +1725,9 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # work on a floating point copy, the input must not be modified
+    kep = np.array(kep, dtype=_float_dtype(kep.dtype))
+
     if len(kep.shape) < 2:
         input_is_vector = True
         try:
-- 
2.43.0


From 0d0fd3d2d87afa3e36bda0a286f4f251540fb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 02/37] fix: anomaly functions give floats for integer input
 and nan for nan eccentricity

---
 pyorb/kepler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index adde4d6..bc14eff 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -661,7 +661,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.full(_nu.shape, np.nan, dtype=_float_dtype(_nu.dtype))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -720,7 +720,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.full(_E.shape, np.nan, dtype=_float_dtype(_E.dtype))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -779,7 +779,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.full(_E.shape, np.nan, dtype=_float_dtype(_E.dtype))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1226,7 +1226,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=_float_dtype(M.dtype))
 
         out_it = E0.size
         Mit = np.nditer(M)
@@ -1302,7 +1302,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=_float_dtype(_M.dtype))
         if _M.size == 0:
             return E
 
-- 
2.43.0


From 1c39a14331150dacd2d62cea670982c742467a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 03/37] fix: true_to_eccentric keeps the sign of anomalies on
 open orbits

---
 pyorb/kepler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index bc14eff..49eb16e 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -681,7 +681,8 @@ def true_to_eccentric(nu, e, degrees=False):
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
 
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+    # only the anomaly of a closed orbit is an angle with period 2 pi
+    E = np.where(np.less(e, 1), np.mod(E + 2.*np.pi, 2.*np.pi), E)[()]
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From 37e734e34ee7171fe94c6cc92168998d8548ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/37] fix: hyperbolic start value for negative mean anomalies

---
 pyorb/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 49eb16e..5265948 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1153,7 +1153,7 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
-- 
2.43.0


From 2289287dbddbb896b9881c7d1220e6b9f059d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 05/37] fix: element-wise Kepler solution of arrays that are
 not C-contiguous

---
 pyorb/kepler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 5265948..cf27dee 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1230,9 +1230,9 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=_float_dtype(M.dtype))
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1308,9 +1308,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From adacab5d712e57a0972f2dc53308ce5f740c4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 06/37] fix: cancellation in the parabolic anomaly for large
 negative mean anomalies

---
 pyorb/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index cf27dee..78a43ab 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1323,8 +1323,8 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
                 A = 3.0/2.0*Mc
-                B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                B = np.cbrt(np.abs(A) + np.sqrt(A**2 + 1))
+                E_calc = np.sign(A)*(B - 1.0/B)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1341,8 +1341,8 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
             A = 3.0/2.0*_M
-            B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            B = np.cbrt(np.abs(A) + np.sqrt(A**2 + 1))
+            E = np.sign(A)*(B - 1.0/B)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From dfe96fb78c480ddd2d66f102667d2036dfd2890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 07/37] fix: cart_to_kep gives the periapsis distance of
 parabolic orbits

---
 pyorb/kepler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 78a43ab..285cd51 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -415,6 +415,9 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     # e < 1
     # and
     # e >= 1
+    # numerically parabolic orbits have exactly e = 1
+    e_par = np.abs(o[1, :] - 1) <= e_lim
+    o[1, e_par] = 1
     e_hyp = o[1, :] >= 1
     o[0, :] = -mu/(2.0*epsilon)
     o[0, e_hyp] = -o[0, e_hyp]
@@ -422,6 +425,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     # ## ANUGLAR MOMENTUM ###
     h = np.cross(r, v, axisa=0, axisb=0, axisc=0)
     hn = np.linalg.norm(h, axis=0)
+    # for parabolic orbits the first element is the periapsis distance
+    o[0, e_par] = (hn**2/(2.0*mu))[e_par]
     o[2, :] = np.arccos(h[2, :]/hn)
 
     # possible cases
-- 
2.43.0


From 452fabb89322e9f221e3cbc4047aaf9b99aaf5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 08/37] fix: kep_equivalent compares e, planar orbits and
 angles modulo a full turn

---
 pyorb/kepler.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 285cd51..99f8f1c 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -570,27 +570,38 @@ def kep_equivalent(kep1, kep2):
     if np.allclose(kep1, kep2):
         return True
 
+    def same_angle(x, y):
+        return np.isclose(np.mod(x - y + np.pi, _2pi), np.pi)
+
     if not np.isclose(kep1[K_a], kep2[K_a]):
         return False
+    if not np.isclose(kep1[K_e], kep2[K_e]):
+        return False
+    if not np.isclose(kep1[K_i], kep2[K_i]):
+        return False
+
+    om1, om2 = kep1[K_om], kep2[K_om]
+    # if the orbits are planar, Omega only shifts omega (backwards if retrograde)
+    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+        om1 = om1 + kep1[K_OM]
+        om2 = om2 + kep2[K_OM]
+    elif kep1[K_i] >= np.pi - i_lim and kep2[K_i] >= np.pi - i_lim:
+        om1 = om1 - kep1[K_OM]
+        om2 = om2 - kep2[K_OM]
+    elif not same_angle(kep1[K_OM], kep2[K_OM]):
+        return False
 
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not same_angle(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
-            or not np.isclose(kep1[K_nu], kep2[K_nu])
+            not same_angle(om1, om2)
+            or not same_angle(kep1[K_nu], kep2[K_nu])
         ):
             return False
 
-    # if inclination is non-zero, then Omega matters
-    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:
-        if (
-            not np.isclose(kep1[K_i], kep2[K_i])
-            or not np.isclose(kep1[K_OM], kep2[K_OM])
-        ):
-            return False
     # Otherwise, we should be good
     return True
 
-- 
2.43.0


From 2e8a12e06ff1e7229ce19ce906d2bbaa1c6b6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/37] fix: Stumpff functions accept floats and integers

---
 pyorb/kepler.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 99f8f1c..b979ea2 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1509,7 +1509,8 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    x = np.asarray(x)
+    c0 = np.empty(x.shape, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1517,7 +1518,7 @@ def stumpff0(x):
 
     inds = x < 0
     c0[inds] = np.cosh(np.sqrt(-x[inds]))
-    return c0
+    return c0[()]
 
 
 def stumpff1(x):
@@ -1537,7 +1538,8 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    x = np.asarray(x)
+    c1 = np.empty(x.shape, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1545,7 +1547,7 @@ def stumpff1(x):
 
     inds = x < 0
     c1[inds] = np.sinh(np.sqrt(-x[inds]))/np.sqrt(-x[inds])
-    return c1
+    return c1[()]
 
 
 def stumpff2(x):
@@ -1565,7 +1567,8 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    x = np.asarray(x)
+    c2 = np.empty(x.shape, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1573,7 +1576,7 @@ def stumpff2(x):
 
     inds = x < 0
     c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
-    return c2
+    return c2[()]
 
 
 def stumpff3(x):
@@ -1593,7 +1596,8 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    x = np.asarray(x)
+    c3 = np.empty(x.shape, dtype=_float_dtype(x.dtype))
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
@@ -1603,7 +1607,7 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
-    return c3
+    return c3[()]
 
 
 def stumpff(x):
-- 
2.43.0


From 9b7cc580a40ba1e8cb2a401eb26967631a626b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/37] fix: cancellation in the Stumpff functions 2 and 3 for
 small arguments

---
 pyorb/kepler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b979ea2..46481ee 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1576,6 +1576,11 @@ def stumpff2(x):
 
     inds = x < 0
     c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
+
+    # series expansion where the closed form suffers from cancellation
+    inds = np.abs(x) < 1e-2
+    xs = x[inds]
+    c2[inds] = 1/2 - xs/24*(1 - xs/30*(1 - xs/56*(1 - xs/90)))
     return c2[()]
 
 
@@ -1607,6 +1612,11 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
+
+    # series expansion where the closed form suffers from cancellation
+    inds = np.abs(x) < 1e-2
+    xs = x[inds]
+    c3[inds] = 1/6 - xs/120*(1 - xs/42*(1 - xs/72*(1 - xs/110)))
     return c3[()]
 
 
-- 
2.43.0


From 53cef933b61ec567094460628d256e3faeff765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/37] fix: changing the anomaly type keeps the cartesian
 elements

---
 pyorb/orbit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..335b799 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,12 +222,16 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
+            # the orbit itself does not change, hence neither the cartesian
+            self._kep[5, :] = anom
             self.__type = val
 
     def propagate(self, dt):
-- 
2.43.0


From 989ffb949764c60ffd5dfd3e7170531f7b79ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/37] fix: pending conversions are not lost when the other
 elements are written

---
 pyorb/orbit.py | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 335b799..db68abf 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -149,13 +149,13 @@ class Orbit:
         return str_
 
     def _cart_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_cartesian(
                 np.logical_not(self.__cart_calculated),
             )
 
     def _kep_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_kepler(
                 np.logical_not(self.__kep_calculated),
             )
@@ -413,6 +413,11 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # pending conversions belong to the elements (and mass) before the update
+        if not self.direct_update or cart_updated or kep_updated:
+            self._cart_check()
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -451,11 +456,18 @@ class Orbit:
         do_inds[inds] = True
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._kep[:, inds]), axis=0))
+        if self.auto_update or self.direct_update:
+            # here the cartesian elements are the ones that changed last
+            do_inds[np.logical_and(
+                np.logical_not(self.__kep_calculated),
+                np.all(np.isfinite(self._cart), axis=0),
+            )] = False
 
         if np.sum(do_inds) == 0:
             return
 
         self.__cart_calculated[do_inds] = True
+        self.__kep_calculated[do_inds] = True
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
         else:
@@ -480,11 +492,18 @@ class Orbit:
         do_inds[inds] = True
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._cart[:, inds]), axis=0))
+        if self.auto_update or self.direct_update:
+            # here the Keplerian elements are the ones that changed last
+            do_inds[np.logical_and(
+                np.logical_not(self.__cart_calculated),
+                np.all(np.isfinite(self._kep), axis=0),
+            )] = False
 
         if np.sum(do_inds) == 0:
             return
 
         self.__kep_calculated[do_inds] = True
+        self.__cart_calculated[do_inds] = True
         self._kep[:, do_inds] = functions.cart_to_kep(
             self._cart[:, do_inds],
             mu = self.G*(self.M0 + self.m[do_inds]),
@@ -525,6 +544,7 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
 
         if self.direct_update:
@@ -544,6 +564,7 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
 
         if self.direct_update:
@@ -588,12 +609,14 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def y(self):
@@ -606,12 +629,14 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def z(self):
@@ -624,12 +649,14 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vx(self):
@@ -642,12 +669,14 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vy(self):
@@ -660,12 +689,14 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vz(self):
@@ -678,12 +709,14 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def kepler(self):
@@ -721,12 +754,14 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def e(self):
@@ -739,12 +774,14 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def i(self):
@@ -757,12 +794,14 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def omega(self):
@@ -775,12 +814,14 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def Omega(self):
@@ -793,12 +834,14 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def anom(self):
@@ -812,12 +855,14 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def mean_motion(self):
-- 
2.43.0


From 2d4b054eca513ea4f5fb6f43ca9daae3a893a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/37] fix: update of selected orbits converts only these
 orbits

---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index db68abf..8f8a7cb 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -379,7 +379,7 @@ class Orbit:
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__cart_calculated[inds] = True
                 self.__kep_calculated[inds] = False
@@ -390,7 +390,7 @@ class Orbit:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__kep_calculated[inds] = True
                 self.__cart_calculated[inds] = False
@@ -430,7 +430,7 @@ class Orbit:
                     self._cart[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
@@ -440,7 +440,7 @@ class Orbit:
                     self._kep[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
                 self.__kep_calculated[inds] = True
-- 
2.43.0


From a2471fdb3cad8fea92a340e7ecd5f23a57d1a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 14/37] fix: update and add accept a single state vector like
 the properties do

---
 pyorb/orbit.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 8f8a7cb..0d3e6e7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -377,7 +377,7 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            self._cart[:, inds] = self._state_columns(kwargs['cartesian'], inds)
             if self.direct_update:
                 self.calculate_kepler(inds)
             else:
@@ -388,7 +388,7 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            self._kep[:, inds] = self._state_columns(kwargs['kepler'], inds)
             if self.direct_update:
                 self.calculate_cartesian(inds)
             else:
@@ -445,6 +445,14 @@ class Orbit:
                 self.__cart_calculated[inds] = False
                 self.__kep_calculated[inds] = True
 
+    @staticmethod
+    def _state_columns(value, inds):
+        '''A single state vector is the state of every selected orbit.'''
+        if np.ndim(value) == 1 and np.ndim(inds) == 0 \
+                and not isinstance(inds, slice):
+            return value
+        return np.reshape(value, (6, 1)) if np.ndim(value) == 1 else value
+
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
 
-- 
2.43.0


From d025b77b7cfbd86d1d633014a342e895957b6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 15/37] fix: copies and members keep their pending conversions

---
 pyorb/orbit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 0d3e6e7..e68bfd3 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -191,6 +191,11 @@ class Orbit:
 
         tmp_orb._cart = self._cart[:, inds].copy()
         tmp_orb._kep = self._kep[:, inds].copy()
+        # conversions that are pending stay pending
+        tmp_orb.__cart_calculated = np.array(
+            self.__cart_calculated[inds], ndmin=1)
+        tmp_orb.__kep_calculated = np.array(
+            self.__kep_calculated[inds], ndmin=1)
 
         if len(tmp_orb._cart.shape) == 1:
             tmp_orb._cart.shape = (6, 1)
-- 
2.43.0


From 2f819e4117539a5ceb05db9b3fde278397454352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 16/37] fix: independent iterators, nested loops visit every
 orbit

---
 pyorb/orbit.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e68bfd3..46a58b7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -207,15 +207,8 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        for ind in range(self.num):
+            yield self[ind]
 
     @property
     def type(self):
-- 
2.43.0


From 584fa64ed0727a7778f0c051bdea200f5352cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 17/37] fix: period and mean motion can be set

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 46a58b7..3b43086 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1102,11 +1102,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 033d8937c5b08e6deeb511f5af0dc161d838248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 18/37] fix: calc_eccentric_anomaly of selected orbits keeps
 the other orbits

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 3b43086..bb0be3e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -940,7 +940,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 4f065eb5ac64fac19f1edbceb27801ccb3aca0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 19/37] fix: propagation of hyperbolic and parabolic orbits

---
 pyorb/orbit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index bb0be3e..4ca7582 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -240,8 +240,10 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # only closed orbits are periodic
+        self.mean_anomaly = np.where(
+            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
@@ -879,7 +881,9 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        n = norm_/self.period
+        # for a parabola `a` is the periapsis distance (Barker's equation)
+        return np.where(self.e == 1, n/2.0**0.5, n)
 
     @mean_motion.setter
     def mean_motion(self, value):
-- 
2.43.0


From 40458e0601c21590a707bba8d74174499a26b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 20/37] fix: speed and periapsis of parabolic and hyperbolic
 orbits

---
 pyorb/orbit.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 4ca7582..f960bac 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1074,7 +1074,7 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        return np.where(self.e == 1, 1.0, np.abs(1.0 - self.e))*self.a
 
     @property
     def mean_longitude(self):
@@ -1141,13 +1141,20 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
-        return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
-                degrees=self.degrees,
-            ),
+        r = functions.elliptic_radius(
+            self.eccentric_anomaly,
             self.a,
-            self.G*(self.M0 + self.m),
+            self.e,
+            degrees=self.degrees,
         )
+        a = self.a
+        hyp, par = self.e > 1, self.e == 1
+        if np.any(hyp) or np.any(par):
+            nu = self.true_anomaly
+            r[hyp] = functions.hyperbolic_radius(
+                nu[hyp], a[hyp], self.e[hyp], degrees=self.degrees)
+            r[par] = functions.parabolic_radius(
+                nu[par], a[par], degrees=self.degrees)
+            a[hyp] *= -1
+            a[par] = np.inf
+        return functions.orbital_speed(r, a, self.G*(self.M0 + self.m))
-- 
2.43.0


From 3521f7e6987c0cc23c8f4d347fd4fb179ddb22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 21/37] fix: equinoctial elements can be set in every mode and
 unit

---
 pyorb/orbit.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f960bac..730ba1a 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1092,11 +1092,21 @@ class Orbit:
     @equinoctial.setter
     def equinoctial(self, vals):
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if self.type == 'true':
+            elems[5, ...] = functions.mean_to_true(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        elif self.type == 'eccentric':
+            elems[5, ...] = functions.mean_to_eccentric(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        self.kepler = elems
 
     @property
     def period(self):
-- 
2.43.0


From 995b05bbf609afb76310c4bb4375939e066c2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 22/37] fix: a rejected add leaves no empty orbits behind

---
 pyorb/orbit.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 730ba1a..023d732 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -320,11 +320,16 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
-
-        self.update(inds = inds, **kwargs)
+        try:
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
+
+            self.update(inds = inds, **kwargs)
+        except Exception:
+            # nothing is added if the elements are not accepted
+            self.delete(inds)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
-- 
2.43.0


From c497ace3f7e532efee8fedfdcc3cf6f4ad65b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 23/37] fix: printing an orbit shows its converted elements

---
 pyorb/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 023d732..76a7e3e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -136,6 +136,8 @@ class Orbit:
 
     def __str__(self):
         if self.num == 1:
+            self._kep_check()
+            self._cart_check()
             str_ = '\n'.join([
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
-- 
2.43.0


From 46491c92a8c03d3c8866678410e4dfddea6c28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 24/37] fix: explicit calculations and whole-state writes
 respect pending conversions

---
 pyorb/orbit.py | 49 +++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 76a7e3e..ba2c9d2 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -385,22 +385,20 @@ class Orbit:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
             self._cart[:, inds] = self._state_columns(kwargs['cartesian'], inds)
+            self.__cart_calculated[inds] = True
+            self.__kep_calculated[inds] = False
             if self.direct_update:
                 self.calculate_kepler(inds)
-            else:
-                self.__cart_calculated[inds] = True
-                self.__kep_calculated[inds] = False
             return
 
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = self._state_columns(kwargs['kepler'], inds)
+            self.__kep_calculated[inds] = True
+            self.__cart_calculated[inds] = False
             if self.direct_update:
                 self.calculate_cartesian(inds)
-            else:
-                self.__kep_calculated[inds] = True
-                self.__cart_calculated[inds] = False
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -420,10 +418,9 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
-        # pending conversions belong to the elements (and mass) before the update
-        if not self.direct_update or cart_updated or kep_updated:
-            self._cart_check()
-            self._kep_check()
+        # pending conversions belong to the elements and mass before the update
+        self._cart_check()
+        self._kep_check()
 
         if 'm' in kwargs:
             if self.direct_update:
@@ -469,14 +466,13 @@ class Orbit:
         '''
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
+        if self.auto_update or self.direct_update:
+            # where the Cartesian elements changed last they come first
+            pending = do_inds & self.__cart_calculated & ~self.__kep_calculated
+            if np.any(pending):
+                self.calculate_kepler(pending)
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._kep[:, inds]), axis=0))
-        if self.auto_update or self.direct_update:
-            # here the cartesian elements are the ones that changed last
-            do_inds[np.logical_and(
-                np.logical_not(self.__kep_calculated),
-                np.all(np.isfinite(self._cart), axis=0),
-            )] = False
 
         if np.sum(do_inds) == 0:
             return
@@ -505,14 +501,13 @@ class Orbit:
         '''
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
+        if self.auto_update or self.direct_update:
+            # where the Keplerian elements changed last they come first
+            pending = do_inds & self.__kep_calculated & ~self.__cart_calculated
+            if np.any(pending):
+                self.calculate_cartesian(pending)
         do_inds[inds] = np.logical_not(
             np.any(np.isnan(self._cart[:, inds]), axis=0))
-        if self.auto_update or self.direct_update:
-            # here the Keplerian elements are the ones that changed last
-            do_inds[np.logical_and(
-                np.logical_not(self.__cart_calculated),
-                np.all(np.isfinite(self._kep), axis=0),
-            )] = False
 
         if np.sum(do_inds) == 0:
             return
@@ -607,11 +602,10 @@ class Orbit:
         else:
             self._cart[:, :] = value
 
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def x(self):
@@ -752,11 +746,10 @@ class Orbit:
         else:
             self._kep[:, :] = value
 
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
-            self.__kep_calculated[:] = True
 
     @property
     def a(self):
-- 
2.43.0


From d6e5b2ee95770fe92292b09a3b10ebb60a99cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 25/37] fix: kepler_guess accepts empty arrays

---
 pyorb/kepler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 46481ee..93320d1 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1244,6 +1244,8 @@ def kepler_guess(M, e):
             raise TypeError('Input dimensions does not agree')
 
         E0 = np.empty(M.shape, dtype=_float_dtype(M.dtype))
+        if M.size == 0:
+            return E0
 
         out_it = E0.size
         Mit = np.nditer(M, order='C')
-- 
2.43.0


From eb57bfc9effa96e930283c5b66d340cdd61ee3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 26/37] fix: the Kepler solver makes no iteration beyond
 max_iter

---
 pyorb/kepler.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 93320d1..94dc3b9 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1122,7 +1122,7 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
 
     it_num = 0
 
-    while np.abs(f_eval) >= tol:
+    while np.abs(f_eval) >= tol and it_num < max_iter:
         it_num += 1
 
         fp_eval = _fp(E)
@@ -1143,9 +1143,6 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
 
         f_eval = _f(E)
 
-        if it_num >= max_iter:
-            break
-
     return E, it_num
 
 
-- 
2.43.0


From abf328877c700039445a160e6114619b360f1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 27/37] fix: instances of the constants class share their state

Setting __dict__ went through the overridden __setattr__, so that every
instance had its own, initially empty, set of constants.
---
 pyorb/const.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/const.py b/pyorb/const.py
index 2d89094..9da2c2d 100644
--- a/pyorb/const.py
+++ b/pyorb/const.py
@@ -20,7 +20,8 @@ class _const:
     _shared_state = {}
 
     def __init__(self):
-        self.__dict__ = self._shared_state
+        # not through the __setattr__ below, that would define a constant
+        object.__setattr__(self, '__dict__', self._shared_state)
 
     def __setattr__(self, name, value):
         if name in self.__dict__:
-- 
2.43.0


From 7225ac04a94ff358f785f36c86b3c81f786e9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 28/37] fix: angle_units accepts calls without the optional
 positional angles

A declared positional angle that was left out, or passed by keyword,
raised IndexError when degrees were used.
---
 pyorb/unit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/unit.py b/pyorb/unit.py
index 23f5833..beacd27 100644
--- a/pyorb/unit.py
+++ b/pyorb/unit.py
@@ -80,7 +80,8 @@ def angle_units(in_arg_inds, in_arg_keys, out_arg_inds, degrees=False):
             args = list(args)
             if in_arg_inds is not None:
                 for ind in in_arg_inds:
-                    args[ind] = np.radians(args[ind])
+                    if ind < len(args):
+                        args[ind] = np.radians(args[ind])
             if in_arg_keys is not None:
                 for key in in_arg_keys:
                     if key in kwargs:
-- 
2.43.0


From 1a60ba0a19ef9331d92867915aaeddfc544633cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 29/37] fix: kep_equivalent compares semi-major axes
 independently of the unit

The absolute tolerance made all orbits equivalent in size when their
semi-major axes are below 1e-8, e.g. orbits around the Earth in parsec.
---
 pyorb/kepler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 94dc3b9..c6b1169 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -567,13 +567,12 @@ def kep_equivalent(kep1, kep2):
 
     if len(kep1.shape) > 1 or len(kep2.shape) > 1:
         raise ValueError('Only vector inputs for now')
-    if np.allclose(kep1, kep2):
-        return True
 
     def same_angle(x, y):
         return np.isclose(np.mod(x - y + np.pi, _2pi), np.pi)
 
-    if not np.isclose(kep1[K_a], kep2[K_a]):
+    # lengths have a unit, only relative differences matter
+    if not np.isclose(kep1[K_a], kep2[K_a], atol=0):
         return False
     if not np.isclose(kep1[K_e], kep2[K_e]):
         return False
-- 
2.43.0


From 854863752a59b88669662fb9f386af9044c13144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 30/37] fix: update with a value that does not fit changed the
 elements and masses before it

---
 pyorb/orbit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index ba2c9d2..b2776e4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -418,6 +418,11 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # values that do not fit are rejected before anything is changed
+        for key in ['m'] + Orbit.CARTESIAN + Orbit.KEPLER:
+            if key in kwargs:
+                np.empty((self.num,), dtype=self.dtype)[inds] = kwargs[key]
+
         # pending conversions belong to the elements and mass before the update
         self._cart_check()
         self._kep_check()
-- 
2.43.0


From 4aed38e80b8d30140e38d6c6bd4a9128604c82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 31/37] fix: a conversion that fails discarded the change that
 was to be converted

---
 pyorb/orbit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index b2776e4..1ef1122 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -482,8 +482,9 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
-        self.__cart_calculated[do_inds] = True
+        # pending until it is done: the Kepler equation solver may fail
         self.__kep_calculated[do_inds] = True
+        self.__cart_calculated[do_inds] = False
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
         else:
@@ -496,6 +497,7 @@ class Orbit:
             mu=self.G*(self.M0 + self.m[do_inds]),
             degrees=self.degrees,
         )
+        self.__cart_calculated[do_inds] = True
 
     def calculate_kepler(self, inds=slice(None, None, None)):
         '''Calculates Keplerian elements based on Cartesian elements
-- 
2.43.0


From d772f85df2250b2bbefbeed592f195e0431cdf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:53 +0000
Subject: [PATCH 32/37] fix: angular momentum of large integer elements
 overflowed

---
 pyorb/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index c6b1169..48cc448 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -623,7 +623,7 @@ def orbit_total_angular_momentum(a, e, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*a*(1 - e**2))
+    return np.sqrt(1.0*mu*a*(1.0 - e**2))
 
 
 def parabolic_total_angular_momentum(q, mu):
@@ -642,7 +642,7 @@ def parabolic_total_angular_momentum(q, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*2*q)
+    return np.sqrt(2.0*mu*q)
 
 
 def true_to_eccentric(nu, e, degrees=False):
-- 
2.43.0


From 3a9a1356de43c9966d3a0202494668d4fc4a8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:53 +0000
Subject: [PATCH 33/37] fix: orbital_distance of a large integer angular
 momentum overflowed

---
 pyorb/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 48cc448..b2fc909 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -876,7 +876,7 @@ def orbital_distance(h, mu, e, nu, degrees=False):
     else:
         _nu = nu
 
-    return h**2/(mu*(1 + e*np.cos(_nu)))
+    return h**2.0/(mu*(1 + e*np.cos(_nu)))
 
 
 def elliptic_radius(E, a, e, degrees=False):
-- 
2.43.0


From 258e0d5facdeb63088d998b7a275dc612ecffd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:53 +0000
Subject: [PATCH 34/37] fix: unsigned eccentricity or mu was negated as an
 unsigned integer

---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b2fc909..3c00d4b 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -419,7 +419,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     e_par = np.abs(o[1, :] - 1) <= e_lim
     o[1, e_par] = 1
     e_hyp = o[1, :] >= 1
-    o[0, :] = -mu/(2.0*epsilon)
+    o[0, :] = mu/(-2.0*epsilon)
     o[0, e_hyp] = -o[0, e_hyp]
 
     # ## ANUGLAR MOMENTUM ###
@@ -1104,7 +1104,7 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
             return 1.0 - e*np.cosh(E)
 
         def _fpp(E):
-            return -e*np.sinh(E)
+            return -(e*np.sinh(E))
     else:
         def _f(E):
             return M - E + e*np.sin(E)
@@ -1113,7 +1113,7 @@ def laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
             return e*np.cos(E) - 1.0
 
         def _fpp(E):
-            return -e*np.sin(E)
+            return -(e*np.sin(E))
 
     E = E0
 
-- 
2.43.0


From c75c369087865fce0e7c9c61fba752020505a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:58 +0000
Subject: [PATCH 35/37] fix: a scalar anomaly had to fit the integer type of
 the eccentricities

---
 pyorb/kepler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 3c00d4b..74369ce 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -670,7 +670,7 @@ def true_to_eccentric(nu, e, degrees=False):
 
     if isinstance(_nu, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_nu, np.ndarray):
-            _nu = np.ones(e.shape, dtype=e.dtype)*_nu
+            _nu = np.ones(e.shape, dtype=_float_dtype(e.dtype))*_nu
         if not isinstance(e, np.ndarray):
             e = np.ones(_nu.shape, dtype=_nu.dtype)*e
         if _nu.shape != e.shape:
@@ -730,7 +730,7 @@ def eccentric_to_true(E, e, degrees=False):
 
     if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_E, np.ndarray):
-            _E = np.ones(e.shape, dtype=e.dtype)*_E
+            _E = np.ones(e.shape, dtype=_float_dtype(e.dtype))*_E
         if not isinstance(e, np.ndarray):
             e = np.ones(_E.shape, dtype=_E.dtype)*e
         if _E.shape != e.shape:
@@ -789,7 +789,7 @@ def eccentric_to_mean(E, e, degrees=False):
 
     if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_E, np.ndarray):
-            _E = np.ones(e.shape, dtype=e.dtype)*_E
+            _E = np.ones(e.shape, dtype=_float_dtype(e.dtype))*_E
         if not isinstance(e, np.ndarray):
             e = np.ones(_E.shape, dtype=_E.dtype)*e
         if _E.shape != e.shape:
@@ -1233,7 +1233,7 @@ def kepler_guess(M, e):
 
     if isinstance(M, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(M, np.ndarray):
-            M = np.ones(e.shape, dtype=e.dtype)*M
+            M = np.ones(e.shape, dtype=_float_dtype(e.dtype))*M
         if not isinstance(e, np.ndarray):
             e = np.ones(M.shape, dtype=M.dtype)*e
         if M.shape != e.shape:
@@ -1311,7 +1311,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
 
     if isinstance(_M, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_M, np.ndarray):
-            _M = np.ones(e.shape, dtype=e.dtype)*_M
+            _M = np.ones(e.shape, dtype=_float_dtype(e.dtype))*_M
         if not isinstance(e, np.ndarray):
             e = np.ones(_M.shape, dtype=_M.dtype)*e
         if _M.shape != e.shape:
-- 
2.43.0


From 8e6bf0ba7d3a436af2494bc284b8862e4348da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:03 +0000
Subject: [PATCH 36/37] fix: copies shared a mutable epoch

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 1ef1122..bea1c0d 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -183,7 +183,7 @@ class Orbit:
             degrees = self.degrees,
             solver_options = copy.deepcopy(self.solver_options),
             dtype = self.dtype,
-            epoch = self.epoch,
+            epoch = copy.deepcopy(self.epoch),
             type = self.type,
         )
         tmp_orb.auto_update = self.auto_update
-- 
2.43.0


From eef7b46833f38c6bfc8c31524762abe7c3df9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:29 +0000
Subject: [PATCH 37/37] fix: setting the mean motion of a parabola

For a parabola the mean motion getter returned the set value divided by sqrt(2).
---
 pyorb/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index bea1c0d..690fa22 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -900,6 +900,8 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
+        # for a parabola `a` is the periapsis distance (Barker's equation)
+        value = np.where(self.e == 1, np.multiply(value, 2.0**0.5), value)
         self.period = norm_/value
 
         if self.direct_update:
-- 
2.43.0

