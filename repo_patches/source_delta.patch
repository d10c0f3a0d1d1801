From 91e5970bac0bac190b9ff0bd7181231f99e3683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 01/78] fix: from_dms: angles smaller than one degree are not
 zero

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..fd10dc3 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1619,7 +1619,8 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    # sign of the angle (a zero degree keeps the sign of its minutes)
+    sign = np.copysign(1.0, degree)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 0d31e016b18c9c3cdfe3b33aa44fd619231cda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 02/78] fix: closed-form geodetic coordinates of polar points
 mixed with others

---
 pyTMD/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index fd10dc3..e1b1145 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1960,7 +1960,7 @@ def _zhu_closed_form(
         ind, = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
         ind, = np.nonzero(w != 0)
         l = e12/2.0
@@ -1973,11 +1973,11 @@ def _zhu_closed_form(
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
             np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From 83a73482014c53aa93026eacb9aaee28dcfc07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 03/78] fix: geodetic latitude and height of points on the
 rotation axis

---
 pyTMD/spatial.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e1b1145..c0fb565 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1831,7 +1831,7 @@ def _moritz_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for phi using h=0
-    phi = np.arctan(z/(p*(1.0 - ecc1**2)))
+    phi = np.arctan2(z, p*(1.0 - ecc1**2))
     # iterate to tolerance or to maximum number of iterations
     i = 0
     while np.any(np.abs(h - h0) > eps) and (i <= iterations):
@@ -1840,9 +1840,9 @@ def _moritz_iterative(
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value of height
-        h = p/np.cos(phi) - N
+        h = p*np.cos(phi) + z*np.sin(phi) - a_axis**2/N
         # estimate new value for latitude using heights
-        phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
+        phi = np.arctan2(z, p*(1.0 - ecc1**2*N/(N + h)))
         # add to iterator
         i += 1
     # return longitude, latitude and height
@@ -1892,10 +1892,10 @@ def _bowring_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for reduced parametric latitude
-    u = np.arctan(a_axis*z/(b_axis*p))
+    u = np.arctan2(a_axis*z, b_axis*p)
     # initial estimated value for latitude
-    phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+    phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+        p - e12*a_axis*np.cos(u)**3)
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1905,8 +1905,8 @@ def _bowring_iterative(
         # calculate reduced parametric latitude
         u = np.arctan(b_axis*np.tan(phi)/a_axis)
         # estimate new value of latitude
-        phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+        phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+            p - e12*a_axis*np.cos(u)**3)
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From 10421719691f03ad92a860fc6c96af5429aff672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 04/78] fix: spherical harmonics are not scaled by the sine of
 the colatitude

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From a3b0c72b4f70b07d653bfc90c8c3b0ab899c6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 05/78] fix: associated Legendre functions of degree 0

---
 pyTMD/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 19b610f..51fc90d 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -223,8 +223,9 @@ def assoc_legendre(lmax, x):
     Plm = np.zeros((lmax+1,lmax+1,nx))
     # initial polynomials for the recursion
     Plm[0,0,:] = 1.0
-    Plm[1,0,:] = np.sqrt(3.0)*x
-    Plm[1,1,:] = np.sqrt(3.0)*u
+    if (lmax > 0):
+        Plm[1,0,:] = np.sqrt(3.0)*x
+        Plm[1,1,:] = np.sqrt(3.0)*u
     for l in range(2, lmax+1):
         # normalization factor
         norm = np.sqrt(2.0*l+1.0)
-- 
2.43.0


From b911f8ff1bdc492418030b78eb056cf94bd0523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 06/78] fix: Somigliana constant uses the gravity at the
 equator

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..608762e 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From cefa8e1ff64cdb5f08a962831f34d6db342fb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 07/78] fix: semimajor axis and flattening of GRS80 and NAD83

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 608762e..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From d52ec08fc1b10fd73dd32252c27b8d6d77a4d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 08/78] fix: FES nodal corrections of minor constituent L2 use
 the perigee in radians

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..a2300c8 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -280,9 +280,9 @@ def minor_arguments(
         xi = np.arctan2(np.sin(xi), np.cos(xi))
         nu = at1 - at2
         I2 = np.tan(II/2.0)
-        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p - xi)) + 36.0*(I2**4))
-        P2 = np.sin(2.0*(p - xi))
-        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p - xi))
+        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p*dtr - xi)) + 36.0*(I2**4))
+        P2 = np.sin(2.0*(p*dtr - xi))
+        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p*dtr - xi))
         R = np.arctan(P2/Q2)
 
         # nodal factor corrections for minor constituents
-- 
2.43.0


From 344aa8d79bd28baa20348907dc4cdea54d97a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 09/78] fix: nodal phase of minor constituents 2Q1, sigma1 and
 rho1

---
 pyTMD/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index a2300c8..cfde565 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -256,7 +256,7 @@ def minor_arguments(
     # nodal angle corrections for minor constituents
     u = np.zeros((nt, 20))
     u[:,0] = np.arctan2(0.189*sinn - 0.0058*sin2n,
-        1.0 + 0.189*cosn - 0.0058*sin2n)# 2Q1
+        1.0 + 0.189*cosn - 0.0058*cos2n)# 2Q1
     u[:,1] = u[:,0]# sigma1
     u[:,2] = u[:,0]# rho1
     u[:,3] = np.arctan2( 0.185*sinn, 1.0 + 0.185*cosn)# M12
-- 
2.43.0


From 76a82c34de76fa365f584f95a866c9f4f7751831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 10/78] fix: nodal corrections of O2 are not those of KO2

---
 pyTMD/arguments.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index cfde565..cf0e3ce 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -802,6 +802,13 @@ def nodal(
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
+        elif c in ('o2',):
+            # compound tides calculated using recursion
+            parents = ['o1']
+            utmp, ftmp = nodal(n, p, parents, **kwargs)
+            f[:,i] = ftmp[:,0]**2
+            u[:,i] = 2.0*utmp[:,0]
+            continue
         elif c in ('o3',):
             # compound tides calculated using recursion
             parents = ['o1']
@@ -809,42 +816,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +879,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 425021db5dd8d9234f519ac22df7b1b4e62033cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 11/78] fix: Doodson coefficients of compound tides with N2

---
 pyTMD/data/doodson.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index aca114f..e5cc3da 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -229,7 +229,7 @@
     "2mm3": [3.0, 0.0, 0.0, -1.0, 0.0, 0.0, -1.0],
     "m3": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "m3'": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.0],
-    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0],
+    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0],
     "mp3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "so3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "lambda3": [3.0, 1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
@@ -267,7 +267,7 @@
     "4m2s4": [4.0, -4.0, 4.0, 0.0, 0.0, 0.0, 0.0],
     "2mnk4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "moq4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 2.0],
-    "2mns4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
+    "2mns4": [4.0, -3.0, 2.0, 1.0, 0.0, 0.0, 0.0],
     "2mnus4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
     "3mk4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "2om4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 2.0],
@@ -329,7 +329,7 @@
     "2ms5": [5.0, 1.0, -1.0, 0.0, 0.0, 0.0, 2.0],
     "2mk5": [5.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "nks5": [5.0, 2.0, -1.0, 1.0, 0.0, 0.0, 2.0],
-    "nsk5": [5.0, 2.0, -2.0, -1.0, 0.0, 0.0, 1.0],
+    "nsk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "msm5": [5.0, 2.0, -2.0, 0.0, 0.0, 0.0, 2.0],
     "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, -1.0],
     "3mq5": [5.0, 2.0, 0.0, -1.0, 0.0, 0.0, 1.0],
@@ -361,7 +361,7 @@
     "2mnls6": [6.0, -2.0, 2.0, 0.0, 0.0, 0.0, 2.0],
     "2nmks6": [6.0, -2.0, 2.0, 2.0, 0.0, 0.0, 0.0],
     "2msnk6": [6.0, -1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "2mn6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "2mn6": [6.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "2mnu6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "3mls6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "2mno6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
@@ -428,7 +428,7 @@
     "2mn8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "2(mn)8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "5ms8": [8.0, -2.0, 2.0, 0.0, 0.0, 0.0, 0.0],
-    "3mn8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "3mn8": [8.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "3mnu8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "4mls8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "ma8": [8.0, 0.0, -1.0, 0.0, 0.0, 0.0, 0.0],
-- 
2.43.0


From 45efcedccd2b4b680be0159036346abde8654af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 12/78] fix: extended Doodson numbers of coefficients beyond
 the UKHO digits

---
 pyTMD/arguments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index cf0e3ce..5a40a9e 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1608,6 +1608,11 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     # A - P = 1 to 15
     # R - Y = -8 to -1
     digits = 'RSTUVWXYZABCDEFGHIJKLMNOP'
+    # check for unsupported constituents
+    if np.any(coef < -8) or np.any(coef > 16):
+        if kwargs.get('raise_error', True):
+            raise ValueError('Unsupported constituent')
+        return None
     XDO = ''.join([digits[v+8] for v in coef])
     return np.str_(XDO)
 
-- 
2.43.0


From 12e98f8fb40ea4a778fe13636cb7645fe32b2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 13/78] fix: Doodson numbers ending in zeros

---
 pyTMD/arguments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 5a40a9e..c749c8e 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1631,9 +1631,12 @@ def _from_doodson_number(DO: str | float | np.ndarray, **kwargs):
         Doodson coefficients (Cartwright numbers) for constituent
     """
     # convert from Doodson number to Cartwright numbers
+    # pad with zeros to three digits on each side of the decimal point
+    left, _, right = str(DO).partition('.')
     # replace 10 with X and 11 with E (Doodson convention)
     coef = np.array([c.replace('X', '10').replace('E', '11')
-        for c in re.findall(r'\w', str(DO).zfill(7))], dtype=int)
+        for c in re.findall(r'\w', left.zfill(3) + right.ljust(3, '0'))],
+        dtype=int)
     # remove 5 from values following Doodson convention
     coef[1:] -= 5
     return coef
-- 
2.43.0


From 1b39da38ff6a9ffdf1a5ea4c09fa2280e4b0b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 14/78] fix: cubic coefficient of the mean obliquity of the
 ecliptic

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..950b05e 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -366,7 +366,7 @@ def mean_obliquity(MJD: np.ndarray):
     T = (MJD - _mjd_j2000)/_century
     # mean obliquity of the ecliptic (arcseconds)
     epsilon0 = np.array([84381.406, -46.836769, -1.831e-4,
-        2.00340e-4, -5.76e-07, -4.34e-08])
+        2.00340e-3, -5.76e-07, -4.34e-08])
     return atr*polynomial_sum(epsilon0, T)
 
 # PURPOSE: compute coordinates of the sun in an ECEF frame
-- 
2.43.0


From 5942ee3039420d9421c5dd039c634a337b9c8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 15/78] fix: equation of the equinoxes in fractions of a day

---
 pyTMD/astro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 950b05e..07d041c 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,8 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    # convert equation of the equinoxes from radians to fractions of a day
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From a7e429d2944f3e0e4dfe7bc79d3a35eec51702f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 16/78] fix: sign of the polar motion rotations

---
 pyTMD/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 07d041c..3dcef0a 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -884,9 +884,9 @@ def _polar_motion_matrix(T: float | np.ndarray):
     sprime = -4.7e-5*T
     px, py = timescale.eop.iers_polar_motion(MJD)
     # calculate the rotation matrices
-    M1 = rotate(py*atr,'x')
-    M2 = rotate(px*atr,'y')
-    M3 = rotate(-sprime*atr,'z')
+    M1 = rotate(-py*atr,'x')
+    M2 = rotate(-px*atr,'y')
+    M3 = rotate(sprime*atr,'z')
     # calculate the combined rotation matrix
     return np.einsum('ij...,jk...,kl...->il...', M1, M2, M3)
 
-- 
2.43.0


From 0fa0a6bdf6b2b49f3fb10a0a9c060f262de5fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 17/78] fix: order of the celestial to terrestrial rotations

---
 pyTMD/astro.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 3dcef0a..bc88df6 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -696,11 +696,13 @@ def itrs(T: float | np.ndarray):
     # M2: nutation
     # M3: frame bias
     # M4: polar motion
-    M = np.einsum('ijt...,jkt...,kl...,lmt...->imt...', M1, M2, M3, M4)
+    # (frame bias, then precession, then nutation)
+    M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
     # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
-    R = np.einsum('ijt...,jkt->ikt...', GAST, M)
+    # polar motion is relative to the rotated terrestrial frame
+    R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
     # return the combined rotation matrix
     return R
 
-- 
2.43.0


From ab37e2fcfe226595a908c2455a88f06c1de603c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 18/78] fix: sign of the term sin(l - l') of the lunar
 longitude

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index bc88df6..dc4c7fb 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -563,7 +563,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From df36a534c8aa864cb84f34ab0b54e23f036d36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 19/78] fix: inference of the first minor constituent alone

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..e276222 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -416,7 +416,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -564,7 +564,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -725,7 +725,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -878,7 +878,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From 0b5d75ff4b93cb20c91d7ca073898ef332db2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 20/78] fix: do not infer minor constituents that are upper
 case majors

---
 pyTMD/predict.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index e276222..72b68d5 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -412,8 +412,9 @@ def _infer_short_period(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
     if not minor_indices:
@@ -560,8 +561,9 @@ def _infer_semi_diurnal(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
     if not minor_indices:
@@ -721,8 +723,9 @@ def _infer_diurnal(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
     if not minor_indices:
@@ -874,8 +877,9 @@ def _infer_long_period(
     # possibly reduced list of minor constituents
     minor = kwargs['minor'] or minor_constituents
     # only add minor constituents that are not on the list of major values
+    major = [c.lower() for c in constituents]
     minor_indices = [i for i,m in enumerate(minor_constituents)
-        if (m not in constituents) and (m in minor)]
+        if (m not in major) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
     if not minor_indices:
-- 
2.43.0


From 1b231ffc5fd83cbf48a95d75c7a2b2dedda83064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 21/78] fix: minor tides without constituents to infer are
 arrays of zeros

---
 pyTMD/predict.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 72b68d5..f53b5dd 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -403,7 +403,7 @@ def _infer_short_period(
         raise Exception(msg)
     elif (nz < 6):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1',
@@ -419,7 +419,7 @@ def _infer_short_period(
     msg = 'No short-period tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # relationship between major and minor constituent amplitude and phase
     zmin = np.zeros((n, 20), dtype=np.complex64)
@@ -552,7 +552,7 @@ def _infer_semi_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['eps2', '2n2', 'mu2', 'nu2', 'gamma2',
@@ -568,7 +568,7 @@ def _infer_semi_diurnal(
     msg = 'No semi-diurnal tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -714,7 +714,7 @@ def _infer_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'tau1', 'beta1',
@@ -730,7 +730,7 @@ def _infer_diurnal(
     msg = 'No diurnal tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -869,7 +869,7 @@ def _infer_long_period(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['sa', 'ssa', 'sta', 'msm', 'msf',
@@ -884,7 +884,7 @@ def _infer_long_period(
     msg = 'No long-period tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
-- 
2.43.0


From fd078e97d953ccf4e561e8214ba427e3a4392dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 22/78] fix: keep the mask of major constituents in
 short-period inference

---
 pyTMD/predict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index f53b5dd..80c13b4 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -422,7 +422,7 @@ def _infer_short_period(
         return dh
 
     # relationship between major and minor constituent amplitude and phase
-    zmin = np.zeros((n, 20), dtype=np.complex64)
+    zmin = np.ma.zeros((n, 20), dtype=np.complex64)
     zmin[:,0] = 0.263*z[:,0] - 0.0252*z[:,1]# 2Q1
     zmin[:,1] = 0.297*z[:,0] - 0.0264*z[:,1]# sigma1
     zmin[:,2] = 0.164*z[:,0] + 0.0048*z[:,1]# rho1
-- 
2.43.0


From b3810e8a56826918d9af23e6eaad2112c2c9dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 23/78] fix: FES spline admittance of L2 belongs to L2

---
 pyTMD/predict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 80c13b4..e251783 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -452,7 +452,7 @@ def _infer_short_period(
         zmin[:,12] = mu2[0]*z[:,7] + mu2[1]*z[:,4] + mu2[2]*z[:,5]# mu2
         zmin[:,13] = nu2[0]*z[:,7] + nu2[1]*z[:,4] + nu2[2]*z[:,5]# nu2
         zmin[:,14] = lda2[0]*z[:,7] + lda2[1]*z[:,4] + lda2[2]*z[:,5]# lambda2
-        zmin[:,16] = l2[0]*z[:,7] + l2[1]*z[:,4] + l2[2]*z[:,5]# L2
+        zmin[:,15] = l2[0]*z[:,7] + l2[1]*z[:,4] + l2[2]*z[:,5]# L2
         zmin[:,17] = t2[0]*z[:,7] + t2[1]*z[:,4] + t2[2]*z[:,5]# t2
         zmin[:,18] = 0.53285*z[:,8] - 0.03304*z[:,4]# eps2
         zmin[:,19] = -0.0034925*z[:,5] + 0.0831707*z[:,7]# eta2
-- 
2.43.0


From 40b34053f04ee82ae91453a3576e9819c4e6f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 24/78] fix: bilinear interpolation at the maximum longitude of
 the grid

---
 pyTMD/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..d7ef395 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -85,6 +85,9 @@ def bilinear(
         # calculating the indices for the original grid
         ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
         iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
+        # points at the maximum longitude are within the last grid cells
+        if (lon[i] == ilon[-1]):
+            ix = np.array([len(ilon) - 2])
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
         IM.mask = np.ones((4), dtype=bool)
-- 
2.43.0


From 79ef97ab3253be46ee722ea3edcccc6236052ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 25/78] fix: mask points of bilinear interpolation without
 weighted valid corners

---
 pyTMD/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index d7ef395..00054b9 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -111,7 +111,7 @@ def bilinear(
         elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix+1])):
             data.data[i] = np.squeeze(idata.data[iy+1,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix+1])
-        elif np.any(np.isfinite(IM) & (~IM.mask)):
+        elif np.any(np.isfinite(IM) & (~IM.mask) & (WM > 0)):
             # find valid indices for data summation and weight matrix
             ii, = np.nonzero(np.isfinite(IM) & (~IM.mask))
             # calculate interpolated value for i
-- 
2.43.0


From b595e79826c06a23e102b3949712a80b7a94dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 26/78] fix: shift of grids whose first longitude is the base
 longitude

---
 pyTMD/io/ATLAS.py | 14 ++++++++------
 pyTMD/io/FES.py   | 14 ++++++++------
 pyTMD/io/GOT.py   | 14 ++++++++------
 pyTMD/io/IERS.py  | 14 ++++++++------
 pyTMD/io/OTIS.py  | 14 ++++++++------
 5 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..75a622f 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1352,22 +1352,24 @@ def _shift(
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values following the base longitude
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..83809c4 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -1021,22 +1021,24 @@ def _shift(
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values following the base longitude
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..c84871b 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -907,22 +907,24 @@ def _shift(
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values following the base longitude
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..962efc8 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -303,22 +303,24 @@ def _shift(
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values following the base longitude
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:-i0,:] = input_matrix[i0:, :]
-    temp[-i0:,:] = input_matrix[offset: i0+offset, :]
+    temp[:n0,:] = input_matrix[i0:, :]
+    temp[n0:,:] = input_matrix[offset: i0+offset, :]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..282c5ca 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2071,23 +2071,25 @@ def _shift(
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ix[-1]-ix[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ix - x0))
+    # number of values following the base longitude
+    n0 = len(ix) - i0
     # shift longitudinal values
     x = np.zeros(ix.shape, ix.dtype)
-    x[0:-i0] = ix[i0:]
-    x[-i0:] = ix[offset: i0+offset]
+    x[0:n0] = ix[i0:]
+    x[n0:] = ix[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        x[-i0:] += cyclic
+        x[n0:] += cyclic
     elif (direction == 'west'):
-        x[0:-i0] -= cyclic
+        x[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, x)
 
-- 
2.43.0


From 62f59a247c76f9b0390d99ed8c4f374476322da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 27/78] fix: masks of interpolated depths follow is_global

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 282c5ca..5bbfc22 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2153,7 +2153,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From ecf29360c1eae3e3473920229816d2d422875ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 28/78] fix: LPET, LPT, OPT and SET drivers accept the type in
 any case

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..208a3cc 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -878,15 +878,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -1031,7 +1031,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1051,7 +1051,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1068,7 +1068,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1253,7 +1253,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1275,7 +1275,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1294,7 +1294,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1455,7 +1455,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1474,7 +1474,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1487,7 +1487,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From 4e179faf49b218a78e907fcd9057496518e60dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 29/78] fix: solid earth tides of grids are for the given date,
 not a day later

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 208a3cc..c5e2a35 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1462,7 +1462,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From e4d7d643c313ad128135de78836346c643baf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 30/78] fix: tide_masks interpolates in model coordinates and
 keeps the shape of the points

---
 pyTMD/compute.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index c5e2a35..677ef5c 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -782,15 +782,15 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
+    # valid points of the model
+    valid = np.logical_not(mask).astype(mz.dtype)
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # reshape to original dimensions and return the valid mask
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From eb8da3e64c296fe3f158001bd9087e355b96c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 31/78] fix: tide_masks is not affected by the rounding of the
 interpolated mask

---
 pyTMD/compute.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 677ef5c..2442108 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -771,18 +771,20 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
 
     # interpolate masks
     if (METHOD == 'bilinear'):
-        # replace invalid values with nan
-        mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y)
-        mask = np.floor(mz1).astype(mz.dtype)
+        # points outside of the model domain are invalid
+        mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y, fill_value=1).data
     elif (METHOD == 'spline'):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
             kx=1, ky=1)
-        mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
+        mz1 = f1.ev(X, Y)
     else:
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
+        mz1 = r1.__call__(np.c_[Y, X])
+    # points are masked if all surrounding grid points are masked
+    # (rounding to remove the floating point errors of the interpolants)
+    mask = np.floor(np.around(mz1, decimals=6)).astype(mz.dtype)
 
     # valid points of the model
     valid = np.logical_not(mask).astype(mz.dtype)
-- 
2.43.0


From e6b40139e646fa5045fccf92e46f01feffc5a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 32/78] fix: tide_masks reads every model format and adjusts
 longitudes for OTIS models

---
 pyTMD/compute.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 2442108..f529229 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -726,14 +726,31 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
 
     # read tidal constants and interpolate to grid points
     if model.format in ('OTIS','ATLAS-compact','TMD3'):
-        # if reading a single OTIS solution
-        xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
-            pathlib.Path(model.grid_file).expanduser())
+        grid_file = pathlib.Path(model.grid_file).expanduser()
+        if (model.format == 'ATLAS-compact'):
+            # if reading a global solution with localized solutions
+            x0, y0, hz, m0, iob, dt, pmask, local = \
+                pyTMD.io.OTIS.read_atlas_grid(grid_file)
+            xi, yi, hz = pyTMD.io.OTIS.combine_atlas_model(x0, y0, hz,
+                pmask, local, variable='depth')
+            mz = pyTMD.io.OTIS.create_atlas_mask(x0, y0, m0, local,
+                variable='depth')
+        elif (model.format == 'TMD3'):
+            # if reading a single TMD3 netCDF4 solution
+            xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(grid_file)
+        else:
+            # if reading a single OTIS solution
+            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file)
         # invert model mask
-        mz = np.logical_not(mz)
+        mz = np.logical_not(np.ma.getdata(mz))
         # adjust dimensions of input coordinates to be iterable
         # run wrapper function to convert coordinate systems of input lat/lon
-        X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
+        crs = pyTMD.crs().get(model.projection)
+        X, Y = crs.transform(lon, lat, direction='FORWARD')
+        # adjust longitudinal convention to fit tide model
+        if crs.is_geographic:
+            X = np.where(X < np.min(xi), X + 360.0, X)
+            X = np.where(X > np.max(xi), X - 360.0, X)
     elif (model.format == 'ATLAS-netcdf'):
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
@@ -747,9 +764,13 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed)
+        model_file = pathlib.Path(model.model_file[0]).expanduser()
+        if (model.format == 'GOT-ascii'):
+            hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(model_file,
+                compressed=model.compressed)
+        else:
+            hc, xi, yi, c = pyTMD.io.GOT.read_netcdf_file(model_file,
+                compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
-- 
2.43.0


From 4991761875ad003606be96df284a0c417a5352d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 33/78] fix: ocean pole tide coefficients at any longitude
 convention

---
 pyTMD/io/IERS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 962efc8..f952792 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -110,6 +110,8 @@ def extract_coefficients(
     # read ocean pole tide map from Desai (2002)
     Umap = {}
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
+    # adjust longitudes to the convention of the (extended) map
+    lon = ilon[0] + np.mod(lon - ilon[0], 360.0)
     # interpolate ocean pole tide map from Desai (2002)
     Uint = {}
     if (kwargs['method'] == 'spline'):
-- 
2.43.0


From 3b7d48025079620295f5276c8a445f60d8b11d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 34/78] fix: constants of FES currents are extracted from the
 files of the type

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..e6213bd 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1037,7 +1037,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = self.constituents
-- 
2.43.0


From fdf006c02804b7046dd879b6afd616de3e221374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 35/78] fix: appending node tides does not change the
 constituents of FES models

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index e6213bd..0b359ff 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1040,7 +1040,7 @@ class model:
                 model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From c2d31af88bc4d429e650e3e5f7e5dcf7c1187838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 36/78] fix: model files found with patterns are in a known
 order

---
 pyTMD/io/model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 0b359ff..8c43829 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -712,24 +712,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
@@ -756,24 +756,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
                 #     raise FileNotFoundError(message) from exc
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
@@ -792,24 +792,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-- 
2.43.0


From a47f49ab2f769e9e5bd66252a69fd7a5b890b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 37/78] fix: model definitions can be read from open text files

---
 pyTMD/io/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 8c43829..e6afc1e 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -643,7 +643,7 @@ class model:
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
         if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+            fid = definition_file
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
@@ -652,8 +652,9 @@ class model:
             raise ValueError('ascii definition format no longer supported')
         else:
             self._parse_file(fid)
-        # close the definition file
-        fid.close()
+        # close the definition file if opened here
+        if fid is not definition_file:
+            fid.close()
         # return the model object
         return self
 
-- 
2.43.0


From 653d00e45c0ff506849498610b590e92d7d7ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 38/78] fix: constituents of one type are not interpolated for
 another type

---
 pyTMD/io/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index e6afc1e..ec65a08 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1124,6 +1124,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._constituents_type = kwargs['type']
         return c
 
     def interpolate_constants(self,
@@ -1155,8 +1156,9 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('type', self.type)
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents have been read for the type
+        if not hasattr(self, '_constituents') or \
+                (self._constituents_type != kwargs['type']):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From cc6a042831587382fbbdb5651f43f36c6d02fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 39/78] fix: OTIS model definitions with a pattern matching a
 single file

---
 pyTMD/io/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ec65a08..51f3a39 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -743,6 +743,13 @@ class model:
             else:
                 # fully defined single file case
                 temp.model_file = pathlib.Path(temp.model_file).expanduser()
+            # use paths for models with a single file
+            if isinstance(temp.model_file, dict):
+                for key, model_file in temp.model_file.items():
+                    if isinstance(model_file, list) and (len(model_file) == 1):
+                        temp.model_file[key], = model_file
+            elif isinstance(temp.model_file, list) and (len(temp.model_file) == 1):
+                temp.model_file, = temp.model_file
         elif temp.format in ('ATLAS-netcdf',):
             assert temp.grid_file
             # check if grid file is relative
-- 
2.43.0


From 5322b8aa000744d7d70a30c7b0ab2da82f2244d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 40/78] fix: model definitions in FES-ascii format

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 51f3a39..f381a18 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -853,7 +853,8 @@ class model:
             if (self.format == m[0]):
                 self.format = m[1]
         # assert that tide model is a known format
-        assert self.format in self.formats()
+        # (known without a model in the database: FES-ascii)
+        assert self.format in (*self.formats(), 'FES-ascii')
 
     def from_dict(self, d: dict):
         """
-- 
2.43.0


From 067595dd12a041cc6bbe1691f26ec4c861bd73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 41/78] fix: definitions of models with a single constituent
 file

---
 pyTMD/io/model.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f381a18..92628cd 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -734,12 +734,10 @@ class model:
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
             else:
                 # fully defined single file case
                 temp.model_file = pathlib.Path(temp.model_file).expanduser()
@@ -786,12 +784,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
         elif temp.format in ('FES-ascii','FES-netcdf','GOT-ascii','GOT-netcdf'):
             # extract model files
             if (temp.type == ['u','v']) and (temp.directory is not None):
@@ -821,12 +817,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expanduser(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expanduser(temp.model_file)
         # verify that projection attribute exists for projected models
         if temp.format in ('OTIS','ATLAS-compact','TMD3'):
             assert temp.projection
@@ -842,6 +836,22 @@ class model:
         # return the model parameters
         return temp
 
+    @staticmethod
+    def _expanduser(model_file: str | pathlib.Path | list):
+        """
+        Tilde-expands the path(s) to a single model file or
+        to a list of model files
+
+        Parameters
+        ----------
+        model_file: str, pathlib.Path or list
+            model file(s) to expand
+        """
+        if isinstance(model_file, (str, pathlib.Path)):
+            return pathlib.Path(model_file).expanduser()
+        else:
+            return [pathlib.Path(f).expanduser() for f in model_file]
+
     def validate_format(self):
         """Asserts that the model format is a known type"""
         # known remapped cases
-- 
2.43.0


From 0491edb2c9e7e94755b9889b2d068740395f3737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 42/78] fix: longitude convention of each point, whatever the
 other points are

---
 pyTMD/io/ATLAS.py | 23 ++++++-----------------
 pyTMD/io/FES.py   | 23 ++++++-----------------
 pyTMD/io/GOT.py   | 23 ++++++-----------------
 pyTMD/io/OTIS.py  | 22 ++++++++--------------
 4 files changed, 26 insertions(+), 65 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 75a622f..ceeeb18 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -245,21 +245,16 @@ def extract_constants(
     is_global = False
 
     # crop bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mlon, mlat = np.copy(lon), np.copy(lat)
         bathymetry, lon, lat = _crop(bathymetry, mlon, mlat,
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    # adjust longitudinal convention of each input point
+    # to fit tide model convention
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -565,14 +560,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 83809c4..91413e1 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,20 +262,15 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
+        # adjust longitudinal convention of each input point
+        # to fit tide model convention
+        ilon[ilon < np.min(lon)] += 360.0
+        ilon[ilon > np.max(lon)] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -498,14 +493,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index c84871b..43c3efb 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,20 +239,15 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
+        # adjust longitudinal convention of each input point
+        # to fit tide model convention
+        ilon[ilon < np.min(lon)] += 360.0
+        ilon[ilon > np.max(lon)] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
@@ -447,14 +442,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon[ilon < np.min(lon)] += 360.0
+    ilon[ilon > np.max(lon)] -= 360.0
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 5bbfc22..782e0c8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,21 +300,17 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
+    # adjust longitudinal convention of each input point
+    # to fit tide model convention
+    if is_geographic:
+        x[x < np.min(xi)] += 360.0
+        x[x > np.max(xi)] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -604,7 +600,6 @@ def read_constants(
     is_global = False
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(kwargs['bounds']):
         # crop tide model data
         mx, my = np.copy(xi), np.copy(yi)
@@ -802,10 +797,9 @@ def interpolate_constants(
     is_geographic = constituents.crs.is_geographic
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    if is_geographic:
+        x[x < np.min(xi)] += 360.0
+        x[x > np.max(xi)] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From f4d9178372aca05e8faf5f29e0dfde6efc09c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 43/78] fix: OTIS global grids are detected as read as well as
 extracted

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 782e0c8..eba5afa 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -609,7 +609,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From df0975026a1deb3090c2a379f711222220e63d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 44/78] fix: interpolated OTIS constituents keep the mask of
 their nodes

---
 pyTMD/io/OTIS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index eba5afa..8e652ca 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -484,7 +484,7 @@ def extract_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
@@ -859,7 +859,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 kx=1, ky=1)
             # replace zero values with fill_value
-            hci.mask = D.mask
+            hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
             # replace zero values with fill value
@@ -872,7 +872,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
-- 
2.43.0


From fe2f9801f79b816c663007b5e4fc7cb0ea742f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 45/78] fix: default tidal variable of OTIS
 interpolate_constants

---
 pyTMD/io/OTIS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 8e652ca..88c67d8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -787,6 +787,7 @@ def interpolate_constants(
     assert isinstance(constituents, pyTMD.io.constituents)
     # extract model coordinates
     xi = np.copy(constituents.x)
+    kwargs.setdefault('type', 'z')
     yi = np.copy(constituents.y)
 
     # adjust dimensions of input coordinates to be iterable
-- 
2.43.0


From 39a97c0a3bea1ae36bfca5f1bb789395c9edc017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 46/78] fix: velocities at extrapolated points use extrapolated
 depths

---
 pyTMD/io/ATLAS.py | 16 ++++++++++++++--
 pyTMD/io/OTIS.py  | 18 ++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ceeeb18..0ffbc70 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -291,7 +291,13 @@ def extract_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = D.copy()
+        # extrapolate depths to invalid points
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -592,7 +598,13 @@ def interpolate_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = D.copy()
+        # extrapolate depths to invalid points
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 88c67d8..9188f06 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -384,7 +384,14 @@ def extract_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = D.copy()
+        # extrapolate depths to invalid points
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -822,7 +829,14 @@ def interpolate_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = D.copy()
+        # extrapolate depths to invalid points
+        if kwargs['extrapolate'] and np.any(D.mask):
+            inv, = np.nonzero(D.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 3f48a770a9e489f46ab24557b198fa844ba5210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 47/78] fix: bilinear interpolation does not change the
 bathymetry of ATLAS constituents

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 0ffbc70..f4f9830 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -576,7 +576,7 @@ def interpolate_constants(
     npts = len(ilon)
     # create masked array of model bathymetry
     bathymetry = np.ma.array(constituents.bathymetry,
-        mask=constituents.mask, fill_value=0.0)
+        mask=constituents.mask, fill_value=0.0, copy=True)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
-- 
2.43.0


From edd40982ffc1daf0934f423987a2cd8d3a18453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 48/78] fix: points outside of GOT grids are masked

---
 pyTMD/io/GOT.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 43c3efb..a039c16 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -252,6 +252,9 @@ def extract_constants(
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -294,6 +297,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -444,6 +450,9 @@ def interpolate_constants(
     # to fit tide model convention
     ilon[ilon < np.min(lon)] += 360.0
     ilon[ilon > np.max(lon)] -= 360.0
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -513,6 +522,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
-- 
2.43.0


From 6a2ce95c8d66fa5b0ac6cb41c79c85a290ec6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 49/78] fix: zero nodes of OTIS constituents are not fill
 values

---
 pyTMD/io/OTIS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 9188f06..7dafe52 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -877,8 +877,8 @@ def interpolate_constants(
             hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
+            # replace invalid values with fill value
+            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
-- 
2.43.0


From 906349f810ae320fd6f52c6ac8c6d5e8fea7aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 50/78] fix: cropping OTIS grids at u and v nodes

---
 pyTMD/io/OTIS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 7dafe52..990528c 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2038,8 +2038,9 @@ def _crop(
     cols = slice(xind[0], xind[-1]+1)
     # crop matrix
     temp = input_matrix[rows, cols]
-    x = ix[cols]
-    y = iy[rows]
+    # copy axes: staggered nodes are shifted in place
+    x = np.copy(ix[cols])
+    y = np.copy(iy[rows])
     # return cropped data
     return (temp, x, y)
 
-- 
2.43.0


From c9e3254fee6f185606b1fa68d37e7df3836af2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 51/78] fix: constituent names of OTIS and ATLAS-compact files
 are of fixed width

---
 pyTMD/io/OTIS.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 990528c..b4d2d8c 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1173,7 +1173,9 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        # constituent IDs are fixed-width strings (without separators)
+        ids = fid.read(nc*4).decode("utf8")
+        constituents = [ids[4*i:4*(i+1)].strip() for i in range(nc)]
         fid.close()
     return (constituents, nc)
 
@@ -1293,7 +1295,9 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        # constituent IDs are fixed-width strings (without separators)
+        ids = fid.read(nc1*4).decode("utf8")
+        cons = [ids[4*i:4*(i+1)].strip() for i in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1458,7 +1462,9 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        # constituent IDs are fixed-width strings (without separators)
+        ids = fid.read(nc1*4).decode("utf8")
+        cons = [ids[4*i:4*(i+1)].strip() for i in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From af3e3f70a638f57ddfc7ea2b39d56eb387cf3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 52/78] fix: ATLAS netCDF constituent names with an encoding

---
 pyTMD/io/ATLAS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index f4f9830..ec48f7f 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -836,7 +836,8 @@ def read_netcdf_elevation(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as an array of characters)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -895,7 +896,8 @@ def read_netcdf_transport(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as an array of characters)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From fa6806280b03c1d01f2dcdfe563aa9334ee9d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 53/78] fix: output amplitudes of FES transports

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 91413e1..cd956e0 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -822,7 +822,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From b39656657bdf25fe7f0f92223f073af811b17e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 54/78] fix: compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index cd956e0..c384467 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -612,7 +612,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From faef09c2ae7067b9002229d556290f60d99841f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 55/78] fix: lines per latitude of FES and GOT ascii files

---
 pyTMD/io/FES.py | 17 +++++------------
 pyTMD/io/GOT.py | 19 ++++++-------------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index c384467..f43ee85 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -637,24 +637,17 @@ def read_ascii_file(
     amp.mask = np.zeros((nlat,nlon),dtype=bool)
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting line to fill amplitude and phase variables
+    # (each latitude starts on a new line with up to 30 values per line)
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
-            j1 = j*30
+        for j1 in range(0, nlon, 30):
+            j2 = min(j1 + 30, nlon)
             amplitude_data = file_contents[i1].split()
-            amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
-            ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index a039c16..7e10464 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -591,26 +591,19 @@ def read_ascii_file(
     amp.mask = np.zeros((nlat,nlon),dtype=bool)
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
+    # (each latitude starts on a new line with up to 11 values per line)
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    l2 = 14 + int(np.ceil(nlon/11))*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
-            j1 = j*11
+        for j1 in range(0, nlon, 11):
+            j2 = min(j1 + 11, nlon)
             amplitude_data = file_contents[l1].split()
-            amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j2] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[l2].split()
-            ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j2] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From 9fabcd145759b149a82bc52034adaba458c1ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 56/78] fix: limits and bathymetry of output OTIS files

---
 pyTMD/io/OTIS.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b4d2d8c..88725f6 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1797,8 +1797,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1809,18 +1809,15 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        np.array(iob, dtype='>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
-    for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+    np.array(hz, dtype='>f4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
-    for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+    np.array(mz, dtype='>i4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1860,8 +1857,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1916,8 +1913,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
-- 
2.43.0


From 5c383076b02ef612b4e79765214a06e9075590fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 57/78] fix: case insensitive search for whole file names

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c0fb565..fda4d97 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,7 +177,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            re.fullmatch(re.escape(filename.name), f.name, re.I)]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From 1bb04d4a3401d85b9e6eed0f8364da7ebe16a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 58/78] fix: fill values, binary file objects and dates of
 ascii files

---
 pyTMD/spatial.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index fda4d97..4e82e36 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -285,7 +285,11 @@ def from_ascii(filename: str, **kwargs):
             file_contents = f.read().decode('ISO-8859-1').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        # decode contents if read from a binary file object
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('ISO-8859-1')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
@@ -340,21 +344,24 @@ def from_ascii(filename: str, **kwargs):
     # for each line in the file
     for i, line in enumerate(file_contents[header:]):
         # extract columns of interest and assign to dict
-        # convert fortran exponentials if applicable
         if kwargs['delimiter']:
-            column = {c:l.replace('D', 'E') for c, l in
+            column = {c:l for c, l in
                 zip(columns, line.split(kwargs['delimiter']))}
         else:
-            column = {c:r.replace('D', 'E') for c, r in
+            column = {c:r for c, r in
                 zip(columns, rx.findall(line))}
         # copy variables from column dict to output dictionary
         for c in columns:
             if (c == 'time') and kwargs['parse_dates']:
                 dinput[c][i] = timescale.time.parse(column[c])
             else:
-                dinput[c][i] = np.float64(column[c])
+                # convert fortran exponentials if applicable
+                dinput[c][i] = np.float64(column[c].replace('D', 'E'))
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
+        # convert fill value from YAML string
+        fill_value = np.float64(dinput['attributes']['data']['_FillValue'])
+        dinput['attributes']['data']['_FillValue'] = fill_value
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
         dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
-- 
2.43.0


From a7f1e307fc63b34ab328bf30884554372238e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 59/78] fix: mask fill values that are zero or not a number

---
 pyTMD/spatial.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 4e82e36..04dfb3e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -185,6 +185,22 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     # return the matched filename
     return filename
 
+def _is_fill(data: np.ndarray, fill_value: float):
+    """
+    Finds the elements of an array that are equal to a fill value
+
+    Parameters
+    ----------
+    data: np.ndarray
+        input data
+    fill_value: float
+        fill value (possibly not a number)
+    """
+    # not a number values do not compare as equal
+    if (fill_value != fill_value):
+        return (data != data)
+    return (data == fill_value)
+
 def data_type(x: np.ndarray, y: np.ndarray, t: np.ndarray) -> str:
     """
     Determines input data type based on variable dimensions
@@ -364,7 +380,8 @@ def from_ascii(filename: str, **kwargs):
         dinput['attributes']['data']['_FillValue'] = fill_value
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = _is_fill(dinput['data'].data,
+            dinput['data'].fill_value)
     # return the spatial variables
     return dinput
 
@@ -472,7 +489,8 @@ def from_netCDF4(filename: str, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = _is_fill(dinput['data'].data,
+            dinput['data'].fill_value)
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -583,7 +601,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = _is_fill(dinput['data'].data,
+            dinput['data'].fill_value)
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -677,11 +696,12 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
         dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
         # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask[:] = _is_fill(dinput['data'].data,
+            dinput['data'].fill_value)
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
-- 
2.43.0


From e171b76c709d17d7c5439394546081ccc4c45eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 60/78] fix: compressed HDF5 files with names as strings

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 04dfb3e..0485812 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -534,7 +534,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From 55a328ea89a7a80eb81e2584b42029c4f5963d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 61/78] fix: appending to netCDF4 and HDF5 files, and keep fill
 values of attributes

---
 pyTMD/spatial.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 0485812..56a356b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -973,7 +973,8 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    if 'time' not in fileID.dimensions:
+        fileID.createDimension('time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -982,7 +983,6 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -991,7 +991,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill value is set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1013,9 +1015,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    for dim, size in zip(['y', 'x', 'time'], [ny, nx, nt]):
+        if dim not in fileID.dimensions:
+            fileID.createDimension(dim, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1024,7 +1026,6 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 3):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
@@ -1041,7 +1042,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill value is set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1063,8 +1066,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    for dim, size in zip(['station', 'time'], [nstation, nt]):
+        if dim not in fileID.dimensions:
+            fileID.createDimension(dim, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1073,7 +1077,6 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
         elif val.shape and (len(val) == nt):
@@ -1086,7 +1089,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill value is set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def to_HDF5(
         output: dict,
@@ -1117,17 +1122,17 @@ def to_HDF5(
     h5 = {}
     for key, val in output.items():
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = val
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From cde2705d6337aa0162a5173176cb688edd6df0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 62/78] fix: dimensions of coordinates for square grids

---
 pyTMD/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 56a356b..5f7177d 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1030,9 +1030,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
-        elif val.shape and (len(val) == ny):
+        elif val.shape and (len(val) == ny) and (key not in dimensions[:5]):
             nc[key] = fileID.createVariable(key, val.dtype, ('y',))
-        elif val.shape and (len(val) == nx):
+        elif val.shape and (len(val) == nx) and (key not in dimensions[:2]):
             nc[key] = fileID.createVariable(key, val.dtype, ('x',))
         elif val.shape and (len(val) == nt):
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
@@ -1079,7 +1079,7 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
                 fill_value=attributes[key]['_FillValue'], zlib=True)
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
-        elif val.shape and (len(val) == nt):
+        elif val.shape and (len(val) == nt) and (key not in dimensions[2:]):
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         elif val.shape and (len(val) == nstation):
             nc[key] = fileID.createVariable(key, val.dtype, ('station',))
-- 
2.43.0


From 9018c80bbb690a501258ef1529c79db111c2ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 63/78] fix: create cloud optimized geotiffs as copies

---
 pyTMD/spatial.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 5f7177d..63bf089 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1189,15 +1189,20 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    # cloud optimized geotiffs can only be created as copies
+    if driver.GetMetadataItem(osgeo.gdal.DCAP_CREATE):
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
+    else:
+        ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
+            kwargs['dtype'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1217,6 +1222,9 @@ def to_geotiff(
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
         # write band to geotiff array
         ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
+    # copy dataset to file if not created directly
+    if not driver.GetMetadataItem(osgeo.gdal.DCAP_CREATE):
+        ds = driver.CreateCopy(str(filename), ds, options=kwargs['options'])
     # print filename if verbose
     logging.info(str(filename))
     # close dataset
-- 
2.43.0


From 8fabe4217c25cf37fb108360a9a4343406eefd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 64/78] fix: parquet files without projections

---
 pyTMD/spatial.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 63bf089..b1bb987 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -752,22 +752,17 @@ def from_parquet(filename: str, **kwargs):
     attr['geoparquet'] = False
     primary_column = kwargs['primary_column']
     encoding = kwargs['geometry_encoding']
+    crs_metadata = None
     if 'geo' in attr.keys():
         # extract crs and encoding from geoparquet metadata
         primary_column = attr['geo']['primary_column']
-        crs_metadata = attr['geo']['columns'][primary_column]['crs']
+        crs_metadata = attr['geo']['columns'][primary_column].get('crs')
         encoding = attr['geo']['columns'][primary_column]['encoding']
         attr['geometry_encoding'] = encoding
-        # create spatial reference object from PROJJSON
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.SetFromUserInput(json.dumps(crs_metadata))
-        # add projection information to attributes
-        attr['projection'] = srs.ExportToProj4()
-        attr['wkt'] = srs.ExportToWkt()
     elif 'pyTMD' in attr.keys():
-        # extract crs from pyTMD metadata
-        crs_metadata = attr['pyTMD']['crs']
+        # extract crs from pyTMD metadata (if defined)
+        crs_metadata = attr['pyTMD'].get('crs')
+    if crs_metadata is not None:
         # create spatial reference object from PROJJSON
         osgeo.osr.UseExceptions()
         srs = osgeo.osr.SpatialReference()
@@ -1268,6 +1263,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # copy attributes to not modify the original dictionary
+    attributes = copy.copy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
@@ -1285,7 +1282,7 @@ def to_parquet(
         srs = osgeo.osr.SpatialReference()
         srs.SetFromUserInput(json.dumps(kwargs['crs']))
         # add projection information to attributes
-        attributes['crs'] = copy.copy(kwargs['crs'])
+        attributes['crs'] = json.loads(srs.ExportToPROJJSON())
     # convert spatial coordinates to WKB encoded geometry
     if kwargs['geoparquet'] and (kwargs['geometry_encoding'] == 'WKB'):
         # get geometry columns
@@ -1306,7 +1303,7 @@ def to_parquet(
         attrs[b"geo"]["primary_column"] = primary_column
         attrs[b"geo"]["columns"] = {primary_column: {
                 "encoding": 'WKB',
-                "crs": json.loads(srs.ExportToPROJJSON()),
+                "crs": attributes.get('crs'),
                 "bbox": bbox,
                 "covering": {
                     "bbox": collections.OrderedDict(
-- 
2.43.0


From 65ee68825bf696bbf70bfced6be42831c1a005ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 65/78] fix: unknown projections raise CRSError (pyTMD.crs and
 programs), not TypeError

---
 pyTMD/crs.py                         | 4 ++--
 scripts/compute_LPET_elevations.py   | 2 +-
 scripts/compute_LPT_displacements.py | 2 +-
 scripts/compute_OPT_displacements.py | 2 +-
 scripts/compute_SET_displacements.py | 2 +-
 scripts/compute_tidal_currents.py    | 2 +-
 scripts/compute_tidal_elevations.py  | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index aba0ce1..d35293f 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -141,7 +141,7 @@ class crs:
         else:
             return self
         # projection not found or available
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJ}')
 
     def transform(self,
             i1: np.ndarray,
@@ -212,7 +212,7 @@ class crs:
         else:
             return CRS
         # no projection can be made
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
     @property
     def direction(self):
diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..0122284 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -140,7 +140,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # PURPOSE: read csv, netCDF or HDF5 data
 # compute long-period equilibrium tides at points and times
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..e5df364 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -162,7 +162,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # PURPOSE: compute the load pole tide radial displacements following
 # IERS conventions (2010)
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..2f6cd1d 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -181,7 +181,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # PURPOSE: compute the ocean pole load tide radial displacements following
 # IERS conventions (2010) and using data from Desai (2002)
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..1f9a225 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -159,7 +159,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # PURPOSE: compute the solid earth tide radial displacements following
 # IERS conventions (2010)
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..7497228 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -214,7 +214,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # PURPOSE: read csv, netCDF or HDF5 data
 # compute tides at points and times using tidal model driver algorithms
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..d3606f1 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -221,7 +221,7 @@ def get_projection(attributes, PROJECTION):
     else:
         return crs
     # no projection can be made
-    raise pyproj.exceptions.CRSError
+    raise pyproj.exceptions.CRSError(f'Invalid projection: {PROJECTION}')
 
 # compute tides at points and times using tidal model driver algorithms
 def compute_tidal_elevations(tide_dir, input_file, output_file,
-- 
2.43.0


From 67cd8cbab3b7831cdbf54b95e51e6244bee819ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 66/78] fix: grids of solid earth tides in
 compute_SET_displacements (coordinates and dates)

---
 scripts/compute_SET_displacements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 1f9a225..b5fc2b2 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -245,7 +245,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
@@ -276,7 +276,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From db96d99c5c7f3267b43d63f5d9bbb07e7a3b644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 67/78] fix: regional elevations and transports are written by
 reduce_OTIS_files

---
 scripts/reduce_OTIS_files.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..e6d0d67 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -147,6 +147,8 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
+        # tide model elevation file
+        model_file['z'] = pathlib.Path(model.model_file)
         # read each constituent
         constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
         z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
@@ -176,6 +178,8 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
+        # tide model transport file
+        model_file['u'] = pathlib.Path(model.model_file['u'])
         # read each constituent
         constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
         u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
@@ -195,7 +199,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
             u1[:,:,i] = u[indy,indx].reshape(ny,nx)
             v1[:,:,i] = v[indy,indx].reshape(ny,nx)
         # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
+        new_model_file['u'] = create_unique_filename(model_file['u'])
         pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-- 
2.43.0


From 3af01e867ddaeb402d35109c113ef8e503ca9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 68/78] fix: functions of pyTMD.time call timescale.time
 (hidden by the timescale class)

---
 pyTMD/time.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..ee3fbbf 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -54,6 +54,8 @@ import logging
 import warnings
 import numpy as np
 import timescale.time
+# time functions (the timescale class is defined below)
+from timescale import time as _time
 
 __all__ = [
     "parse",
@@ -109,7 +111,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +135,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +149,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +168,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +192,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +213,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +233,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +267,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +299,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,7 +337,7 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
 _delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
-- 
2.43.0


From 96450ce2e982c055487c9e8e00bd9ecdaa808f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 69/78] fix: iers_daily_EOP takes its input file by position

---
 pyTMD/eop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/eop.py b/pyTMD/eop.py
index c07221c..b941120 100644
--- a/pyTMD/eop.py
+++ b/pyTMD/eop.py
@@ -189,7 +189,7 @@ def iers_mean_pole(*args, **kwargs):
     return timescale.eop.iers_mean_pole(*args, **kwargs)
 
 # PURPOSE: read daily earth orientation parameters (EOP) file from IERS
-def iers_daily_EOP(**kwargs):
+def iers_daily_EOP(*args, **kwargs):
     """
     Read daily earth orientation parameters (EOP) file from IERS
     :cite:p:`Petit:2010tp`
@@ -210,7 +210,7 @@ def iers_daily_EOP(**kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.iers_daily_EOP",
         DeprecationWarning)
-    return timescale.eop.iers_daily_EOP(**kwargs)
+    return timescale.eop.iers_daily_EOP(*args, **kwargs)
 
 def iers_polar_motion(*args, **kwargs):
     """
-- 
2.43.0


From 47e055d22961b60f0922d3759804da2e2f175075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 70/78] fix: attempt_login asks again after wrong credentials

---
 pyTMD/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..bacfeb4 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1020,6 +1020,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From a8059d7260c7e0c45c5368004230b3cc2eddf9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 71/78] fix: get_unix_time uses the UTC offset of the time

---
 pyTMD/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index bacfeb4..80da7bb 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -402,13 +402,17 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # remove the UTC offset (if any)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
     except (TypeError, ValueError):
         return None
     else:
+        # times without an UTC offset are in UTC
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=dateutil.tz.UTC)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 9b426e77caf9bcc398f9329578e0f09c5595133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 72/78] fix: aviso_fes_tides fetches the currents of FES2014

---
 scripts/aviso_fes_tides.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..927a27c 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -199,15 +199,15 @@ def aviso_fes_tar(MODEL, f, logger,
     if LOAD:
         FES['FES2014'].append(['fes2014_elevations_and_load',
             'fes2014a_loadtide','load_tide.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
     if CURRENTS:
         subdir = 'fes2014a_currents'
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 0abd734efde224fcb50c25a67a0ed2e89318fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 73/78] fix: gsfc_got_tides matches only the names of hidden
 files

---
 scripts/gsfc_got_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..6d31a98 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -101,9 +101,9 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif (sfx == '.d') and (FORMAT == 'netcdf'):
             continue
-        elif re.match(r'^.DS', posixpath.basename(m.name)):
+        elif re.match(r'^\.DS', posixpath.basename(m.name)):
             continue
-        elif re.match(r'^._', posixpath.basename(m.name)):
+        elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
-- 
2.43.0


From 29f357dd5ef13065f9b2da0ab52383f60297ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 74/78] fix: aviso_fes_tides makes the directory of the log

---
 scripts/aviso_fes_tides.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 927a27c..19c13cc 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -103,6 +103,9 @@ def aviso_fes_tides(MODEL: str,
     if LOG:
         # format: AVISO_FES_tides_2002-04-01.log
         today = time.strftime('%Y-%m-%d',time.localtime())
+        # recursively create directory if non-existent
+        DIRECTORY = pathlib.Path(DIRECTORY).expanduser().absolute()
+        DIRECTORY.mkdir(MODE, parents=True, exist_ok=True)
         LOGFILE = DIRECTORY.joinpath(f'AVISO_FES_tides_{today}.log')
         fid = LOGFILE.open(mode='w', encoding='utf8')
         logger = pyTMD.utilities.build_logger(__name__,stream=fid,
-- 
2.43.0


From ff96f15489951761f3fd8fa6b59b8aea952f1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 75/78] fix: gsfc_got_tides and aviso_fes_tides compress only
 the files named .gz

---
 scripts/aviso_fes_tides.py | 21 ++++++++++++++-------
 scripts/gsfc_got_tides.py  |  7 ++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 19c13cc..d23a4fb 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -202,8 +202,8 @@ def aviso_fes_tar(MODEL, f, logger,
     if LOAD:
         FES['FES2014'].append(['fes2014_elevations_and_load',
             'fes2014a_loadtide','load_tide.tar.xz'])
-        TAR['FES2014'].extend([None,'r','r'])
-        FLATTEN['FES2014'].extend([None,False,False])
+        TAR['FES2014'].extend(['r'])
+        FLATTEN['FES2014'].extend([False])
     if CURRENTS:
         subdir = 'fes2014a_currents'
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
@@ -292,8 +292,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
 
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
@@ -310,8 +308,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         for m in member_files:
             member = posixpath.basename(m.name) if FLATTEN else m.name
             base, sfx = posixpath.splitext(m.name)
+            # if compressing the output file
+            compress = sfx in ('.asc','.nc') and GZIP
+            opener = gzip.open if compress else open
             # extract file contents to new file
-            output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            output = f'{member}.gz' if compress else member
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -336,8 +337,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # output file name for compressed and uncompressed cases
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
+        # if compressing the output file
+        compress = sfx in ('.asc','.nc') and GZIP
+        opener = gzip.open if compress else open
         # extract file contents to new file
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        output = f'{stem}.gz' if compress else stem
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -363,8 +367,11 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
         base, sfx = posixpath.splitext(stem)
+        # if compressing the output file
+        compress = sfx in ('.asc','.nc') and GZIP
+        opener = gzip.open if compress else open
         # output file name for compressed and uncompressed cases
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        output = f'{stem}.gz' if compress else stem
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 6d31a98..c12cf43 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -105,8 +103,11 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
+        # if compressing the output file
+        compress = sfx in ('.d','.nc') and GZIP
+        opener = gzip.open if compress else open
         # output file name
-        output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        output = f'{m.name}.gz' if compress else m.name
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
-- 
2.43.0


From 7f7ea1fcc6fceb1aafd22b50368f951f8ac99995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 76/78] fix: tide_masks reads FES-ascii models

---
 pyTMD/compute.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index f529229..a589c1a 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -777,12 +777,16 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed, type=model.type,
-            version=model.version)
+    elif model.format in ('FES-ascii', 'FES-netcdf'):
+        # if reading a FES solution
+        model_file = pathlib.Path(model.model_file[0]).expanduser()
+        if (model.format == 'FES-ascii'):
+            hc, xi, yi = pyTMD.io.FES.read_ascii_file(model_file,
+                compressed=model.compressed)
+        else:
+            hc, xi, yi = pyTMD.io.FES.read_netcdf_file(model_file,
+                compressed=model.compressed, type=model.type,
+                version=model.version)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
-- 
2.43.0


From 5e79d7c12254a93b04b419f65f461a205b956adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 77/78] fix: tide_masks continues global grids around the globe

---
 pyTMD/compute.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index a589c1a..6d7af17 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -794,6 +794,14 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
 
+    # extend grids that are global (in longitude) by a column on each side
+    dx = xi[1] - xi[0]
+    is_geographic = (model.format not in ('OTIS','ATLAS-compact','TMD3')) or \
+        crs.is_geographic
+    if is_geographic and np.isclose(xi[-1] - xi[0], 360.0 - dx):
+        xi = pyTMD.io.OTIS._extend_array(xi, dx)
+        mz = pyTMD.io.OTIS._extend_matrix(mz)
+
     # interpolate masks
     if (METHOD == 'bilinear'):
         # points outside of the model domain are invalid
-- 
2.43.0


From f5a738b23359a9793e6eecec049c24791ba0ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:27 +0000
Subject: [PATCH 78/78] fix: tidal constants at coordinates given as integers

---
 pyTMD/io/ATLAS.py | 8 ++++----
 pyTMD/io/FES.py   | 8 ++++----
 pyTMD/io/GOT.py   | 8 ++++----
 pyTMD/io/OTIS.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ec48f7f..09c189c 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -231,8 +231,8 @@ def extract_constants(
         compressed=kwargs['compressed'])
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
@@ -562,8 +562,8 @@ def interpolate_constants(
     lat = np.copy(constituents.latitude)
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
     ilon[ilon < np.min(lon)] += 360.0
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index f43ee85..12cbe48 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -228,8 +228,8 @@ def extract_constants(
         model_files = [model_files]
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
@@ -489,8 +489,8 @@ def interpolate_constants(
     lat = np.copy(constituents.latitude)
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
     ilon[ilon < np.min(lon)] += 360.0
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7e10464..2f44ac1 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -201,8 +201,8 @@ def extract_constants(
         model_files = [model_files]
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
@@ -444,8 +444,8 @@ def interpolate_constants(
     lat = np.copy(constituents.latitude)
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
     ilon[ilon < np.min(lon)] += 360.0
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 88725f6..4582abd 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -283,8 +283,8 @@ def extract_constants(
     mz = np.logical_not(mz).astype(mz.dtype)
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # run wrapper function to convert coordinate systems of input lat/lon
     crs = pyTMD.crs().get(projection)
     x,y = crs.transform(ilon, ilat, direction='FORWARD')
@@ -798,8 +798,8 @@ def interpolate_constants(
     yi = np.copy(constituents.y)
 
     # adjust dimensions of input coordinates to be iterable
-    ilon = np.atleast_1d(np.copy(ilon))
-    ilat = np.atleast_1d(np.copy(ilat))
+    ilon = np.atleast_1d(np.copy(ilon)).astype(np.float64)
+    ilat = np.atleast_1d(np.copy(ilat)).astype(np.float64)
     # convert coordinate systems of input lat/lon
     x,y = constituents.crs.transform(ilon, ilat)
     is_geographic = constituents.crs.is_geographic
-- 
2.43.0

