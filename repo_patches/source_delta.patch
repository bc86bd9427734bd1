From 44d952b9e41232858ab471630080bd061c1fcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 01/47] fix: use len() instead of np.alen, which numpy removed,
 in BravaisLattice

BravaisLattice(...) raised AttributeError for every valid input.
---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From b1905e3a0b38d44211764160d88f32f788954136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 02/47] fix: Lattice.__eq__ must be false for a proper
 sub/superlattice and for large non-integer entries

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..ef525cc 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -181,7 +181,7 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        return bool(np.allclose(A, A_int, rtol=0, atol=1E-8) and abs(abs(la.det(A_int)) - 1) < 1E-6)
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 43c8d28fed017533c0d0e81efaa68a57c6ce5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 03/47] fix: getlatticegroup() returned the special lattice
 group

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index ef525cc..2a3f5ba 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -167,7 +167,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From 535f8a554188be96b7f05ecffe6ceee60d3a412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 04/47] fix: 2D point group ignored hexagonal candidates when
 no square mirror is a symmetry

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 2a3f5ba..0857274 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -123,7 +123,7 @@ class Lattice():
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
             self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__pointGroup.order() == 4:
+            if self.__pointGroup.order() <= 4:
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__pointGroup.order():
                     self.__pointGroup = hexGroup
-- 
2.43.0


From b001b6e83ec5cc4c8f3a40beba2ab72c658c6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 05/47] fix: deprecated toPrimitive/toConventional did not
 forward to the Miller conversions

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..18db907 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -347,8 +347,8 @@ class BravaisLattice(Lattice):
         return res[0] if len(idx) == 1 else res
 
     def toPrimitive(self, idx):
-        warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        warn("toPrimitive() is deprecated, please use to_primitive_Miller() instead.", DeprecationWarning)
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -375,4 +375,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
\ No newline at end of file
-- 
2.43.0


From 2d3616a19467af8f1ff407e66ef06cc331f51719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 06/47] fix: setLaue(5) used a degenerate rhombohedral cell;
 Microstructure.setLaue called a missing method

---
 structrans/marttrans/Compatibility.py | 8 ++++----
 structrans/marttrans/martensite.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..4222d52 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -104,17 +104,17 @@ class Microstructure():
         elif len(args) == 4:
             self._U = np.array([[args[0], args[1], 0],[args[1], args[2], 0],[0, 0, args[3]]])
         else:
-            raise MartensiteError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
+            raise CompatibilityError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
                                     
             
     def getLaue(self):
         return self._Laue
     def setLaue(self, arg):
-        latParam = [2,2,2,[2,3],[2,120],[1.41, 2], [1.41, 2],[1.41, 1.42, 2], [1.41, 1.42, 2],[1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89, 88, 92]]
+        latParam = [2,2,2,[2,3],[2,80],[1.41, 2], [1.41, 2],[1.41, 1.42, 2], [1.41, 1.42, 2],[1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89, 88, 92]]
         
         if isinstance(arg, int) and 0 < arg <= 14:            
             Lat_init = BravaisLattice(arg, latParam[arg-1])
-            self._Laue = Lat_init.getLaueGroup()
+            self._Laue = Lat_init.getLauegroup()
         else:
-            raise MartensiteError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
+            raise CompatibilityError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
     
diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..ed79e89 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -76,7 +76,7 @@ class Martensite():
         """
         latParam = [2, 2, 2,
                     [2, 3],
-                    [2, 120],
+                    [2, 80],
                     [1.41, 2], [1.41, 2],
                     [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],
                     [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89],
-- 
2.43.0


From 05fdabdcf02a32240da963165340fde960b2cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 07/47] fix: Gauss_reduction used stale Gram-Schmidt
 coefficients, so LLL output was not size-reduced

---
 structrans/crystallography/lattice_reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..aea95c0 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -19,10 +19,10 @@ def Gram_Schmidt(E):
 
 def Gauss_reduction(E):
     d = len(E)
-    Eo, M = Gram_Schmidt(E)
     B = E.copy()
     for i in xrange(d):
-        for j in xrange(i):
+        for j in reversed(xrange(i)):
+            Eo, M = Gram_Schmidt(B)
             m = np.round(M[i, j])
             B[:, i] -= m * B[:, j]
     return B
-- 
2.43.0


From 45cbc7730b213fa0c467dbd96c7d910435d12ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 08/47] fix: LLL returned a (base, False) tuple when it needed
 exactly 100 iterations

---
 structrans/crystallography/lattice_reduction.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index aea95c0..57e9a53 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -64,9 +64,6 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
-        return B, False
-
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
         B[:, 0] = -B[:, 0]
 
-- 
2.43.0


From 1cc1ec46de420b523681f9dd5e74671a27b269d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 09/47] fix: LLL failed on integer bases

---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 57e9a53..267779d 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -54,7 +54,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From a805f74cd0c4e0f3199f83ce59b2c3827ac40c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 10/47] fix: rotation about -x returned NaN

---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..0219dde 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -72,7 +72,7 @@ def rotation(angle, axis, unit="deg"):
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
     t = radians(angle) if unit is "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From 80c3549faa315eb2b0f2138a265dd40fed1b1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:30 +0000
Subject: [PATCH 11/47] fix: compare the angle unit by value, not identity

---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 0219dde..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From e577d00f92d74c2d4c7fe564a0989a6ca0f501fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 12/47] fix: pos_def_sym accepted indefinite matrices and
 failed on anything but a 3 x 3 array

---
 structrans/util/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..0db06c0 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,17 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
+    if not is_3_by_3(U):
+        return False
     dU = (U - U.T).reshape(9)
-    # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    # positive definite: all the leading principal minors are positive
+    return bool(U[0, 0] > 0 and la.det(U[:2, :2]) > 0 and la.det(U) > 0 and la.norm(dU) < 1e-6)
 
 def sort_eig(A):
     """
-- 
2.43.0


From 1f44d29b084023213b1021d19676afe2530bd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 13/47] fix: setU accepted indefinite matrices and raised
 AttributeError for more than four parameters

---
 structrans/marttrans/martensite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index ed79e89..a5cc405 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -1,5 +1,6 @@
 from ..general_imports import *
 from ..crystallography import CUBIC_LAUE_GROUP, MatrixGroup, BravaisLattice, Lattice
+from ..util.utils import pos_def_sym
 
 
 class Martensite():
@@ -41,13 +42,15 @@ class Martensite():
                 U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]])
             elif len(args) == 4:
                 U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])
+            else:
+                raise TypeError()
         except:
             raise TypeError("unrecognizable input")
 
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not pos_def_sym(U):
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
-- 
2.43.0


From d1acbde44b2c8d9ed036d92ca01f9b323ab1c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 14/47] fix: strain_dist is off by one in two dimensions

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From 9072d4d7863dd551208f505bc1fc9255db656191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 15/47] fix: isCompatible accepted every middle eigenvalue
 below one

---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 4222d52..daa4e69 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1] - 1) < 1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 252c410fcf6096d2ef594b1187627266319238e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 16/47] fix: AM_Solver raised a math domain error when an
 extreme eigenvalue is one up to rounding

---
 structrans/marttrans/Compatibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index daa4e69..c775621 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -45,8 +45,8 @@ def AM_Solver(A):
     
     
     c = sqrt(eval[2]-eval[0])
-    c1 = sqrt(1-eval[0])
-    c3 = sqrt(eval[2]-1)
+    c1 = sqrt(abs(1-eval[0]))
+    c3 = sqrt(abs(eval[2]-1))
     
     if c < 1e-6:
         print('solution is b = e, m = - 2 e where |e| = 1.')
-- 
2.43.0


From b3001f0d917f7ec8d4c99dcb8f00a2b9469bb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 17/47] fix: mat_math used xrange, which python 3 does not have

---
 structrans/mat_math.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..a70efed 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -11,6 +11,11 @@ except:
 from numpy.linalg import inv, det
 import itertools
 
+try:
+    xrange
+except NameError:
+    xrange = range
+
 def mat_dot (la, lb):
     '''
     multiplying list of dxd matrices in the form of 1x9 vectors
-- 
2.43.0


From 5cb0f3198e5fcf4f36fc437c204f8a1a49ff97dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 18/47] fix: mat_trace accumulated into uninitialised memory

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index a70efed..b1da5c1 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -37,7 +37,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)    
         
     for i in xrange(d):
         tr += l[:, i*d+i]
-- 
2.43.0


From 792fb7ad1f20b52c628a98c6544f38fbafcce014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 19/47] fix: mat_det and mat_eig failed on python 3

---
 structrans/mat_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index b1da5c1..5670ee3 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -57,7 +57,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -78,7 +78,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
-- 
2.43.0


From e8fd2380cb90a30573b3619b6466f08494c8b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:11 +0000
Subject: [PATCH 20/47] fix: cofactor only worked for 3 x 3 matrices

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 5670ee3..0aeede4 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -113,7 +113,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m, n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From 99199a79c94aa0575a08b7b37b778e5540995ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 21/47] fix: twinparam always failed because an axis array was
 compared with None by ==

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..47bc72c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -396,7 +396,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From 989eebca690db94bf8481d37577fd69216bbd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 22/47] fix: _solvetwin gave up unless the pair are cubic
 variants, and ignored whether the axis relates the given pair

---
 structrans/marttrans/twin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 47bc72c..8e64f91 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -401,7 +401,7 @@ def _solvetwin(U, Uj, e):
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        if np.allclose(uj, Uj):
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
@@ -418,7 +418,7 @@ def _solvetwin(U, Uj, e):
             Q2 = (U + np.outer(a2, n2)).dot(la.inv(uj))
             return (Q1, a1, n1), (Q2, a2, n2)
         else:
-            return None
+            return _solvetwin(U, Uj, None)
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
         (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-- 
2.43.0


From d0fb6438c5c992cdc8b98b42ebf3d1e40b5c8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 23/47] fix: _solvetwin without an axis returned unnormalised
 normals and rotations of a different equation

---
 structrans/marttrans/twin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 8e64f91..114ef84 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -422,12 +422,14 @@ def _solvetwin(U, Uj, e):
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
         (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
+        rho1 = la.norm(U.T.dot(hat_n1))
+        rho2 = la.norm(U.T.dot(hat_n2))
         n1 = U.T.dot(hat_n1)/rho1
         a1 = rho1*hat_a1
         n2 = U.T.dot(hat_n2)/rho2
         a2 = rho2*hat_a2
+        Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
+        Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
         return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
-- 
2.43.0


From d78ccc0e7736d68dbbe2bb4d862bfe9dd3fad9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 24/47] fix: _solve_f missed the volume fraction 1/2

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 114ef84..5800f0b 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -444,7 +444,7 @@ def _solve_f(U, a, n):
 
     if abs(minus_alpha) < SMALL:
         return 0
-    elif beta/minus_alpha > 0:
+    elif beta/minus_alpha >= 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
             return 1
-- 
2.43.0


From 3186dc2d0ddb2ab78c3c047a2e4177215617c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 25/47] fix: _solve_f reported fraction 0 where no fraction is
 compatible

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5800f0b..8b8bc73 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -443,7 +443,7 @@ def _solve_f(U, a, n):
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
     if abs(minus_alpha) < SMALL:
-        return 0
+        return 0 if abs(beta) < 1E-6 else None
     elif beta/minus_alpha >= 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-- 
2.43.0


From 9476ff5709414ffd6682510f6d4bdc88a1fda4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 26/47] fix: habitplanes failed when only one of the two twins
 is compatible

---
 structrans/marttrans/twin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 8b8bc73..6a8968f 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -365,6 +365,8 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            if f is None:
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From 8edbd9500d49d2c8b1a243ed486e6aca451d64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 27/47] fix: isconventional answered for the group of the first
 call, whatever group is asked about

---
 structrans/marttrans/twin.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 6a8968f..0f7bbd5 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -192,17 +192,13 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
-        return self.__conventional
+        if not self.__twinnable:
+            return False
+        twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                return True
+        return False
 
     def ax(self):
         """
-- 
2.43.0


From 50fe73cd0f0bc175bb66ad0f4411b40a190656ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 28/47] fix: plane_trans failed on a correspondence given as a
 nested list

---
 structrans/marttrans/orientation_relationship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/orientation_relationship.py b/structrans/marttrans/orientation_relationship.py
index db40110..9be6750 100644
--- a/structrans/marttrans/orientation_relationship.py
+++ b/structrans/marttrans/orientation_relationship.py
@@ -32,7 +32,7 @@ def plane_trans(L_cor, n_list):
     if len(n_list.shape) < 2:
         n_list = n_list.reshape(1, len(n_list))
     # new_n  = L_cor.T * n
-    LT = L_cor.T
+    LT = np.array(L_cor).T
     new_n_list = LT.dot(n_list.T).T.tolist()
     return new_n_list[0] if len(new_n_list) == 1 else new_n_list
     
-- 
2.43.0


From f6ecb4a89687c5b93f90c40987efaec51b090115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 29/47] fix: parallel reduction of HNFs failed because no
 printer is passed

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..8f23e97 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,7 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    lprint = args[2] if len(args) > 2 else (lambda msg: None)
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 16509478e180d0b4aa37f2f45f4eb7dc4d23a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 30/47] fix: UnitCell could not be constructed and 2D bonds
 failed

---
 structrans/crystallography/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..325303a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From 4fd2fe204b21ec00f50a10e2a9ae35d37a329903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 31/47] fix: vertex concatenated instead of adding when given
 plain lists

---
 structrans/crystallography/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 325303a..5e4e941 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -6,6 +6,8 @@ class visualError(Exception):
     pass
 
 def vertex(o, E, n=3):
+    o = np.array(o)
+    E = np.array(E)
     dim = np.array(E).shape
     if n==3:
         if dim[0]==3 and dim[1]==3 and len(o)==3:
-- 
2.43.0


From 953accf8621ce3d4433b366753cff15352de147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:39 +0000
Subject: [PATCH 32/47] fix: SLNode pruned repeating a move instead of undoing
 it

---
 structrans/marttrans/lat_cor/slnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..86c4cb2 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -58,7 +58,7 @@ class SLNode:
     @classmethod
     def gobacktoparent(cls, child, parent):
         N = SLNode.dim * (SLNode.dim - 1)
-        return False if parent is None else child == (parent + N) % N
+        return False if parent is None else child == (parent + N) % (2 * N)
 
     @classmethod
     def gobacktouncle(cls, child, parent, grandpa):
-- 
2.43.0


From 2ee3c2d26a0c81eaa5d330b1a85b1af9b9f28071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:39 +0000
Subject: [PATCH 33/47] fix: SLNode pruned reordered moves that do not commute

---
 structrans/marttrans/lat_cor/slnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 86c4cb2..06442bf 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -85,7 +85,7 @@ class SLNode:
             N = SLNode.dim * (SLNode.dim - 1)
             i, j = SLNode.onetotwo[child % N]
             k, l = SLNode.onetotwo[parent % N]
-            return (i, j) > (k, l)
+            return j != k and i != l and (i, j) > (k, l)
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-- 
2.43.0


From ff5e83d66ca4edc53f93fb227712416ba20aa5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:39 +0000
Subject: [PATCH 34/47] fix: SLNode pruned a commutator move of the wrong sign

---
 structrans/marttrans/lat_cor/slnode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 06442bf..a184be5 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -64,6 +64,7 @@ class SLNode:
     def gobacktouncle(cls, child, parent, grandpa):
         """
         [Tij, Tjk] = Tik => Tij Tjk = Tik Tjk Tij
+        so only the Tik that undoes the commutator leads back
         """
         if parent is None or grandpa is None:
             return False
@@ -72,7 +73,8 @@ class SLNode:
             ic, kc = SLNode.onetotwo[child % N]
             jp, kp = SLNode.onetotwo[parent % N]
             ig, jg = SLNode.onetotwo[grandpa % N]
-            return ic == ig and jg == jp and kp == kc
+            undoes = (child < N) != ((parent < N) == (grandpa < N))
+            return ic == ig and jg == jp and kp == kc and undoes
 
     @classmethod
     def gobacktosibling(cls, child, parent):
-- 
2.43.0


From 4d46fc5cbc74c30b07cb78cc168adbb268860cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 35/47] fix: the HNF search used three-dimensional moves for
 two-dimensional lattices

---
 structrans/marttrans/lat_cor/lat_opt.py |  3 ++-
 structrans/marttrans/lat_cor/slnode.py  | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..5c6e10a 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -72,7 +72,8 @@ def lat_opt(E1, E2r, **kwargs):
 
     # get dimension of the problem
     dim = len(E1)
-    SLNode.dim = dim
+    if SLNode.dim != dim:
+        SLNode.set_dim(dim)
 
     # start timer
     t_start = timer()
diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index a184be5..712c58c 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -15,6 +15,16 @@ class SLNode:
     _T = np.append(T1, T2, axis=0)
     onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
 
+    @classmethod
+    def set_dim(cls, dim):
+        """switch to the dim*(dim - 1) transvectives (and their inverses) of dimension dim"""
+        I = np.eye(dim, dtype="int")
+        cls.dim = dim
+        cls.onetotwo = [(i, j) for i in xrange(dim) for j in xrange(dim) if i != j]
+        cls.T1 = np.array([I + np.outer(I[i], I[j]) for i, j in cls.onetotwo])
+        cls.T2 = np.array([I - np.outer(I[i], I[j]) for i, j in cls.onetotwo])
+        cls._T = np.append(cls.T1, cls.T2, axis=0)
+
     def __init__(self, elem, cache, parent=None, grandpa=None):
         """
         constructed by node element
-- 
2.43.0


From b41f53dfff17e75a1b2b404aae2b1e5fc81ec47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 36/47] fix: vec_generator skipped vectors with negated first
 digit when resumed

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..9ac4e8e 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -34,7 +34,7 @@ def vec_generator(maxlen, dim, x0=None):
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0


From 6b6ec656512ee43fcc9b45fa84a5583efc08012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:55 +0000
Subject: [PATCH 37/47] fix: direct search raised StopIteration when the last
 slice improved the solutions

---
 structrans/marttrans/lat_cor/main_direct.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9ac4e8e..9ce90a5 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -221,7 +221,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                nextvec = next(g, None)
+                if nextvec is None:
+                    # the vectors within the previous (larger) radius are exhausted
+                    updated = False
+                else:
+                    checkpoint = np.array(nextvec)
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From ec113c24848a839e73e9b0834d3e52a15e687478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 38/47] fix: vec_generator lost vectors on the boundary of the
 ball to rounding

---
 structrans/marttrans/lat_cor/main_direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9ce90a5..19c1d6e 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -19,7 +19,7 @@ def vec_generator(maxlen, dim, x0=None):
         x0 = [0] * dim
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while n <= maxlen + 1E-9:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -27,7 +27,7 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
+        while firstDigit <= maxlen + 1E-9:
             g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
-- 
2.43.0


From 6e780b2d7189817e337c4b06063b72c59f48a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 39/47] fix: Lattice kept a reference to the caller's array

---
 structrans/crystallography/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 0857274..8991359 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,7 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From 0da65fc8bb9797bd3f3ca03d3c4fe866722a9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 40/47] fix: BravaisLattice shared its parameters and
 conversion matrix with callers

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 18db907..a261a92 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -46,7 +46,7 @@ class BravaisLattice(Lattice):
 
         Lattice.__init__(self, E)
         self.__latID = latID        
-        self.__latParam = latParam
+        self.__latParam = np.array(latParam)
         self.__C = C
 
     @staticmethod
@@ -295,7 +295,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return np.array(self.__latParam)
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -308,7 +308,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return np.array(self.__C)
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
-- 
2.43.0


From 51dd1c28fa09b73d7b707b738d3df72f0572bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 41/47] fix: MatrixGroup kept a reference to the caller's
 matrices

---
 structrans/crystallography/matrix_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..e9a9fda 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,7 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
-- 
2.43.0


From 73d3ae8c07d393e8e5a1d24a49aacd00882c1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 42/47] fix: Martensite shared U, its variants and index lists
 with callers

---
 structrans/marttrans/martensite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index a5cc405..e8a2172 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -16,7 +16,7 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -105,7 +105,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return np.array(self.__Ulist)
 
     def getvariant(self, n):
         """
@@ -116,7 +116,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return np.array(self.__Ulist[n - 1])
 
     def isreversible(self):
         """
@@ -138,7 +138,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return np.array(self.__Laueidx)
 
     def calcvariants(self):
         """
-- 
2.43.0


From d22f103fb1cca0dd8ccae66796eceaa4a5d7992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:42 +0000
Subject: [PATCH 43/47] fix: TwinPair and TwinSystem shared their state with
 callers

---
 structrans/marttrans/twin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 0f7bbd5..6fc19c8 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -86,7 +86,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -142,8 +142,8 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
-        self.__Ui = Ui
-        self.__Uj = Uj
+        self.__Ui = np.array(Ui)
+        self.__Uj = np.array(Uj)
 
         Uiinv = la.inv(Ui)
         self.__C = np.dot(Uiinv.dot(Uj), Uj.dot(Uiinv))
@@ -224,7 +224,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [np.array(e) for e in self.__ax]
 
 
     def iscompound(self):
@@ -302,7 +302,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return tuple(tuple(np.array(x) for x in tp) for tp in self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From 34600cb97de53e868c17adc9560120331889acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 44/47] fix: mat_dot of an integer batch with a float batch
 failed (result took the first batch's type)

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 0aeede4..4197826 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -22,7 +22,7 @@ def mat_dot (la, lb):
     the dimension of la and lb are both [N x d**2]
     '''
     d = int(sqrt(len(la[0]))) # dimension
-    lc = np.zeros_like(la)
+    lc = np.zeros(la.shape, dtype=np.result_type(la, lb))
     
     for i in xrange(d):
         for j in xrange(d):
-- 
2.43.0


From 2b7c43a013cfcd11bce6af8925c9ae8e52a62417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:32 +0000
Subject: [PATCH 45/47] fix: Microstructure shared U with callers

---
 structrans/marttrans/Compatibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index c775621..fc805a2 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -79,7 +79,7 @@ class Microstructure():
         Constructor
         '''
         if len(args) > 0:
-            self._U = args[0]
+            self._U = np.array(args[0])
         if len(args) > 1:
             self._Laue = args[1]
         else:
@@ -88,13 +88,13 @@ class Microstructure():
         self._laueIdx = None
         
     def getU(self):
-        return self._U
+        return np.array(self._U)
     
     def setU(self, *args):
         
         if len(args) == 1:
             if isinstance(args[0], np.ndarray):
-                self._U = args[0]
+                self._U = np.array(args[0])
             else:
                 self._U = np.diag([args[0],args[0],args[0]])
         elif len(args) == 2:
-- 
2.43.0


From 84b8331ce650ffe1218a4f6852e2178d056f25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:32 +0000
Subject: [PATCH 46/47] fix: UnitCell.setOrigin kept a reference to the
 caller's array

---
 structrans/crystallography/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 5e4e941..e16cd25 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -114,7 +114,7 @@ class UnitCell():
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
-        self._o = new_origin
+        self._o = np.array(new_origin)
         
     def bonds(self, verts):
         '''
-- 
2.43.0


From e9a7d3407e4fff06b2557967a7a187f410a43187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 47/47] fix: HNF search dropped solutions, depending on the
 order of the sublattices, while fewer than requested were known

merge_sols compared with the worst solution known even when the list was not
full yet, so the result depended on the order in which sublattices finished
and serial and parallel execution disagreed.
---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 8f23e97..c3c1459 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -225,7 +225,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0

