From 81f23e0d76efe8ae5ba69b6e9192e47fc75d1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 01/57] fix: isadjointmatrix accepts rotations whose
 determinant is 1 up to rounding

---
 arboris/adjointmatrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..9a99574 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -21,12 +21,14 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import numpy as np
 
-def isadjointmatrix(Ad):
+tol = 1e-9
+
+def isadjointmatrix(Ad, _tol=tol):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
-        Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
-        Ad[0:3, 3:6]==np.zeros((3, 3))).all()
+        np.abs(np.linalg.det(Ad[0:3, 0:3])-1) <= _tol) and (
+        np.abs(Ad[0:3, 0:3]-Ad[3:6, 3:6]) <= _tol).all() and (
+        np.abs(Ad[0:3, 3:6]) <= _tol).all()
 
 
 def inv(Ad):
-- 
2.43.0


From 43de620b0113898e3c7b065eb20e0e479b0e8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/57] fix: RigidMotion.itwist is -Ad_rn T_nr, so idadjoint is
 the derivative of iadjoint

---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From 3e407259ba2524823c5b78fe0ea67265c197ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/57] fix: integer initial positions of linear joints are
 converted to float, so they can be integrated

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..05962ff 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -279,7 +279,7 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-- 
2.43.0


From 0a48d422ec947785aedb1d1fcf48777a623d3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/57] fix: subframes own their pose instead of sharing the
 caller's array

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 05962ff..da5127f 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1113,7 +1113,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From 4ae325dc7e23dfdffcb86dc4c50d68724978bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 05/57] fix: ismassmatrix accepts semi-definite matrices whose
 null eigenvalues are rounded below zero

---
 arboris/massmatrix.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..e721ed0 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -6,7 +6,9 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
 from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy.linalg import eig, eigvalsh, det
+
+tol = 1e-9
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -20,10 +22,14 @@ def ismassmatrix(M, semi=False):
     """
     common = M.shape == (6, 6) and allclose(M, M.T) and \
             allclose(M[3:6, 3:6], M[3,3]*eye(3))
+    if not common:
+        return False
+    eigs = eigvalsh(M)
     if semi:
-        return common and (eigvals(M) >= 0.).all()
+        # the null eigenvalues may be slightly negative because of rounding
+        return bool((eigs >= -tol*abs(eigs).max()).all())
     else:
-        return common and (eigvals(M) > 0.).all()
+        return bool((eigs > 0.).all())
 
 def transport(M, H):
     """ Transport (express) the mass matrix into another frame.
-- 
2.43.0


From ed1da7305388d6e64877271046b1fdda9715ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 06/57] fix: the proportional-derivative controller accepts
 joints of different sizes

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From 272f5e5d744f0466b44f605e38c2acb6d1bfa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 07/57] fix: as_dict raises DuplicateNameError with its message
 instead of a TypeError

---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index da5127f..2b59f34 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError('Duplicated name: "{0}".'.format(
+                        obj.name))
         return result
 
 
-- 
2.43.0


From 3bf7628b9a36d07f7499c8079062351639a3445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 08/57] fix: name_all_elements checks unicity of the elements
 of a generator too

---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index 2b59f34..f86c35c 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -141,6 +141,7 @@ class DuplicateNameError(Exception):
 
 def name_all_elements(nlist, check_unicity=False):
     # give a unique name for all unnamed elements
+    nlist = list(nlist) # may be a generator, and is iterated over twice
     for elem in nlist: 
         if elem.name is None:
             elem.name = str(id(elem))
-- 
2.43.0


From 53a8302a9c6d370068dc238b39616581498206d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 09/57] fix: plane/sphere contact frames are in the ground
 frame, and on the sphere when it penetrates the plane

---
 arboris/collisions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..8d5927d 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -277,16 +277,17 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
-    normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
+    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3] # signed distance from the center
     sdist = csdist - radius1
+    normal = Hg.vdot(H_g0, coeffs0[0:3]) # the plane normal, in the ground frame
+    normal /= norm(normal)
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From 8775751d6265f137c84491b57a66b67b4cad5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 10/57] fix: the normal of a box/sphere contact is in the
 ground frame when the center is inside the box

---
 arboris/collisions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 8d5927d..43c6a86 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -374,7 +374,8 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             normal[i] = 1
         else:
             f_0[i-3] = -half_extents0[i-3]
-            normal[i-3] = -1 #TODO check this line is correct
+            normal[i-3] = -1
+        normal = Hg.vdot(H_g0, normal)
         f_g = Hg.pdot(H_g0, f_0)
         sdist = -norm(f_g - p_g1)-radius1
     else:
-- 
2.43.0


From fd7738667266f132de78d1c3a0ebdaf68ced940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 11/57] fix: Plane documents the equation its collision and
 drawing code use

---
 arboris/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/shapes.py b/arboris/shapes.py
index 66bd443..01c3a64 100644
--- a/arboris/shapes.py
+++ b/arboris/shapes.py
@@ -10,8 +10,8 @@ from numpy.linalg import norm
 class Plane(Shape):
     """ A plane.
 
-    A plane defined by the equation `a x + b y + c z + d = 0`, in the ``frame``
-    coordinates.
+    A plane defined by the equation `a x + b y + c z = d`, in the ``frame``
+    coordinates. Its normal is `(a, b, c)`.
 
     """
 
-- 
2.43.0


From 9187f39a016bcef69d035c57e2bca65480716339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 12/57] fix: choose_solver supports the Point/Box pair in both
 orders

---
 arboris/collisions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 43c6a86..a7de402 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -31,6 +31,7 @@ def choose_solver(shape0, shape1):
     * Sphere / Plane
     * Sphere / Box
     * Point / Plane
+    * Point / Box
 
     """
     assert isinstance(shape0, Shape)
@@ -58,6 +59,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 58f398db10d75ad8615bd984430f997e868f964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 13/57] fix: joint limits stop each coordinate of a multi-dof
 joint on its own

---
 arboris/constraints.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..1a50ef8 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,25 +72,23 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
         prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
-        return dforce
+        # each coordinate is limited on its own, given the force on the others
+        for i in arange(self.ndol):
+            vel_i = vel[i] + dot(admittance[i], self._force - prev_force)
+            # position at the end of the step without any force on coordinate i
+            pred = self._pos0[i] + dt*(vel_i - admittance[i, i]*self._force[i])
+            if pred <= self._min[i]:
+                # the min limit is violated, we want pos == min
+                self._force[i] = (self._min[i] - pred)/(dt*admittance[i, i])
+            elif self._max[i] <= pred:
+                # the max limit is violated, we want pos == max
+                self._force[i] = (self._max[i] - pred)/(dt*admittance[i, i])
+            else:
+                # the joint is within its limits, we ensure the
+                # generalized force is zero
+                self._force[i] = 0.
+        return self._force - prev_force
 
 class BallAndSocketConstraint(Constraint):
     r""" Create a ball and socket joint constraint between two frames.
-- 
2.43.0


From 00ede049949c43062005ab96bd2bbdc5e0eb055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 14/57] fix: sliding soft-finger contacts satisfy Coulomb's law
 (outer products, sign of the coupling term, real eigenvalue), without
 friction too, and never pull

---
 arboris/constraints.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 1a50ef8..9a5f785 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, diag, outer, logical_and, arange
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -751,7 +751,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -782,7 +782,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
+        if self._sdist + dt*vel_no_force[3] >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
@@ -801,7 +801,8 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
+            if force[3] >= 0 and \
+               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
@@ -817,18 +818,21 @@ class SoftFingerContact(PointContact):
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
                 b = self._mu/y_n * Y_c
-                B = zeros((6, 6))
-                E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
-                B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
-
-                # s is the real part of the eigenvalue with the smallest
-                # imaginary par within those with a positive real part
-                S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                if a == 0.:
+                    # there is no friction
+                    S = zeros(0)
+                else:
+                    B = zeros((6, 6))
+                    E = diag(self._eps**2)
+                    Y_that = Y_t - outer(Y_c, Y_c)/y_n
+                    B[3:6, 3:6] = dot(E, Y_that)
+                    B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                    B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                    B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
+                    S = eigvals(B)
+
+                # s is the smallest of the real and negative eigenvalues
+                S = S[logical_and(S.imag == 0, S.real <= 0)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From 0a30aaff5e687ecdaf5e044f854f6f261c6114b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 15/57] fix: orthonormal principal frame when some principal
 moments are equal

---
 arboris/massmatrix.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index e721ed0..0a39f14 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -5,8 +5,8 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
-from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvalsh, det
+from   numpy        import diag, eye, dot, array, allclose, argsort
+from   numpy.linalg import eigh, eigvalsh, det
 
 tol = 1e-9
 
@@ -104,11 +104,14 @@ def principalframe(M):
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
+    # RSR is symmetric: unlike eig, eigh returns orthonormal axes even when
+    # some of the principal moments are equal. It sorts them by moment, put
+    # them in the order of the axes of frame a.
+    [S, R] = eigh(RSR)
+    R = R[:, argsort(argsort(diag(RSR)))]
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-        S = dot(iI, dot(S, iI))
     H[0:3, 0:3] = R
     return H
 
-- 
2.43.0


From cb0ea78131da0700b52a094717282621abd66c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 16/57] fix: principal frame and transport of the mass of
 points and massless bodies

---
 arboris/massmatrix.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 0a39f14..dc31c6c 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -70,7 +70,7 @@ def transport(M, H):
     True
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, semi=True)
     assert Hg.ishomogeneousmatrix(H)
     Ad = Hg.adjoint(H)
     return dot(Ad.T, dot(M, Ad))
@@ -98,10 +98,12 @@ def principalframe(M):
            [ 0.,  0.,  0.,  1.]])
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, semi=True)
     m = M[5, 5]
-    rx = M[0:3, 3:6]/m
     H = eye(4)
+    rx = M[0:3, 3:6]
+    if m > 0.: # else the center of mass is undefined
+        rx = rx/m
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
     # RSR is symmetric: unlike eig, eigh returns orthonormal axes even when
-- 
2.43.0


From 4d9c8015492274f61d54990cdcc43ef0f797501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 17/57] fix: HDF5 logger saved the joint states and the model
 with the shape of transforms

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..f14d50f 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -393,7 +393,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From 13235395d52c2e4d69eb1347d9553060680bb4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 18/57] fix: derivative of the CoM jacobian

---
 arboris/observers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f14d50f..ecff737 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -509,7 +509,9 @@ class CoMObserver(Observer):
 
                 ##### For dJacobian
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                # com2 follows the com without rotating, hence the linear
+                # velocity of the body relative to com2:
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3, 3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From 17738f12dcfcdf2a9c7d563019c45c9e0f45555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 19/57] fix: trunk of the human model depends on both
 sternoclavicular lengths

The suprasternale landmark averaged the left length with itself, and the
inertia of the upper trunk used the right length only, so the model of a
human whose sides differ was not mirrored with its lengths.
---
 arboris/robots/human36.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..05ca57a 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -266,7 +266,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
              [(L['xsternoclavR'] + L['xsternoclavL'])/4.,
               0.7001*(L['ysternoclavR']+L['ysternoclavL'])/2.,
               0.],
-             array([0.716, 0.659, 0.454])*L['ysternoclavR'])
+             array([0.716, 0.659, 0.454])*(L['ysternoclavR']+L['ysternoclavL'])/2.)
     # right shoulder
     add_body("ScapulaR", 0.,
              [0., 0., 0.],
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavR']+L['xsternoclavL'])/2., (L['ysternoclavR']+L['ysternoclavL'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From af82746008caa32f23a007f15e7fe17df68cd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 20/57] fix: draw a moving subframe at its absolute pose in
 flat mode

---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From 198f6172c6b76be4cc3f14c55a60ccf2a76540e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 21/57] fix: make the collada writer run on Python 3 (print,
 long, binary files, integer division)

---
 arboris/visu/__init__.py   |  2 +-
 arboris/visu/dae_writer.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..0b2a77c 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,7 +80,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..0c46d9f 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '"+str(node_id)+"'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '"+str(parent_node_id)+"'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '"+str(shape_id)+"'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
-- 
2.43.0


From c7bd755b25f64644e0b995b2689f7b1d4eac22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 22/57] fix: keep the identifiers unique when shapes are added
 to a collada file

---
 arboris/visu/dae_writer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 0c46d9f..552f864 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -178,6 +178,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 child_shape_node.transforms.extend( shapes_dae_nodes[node_id].transforms )
                 
                 _save_all_descendant_geometryNode(child_shape_node, dae)
+                _remove_descendant_ids(child_shape_node)
                 instance_node.children.append(collada.scene.NodeNode(child_shape_node))
                 if child_shape_node.id not in dae.nodes:
                     dae.nodes.append(child_shape_node)
@@ -217,7 +218,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
@@ -225,6 +226,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     child_shape_node.transforms.extend( shapes_dae_nodes[shape_id].transforms )
 
                 _save_all_descendant_geometryNode(child_shape_node, dae)
+                _remove_descendant_ids(child_shape_node)
                 instance_node.children.append(collada.scene.NodeNode(child_shape_node))
                 if child_shape_node.id not in dae.nodes:
                     dae.nodes.append(child_shape_node)
@@ -305,6 +307,16 @@ def _save_all_descendant_geometryNode(src_node, dest_dae):
             _save_all_descendant_geometryNode(child, dest_dae)
 
 
+def _remove_descendant_ids(node):
+    """ Make the descendants anonymous, their ids may already be used in the destination document.
+    """
+    for child in node.children:
+        if type(child) is collada.scene.Node:
+            child.id = None
+            child.xmlnode.attrib.pop("id", None)
+            _remove_descendant_ids(child)
+
+
 def _get_good_id_uri(uri):
     """
     """
-- 
2.43.0


From 01893e6fb501e691424f18ac524a9024c8abddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 23/57] fix: pass the options to the collada driver

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 552f864..47891bd 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -331,7 +331,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
-- 
2.43.0


From 891afda9fbb1f4a12a8a26753db12528b62fef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 24/57] fix: warning about the up vector (concatenation of a
 string and an array)

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 47891bd..b4fa808 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -372,7 +372,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
-- 
2.43.0


From feefd735b7a80dbc21ca0921464b0ca8d4e0dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 25/57] fix: a shape does not take the name of a frame in a
 collada scene

---
 arboris/visu/dae_writer.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index b4fa808..30e6873 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -344,16 +344,13 @@ class pydaenimColladaDriver(DrawerDriver):
         self.ground_node = None
         self.scene       = None
         self._materials  = {}
-        self._names      = []
+        self._names      = ["ground"]
+        self._shape_nodes = {}
 
     def init(self):
         pass
 
-    def _get_collada_node(self, name):
-        if not name:
-            node = _get_void_node()
-            return node
-
+    def _get_new_name(self, name):
         new_name = name
         if new_name in self._names:
             for i in range(100):
@@ -362,7 +359,24 @@ class pydaenimColladaDriver(DrawerDriver):
                     break
             print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
-        node = collada.scene.Node(new_name)
+        return new_name
+
+    def _get_collada_node(self, name, is_frame=False):
+        if not name:
+            node = _get_void_node()
+            return node
+
+        if is_frame and name in self._shape_nodes:
+            # the animations refer to the frames by their names, so that
+            # it is the shape which has to be renamed.
+            shape_node = self._shape_nodes.pop(name)
+            shape_node.id = shape_node.name = self._get_new_name(name)
+            self._shape_nodes[shape_node.id] = shape_node
+            self._names.remove(name)
+
+        node = collada.scene.Node(self._get_new_name(name))
+        if not is_frame:
+            self._shape_nodes[node.id] = node
         return node
 
     def _set_up_axis(self, up):
@@ -419,7 +433,7 @@ class pydaenimColladaDriver(DrawerDriver):
             parent.children.append(child)
 
     def create_transform(self, pose, is_constant, name=None):
-        node = self._get_collada_node(name)
+        node = self._get_collada_node(name, True)
         tranform_matrix = collada.scene.MatrixTransform(pose.flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
         node.transforms.append(tranform_matrix)
-- 
2.43.0


From 07c816cb1e1d43b35cdd1ed2afd49b4023f5446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 26/57] fix: collada scene of a world with unnamed bodies

---
 arboris/visu/dae_writer.py   | 8 ++++----
 arboris/visu/visu_collada.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 30e6873..c55702b 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -488,8 +488,7 @@ class pydaenimColladaDriver(DrawerDriver):
         position    = H_body_com[0:3,3]
         yaw, pitch, roll = np.degrees( rotzyx_angles(H_body_com) ) # in degrees for collada specification
 
-        self.physics_model.append(
-            E.rigid_body(
+        rigid_body = E.rigid_body(
                 E.technique_common(
                     E.dynamic("true"),
                     E.mass(str(mass)),
@@ -501,9 +500,10 @@ class pydaenimColladaDriver(DrawerDriver):
                     ),
                     E.inertia(" ".join(map(str, m_o_inertia))),
                 ),
-            sid=name
             )
-        )
+        if name: # the body may have no name
+            rigid_body.set("sid", name)
+        self.physics_model.append(rigid_body)
 
     def create_frame_arrows(self):
         pass
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..aae2701 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -134,7 +134,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
@@ -143,7 +143,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         node = _get_void_node()
         node.transforms.append( collada.scene.MatrixTransform(H_body_com.flatten()) )
         
-        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia")
+        inertia_name = name+".inertia" if name else name # the body may have no name
+        inertia_node = self.create_ellipsoid(m_o_inertia, color, inertia_name)
         node.children.append(inertia_node)
         
         for c in inertia_node.children:
-- 
2.43.0


From c7439e97c7ee58f94ee7f1b22a8de161769aa218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 27/57] fix: socket communication on Python 3

---
 arboris/observers.py         | 3 ++-
 arboris/visu/visu_collada.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index ecff737..8ed4b46 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -442,7 +442,8 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index aae2701..87dd474 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -209,7 +209,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -224,13 +224,13 @@ class DaenimCom(SocketCom):
             msg += self.packing_transform(f.name, H)
 
         try:
-            self.conn.send(msg)
+            self.conn.send(msg.encode())
         except:
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + [str(val) for val in _H[0:3, :].reshape(12)])+"\n"
         return res
 
 
-- 
2.43.0


From 375efa0c5e436fb2a963cdbdb4c5e61effd8b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 28/57] fix: view a collada scene with a log (the group was
 given as the type of the file)

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 87dd474..357f34b 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -281,7 +281,7 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
             subprocess.check_call((daenim_path, scene))
         else:
             anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
+            write_collada_animation(anim_file, scene, hdf5_file, "h5", hdf5_group)
             subprocess.check_call((daenim_path, anim_file))
             os.remove(anim_file)
 
-- 
2.43.0


From ab2e60fde94fd5262f7c7c43e849b1a2c7465e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 29/57] fix: give the browser to the viewer

---
 arboris/visu/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index 0b2a77c..3f70665 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -83,7 +83,7 @@ def view(world, browser=None, **kwargs):
     elif isinstance(world, str):
         collada_path = world
 
-    pydaenim.create_pydaenimViewer(collada_path, **kwargs)
+    pydaenim.create_pydaenimViewer(collada_path, browser=browser, **kwargs)
 
 
 
-- 
2.43.0


From 3dabde48e629bfc7dda8182044ac2843588014a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 30/57] fix: urdf import works with Python 3

---
 arboris/robots/urdf/__init__.py    | 15 +++++++++------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..f1cce71 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -6,6 +6,9 @@
 from arboris.robots.urdf import urdf_parser
 
 import arboris
+import arboris.core
+import arboris.massmatrix
+import arboris.homogeneousmatrix
 import arboris.joints
 import arboris.shapes
 import arboris.constraints
@@ -107,11 +110,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +154,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +192,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +207,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +263,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..42a8859 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = list(map(float, xyz))
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = list(map(float, xyz))
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = list(map(float, rpy))
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From f4df78452f340869269c3c6307c481b454d6007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 31/57] fix: urdf import applies prefix and suffix to
 references

---
 arboris/robots/urdf/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index f1cce71..d0ff25e 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -232,10 +232,9 @@ class URDFConverter(object):
             name = self.prefix + joint_name + self.suffix
 
             joint = to_arboris(urdf_joint)
-            joint["type"].name = name
 
-            parent = list_of_bodies[joint["parent"]]
-            child  = list_of_bodies[joint["child"] ]
+            parent = list_of_bodies[self.prefix + joint["parent"] + self.suffix]
+            child  = list_of_bodies[self.prefix + joint["child"]  + self.suffix]
 
             if "H_child_joint" in joint: # it means the the axis is not along x, y or z
                 H_parent_joint = np.dot( joint["H_parent_child"], joint["H_child_joint"])
@@ -267,7 +266,7 @@ class URDFConverter(object):
 
 
         # connect the root body of the robot with the ground frame
-        root_body = list_of_bodies[self.robot.get_root()]
+        root_body = list_of_bodies[self.prefix + self.robot.get_root() + self.suffix]
         ground = world.ground
 
         if self.H_init is not None:
-- 
2.43.0


From 8ba51bcd4af00802743c5d759c8d1fe7bc5ee13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 32/57] fix: urdf joints without axis, with any axis

---
 arboris/robots/urdf/__init__.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index d0ff25e..ab2132b 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -82,25 +82,31 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        axis = obj.axis if obj.axis is not None else "1 0 0" # default value of URDF
+        if len(axis.split())==3:
+            axis = np.array([float(v) for v in axis.split()])
+        else:
+            axis = np.array({"x":[1.,0.,0.], "y":[0.,1.,0.], "z":[0.,0.,1.]}[axis.strip().lower()])
+        if obj.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+            axis = axis/np.linalg.norm(axis)
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
-            if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
+            if   np.allclose(axis, [1,0,0]):
                 joint["type"] = arboris.joints.RxJoint
-            elif (axis in ["y", "Y"]) or ( np.allclose(axis, [0,1,0])):
+            elif np.allclose(axis, [0,1,0]):
                 joint["type"] = arboris.joints.RyJoint
-            elif (axis in ["z", "Z"]) or ( np.allclose(axis, [0,0,1])):
+            elif np.allclose(axis, [0,0,1]):
                 joint["type"] = arboris.joints.RzJoint
             else:
                 joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(axis)
                 joint["type"]          = arboris.joints.RzJoint
 
         elif obj.joint_type == urdf_parser.Joint.PRISMATIC:
-            if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
+            if   np.allclose(axis, [1,0,0]):
                 joint["type"] = arboris.joints.TxJoint
-            elif (axis in ["y", "Y"]) or ( np.allclose(axis, [0,1,0])):
+            elif np.allclose(axis, [0,1,0]):
                 joint["type"] = arboris.joints.TyJoint
-            elif (axis in ["z", "Z"]) or ( np.allclose(axis, [0,0,1])):
+            elif np.allclose(axis, [0,0,1]):
                 joint["type"] = arboris.joints.TzJoint
             else:
                 joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(axis)
-- 
2.43.0


From 7cc5d4ef6478d9573f2aa1065ba98565c1c5817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 33/57] fix: urdf joints without limit element

---
 arboris/robots/urdf/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index ab2132b..c51091d 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -258,7 +258,7 @@ class URDFConverter(object):
             # save all joints limits if it has been requested
             if self.save_joint_limits is True:
 
-                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC] and urdf_joint.limits is not None:
                     lower = urdf_joint.limits.lower
                     upper = urdf_joint.limits.upper
                     
@@ -339,6 +339,9 @@ class URDFConverter(object):
 
             name = self.prefix + joint_name + self.suffix
 
+            if urdf_joint.limits is None:
+                continue
+
             lower = urdf_joint.limits.lower
             upper = urdf_joint.limits.upper
             if (lower is not None) and (upper is not None):
@@ -354,7 +357,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            effort_limits[name] = urdf_joint.limits.effort
+            if urdf_joint.limits is not None:
+                effort_limits[name] = urdf_joint.limits.effort
 
         return effort_limits
 
@@ -366,7 +370,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            velocity_limits[name] = urdf_joint.limits.velocity
+            if urdf_joint.limits is not None:
+                velocity_limits[name] = urdf_joint.limits.velocity
 
         return velocity_limits
 
-- 
2.43.0


From 7a09634c078f0e03f08a48a9f2762c4a58dda32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 34/57] fix: urdf links without inertial element

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index c51091d..edb0def 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -53,7 +53,7 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        body.mass = to_arboris(obj.inertial, np.zeros((6,6)))
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
-- 
2.43.0


From f1bfe754160fdfa1f501ab04022d276a4f2b8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 35/57] fix: urdf origins with only xyz or only rpy

---
 arboris/robots/urdf/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index edb0def..f35112b 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -73,8 +73,11 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        H = np.eye(4)
+        if obj.position is not None:
+            H[0:3,3] = obj.position
+        if obj.rotation is not None:
+            H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
-- 
2.43.0


From 3d894d1fae6c12c44e3c173d2965bae048ad9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 36/57] fix: urdf meshes with a scale

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index f35112b..f68dbc3 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -140,7 +140,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else list(obj.scale)
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
-- 
2.43.0


From e90c3abe91dabea8e3ee577adedf1404ddfa98be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 37/57] fix: urdf visual boxes have the size of the file

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index f68dbc3..91c5173 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -145,7 +145,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [d/2. for d in obj.dims] # the simple box is 2 units wide
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -222,7 +222,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From 8415c55e84530c27e2ddf783056eda5afe25ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 38/57] fix: urdf file in the current directory

---
 arboris/robots/urdf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 91c5173..3a1d04f 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -294,7 +294,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(self.urdf_file_name)
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
@@ -305,7 +305,7 @@ class URDFConverter(object):
                 body_shape["frame"] = name
 
                 if ("mesh" not in body_shape):
-                    body_shape["mesh"] = urdf_path + body_shape["mesh_from_urdf"]
+                    body_shape["mesh"] = os.path.join(urdf_path, body_shape["mesh_from_urdf"])
 
                 visual_mapping.append( body_shape )
 
@@ -315,7 +315,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(self.urdf_file_name)
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
@@ -326,7 +326,7 @@ class URDFConverter(object):
                 body_shape["frame"] = name
 
                 if ("mesh" not in body_shape):
-                    body_shape["mesh"] = urdf_path + body_shape["mesh_from_urdf"]
+                    body_shape["mesh"] = os.path.join(urdf_path, body_shape["mesh_from_urdf"])
 
                 visual_mapping.append( body_shape )
 
-- 
2.43.0


From d91aa971fec4512746e814163ce8ff8e94b452c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 39/57] fix: urdf mimic element is written back

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 42a8859..700ed01 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From 243e13fb481b94796cbf05f3fa3155148a3be0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 40/57] fix: exponential of slow twists is a rotation, a joint
 does not drift out of SE(3)

---
 arboris/twistvector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/twistvector.py b/arboris/twistvector.py
index c05ec07..8d86d55 100644
--- a/arboris/twistvector.py
+++ b/arboris/twistvector.py
@@ -66,9 +66,11 @@ def exp(tw):
         sc = sin(t)/t
         dsc = (t-sin(t))/t**3
     else:
-        cc = 1./2.
+        # the terms in t**2 are needed: without them R is not a rotation, and
+        # the pose of a joint drifts after some thousands of steps.
+        cc = 1./2.-t**2/24.
         sc = 1.-t**2/6.
-        dsc = 1./6.
+        dsc = 1./6.-t**2/120.
 
     R = eye(3) + sc*wx + cc*dot(wx, wx)
     p = dot(sc*eye(3) + cc*wx + dsc*outer(w,w), v)
-- 
2.43.0


From 73b3e0578d086728ee9f32936625994831652639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 41/57] fix: the friction law holds for asymmetric admittances
 (nonlinear effects)

---
 arboris/constraints.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 9a5f785..ba48f4d 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -812,20 +812,23 @@ class SoftFingerContact(PointContact):
                 #
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
+                # the admittance is not exactly symmetric (it takes into
+                # account the nonlinear effects): Y_r is not Y_c
                 Y_c = admittance[0:3, 3]
+                Y_r = admittance[3, 0:3]
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
-                b = self._mu/y_n * Y_c
+                b = self._mu/y_n * Y_r
                 if a == 0.:
                     # there is no friction
                     S = zeros(0)
                 else:
                     B = zeros((6, 6))
                     E = diag(self._eps**2)
-                    Y_that = Y_t - outer(Y_c, Y_c)/y_n
-                    B[3:6, 3:6] = dot(E, Y_that)
+                    Y_that = Y_t - outer(Y_c, Y_r)/y_n
+                    B[3:6, 3:6] = dot(E, Y_that.T)
                     B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
                     B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
                     B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
-- 
2.43.0


From b15ca379e9d76f4578ff700a321a652c80b54c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 42/57] fix: write the vectors of a matlab robot on one line,
 with all their digits

---
 matlab/convert_py2mat.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e97acdf..fb69b4f 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -9,12 +9,13 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
-from numpy import zeros, eye, array, arange, hstack
+from numpy import zeros, eye, array, arange, hstack, inf
 from numpy.core import array2string
 
 def a2s(a):
     """Convert an array to a matlab-like string."""
-    return array2string(a, max_line_width=3*73, precision=14)
+    # a vector has to stay on one line: a line break starts a new row
+    return array2string(array(a), max_line_width=inf, threshold=inf, precision=14)
 
 class GenerationError(RuntimeError):
     pass
@@ -227,7 +228,7 @@ struct2h5(st, ['{sname}' '_mat.h5']);
 
 exit; % quit matlab!
 end
-""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=gravity_acc)
+""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=a2s(gravity_acc))
         stream.write(text)
         MatlabRobotGenerator(world).make_robot(
             root_joint = world.ground.childrenjoints[0],
@@ -305,9 +306,9 @@ robot.model.q = {1}';
 robot.model.T = {2}';
 
 end
-""".format(self._gpos[0],
-           hstack(self._gpos[1:]),
-           hstack(gvel))
+""".format(a2s(self._gpos[0]),
+           a2s(hstack([[]]+self._gpos[1:])),
+           a2s(hstack(gvel)))
         self.stream.write(text)
 
 
-- 
2.43.0


From 87fb0787bafe813638a61f615f1f8923acf177da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 43/57] fix: a generator of matlab robots can be used again

---
 matlab/convert_py2mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index fb69b4f..0dc8b04 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -265,15 +265,15 @@ class  MatlabRobotGenerator(object):
 
     def __init__(self, world):
         self.w = world
-        self._b_map = {}
-        self._gpos = []
-        self._gvel = []
 
     def make_robot(self, root_joint, stream, name=None):
         assert isinstance(root_joint, Joint)
         if not isinstance(root_joint, joints.FreeJoint):
             raise GenerationError("The root joint must be a FreeJoint.")
         self.stream = stream
+        self._b_map = {}
+        self._gpos = []
+        self._gvel = []
         try:
             self._add_tree(name)
             self._add_branch(1)
-- 
2.43.0


From 732e9b0c96d831b19e27fba0c0d046a7bb5ce286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 44/57] fix: write matlab shapes on their own bodies, named or
 not

---
 matlab/convert_py2mat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 0dc8b04..800044f 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -329,7 +329,7 @@ tree.br({br}).root_jk={par};
         H00L1 = joint.frames[0].bpose
         H11L0 = joint.frames[1].bpose
         body = joint.frames[1].body
-        self._b_map[body.name] = (num_br, num_bd)
+        self._b_map[body] = (num_br, num_bd)
         if isinstance(joint, joints.RxJoint):
             jtype = "[0 0 0 1 0 0]"
         elif isinstance(joint, joints.RyJoint):
@@ -372,11 +372,11 @@ tree.br({br}).bd({bd}).M = ...
         _shapes = self.w.getshapes()
         for v in _shapes:
             body = v.frame.body
-            (br,bd)= self._b_map[body.name]
-            if body.name in num_in_bd:
-                num_in_bd[body.name] += 1
+            (br,bd)= self._b_map[body]
+            if body in num_in_bd:
+                num_in_bd[body] += 1
             else:
-                num_in_bd[body.name] = 1
+                num_in_bd[body] = 1
             if isinstance(v, shapes.Point): #TODO should be handled by Converter
                 stype='sphere'
                 dims='0.01'
@@ -397,7 +397,7 @@ tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
 tree.br({br}).bd({bd}).shape({num}).dims = {dims};
 tree.br({br}).bd({bd}).shape({num}).H = {H};
 tree.br({br}).bd({bd}).shape({num}).gr_props = {visu};
-""".format(br=br, bd=bd, num=num_in_bd[body.name], stype=stype,
+""".format(br=br, bd=bd, num=num_in_bd[body], stype=stype,
            dims=dims, H=a2s(Hpose),
            visu="{}")
             self.stream.write(text)
-- 
2.43.0


From 696607215571b6b3730791936b8d5708c05a2335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 45/57] fix: accept equally spaced timelines in spite of
 rounding

---
 matlab/convert_py2mat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 800044f..5132281 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -9,7 +9,7 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
-from numpy import zeros, eye, array, arange, hstack, inf
+from numpy import zeros, eye, array, arange, hstack, inf, allclose
 from numpy.core import array2string
 
 def a2s(a):
@@ -181,7 +181,8 @@ class MatlabSimulationGenerator(object):
         t_start = timeline[0]
         dt = timeline[1]-timeline[0]
         t_end = timeline[-1]+dt
-        if not (arange(t_start, t_end, dt) == array(timeline)).all():
+        if not allclose(array(timeline), t_start+dt*arange(len(timeline)),
+                        rtol=0., atol=1e-6*dt):
             raise GenerationError('timeline elements should be equally spaced.')
         t_end -= 1.5*dt
         if len(world.ground.childrenjoints) != 1:
-- 
2.43.0


From 386642a10e5fafd3cfd10b20fe87453102578ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 46/57] fix: split the root joint of a matlab robot too

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 5132281..26e33e6 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -95,6 +95,9 @@ class MatlabConverter(object):
     def convert_robot(self, world, root_joint):
         child_body = root_joint.frames[1].body
         self.convert_root_joint(world, root_joint)
+        if root_joint.frames[0].body is not world.ground:
+            # the root joint is now carried by the base body
+            self.convert_nonroot_joint(world, root_joint)
         self._traverse(world, child_body)
 
     def _traverse(self, world, body):
-- 
2.43.0


From 351d72b5be0689f1facf4afa07a25af9e901ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 47/57] fix: light bodies between the parts of a split joint

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 26e33e6..c9950dc 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -127,7 +127,7 @@ class MatlabConverter(object):
 
         def mass():
             from numpy import diag
-            return self.base_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
+            return self.small_mass*diag([0.1, 0.1, 0.1, 1.0, 1.0, 1.0])
 
         if isinstance(joint, joints.RzJoint) or \
             isinstance(joint, joints.RyJoint) or \
-- 
2.43.0


From e5145b4f88b10f03019994e0b84c5a8b6c23a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 48/57] fix: symmetry of mass matrices relative to their size

---
 arboris/massmatrix.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index dc31c6c..44a1f9a 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -20,8 +20,12 @@ def ismassmatrix(M, semi=False):
     :return: ``True`` if M is correctly shaped and symmetric positive definite.
 
     """
-    common = M.shape == (6, 6) and allclose(M, M.T) and \
-            allclose(M[3:6, 3:6], M[3,3]*eye(3))
+    if M.shape != (6, 6):
+        return False
+    # the rounding of the null elements depends on the other ones
+    atol = tol*abs(M).max()
+    common = allclose(M, M.T, atol=atol) and \
+            allclose(M[3:6, 3:6], M[3,3]*eye(3), atol=atol)
     if not common:
         return False
     eigs = eigvalsh(M)
-- 
2.43.0


From d723929e67c2d9e2351649e5896eea153224fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:40 +0000
Subject: [PATCH 49/57] fix: nonlinear effects of very light bodies

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index f86c35c..9bb14f9 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1404,7 +1404,7 @@ class Body(NamedObject, Frame):
             [[             0, -self.twist[2],  self.twist[1]],
              [ self.twist[2],              0, -self.twist[0]],
              [-self.twist[1],  self.twist[0],              0]])
-        if self.mass[5, 5] <= 1e-10: #TODO: avoid hardcoded value
+        if self.mass[5, 5] <= 0.: # the center of mass is undefined
             rx = zeros((3, 3))
         else:
             rx = self.mass[0:3, 3:6]/ self.mass[5,5]
-- 
2.43.0


From 5fa30d6d35c3005dccf7665820f86fa600b6ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:32 +0000
Subject: [PATCH 50/57] fix: refuse a moving subframe named like a body

---
 arboris/observers.py         |  5 +++--
 arboris/visu/dae_writer.py   |  5 +++--
 arboris/visu/visu_collada.py | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 8ed4b46..5221070 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -260,16 +260,17 @@ class SaveLogger(Observer):
             self._arb_transforms     = {}
             self._transforms         = {}
             self._root['transforms'] = self._transforms
+            moving = list(self._world.itermovingsubframes())
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
+                name_all_elements(list(self._world.iterbodies()) + moving, True)
                 for b in self._world.iterbodies():
                     self._arb_transforms[b.name] = b
             else:
                 nonflatlist = [j.frames[1] for j in self._world.getjoints()]
+                nonflatlist += [f for f in moving if f not in nonflatlist]
                 name_all_elements(nonflatlist, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
 
             for f in self._world.itermovingsubframes():
                 self._arb_transforms[f.name] = f
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index c55702b..b4e494d 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -29,12 +29,13 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     """
     """
     assert isinstance(world, World)
+    moving = list(world.itermovingsubframes())
     if flat:
-        name_all_elements(world.getbodies(), True)
+        name_all_elements(list(world.getbodies()) + moving, True)
     else:
         nonflatlist = [j.frames[1] for j in world.getjoints()]
+        nonflatlist += [f for f in moving if f not in nonflatlist]
         name_all_elements(nonflatlist, True)
-    name_all_elements(world.itermovingsubframes(), True)
     
     if color_generator is None:
         color_generator = ColorGenerator( nb_colors=len(world.getbodies()) )
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 357f34b..4deea0b 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -37,12 +37,13 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
 
     """
     assert isinstance(world, World)
+    moving = list(world.itermovingsubframes())
     if flat:
-        name_all_elements(world.getbodies(), True)
+        name_all_elements(list(world.getbodies()) + moving, True)
     else:
         nonflatlist = [j.frames[1] for j in world.getjoints()]
+        nonflatlist += [f for f in moving if f not in nonflatlist]
         name_all_elements(nonflatlist, True)
-    name_all_elements(world.itermovingsubframes(), True)
     
     if color_generator is None:
         color_generator = ColorGenerator( nb_colors=len(world.getbodies()) )
@@ -198,12 +199,13 @@ class DaenimCom(SocketCom):
         
         self.world = world
         sleep(.1)
+        moving = list(self.world.itermovingsubframes())
         if self.flat:
-            name_all_elements(self.world.getbodies(), True)
+            name_all_elements(list(self.world.getbodies()) + moving, True)
         else:
             nonflatlist = [j.frames[1] for j in self.world.getjoints()]
+            nonflatlist += [f for f in moving if f not in nonflatlist]
             name_all_elements(nonflatlist, True)
-        name_all_elements(self.world.itermovingsubframes(), True)
 
     def update(self, dt):
         """
-- 
2.43.0


From 2f066aa83e918539ae5c8c341338e0c68d5848c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 51/57] fix: number of values in the arrays of animations

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index b4e494d..f3ec132 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -108,7 +108,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
             str_src_data = str_src_data.replace(".0 ", " ")
         else:
             str_src_data = " ".join(map(str, src_data))
-        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(count)) )
+        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(len(src_data))) )
         
         src_elem.append( E.technique_common(
                             E.accessor(
-- 
2.43.0


From d36c3bc7d3a08ed7c8172c1ffb2f9ef5eb58c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 52/57] fix: the node of a moving frame keeps its name in
 collada scenes

---
 arboris/visu/dae_writer.py   | 31 ++++++++++++++++---------------
 arboris/visu/visu_collada.py |  2 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index f3ec132..f278e57 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -33,7 +33,7 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     if flat:
         name_all_elements(list(world.getbodies()) + moving, True)
     else:
-        nonflatlist = [j.frames[1] for j in world.getjoints()]
+        nonflatlist = [world.ground] + [j.frames[1] for j in world.getjoints()]
         nonflatlist += [f for f in moving if f not in nonflatlist]
         name_all_elements(nonflatlist, True)
     
@@ -346,7 +346,7 @@ class pydaenimColladaDriver(DrawerDriver):
         self.scene       = None
         self._materials  = {}
         self._names      = ["ground"]
-        self._shape_nodes = {}
+        self._renamable_nodes = {}
 
     def init(self):
         pass
@@ -354,30 +354,31 @@ class pydaenimColladaDriver(DrawerDriver):
     def _get_new_name(self, name):
         new_name = name
         if new_name in self._names:
-            for i in range(100):
+            i = 0
+            while new_name in self._names:
                 new_name = name + "_{}".format(i)
-                if new_name not in self._names:
-                    break
+                i += 1
             print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         return new_name
 
-    def _get_collada_node(self, name, is_frame=False):
+    def _get_collada_node(self, name, rank=0):
+        """ Return a node; its name may be changed later for a node of higher rank.
+        """
         if not name:
             node = _get_void_node()
             return node
 
-        if is_frame and name in self._shape_nodes:
-            # the animations refer to the frames by their names, so that
-            # it is the shape which has to be renamed.
-            shape_node = self._shape_nodes.pop(name)
-            shape_node.id = shape_node.name = self._get_new_name(name)
-            self._shape_nodes[shape_node.id] = shape_node
+        old_rank, old_node = self._renamable_nodes.get(name, (rank, None))
+        if old_rank < rank:
+            # the animations refer to the moving frames by their names, so that
+            # it is the shape, or the constant frame, which has to be renamed.
+            old_node.id = old_node.name = self._get_new_name(name)
+            self._renamable_nodes[old_node.id] = self._renamable_nodes.pop(name)
             self._names.remove(name)
 
         node = collada.scene.Node(self._get_new_name(name))
-        if not is_frame:
-            self._shape_nodes[node.id] = node
+        self._renamable_nodes[node.id] = (rank, node)
         return node
 
     def _set_up_axis(self, up):
@@ -434,7 +435,7 @@ class pydaenimColladaDriver(DrawerDriver):
             parent.children.append(child)
 
     def create_transform(self, pose, is_constant, name=None):
-        node = self._get_collada_node(name, True)
+        node = self._get_collada_node(name, 1 if is_constant else 2)
         tranform_matrix = collada.scene.MatrixTransform(pose.flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
         node.transforms.append(tranform_matrix)
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 4deea0b..b8a108e 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -41,7 +41,7 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     if flat:
         name_all_elements(list(world.getbodies()) + moving, True)
     else:
-        nonflatlist = [j.frames[1] for j in world.getjoints()]
+        nonflatlist = [world.ground] + [j.frames[1] for j in world.getjoints()]
         nonflatlist += [f for f in moving if f not in nonflatlist]
         name_all_elements(nonflatlist, True)
     
-- 
2.43.0


From 989bfb8b1a0dbc3da2935849c8d8e1f426a9ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:15 +0000
Subject: [PATCH 53/57] fix: spheres and points are drawn under their names, as
 other shapes are

---
 arboris/visu/world_drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index c48a39a..8f3b326 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -128,10 +128,10 @@ class DrawerDriver():
         pass
 
     def create_sphere(self, radius, color, name=None):
-        return self.create_ellipsoid([radius] * 3, color)
+        return self.create_ellipsoid([radius] * 3, color, name)
 
     def create_point(self, color, name=None):
-        return self.create_sphere(self._options['point radius'], color)
+        return self.create_sphere(self._options['point radius'], color, name)
 
     @abstractmethod
     def create_box(self, half_extents, color, name=None):
-- 
2.43.0


From 9921801fd7d51fe2365480002ce044d9fc07596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:13 +0000
Subject: [PATCH 54/57] fix: states, gains and targets given as integers could
 only hold integers

---
 arboris/controllers.py | 8 ++++----
 arboris/core.py        | 2 +-
 arboris/joints.py      | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index d794418..a0fed8d 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -137,22 +137,22 @@ class ProportionalDerivativeController(Controller):
         if kp is None:
             self.kp = zeros((self._cndof, self._cndof))
         else :
-            self.kp = array(kp).reshape((self._cndof, self._cndof))
+            self.kp = array(kp, dtype=float).reshape((self._cndof, self._cndof))
 
         if kd is None:
             self.kd = zeros((self._cndof, self._cndof))
         else :
-            self.kd = array(kd).reshape((self._cndof, self._cndof))
+            self.kd = array(kd, dtype=float).reshape((self._cndof, self._cndof))
 
         if gpos_des is None:
             self.gpos_des = zeros(self._cndof)
         else:
-            self.gpos_des = array(gpos_des).reshape(self._cndof)
+            self.gpos_des = array(gpos_des, dtype=float).reshape(self._cndof)
 
         if gvel_des is None:
             self.gvel_des = zeros(self._cndof)
         else:
-            self.gvel_des = array(gvel_des).reshape(self._cndof)
+            self.gvel_des = array(gvel_des, dtype=float).reshape(self._cndof)
 
     def init(self, world):
         """ Initialize controller and configure for one :class:`~arboris.core.World` instance.
diff --git a/arboris/core.py b/arboris/core.py
index 9bb14f9..351ac23 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -285,7 +285,7 @@ class LinearConfigurationSpaceJoint(Joint):
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..67fffab 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From 279b6e355a7c149a8217813ea5209f7271270c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:20 +0000
Subject: [PATCH 55/57] fix: the joint of a refused link could not be used any
 more

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 351ac23..0f2ddd7 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -528,8 +528,8 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
         if frame1.body.parentjoint is None:
+            joint.set_frames(frame0, frame1)
             frame1.body.parentjoint = joint
         else:
             raise ValueError("frame1's body already has a parent joint, " + \
-- 
2.43.0


From 24dd8e3198f544519b9639c633c2025cdb133501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:31 +0000
Subject: [PATCH 56/57] fix: lines of daenim scenes started from a scaled place

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index b8a108e..b421475 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -126,8 +126,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         H[0:3, 3] = start
         
         node = self._add_new_geometry(name, color, line_geom)
-        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
         node.transforms.append(collada.scene.MatrixTransform(H.flatten()))
+        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
 
         self._add_osg_description(node, "link")
 
-- 
2.43.0


From af733da7b6cb80731aa3985ce780938c6616be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:27 +0000
Subject: [PATCH 57/57] fix: a refused joint replacement leaves the world as it
 was

---
 arboris/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arboris/core.py b/arboris/core.py
index 0f2ddd7..512822a 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -575,6 +575,16 @@ class World(NamedObject):
             body1 = args[-1].body
             assert old_joint.frame0.body is body0
             assert old_joint.frame1.body is body1
+            # refuse what add_link would refuse, before undoing anything
+            new_joints = args[1::3]
+            new_bodies = [f.body for f in args[2::3]]
+            for j in new_joints:
+                assert isinstance(j, Joint) and new_joints.count(j) == 1
+                assert j is old_joint or j.frames == (None, None)
+            for b in new_bodies:
+                if b.parentjoint not in (None, old_joint) or \
+                   new_bodies.count(b) != 1:
+                    raise ValueError("one of the bodies has a parent joint.")
             body1.parentjoint = None
             old_joint.set_frames(None, None)
             self.add_link(*args)
-- 
2.43.0

