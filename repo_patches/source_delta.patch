From 0ee6a6ba60d2c83c6734a6f75fe8ad110726628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 001/257] fix: linear_statics with support_method 'ZERO' used a
 stale or missing load vector

---
 metku/framefem/framefem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 16b4e91..380fc01 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -620,6 +620,7 @@ class FrameFEM:
         
         self.supp_dofs = rem_dofs
         
+        self.p = np.column_stack(loads)
         
         if support_method == 'REM':
             rem_dofs = np.array(rem_dofs,dtype=int)
@@ -663,7 +664,8 @@ class FrameFEM:
                 # Substitute free dofs from global displacement vector                        
                 for i, free_dof in enumerate(free_dofs):
                     if free_dof:
-                        node.u[lcase][i] = u[dofs[i]]
+                        for j, lc in enumerate(lcase):
+                            node.u[lc][i] = u[dofs[i], j]
 
             """
             This substition did not work !!!
-- 
2.43.0


From 84a881ea42d629e8a39a9c3e7d5a759a1836ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 002/257] fix: load factor of a global line load was applied
 twice

---
 metku/framefem/elements/ebbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 1bc43eb..c03fa18 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -423,7 +423,7 @@ class EBBeam(Element):
                     #q = np.array([0, q1, 0])
                     q = np.array([0, 1, 0])
                 # Load vector transformed into element local coordinate system
-                qloc = load.f*T[:3, :3].dot(q)
+                qloc = T[:3, :3].dot(q)
                                 
                 if order == 1:
                     """ Loads perpendicular to the axis of the element """
-- 
2.43.0


From c17964fd2e30a24c031e9a75236f2464ae8ede7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 003/257] fix: axial line load given in local coordinates was
 ignored

---
 metku/framefem/elements/ebbeam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index c03fa18..c3b2c94 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -384,6 +384,8 @@ class EBBeam(Element):
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = L*(1/3*q1+1/6*q2)
+                    floc[3] = L*(1/6*q1+1/3*q2)
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     if order == 1:
-- 
2.43.0


From 82e15f93b6528710696f38b50483f592442264fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 004/257] fix: several line loads on one element overwrote each
 other in the internal forces

---
 metku/framefem/elements/ebbeam.py | 4 ++--
 metku/framefem/framefem.py        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index c3b2c94..555f335 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -510,8 +510,8 @@ class EBBeam(Element):
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: there can be several loads with the same id
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 380fc01..3db146d 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -512,6 +512,10 @@ class FrameFEM:
         """ Initialize load vector """
         global_load = np.zeros(self.dofs)
 
+        # Element loads are accumulated anew
+        for elem in self.elements:
+            elem.floc.pop(sid, None)
+
         for load in self.loads:
             """ Get the loads to be added to the vector 
                 and the global degrees of freedom of these loads
-- 
2.43.0


From bd20e932d479430735bd7d9a8567471f67de60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 005/257] fix: cached element stiffness ignored later changes
 of releases and joint stiffness

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 4 ----
 metku/framefem/elements/ebbeam.py             | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index abfdf1c..a973edc 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam in 2D with rotational stiffness at nodes
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 from .ebbeam import EBBeam
 try:
     from metku.framefem import LineLoad
@@ -127,7 +124,6 @@ class EBSemiRigidBeam(EBBeam):
         return np.append(self.nodes[0].dofs, self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Stiffness matrix in local coordinates """
 
diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 555f335..af2f8a7 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -11,9 +11,6 @@ Euler-Bernoulli beam element in 2D
 """
 
 import numpy as np
-from functools import lru_cache
-
-CACHE_BOUND = 2**10
 
 #try:
 #    from metku.framefem import Element, LineLoad, FEMNode
@@ -93,7 +90,6 @@ class EBBeam(Element):
         return np.append(self.nodes[0].dofs,self.nodes[1].dofs)
         #return self.nodes[0].dofs + self.nodes[1].dofs
 
-    @lru_cache(CACHE_BOUND)
     def local_stiffness_matrix(self, E, A, I1, Le):
         """ Generates stiffness matrix in local coordinates
 
-- 
2.43.0


From 566306669d9ad64b1e6f662832540cc6f69775b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 006/257] fix: displacements of dofs that became supported kept
 their old values

---
 metku/framefem/framefem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 3db146d..52b253f 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -657,6 +657,10 @@ class FrameFEM:
         #print(u)
 
         """ Substitute obtained displacements to nodes """
+        for node in self.nodes:
+            for lc in lcase:
+                node.u[lc] = np.zeros(len(node.dofs))
+
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
             for node in self.nodes:
-- 
2.43.0


From 98e612a2491d53de0cd5cecc28485bca0a1ecb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 007/257] fix: coordinates of FEM nodes created with integers
 were truncated when moved

---
 metku/framefem/framefem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 52b253f..00aee85 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1478,8 +1478,8 @@ class FEMNode:
         
         """ Nodal coordinates"""
         if z is not None:
-            self.coord = np.array([x, y, z])
-            self.X = np.array([x, y, z])
+            self.coord = np.array([x, y, z], dtype=float)
+            self.X = np.array([x, y, z], dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
             self.dofs = -np.ones(6)
@@ -1487,8 +1487,8 @@ class FEMNode:
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
         else:
-            self.coord = np.array([x, y])
-            self.X = np.array([x, y])
+            self.coord = np.array([x, y], dtype=float)
+            self.X = np.array([x, y], dtype=float)
             self.dofs = np.array([-1, -1, -1])
             # [Ux, Uy, Uz]
             self.v = np.array([0,0,0])
-- 
2.43.0


From 4d2e5b8c152538c147a1702426638c66b03e5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 008/257] fix: LinearSpring could not be analysed (method
 signatures differ from Element)

---
 metku/framefem/elements/springs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d0f6222..d18c265 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -36,7 +36,7 @@ class LinearSpring(Element):
         # Dimension of the element
         self.dim = len(n1.coord)
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L1 = np.hstack((c, np.zeros(len(c))))
@@ -132,7 +132,7 @@ class LinearSpring(Element):
         self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
 
 
-    def nodal_displacements(self,lcase=0):
+    def nodal_displacements(self, lcase=0, order=1):
         """ Get nodal displacements of an element
             Requires previously performed structural analysis such
             that nodal displacements are available.
-- 
2.43.0


From d4fb8c7304c9cfa3e95cabd6e69ec283e47027c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 009/257] fix: EBSemiRigidBeam could not be analysed (method
 signatures differ from Element)

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index a973edc..a9a5000 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -60,6 +60,7 @@ class EBSemiRigidBeam(EBBeam):
 
         self.bending_moment = [0.0, 0.0]
         self.shear_force = [0.0, 0.0]
+        rot_stiff = list(rot_stiff)
         for i in range(2):
             if rot_stiff[i] <= kHinge:
                 rot_stiff[i] = kHinge
@@ -69,7 +70,7 @@ class EBSemiRigidBeam(EBBeam):
         # print(rot_stiff)
         self.rot_stiff = rot_stiff
 
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ From local to global coordinates """
         c = self.direction_cosines()
         L = np.zeros((6, 6))
@@ -172,7 +173,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return k0
 
-    def stiffness_matrix(self):
+    def stiffness_matrix(self, initial=True):
         """ Compute the stiffness matrix """
 
         E = self.material.young
@@ -191,7 +192,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return ke
 
-    def local_geometric_stiffness_matrix(self,lcase=0):
+    def local_geometric_stiffness_matrix(self,lcase=0,initial=True):
         """ Geometric stiffness matrix in local coordinates
             From: Cook et. al 1989, Section 14.2
         """
@@ -210,7 +211,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return kg0
 
-    def geometric_stiffness_matrix(self,lcase=0):
+    def geometric_stiffness_matrix(self,lcase=0,initial=True):
         """ Geometric stiffness matrix in global coordinates
             From: Cook et. al (1989), Section 14.2
         """
@@ -224,7 +225,7 @@ class EBSemiRigidBeam(EBBeam):
 
         return kG
 
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1, initial=True):
         """ Equivalent nodal loads for a load
 
             'load' is a Load type object. By default, it is assumed that
-- 
2.43.0


From 043377f3427dc9b6fb4f7cb04bb550d0014be646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 010/257] fix: EBSemiRigidBeam line loads ignored joint
 flexibility, load factor and axial direction

---
 metku/framefem/elements/eb_semi_rigid_beam.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/framefem/elements/eb_semi_rigid_beam.py b/metku/framefem/elements/eb_semi_rigid_beam.py
index a9a5000..e6c053e 100644
--- a/metku/framefem/elements/eb_semi_rigid_beam.py
+++ b/metku/framefem/elements/eb_semi_rigid_beam.py
@@ -242,14 +242,16 @@ class EBSemiRigidBeam(EBBeam):
         L = self.length()
 
         if isinstance(load, LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
+            q1 = load.f * load.qval[0]
+            q2 = load.f * load.qval[1]
             # print(q1,q2)
             if load.coords == 'local':
                 # print('local coordinates')
                 """ Load is given in local coordinates """
                 if load.dir == "x":
                     """ Load is in the axial direction """
+                    floc[0] = L * (1 / 3 * q1 + 1 / 6 * q2)
+                    floc[3] = L * (1 / 6 * q1 + 1 / 3 * q2)
                 elif load.dir == 'y':
                     """ Load is perpendicular to the member """
                     floc[1] = 7 / 20 * q1 * L + 3 / 20 * q2 * L
@@ -297,6 +299,10 @@ class EBSemiRigidBeam(EBBeam):
 
                 # print(floc)
 
+        # Effect of the flexible joints on the equivalent nodal loads
+        b = [1, 2, 4, 5]
+        floc[b] += 1 / self.delta() * self.matrix_S().transpose().dot(floc[b])
+
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
                 is modified.
@@ -310,7 +316,7 @@ class EBSemiRigidBeam(EBBeam):
             floc[rel] = 0
 
             # Store local loads
-        self.floc[load.sid] = floc
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
-- 
2.43.0


From e16f9374285ab934db1b0bc3589b21ee27bd0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 011/257] fix: linear_buckling missed load factors smaller than
 1.0

---
 metku/framefem/framefem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 00aee85..6e6cc41 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -869,7 +869,11 @@ class FrameFEM:
         # v0 -- initial guess is set to np.ones -matrix,
         # this makes sure that w and v values doesn't change
         # after consecutive runs, default v0 is matrix with random values
-        (w, buckling_modes) = eigsh(K, k=k, M=-KG, sigma=1.0, which='LA', mode='buckling')
+        # The largest eigenvalues of -KG x = (1/w) K x correspond to the smallest
+        # positive load factors w, whether these are below or above 1.0
+        (w, buckling_modes) = eigsh(-KG, k=k, M=K, which='LA')
+        w = 1/w[::-1]
+        buckling_modes = buckling_modes[:,::-1]
         #w = sp.linalg.eigvals(K,b=-KG)
         #(w,buckling_modes) = sp.linalg.eig(K,b=-KG)
         #(w,buckling_modes) = sp.sparse.linalg.eigs(K,k=6,M=-KG,which='SM',sigma=0)
-- 
2.43.0


From b968308a9122e88af4f3b7b0ec240f7120df80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 012/257] fix: repeated linear_buckling with less than three
 modes raised IndexError

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 6e6cc41..690dfe4 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -901,7 +901,7 @@ class FrameFEM:
         """
         
         for node in self.nodes:
-            node.v = np.zeros((buckling_modes.shape[1],len(node.v)))
+            node.v = np.zeros((buckling_modes.shape[1],len(node.dofs)))
         
         
         glob_dofs = self.global_free_dofs()
-- 
2.43.0


From ae4bb12ce0077f1cf34e1465b32045f4f3e5b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 013/257] fix: geometric stiffness of Rod and LinearSpring
 raised AttributeError

---
 metku/framefem/elements/rod.py     | 4 ++--
 metku/framefem/elements/springs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 91b65ad..0f09a09 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -96,7 +96,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -112,7 +112,7 @@ class Rod(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0], [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
diff --git a/metku/framefem/elements/springs.py b/metku/framefem/elements/springs.py
index d18c265..9069c95 100644
--- a/metku/framefem/elements/springs.py
+++ b/metku/framefem/elements/springs.py
@@ -94,7 +94,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         #P = self.axial_force[1]
-        P = self.find[lcase]['fx'][0]
+        P = self.fint[lcase]['fx'][0]
         Le = self.length()
 
         return P / Le * np.array([[0, 0, 0, 0], [0, 1, 0, -1], [0, 0, 0, 0], [0, -1, 0, 1]])
@@ -110,7 +110,7 @@ class LinearSpring(Element):
             TODO: Modify for 3D!
         """
         c = self.direction_cosines()
-        L = np.array([[c, 0, 0], [-c[1], c[0], 0, 0], [0, 0, c], [0, 0, -c[1], c[0]]])
+        L = np.array([[c[0], c[1], 0, 0], [-c[1], c[0], 0, 0], [0, 0, c[0], c[1]], [0, 0, -c[1], c[0]]])
 
         kG0 = self.local_geometric_stiffness_matrix(lcase)
 
-- 
2.43.0


From cbe66aa987c6b4a8dc49375ccd366b5dbfff00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 014/257] fix: line loads on Rod elements raised TypeError

---
 metku/framefem/elements/rod.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 0f09a09..569be6b 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -120,23 +120,28 @@ class Rod(Element):
 
         return kG
 
-    def equivalent_nodal_loads(self, q):
-        """ Equivalent nodal loads for load in vector q
+    def equivalent_nodal_loads(self, load, order=1):
+        """ Equivalent nodal loads for LineLoad 'load'
             Ignore bending moment
             
             TODO: Modify for 3D!
         """
 
-        fglob = np.zeros(4)
-
-        dc = self.direction_cosines()
+        c = self.direction_cosines()
         L = self.length()
         
-        #dc = self.dcos
-        #L = self.len
+        # Direction of the load in global coordinates
+        if load.coords == 'local':
+            d = np.array(c) if load.dir == 'x' else np.array([-c[1], c[0]])
+        else:
+            d = np.zeros(self.dim)
+            d[0 if load.dir == 'x' else 1] = 1.0
+        
+        q1, q2 = load.f * load.qval[0], load.f * load.qval[1]
+        fglob = np.hstack((L * (q1 / 3 + q2 / 6) * d, L * (q1 / 6 + q2 / 3) * d))
 
-        fglob[[0, 2]] = 0.5 * dc[1] * q[0] * L
-        fglob[[1, 3]] = 0.5 * dc[0] * q[1] * L
+        # Store axial parts: there can be several loads with the same id
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + self.transformation_matrix().dot(fglob)
 
         return fglob
 
@@ -149,8 +154,9 @@ class Rod(Element):
         A = self.section.A
         L = self.length()
         #L = self.len
-        self.fint[lcase]['fx'][0] = E * A / L * (q[1] - q[0])
-        self.fint[lcase]['fx'][1] = self.fint[lcase]['fx'][0]
+        N = E * A / L * (q[1] - q[0])
+        f = self.floc.get(lcase, np.zeros(2))
+        self.fint[lcase]['fx'] = [N + f[0], N - f[1]]
 
 
     def nodal_displacements(self,lcase=0, order=1):
-- 
2.43.0


From 49ab92f42d4e7d84cc5ab1722a69a35efef14fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 015/257] fix: add_hinge on one frame member put the hinge on
 all members

---
 metku/raami/frame_member.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index b452861..95ad446 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -166,8 +166,8 @@ class FrameMember:
         self.calc_nodal_coordinates(nel)
         
         # Flags for stating whether or not the member ends are hinged.
-        
-        self.hinges = hinges
+        # (copy: the default list is shared by all members)
+        self.hinges = list(hinges)
         
         # Flag stating whether or not the member can buckle in sway mode
         self.sway = sway
@@ -912,8 +912,8 @@ class MultiSpanMember:
         #self.calc_nodal_coordinates(nel)
         
         # Flags for stating whether or not the member ends are hinged.
-        
-        self.hinges = hinges
+        # (copy: the default list is shared by all members)
+        self.hinges = list(hinges)
         
         self.sway = sway
         
-- 
2.43.0


From 24c76a676d20f0a95a3711da8f02dbd33b309aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 016/257] fix: member of one element with hinges at both ends
 lost the first hinge

---
 metku/raami/frame_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 95ad446..cace241 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -628,7 +628,7 @@ class FrameMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         """ Removes FEM nodes and elements """
@@ -1082,7 +1082,7 @@ class MultiSpanMember:
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]    
+            self.fem_elements[-1].releases = self.fem_elements[-1].releases + [5]
     
     def clear_fem(self):
         
-- 
2.43.0


From 50e2909e3a0279241a6b15afbe93bb36d66ffe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 017/257] fix: loads with equal names were lost, replaced or
 added twice

---
 metku/raami/raami.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index f535a59..b5cf46c 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -136,7 +136,7 @@ class Raami:
             self.load_ids.append(loadcase.load_id)
 
         for load in loadcase.loads:
-            if load.name not in self.loads:
+            if load not in self.loads.values():
                 self.add(load)
 
     def add_loadcombination(self, loadcombination: LoadCombination) -> None:
@@ -157,10 +157,10 @@ class Raami:
                     """
 
 
-        if pointload.name in self.loads.keys():
-            pointload.name += str(len(self.loads))
-
         if pointload not in self.loads.values():
+            while pointload.name in self.loads.keys():
+                pointload.name += str(len(self.loads))
+
             self.loads[pointload.name] = pointload
 
         if not (pointload.load_id in self.load_ids):
@@ -186,10 +186,11 @@ class Raami:
 
     def add_lineload(self, lineload: LineLoad | PWLineLoad) -> None:
 
-        if lineload.name in self.loads.keys():
-            lineload.name += str(len(self.loads))
+        if lineload not in self.loads.values():
+            while lineload.name in self.loads.keys():
+                lineload.name += str(len(self.loads))
 
-        self.loads[lineload.name] = lineload
+            self.loads[lineload.name] = lineload
 
 
         if not (lineload.load_id in self.load_ids):
-- 
2.43.0


From 6bb81412e8ba4073b38ff83daef018f6f21fb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 018/257] fix: adding a load case dropped the loads already in
 the case, load ids were duplicated

---
 metku/raami/raami.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index b5cf46c..b9a5670 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -131,6 +131,11 @@ class Raami:
 
         """
 
+        if loadcase.load_id in self.load_cases:
+            # Keep the loads added earlier with the same load_id
+            for load in self.load_cases[loadcase.load_id].loads:
+                loadcase.add(load)
+
         self.load_cases[loadcase.load_id] = loadcase
         if not (loadcase.load_id in self.load_ids):
             self.load_ids.append(loadcase.load_id)
@@ -168,7 +173,6 @@ class Raami:
             # Add a new load case for this load
             NewLoadCase = LoadCase(load_id=pointload.load_id, loads=[pointload])
             self.add(NewLoadCase)
-            self.load_ids.append(pointload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
@@ -198,7 +202,6 @@ class Raami:
             NewLoadCase = LoadCase(load_id=lineload.load_id, loads=[lineload])
 
             self.add(NewLoadCase)
-            self.load_ids.append(lineload.load_id)
         else:
             # If a load case with this.load_id exists, add the new
             # load to that load case
-- 
2.43.0


From b00192090c788e051df402a4d1df5e83cd784c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 019/257] fix: removing self-weight did not remove the
 self-weight loads

---
 metku/raami/frame_member.py |  7 +++++--
 metku/raami/raami.py        | 10 ++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index cace241..877e7bc 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -323,14 +323,17 @@ class FrameMember:
             
             # Default units: N/mm
             value = -self.cross_section.self_weight()
-            self.frame.add(LineLoad(self, [value, value], 'y',load_id,ltype='dead',
-                                    name='self-weight'))
+            self.self_weight_load = LineLoad(self, [value, value], 'y',load_id,ltype='dead',
+                                             name='self-weight')
+            self.frame.add(self.self_weight_load)
 
     def remove_self_weight(self):
         """ Removes self-weight from loads
         """
         if self.self_weight:
             self.self_weight = False
+            self.loads.remove(self.self_weight_load)
+            self.frame.remove_load(self.self_weight_load)
         
     def recalculate_coordinates(self):
         """ Clear global node coordinates and recalculate those """
diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index b9a5670..133c9a0 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -277,6 +277,11 @@ class Raami:
             member.remove_self_weight()
         
     
+    def remove_load(self, load):
+        """ Removes 'load' from the loads and from the load case of the frame """
+        self.loads.pop(load.name)
+        self.load_cases[load.load_id].loads.remove(load)
+        
     def generate_fem(self):
         """ Generates FEM model 
             The idea is that the FEM model is generated once and subsequently
@@ -312,6 +317,11 @@ class Raami:
             if load.load_id not in lcase_ids:
                 self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
 
+        # Load cases without loads
+        for load_id in self.load_cases:
+            if load_id not in self.fem.loadcases:
+                self.fem.add_loadcase(supp_id=1,load_id=load_id)
+
         # Set nodal degrees of freedom
         self.fem.nodal_dofs()
     
-- 
2.43.0


From 990924a7ef49613f27d864b488dbc72a830707da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 020/257] fix: load combination ignored the user factor of a
 load

---
 metku/raami/frame_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 6171533..91f587f 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -206,7 +206,7 @@ class Load:
             if comb_type == 'ULS':
                 factor = 1.15
         
-        self.f = factor
+        self.f *= factor
             
 
 class PointLoad(Load):
-- 
2.43.0


From 80cc137f90ee14678c9365ba44b18f8f41c12528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 021/257] fix: combining again left the old loads in the load
 case of the combination

---
 metku/raami/frame_loads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 91f587f..3f76e95 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -134,6 +134,9 @@ class LoadCombination:
         for key in keys_to_delete:
             del self.frame.loads[key]
 
+        if self.comb_id in self.frame.load_cases:
+            self.frame.load_cases[self.comb_id].loads.clear()
+
     def combine_loads(self):
         """ Does the actual load combination:
             Each load in each load case is multiplied by its corresponding
-- 
2.43.0


From bc069ce0c504a4630fc8c122e030a77a5569d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 022/257] fix: coordinates of frame nodes created with integers
 were truncated when moved

---
 metku/raami/frame_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_node.py b/metku/raami/frame_node.py
index 5019de1..852c38a 100644
--- a/metku/raami/frame_node.py
+++ b/metku/raami/frame_node.py
@@ -33,7 +33,7 @@ class FrameNode:
             coordinates = coordinates[0]
         
         self.node_id = ""
-        self.coords = np.asarray(coordinates)
+        self.coords = np.array(coordinates, dtype=float)
         self.fem_node = None
         
         self.members = [] # List of members to which the node is connected
-- 
2.43.0


From 39b1f091f900135f8dcdb1b182633187d42b2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 023/257] fix: moving a frame node left the internal FEM nodes
 of its members in place

---
 metku/raami/frame_member.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 877e7bc..c0e949a 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -339,6 +339,10 @@ class FrameMember:
         """ Clear global node coordinates and recalculate those """
         self.global_node_coords.clear()
         self.calc_nodal_coordinates()
+        
+        # Move also the internal FEM nodes, if they exist
+        for node, x in zip(self.fem_nodes[1:-1],self.global_node_coords[1:-1]):
+            node.coord[:] = x
 
     def calc_nodal_coordinates(self, num_elements=0):
         """ Calculates nodal coordinates along the member 
-- 
2.43.0


From 0d601ca116a99d88bdb519ad481f1d9d23ff12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 024/257] fix: get_max_forces compared absolute values, minimum
 and maximum over load cases were wrong

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index c0e949a..e83c9d4 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -518,7 +518,7 @@ class FrameMember:
                     if result_dict[key]["load_id"] is None:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
-                    elif abs(val) > abs(result_dict[key][force]):
+                    elif val != result_dict[key][force] and func(val, result_dict[key][force]) == val:
                         result_dict[key] = {key: value[idx] for key, value in sliced_dict[load_id].items()}
                         result_dict[key]["load_id"] = load_id
 
-- 
2.43.0


From 278e7242b8061a344ea6078d3329c3f16ee2d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 025/257] fix: members added to a member group were added to
 all groups created without members

---
 metku/raami/frame_member.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index e83c9d4..cc579d8 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1401,7 +1401,8 @@ class MemberGroup:
 
         """
 
-        self.members = members
+        # copy: the default list is shared by all groups
+        self.members = list(members)
         if len(members) == 0:
             self.cross_section = None
             self.frame = None
-- 
2.43.0


From 164921c31901f497d8fd98f64d441dae8bb77342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 026/257] fix: profile list of a square hollow section was the
 list of rectangular hollow sections

---
 metku/raami/frame_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index cc579d8..48063f3 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -48,10 +48,10 @@ def profile_list(cross_section,prof_type="CURRENT",Tmin=3.0,sec_class=3):
             prof_type = "HEA"
         elif isinstance(cross_section,HEB):
             prof_type = "HEB"
-        elif isinstance(cross_section,RHS):
-            prof_type = "RHS"
         elif isinstance(cross_section,SHS):
             prof_type = "SHS"
+        elif isinstance(cross_section,RHS):
+            prof_type = "RHS"
         elif isinstance(cross_section,CHS):
             prof_type = "CHS"
         else:
-- 
2.43.0


From a460adfad16b461c3d06fbb3e237ebd4a69f9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 027/257] fix: slenderness limit was ignored in the optimum
 design of a member group

---
 metku/raami/frame_member.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 48063f3..9b25bc0 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -1509,17 +1509,17 @@ class MemberGroup:
             if sec.section_class() > sec_class:
                 continue
             
+            too_slender = False
             for member in self.members:
                 # For multispan members, the member of a group contains
                 # several members.
-                if isinstance(member,MultiSpanMember):
-                    for mem in member.members:
-                        if any(mem.member.slenderness() > max_slenderness):
-                            continue
-                else:
-                    if any(member.member.slenderness() > max_slenderness):
-                        continue
+                mems = member.members if isinstance(member,MultiSpanMember) else [member]
+                for mem in mems:
+                    if any(mem.member.slenderness() > max_slenderness):
+                        too_slender = True
             
+            if too_slender:
+                continue
             
             for load_id in self.frame.load_ids:   
                 self.design(load_id)
-- 
2.43.0


From 27e89ba5de137bcf039600b22dfbc0c27b8e4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 028/257] fix: profiles of the SHS and CHS lists could not be
 created by name

---
 metku/sections/steel/catalogue.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metku/sections/steel/catalogue.py b/metku/sections/steel/catalogue.py
index 51e988f..47230bc 100644
--- a/metku/sections/steel/catalogue.py
+++ b/metku/sections/steel/catalogue.py
@@ -1325,6 +1325,20 @@ def make_rhs(key,material="S355"):
     
     return RHS(p[0],p[1],p[2],fy=material)    
 
+def make_shs(key,material="S355"):
+    """ Makes an SHS section out of the 'key' used """
+    from metku.sections.steel.RHS import SHS
+    p = shs_profiles['SHS ' + key]
+    
+    return SHS(p['h'],p['t'],fy=material)
+
+def make_chs(key,material="S355"):
+    """ Makes a CHS section out of the 'key' used """
+    from metku.sections.steel.CHS import CHS
+    p = chs_profiles['CHS ' + key]
+    
+    return CHS(p['d'],p['t'],fy=material)
+
 def make_section(key,material="S355"):
     """ Makes a steel section out of key """
     import re
@@ -1337,6 +1351,10 @@ def make_section(key,material="S355"):
         p = make_ipe(prof_name[1],material)
     elif prof_name[0] == "RHS":
         p = make_rhs(prof_name[1],material)
+    elif prof_name[0] == "SHS":
+        p = make_shs(prof_name[1],material)
+    elif prof_name[0] == "CHS":
+        p = make_chs(prof_name[1],material)
     elif prof_name[0] == "HE":
         if prof_name[2] == "A":
             p = make_hea(prof_name[1],material)
-- 
2.43.0


From 4d248039190eb603d1b6e47c46459e947dca7fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 029/257] fix: piecewise line load ignored the step on vertical
 and reversed members

---
 metku/raami/frame_loads.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 3f76e95..774ffe2 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -369,10 +369,12 @@ class PWLineLoad(Load):
         """ Add the load to the FEM model """
         #k = self.calc_k()
         qval = self.f*self.values
-        xdiv = self.member.local_to_global(self.xdiv)[0]
+        xdiv = self.xdiv
         
         for elem in self.member.fem_elements:
-            X = [elem.nodes[0].x,elem.nodes[1].x]
+            # Local coordinates of the ends of the element (rounded to
+            # avoid numerical noise at the step)
+            X = [round(self.member.global_to_local(node.coord),9) for node in elem.nodes]
             X.sort()
             if X[1] <= xdiv:
                 q = qval[0]
-- 
2.43.0


From f4aed6345b6c2bbe6bcf4bcece82aafb914d7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 030/257] fix: changing the buckling lengths of a frame member
 raised TypeError in its design

---
 metku/raami/frame_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/frame_member.py b/metku/raami/frame_member.py
index 9b25bc0..9e741db 100644
--- a/metku/raami/frame_member.py
+++ b/metku/raami/frame_member.py
@@ -219,7 +219,7 @@ class FrameMember:
         self.__lcr = val
         
         if not self.member is None:
-            self.member.lcr = val
+            self.member.lcr = np.array(val)
     
     def coords(self):
         """ Return nodal coordinates """
-- 
2.43.0


From b530ac471b1d9dce4aca9e5b0ffb487060a08844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 031/257] fix: CHS could not be designed (scalar properties,
 signatures differ from SteelSection)

---
 metku/sections/steel/CHS.py | 61 ++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index c025439..2b110d3 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -30,12 +30,13 @@ class CHS(SteelSection):
         self.D = D
         self.T = T
         
+        # Properties are equal with respect to both principal axes
         A = self.area()
         Au = self.paint_area()
-        I = self.second_moment()
-        Ashear = self.shear_area()
-        Wel = self.elastic_modulus()
-        Wpl = self.plastic_modulus()
+        I = [self.second_moment()]*2
+        Ashear = [self.shear_area()]*2
+        Wel = [self.elastic_modulus()]*2
+        Wpl = [self.plastic_modulus()]*2
         self.It = self.torsion_modulus()
         self.Iw = 0.0
 
@@ -44,6 +45,14 @@ class CHS(SteelSection):
 
         self.imp_factor = [en1993_1_1.buckling_curve["c"],en1993_1_1.buckling_curve["c"]]
 
+    @property
+    def h(self):
+        return self.D
+
+    @property
+    def b(self):
+        return self.D
+
     def __repr__(self):
         return f"{type(self).__name__} {self.D:.0f}X{self.T:.1f}"
 
@@ -89,7 +98,7 @@ class CHS(SteelSection):
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
         
-    def web_class_comp_bend(self, verb=False):
+    def web_class_comp_bend(self, Ned, verb=False):
         r = self.D/self.T
         cWeb = en1993_1_1.CHS_class(r,self.eps)
         return cWeb
@@ -97,43 +106,19 @@ class CHS(SteelSection):
     def flange_class(self, verb=False):
         return 1
     
-    def bending_resistance(self, C=0, verb=False):
-        # Bending resistance, Nmm
-        if C == 0:
-            C = self.section_class()
-
-        if C < 3:
-            WRd = self.Wpl
-        elif C == 3:
-            WRd = self.Wel
-        else:
-            #raise NotImplementedError(f"Cross-section class 4 not implemented in: {self}")
-            warnings.warn(f"!Cross-section class 4 not implemented for CHS profiles! "
-                  f"\nUsing elastic bending resistance, check results accordingly!", UserWarning, stacklevel=2)
-
-            WRd = self.Wel
-
-        MRd = self.code.bending_resistance(WRd, self.fy)
+    def moment_axial_force_interact(self, UN, MRd):
+        """ This interaction formula is only for plastic design
 
-        if verb:
-            print("MRd = {0:4.2f} kNm".format(MRd * 1e-6))
-
-        return MRd, C
-    
-    def MomentAxialForceInteract(self):
-        """ This interaction formula is only for plastic design """
-        MRd = self.BendingResistance(1);
-        NRd = self.AxialForceResistance;
-            
-        """ EN 1993-1-1: 6.2.9.1(5)
+            EN 1993-1-1: 6.2.9.1(5)
             In class 1 or 2 use plastic design
-        """
-        n = abs(self.Ned)/NRd;
 
-        if n > 1.0:
-            MNRd = 0
+            input: UN .. NEd/NRd
+                  MRd .. moment resistance
+        """
+        if UN > 1.0:
+            MNRd = 0.0
         else:
-            MNRd = MRd*min(1-n**1.7,1)
+            MNRd = MRd*min(1-UN**1.7,1)
 
         return MNRd
     
-- 
2.43.0


From aa7c9c257847fb84f2ceffc78da614ffac40b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 032/257] fix: properties of CustomCHS raised AttributeError

---
 metku/sections/steel/CHS.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/metku/sections/steel/CHS.py b/metku/sections/steel/CHS.py
index 2b110d3..e201e4d 100644
--- a/metku/sections/steel/CHS.py
+++ b/metku/sections/steel/CHS.py
@@ -176,16 +176,13 @@ class CustomCHS(CHS):
                 
             return self.area()
         elif name == "I":
-            I = self.second_moment()
-            #if I[1] < 0:
-            #    print(self.h, self.b, self.tt, self.tb, self.tw)
-            return self.second_moment()
+            return [self.second_moment()]*2
         elif name == "Wel":
-            return self.section_modulus()
+            return [self.elastic_modulus()]*2
         elif name == "Wpl":
-            return self.plastic_section_modulus()
+            return [self.plastic_modulus()]*2
         elif name == "Ashear":
-            return self.shear_area()
+            return [self.shear_area()]*2
         elif name == "Au":
             return self.paint_area()
         elif name == "It":
-- 
2.43.0


From 68790c11ff1e5c9cba5965e1d0b091227db027a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 033/257] fix: shear area of RHS with respect to the horizontal
 axis was A/2 for all profiles

---
 metku/sections/steel/RHS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 0675623..15d2352 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -138,7 +138,7 @@ class RHS(SteelSection):
             I[0] = RHS_second_moment(self.H, self.B, self.T, self.R)
             I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
             self.I = np.asarray(I)
-            self.Ashear = [RHS_shear_area(self.A, self.B, self.B),RHS_shear_area(self.A, self.H, self.B)]
+            self.Ashear = [RHS_shear_area(self.A, self.B, self.H),RHS_shear_area(self.A, self.H, self.B)]
             self.Au = RHS_paint_area(self.H, self.B, self.R)
             Wel = [0.0, 0.0]
             Wel[0] = RHS_elastic_modulus(self.H, I[0])
-- 
2.43.0


From 9cdf98ede52704f11374035b8e81ec20762a05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 034/257] fix: perimeter of I-sections was two web thicknesses
 too small

---
 metku/sections/steel/ISection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 049a40c..0e813e6 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -716,7 +716,7 @@ def cross_section_properties(b, h, tf, tw, r):
     A = 2.0 * tf * b + (h - 2.0 * tf) * tw + (4.0 - math.pi) * r ** 2.0
 
     # Perimeter of cross-section
-    Au = 4 * (b - 2 * r) + 2 * (h - 2 * tw) + 2 * math.pi * r
+    Au = 4 * (b - 2 * r) + 2 * (h - tw) + 2 * math.pi * r
 
     # Shear area [mm^2]    
     Ashear = A - 2.0 * b * tf + (tw + 2.0 * r) * tf
-- 
2.43.0


From 8a682fa3d6d478c3efa2bb38ade68cb41481ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 035/257] fix: perimeter of welded I-sections lacked one top
 flange width

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 951f2d5..1d221f3 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -604,7 +604,7 @@ class WISection(SteelSection):
 
     def paint_area(self):
         """ Area to be painted (circumference of the section) """
-        return 2 * self.tt + self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
+        return 2 * self.tt + 2 * self.bt + 2 * self.hw + 2 * self.tb + 2 * self.bb \
                - 2 * self.tw
 
     def elastic_neutral_axis(self):
-- 
2.43.0


From eb0f36e386cd0cb17ce9d4c5563bfb4fcede51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 036/257] fix: setting a property of a rotated section changed
 the properties of both axes

---
 metku/sections/steel/steel_section.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index 5898d3f..e83f679 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -181,7 +181,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iy(self, val):
         if self.rotate:
             self.I[1] = val
-        self.I[0] = val
+        else:
+            self.I[0] = val
 
     @property
     def Iz(self):
@@ -193,7 +194,8 @@ class SteelSection(metaclass=ABCMeta):
     def Iz(self, val):
         if self.rotate:
             self.I[0] = val
-        self.I[1] = val
+        else:
+            self.I[1] = val
 
     @property
     def Wply(self):
@@ -205,7 +207,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wply(self, val):
         if self.rotate:
             self.Wpl[1] = val
-        self.Wpl[0] = val
+        else:
+            self.Wpl[0] = val
 
     @property
     def Wplz(self):
@@ -217,7 +220,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wplz(self, val):
         if self.rotate:
             self.Wpl[0] = val
-        self.Wpl[1] = val
+        else:
+            self.Wpl[1] = val
 
     @property
     def Wely(self):
@@ -229,7 +233,8 @@ class SteelSection(metaclass=ABCMeta):
     def Wely(self, val):
         if self.rotate:
             self.Wel[1] = val
-        self.Wel[0] = val
+        else:
+            self.Wel[0] = val
 
     @property
     def Welz(self):
@@ -241,7 +246,8 @@ class SteelSection(metaclass=ABCMeta):
     def Welz(self, val):
         if self.rotate:
             self.Wel[0] = val
-        self.Wel[1] = val
+        else:
+            self.Wel[1] = val
 
     @property
     def section_factor(self):
-- 
2.43.0


From bec36f51b1c171531fd4215f36e03b84c4a25d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 037/257] fix: I-sections could not be created with the name of
 the steel grade

---
 metku/sections/steel/ISection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 0e813e6..5c04aec 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -47,14 +47,14 @@ class ISection(SteelSection):
         """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
         if H / B > 1.2:
             if tf <= 40:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
                 else:
                     buck_y = "a0"
                     buck_z = "a0"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
@@ -62,14 +62,14 @@ class ISection(SteelSection):
                     buck_z = "a"
         else:
             if tf <= 100:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
                 else:
                     buck_y = "a"
                     buck_z = "a"
             else:
-                if fy <= 420:
+                if self.fy <= 420:
                     buck_y = "d"
                     buck_z = "d"
                 else:
-- 
2.43.0


From 270c54bce61c78388c7c72360d81197b7c2ddb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 038/257] fix: updated CustomISection had scalar shear area and
 the old height and width

---
 metku/sections/steel/ISection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 5c04aec..921e8d7 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -703,7 +703,13 @@ class CustomISection(ISection):
 
     def cross_section_properties(self):
         args = cross_section_properties(self.B, self.H, self.tf, self.tw, self.r)
-        self.A, self.Au, self.Ashear, self.I, self.It, self.Iw, self.Wpl, self.Wel = args
+        self.A, self.Au, Ashear, I, self.It, self.Iw, Wpl, Wel = args
+        self.h = self.H
+        self.b = self.B
+        self.Ashear = [0.0, Ashear]
+        self.I = np.asarray(I)
+        self.Wpl = np.asarray(Wpl)
+        self.Wel = np.asarray(Wel)
 
 
 def cross_section_properties(b, h, tf, tw, r):
-- 
2.43.0


From e5f11cabf774756ddadd1cbd16c1b1c82e8aa25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 039/257] fix: neutral axis and section modulus of WQ-sections

---
 metku/sections/steel/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/steel/wq.py b/metku/sections/steel/wq.py
index 6f2896c..999ed23 100644
--- a/metku/sections/steel/wq.py
+++ b/metku/sections/steel/wq.py
@@ -221,7 +221,7 @@ class WQSection(SteelSection):
         """ Elastic neutral axis 
             measured from the bottom of the section
         """
-        zel = (self.zb*self.Ab + self.zw*self.Aw + self.zt*self.At)/self.area()
+        zel = (self.zb*self.Ab + self.zw*2*self.Aw + self.zt*self.At)/self.area()
         return zel
     
     def plastic_neutral_axis(self):
@@ -256,7 +256,7 @@ class WQSection(SteelSection):
         zel = self.elastic_neutral_axis()
         
         # distance of neutral axis from the top of the section
-        ztop = self.h+self.bb - zel
+        ztop = self.height - zel
         
         Wel =[0,0]
         Wel[0] = I[0]/max(zel,ztop)
-- 
2.43.0


From 449fd5d2aa7d5477c57cd1af0be756f59bc805b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 040/257] fix: cross-section parts of steels weaker than S235
 were always in class 1

---
 metku/eurocodes/en1993/en1993_1_1.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 9a19777..701fb85 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -70,8 +70,8 @@ def internal_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Large value of e means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -97,8 +97,8 @@ def internal_part_comp_bend(r, e, a, p):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Large value of e means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
@@ -137,8 +137,8 @@ def outstand_part_in_compression(r, e):
     
     """
 
-    # If e > 1, it means that e is actually yield strength
-    if e > 1.0:
+    # Large value of e means that e is actually yield strength
+    if e > 10.0:
         e = epsilon(e)
 
     C = 4
-- 
2.43.0


From c79cfdefe8425d9363348954d1c4cb8d2f7570fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 041/257] fix: class of the web of an I-section in bending and
 compression depended on the sign of the moment

---
 metku/sections/steel/ISection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index 921e8d7..abe3b49 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -239,11 +239,17 @@ class ISection(SteelSection):
         
         """ Calculate stresses for class 3 check """
         sN = self.sigmaN()
-        sM = self.sigmaM() 
+        # The web is classified for the more compressed edge: the sign
+        # of the bending moment does not matter
+        sM = abs(self.sigmaM())
     
         cw = self.hw
         tw = self.tw
         rw = cw / tw
+
+        if sN >= cw/self.h*sM:
+            # Only tension in the web
+            return 1
                 
     
         if approach == 2:
-- 
2.43.0


From 98adbd7ba12a3949036efb85bdd010cabb250075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 042/257] fix: web of RHS in bending and compression was in
 class 2 whatever its slenderness

---
 metku/sections/steel/RHS.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/RHS.py b/metku/sections/steel/RHS.py
index 15d2352..cad248f 100644
--- a/metku/sections/steel/RHS.py
+++ b/metku/sections/steel/RHS.py
@@ -228,8 +228,36 @@ class RHS(SteelSection):
         return cWeb    
 
     def web_class_comp_bend(self, Ned, verb=False):
+        """ Determine class of webs in combined bending and compression.
+            Axial force is given and bending moment is increased until
+            the section is plastified.
+        """
+        cw = self.H - 2 * self.R
+        rw = cw / self.T
+        sN = Ned / self.A
+        sM = abs(self.sigmaM())
+
+        if sN >= cw / self.H * sM:
+            # Only tension in the webs
+            return 1
+
+        # Location of the plastic neutral axis
+        a = 0.5 * (1 - Ned / (2 * cw * self.T * self.fy))
+        a = min(max(a, 0.0), 1.0)
+
+        # Ratio of stresses at the extreme fibres
+        p = (sN + sM) / (sN - sM)
 
-        return 2
+        cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
+
+        if verb:
+            print("Web classification (internal part in compression and bending):")
+            print("cw = {0:4.2f}, tw = {1:4.2f}".format(cw, self.T))
+            print("alpha = {0:4.3f}".format(a))
+            print("psi = {0:4.3f}".format(p))
+            print("Web class = {0}".format(cWeb))
+
+        return cWeb
 
     def moment_axial_force_interact(self, UN, MRd):
         """ Interaction rule for section resistance for combined
-- 
2.43.0


From 005a31912da8101355b5f58a1f0e3503e788af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 043/257] fix: class of the web of welded I-sections in bending
 and in bending and compression

---
 metku/sections/steel/wi.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 1d221f3..e92c216 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -533,7 +533,7 @@ class WISection(SteelSection):
             alpha = 0  # TODO tarkista tämä
         else:
             alpha = (self.h - self.tt - math.sqrt(2) * self.weld_throat - dpl) \
-                    / (self.h - self.tt - self.tb - 2 * math.sqrt(2))
+                    / self.cw
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, alpha, psi)
 
@@ -554,11 +554,27 @@ class WISection(SteelSection):
         """ Determine class of web in combined bending and compression 
             TODO tarkista tämä
         """
-        # cw = self.h-2*self.tf-2*self.r
-        rw = self.hw / self.tw
-        Ac = 0.5 * (self.A + Ned / (self.fy / constants.gammaM0))
-        a = Ac / self.A
-        p = -1
+        rw = self.cw / self.tw
+
+        # Top flange is the compressed flange. Stresses at the extreme
+        # fibres for class 3 check.
+        zel = self.elastic_neutral_axis()
+        sN = Ned / self.A
+        sM = abs(self.Med[0]) / self.I[0]
+        s_top = sN - sM * (self.h - zel)
+        s_bottom = sN + sM * zel
+
+        ztop = self.h - self.tt - math.sqrt(2) * self.weld_throat
+        if sN - sM * (ztop - zel) >= 0:
+            # Only tension in the web
+            self.web_class = 1
+            return 1
+
+        # Location of the plastic neutral axis: compression moves the axis
+        # towards the bottom flange
+        dpl = self.plastic_neutral_axis() + 0.5 * Ned / (self.tw * self.fy)
+        a = min(max((ztop - dpl) / self.cw, 0.0), 1.0)
+        p = s_bottom / s_top
 
         cWeb = en1993_1_1.internal_part_comp_bend(rw, self.eps, a, p)
         self.web_class = cWeb
-- 
2.43.0


From 50f8f05a5e9c54b1d06b796087cb3110b3b84e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 044/257] fix: section in bending was in class 1 as soon as
 there was any axial tension

---
 metku/sections/steel/steel_section.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index e83f679..b2c2ab8 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -509,7 +509,13 @@ class SteelSection(metaclass=ABCMeta):
 
         # Axial tension and bending
         elif self.Ned > 0.0 and abs(Med) > 1e-4:
-            C = 1
+            if self.sigmaN() >= abs(self.sigmaM()):
+                # The entire section is in tension
+                C = 1
+            else:
+                Cflange = self.flange_class(verb)
+                Cweb = self.web_class_comp_bend(self.Ned, verb)
+                C = max(Cweb, Cflange)
 
         if verb:
             print("Section class = {0}".format(C))
-- 
2.43.0


From 33252b5b56213b58a834ea2ee6a521a73c66d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 045/257] fix: web area in the bending and axial force
 interaction of welded I-sections included the flanges

---
 metku/sections/steel/wi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index e92c216..0486025 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -595,7 +595,7 @@ class WISection(SteelSection):
                   MRd .. moment resistance           
             TODO tarkista tämä
         """
-        aw = min((self.A - (self.bt * self.tt - self.bb * self.tb))
+        aw = min((self.A - (self.bt * self.tt + self.bb * self.tb))
                  / self.A, 0.5)
 
         if UN > 1.0:
-- 
2.43.0


From bc8c947219713ea01ea611b0456ef9d372a8e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 046/257] fix: interaction factors kyy and kzz of sections in
 class 3

---
 metku/eurocodes/en1993/en1993_1_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index 701fb85..aa201df 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -263,7 +263,7 @@ def kyy(UN, slend, Cmy=1.0, section_class=2):
     if section_class < 3:
         ky = Cmy * (1 + min(slend - 0.2, 0.8) * UN / gammaM1)
     else:
-        ky = Cmy * (1 + min(slend, 0.6) * UN / gammaM1)
+        ky = Cmy * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return ky
 
@@ -297,7 +297,7 @@ def kzz(UN, slend, Cmz, section_class=2, profile="hollow"):
         else:
             kz = Cmz * (1 + min(2 * slend - 0.6, 1.4) * UN / gammaM1)
     else:
-        kz = Cmz * (1 + min(slend, 0.6) * UN / gammaM1)
+        kz = Cmz * (1 + 0.6 * min(slend, 1.0) * UN / gammaM1)
 
     return kz
 
-- 
2.43.0


From c7a0ee9d44aa197a4e6e4aab7ae5459bb2e98e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 047/257] fix: equivalent moment factor of a member with zero
 moment at mid-span

---
 metku/eurocodes/en1993/en1993_1_1.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_1.py b/metku/eurocodes/en1993/en1993_1_1.py
index aa201df..edea046 100644
--- a/metku/eurocodes/en1993/en1993_1_1.py
+++ b/metku/eurocodes/en1993/en1993_1_1.py
@@ -360,16 +360,9 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
             else:
                 Mh = Mend[1]
 
-            if abs(Mh) < 1e-6:
-                # Both end moments are zero in this case
-                alpha = 0
-            else:
-                alpha = Mspan / Mh
-
-            if abs(alpha) > 1.0 or alpha == 0:
+            if abs(Mspan) > abs(Mh):
                 # Moment in the span is larger than the maximum end moment
-                if abs(alpha) > 1.0:
-                    alpha = 1 / alpha
+                alpha = Mh / Mspan
 
                 if alpha >= 0:
                     if load == "uniform":
@@ -389,6 +382,7 @@ def equivalent_moment_factor(Mend, Mspan=None, load="uniform"):
                             Cm = 0.90 + 0.1 * alpha * (1 + 2 * p)
             else:
                 # Moment in span is smaller than the maximum end moment
+                alpha = Mspan / Mh
                 if alpha >= 0:
                     Cm = max(0.2 + 0.8 * alpha, 0.4)
                 else:
-- 
2.43.0


From e562fe780b66400d60c2f3d789b5151810aab851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 048/257] fix: section class in the beam-column check was that
 of the section checked last

---
 metku/structures/steel/steel_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 0b5d561..2cc4f99 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -680,6 +680,7 @@ class SteelMember:
         # find the largest compression force in the member
         NEd = self.NcEd
         self.profile.Ned = NEd
+        self.profile.Med[0] = MyEd
 
         if section_class is None:
             cross_section_class = self.profile.section_class()
@@ -731,8 +732,7 @@ class SteelMember:
         # MzEd2 = abs(np.min(np.array(self.mzed)))
         # MzEd = max(MzEd1, MzEd2)
 
-        # MRd = self.profile.bending_resistance(C=cross_section_class)
-        MRd = self.profile.MRd
+        MRd, _ = self.profile.bending_resistance(C=cross_section_class)
 
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
-- 
2.43.0


From d0624775002797e68df8258afaaced35a029bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 049/257] fix: beam-column check of members susceptible to
 lateral-torsional buckling

---
 metku/structures/steel/steel_member.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index 2cc4f99..a1c9fe2 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -705,8 +705,9 @@ class SteelMember:
 
         if self.LTB:
             # Member is susceptible to lateral-torsional buckling
-            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.CmLT,
-                                 section_class=cross_section_class)
+            kzy = en1993_1_1.kzy(kyy, UNz, slend[1], CmLT=self.__CmLT,
+                                 section_class=cross_section_class,
+                                 susceptible_to_torsion=True)
         else:
             MzEd = self.MEdZ
 
@@ -734,6 +735,10 @@ class SteelMember:
 
         MRd, _ = self.profile.bending_resistance(C=cross_section_class)
 
+        if self.LTB:
+            # chi_LT*MRd
+            MRd = self.LT_buckling_strength(self.mcrit(), MRd=MRd)
+
         com_comp_bend_y = -NEd / NbRd[0] + kyy * MyEd / MRd
         com_comp_bend_z = -NEd / NbRd[1] + kzy * MyEd / MRd
 
-- 
2.43.0


From dd5bd07aafc1aa926b11c061b011c66370b19ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 050/257] fix: stability utilizations of earlier forces were
 left in place

---
 metku/structures/steel/steel_member.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index a1c9fe2..c35c925 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -660,8 +660,12 @@ class SteelMember:
             output: r .. utilization ratio for buckling        
         """
         MEd = self.MEdY
+        # Section class for the largest forces of the member
+        self.profile.Ned = self.NcEd
+        self.profile.Med[0] = MEd
         MbRd = self.LT_buckling_strength(self.mcrit())
         r = abs(MEd) / MbRd
+        self.stability['LTB'] = r
 
         return r
 
@@ -787,6 +791,10 @@ class SteelMember:
 
         rmax = np.max(rsec)
 
+        # Forget the results of an earlier design
+        for key in self.stability:
+            self.stability[key] = 0.0
+
         """ Check stability """
         if self.LTB:
             rLTB = self.check_LT_buckling()
-- 
2.43.0


From 453b9a8c3471cba5d7e6172bdab6a46498db2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 051/257] fix: mcrit_buckling did not return the critical
 moment

---
 metku/structures/steel/steel_member.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index c35c925..cbb15b0 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -560,6 +560,8 @@ class SteelMember:
             print("Ncr_z = {0:4.2f} kN".format(Ncrz * 1e-3))
             print("Mcr = {0:6.4f} kNm".format(Mcr * 1e-6))
 
+        return Mcr
+
     def add_section(self, ned=0.0, myed=0.0, mzed=0.0, vyed=0.0, vzed=0.0,
                     ted=0.0, loc=0.0):
         """ Adds new section with internal forces and location """
-- 
2.43.0


From 8f9305b831fbc5b0143d8259a6be6e89826195a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 052/257] fix: Wagner's factor was computed with respect to the
 bottom of the section

---
 metku/sections/steel/wi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 0486025..6f04319 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -467,9 +467,10 @@ class WISection(SteelSection):
             Book 2, 7.1.2 Mono-symmetrical I cross-sections
         """
 
-        zf1 = self.zt
-        zf2 = self.zb
-        zw = self.zw
+        zG = self.elastic_neutral_axis()
+        zf1 = self.zt - zG
+        zf2 = self.zb - zG
+        zw = self.zw - zG
         Izf1 = self.Izt
         Izf2 = self.Izb
         Izw = self.Izw
-- 
2.43.0


From d3fce41c06a60cdc90fde1d1597d23f9ae2cc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 053/257] fix: buckling curves of I-sections were those of the
 dimensions and the steel at creation

---
 metku/sections/steel/ISection.py      | 37 +++++++++++++++++----------
 metku/sections/steel/steel_section.py |  4 ++-
 metku/sections/steel/wi.py            | 33 ++++++++++++++----------
 3 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/metku/sections/steel/ISection.py b/metku/sections/steel/ISection.py
index abe3b49..c6e1259 100644
--- a/metku/sections/steel/ISection.py
+++ b/metku/sections/steel/ISection.py
@@ -44,9 +44,13 @@ class ISection(SteelSection):
         self.It = It
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
-        """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if H / B > 1.2:
-            if tf <= 40:
+    @property
+    def imp_factor(self):
+        """ Imperfection factors for flexural buckling (y and z axes):
+            EN 1993-1-1, Table 6.2
+        """
+        if self.h / self.b > 1.2:
+            if self.tf <= 40:
                 if self.fy <= 420:
                     buck_y = "a"
                     buck_z = "b"
@@ -61,7 +65,7 @@ class ISection(SteelSection):
                     buck_y = "a"
                     buck_z = "a"
         else:
-            if tf <= 100:
+            if self.tf <= 100:
                 if self.fy <= 420:
                     buck_y = "b"
                     buck_z = "c"
@@ -76,17 +80,22 @@ class ISection(SteelSection):
                     buck_y = "c"
                     buck_z = "c"
 
-        self.imp_factor = [en1993_1_1.buckling_curve[buck_y],
-                           en1993_1_1.buckling_curve[buck_z]]
-        
-        
-        if H/B <= 2.0:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["a"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["b"]
-        else:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["b"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
+        return [en1993_1_1.buckling_curve[buck_y],
+                en1993_1_1.buckling_curve[buck_z]]
+
+    @property
+    def imp_factor_LT_gen(self):
+        """ Imperfection factor for lateral-torsional buckling, general case """
+        if self.h / self.b <= 2.0:
+            return en1993_1_1.buckling_curve["a"]
+        return en1993_1_1.buckling_curve["b"]
 
+    @property
+    def imp_factor_LT(self):
+        """ Imperfection factor for lateral-torsional buckling of rolled sections """
+        if self.h / self.b <= 2.0:
+            return en1993_1_1.buckling_curve["b"]
+        return en1993_1_1.buckling_curve["c"]
 
     def __repr__(self):
         return f"{type(self).__name__} {self.h:.0f}"
diff --git a/metku/sections/steel/steel_section.py b/metku/sections/steel/steel_section.py
index b2c2ab8..7efeaef 100644
--- a/metku/sections/steel/steel_section.py
+++ b/metku/sections/steel/steel_section.py
@@ -41,6 +41,9 @@ class SteelSection(metaclass=ABCMeta):
     
     """
 
+    # Imperfection factors for flexural buckling, given by the subclasses
+    imp_factor = None
+
     # Constructor
     def __init__(self,
                  material,
@@ -127,7 +130,6 @@ class SteelSection(metaclass=ABCMeta):
 
         self.Ted = Ted
 
-        self.imp_factor = None
         self.code = design_code
         self.density = constants.density
         self.rotate = False
diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 6f04319..8847e56 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -79,20 +79,27 @@ class WISection(SteelSection):
 
         super().__init__(fy, A, I, Au, Wpl, Wel, Ashear)
 
-        """ Determine buckling curve: EN 1993-1-1, Table 6.2 """
-        if max(tf) <= 40:
-            self.imp_factor = [en1993_1_1.buckling_curve["b"],
-                               en1993_1_1.buckling_curve["c"]]
-        else:
-            self.imp_factor = [en1993_1_1.buckling_curve["c"],
-                               en1993_1_1.buckling_curve["d"]]
+    @property
+    def imp_factor(self):
+        """ Imperfection factors for flexural buckling (y and z axes):
+            EN 1993-1-1, Table 6.2
+        """
+        if max(self.tf) <= 40:
+            return [en1993_1_1.buckling_curve["b"],
+                    en1993_1_1.buckling_curve["c"]]
+        return [en1993_1_1.buckling_curve["c"],
+                en1993_1_1.buckling_curve["d"]]
 
-        if h / min(b) <= 2.0:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["c"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["c"]
-        else:
-            self.imp_factor_LT_gen = en1993_1_1.buckling_curve["d"]
-            self.imp_factor_LT = en1993_1_1.buckling_curve["d"]
+    @property
+    def imp_factor_LT_gen(self):
+        """ Imperfection factor for lateral-torsional buckling """
+        if self.h / min(self.b) <= 2.0:
+            return en1993_1_1.buckling_curve["c"]
+        return en1993_1_1.buckling_curve["d"]
+
+    @property
+    def imp_factor_LT(self):
+        return self.imp_factor_LT_gen
 
     def __repr__(self):
         s = f'WI{self.h:.0f}-{self.tw:.0f}-'
-- 
2.43.0


From 53d108697f059a6cb970496e8fa57368e5349e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 054/257] fix: equivalent moment factor of earlier forces was
 used for a member without end moments

---
 metku/structures/steel/steel_member.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/structures/steel/steel_member.py b/metku/structures/steel/steel_member.py
index cbb15b0..87d11c9 100644
--- a/metku/structures/steel/steel_member.py
+++ b/metku/structures/steel/steel_member.py
@@ -213,9 +213,7 @@ class SteelMember:
             except:
                 Mspan = None
 
-            self.__Cmy = en1993_1_1.equivalent_moment_factor(Mend, Mspan, load)
-
-        return self.__Cmy
+            return en1993_1_1.equivalent_moment_factor(Mend, Mspan, load)
 
     def ncrit(self, verb=False):
         """ Buckling force according to Euler """
-- 
2.43.0


From e462f97ef57696976254a7db2ba38c649a9a0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 055/257] fix: optimize_members stopped when only profiles of
 member groups had changed

---
 metku/raami/raami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 133c9a0..21e75ec 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -441,7 +441,7 @@ class Raami:
                 
             # Go through groups first
             for group in self.member_groups.values():                
-                group.optimum_design(prof_type,verb)
+                MEM_PROFILES_CHANGED.append(group.optimum_design(prof_type,verb))
                 
                 for mem in group.members:
                     explored.append(mem)
-- 
2.43.0


From 075f05df51c91705f23b589dc887e1926d13cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 056/257] fix: symmetry paired members whose unpaired node is
 off the axis of symmetry

---
 metku/raami/raami.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/raami/raami.py b/metku/raami/raami.py
index 21e75ec..6c13f57 100644
--- a/metku/raami/raami.py
+++ b/metku/raami/raami.py
@@ -860,9 +860,17 @@ class Raami:
                     sym_nodes = []
                     for node in mem.nodes:
                         if node.symmetry_node is None:
+                            if axis == 'y' and abs(node.x-sym_value) > 1e-6:
+                                # Only nodes on the axis are mirror images
+                                # of themselves: the member has no pair.
+                                sym_nodes = None
+                                break
                             sym_nodes.append(node)
                         else:
                             sym_nodes.append(node.symmetry_node)
+                    
+                    if sym_nodes is None:
+                        continue
                             
                     # Explore the remaining members
                     for sym_key in self.members.keys():
-- 
2.43.0


From 181fbd0150d8b48f6dda1bf327a4689e782e391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 057/257] fix: scaling of a variable was ignored when it has
 several target properties

---
 metku/optimization/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 3a87151..f7c9529 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -177,8 +177,10 @@ class Variable:
                                     new_val = new_value * self.scaling
 
                                 obj.__setattr__(p, new_val)
-                            else:
+                            elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            else:
+                                obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
@@ -453,7 +455,7 @@ class CrossSectionVariable(Variable):
 
                             obj.__setattr__(p, new_val)
                         else:
-                            obj.__setattr__(p, new_value)
+                            obj.__setattr__(p, new_value * self.scaling)
                 else:
                     obj.cross_section.__setattr__(prop, new_value * self.scaling)
 
-- 
2.43.0


From 3843df43f9a88dd626fb1bf5231f6b1da450850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 058/257] fix: value of a locked index variable was changed by
 substitution

---
 metku/optimization/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index f7c9529..07cc7d3 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -333,7 +333,8 @@ class IndexVariable(IntegerVariable):
                 " index or a value from the given list!\n"
                 f"Values: {self.values}")
 
-        self.value = new_value
+        if not self.locked:
+            self.value = new_value
 
     # @property
     # def idx(self):
-- 
2.43.0


From 80b96d6f4709a2eeed8e2be72cbdf87fb24043d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 059/257] fix: index variables had no index for linear
 constraints and linearization

---
 metku/optimization/variables.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 07cc7d3..7b6df64 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -336,11 +336,10 @@ class IndexVariable(IntegerVariable):
         if not self.locked:
             self.value = new_value
 
-    # @property
-    # def idx(self):
-    #     if self.value in self.values:
-    #         return self.values.index(self.value)
-    #     return self.value
+    @property
+    def idx(self):
+        """ Index of the current value in the list of values """
+        return self.value
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From 7161a78e0c34825ae0816f95ddb84f9cd058b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 060/257] fix: arguments of CrossSectionVariable were passed on
 in the wrong order

---
 metku/optimization/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 7b6df64..32ace0d 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -422,7 +422,7 @@ class CrossSectionVariable(Variable):
 
     def __init__(self, name, lb=XLB, ub=XUB, target=None, profiles=None, value=None, target_fun=None):
 
-        super().__init__(name, lb, ub, target, profiles, value, target_fun=target_fun)
+        super().__init__(name, lb, ub, target=target, profiles=profiles, value=value, target_fun=target_fun)
 
     def substitute(self, new_value):
         """
-- 
2.43.0


From 3e734b0ad2993ce082a3314214b675eae03b8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 061/257] fix: member existence variable did not make the
 member active again

---
 metku/optimization/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 32ace0d..60e3c8e 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -192,6 +192,8 @@ class Variable:
                         if new_value == 1:
                             if prop == 'profile' or prop == 'cross_section':
                                 obj.__setattr__(prop, self.section)
+                            elif prop == 'member':
+                                obj.__setattr__('active', True)
                         else:
                             """ If the target of a binary variable is a member,
                                 the binary variable is a member existence variable
-- 
2.43.0


From de4879ac9255a0fb40042cae8339017e1d10e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 062/257] fix: add_variable and add_variables did not add the
 variables

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8d054c0..b0e7947 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -657,12 +657,12 @@ class OptimizationProblem:
 
     def add_variable(self, var):
         """ Adds new variable to the problem """
-        self.vars.append(var)
+        self.add(var)
 
     def add_variables(self, variables):
         """ Adds new variables to the problem """
         for var in variables:
-            self.vars.append(var)
+            self.add(var)
 
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
-- 
2.43.0


From 6e0464ed8944bb340a5e75741a2402cb41ec9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 063/257] fix: binary variable with a list of target properties
 wrote 0 or 1 into its target

---
 metku/optimization/variables.py | 39 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 60e3c8e..27c7979 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -179,29 +179,15 @@ class Variable:
                                 obj.__setattr__(p, new_val)
                             elif isinstance(self, IndexVariable):
                                 obj.__setattr__(p, new_value)
+                            elif isinstance(self, BinaryVariable):
+                                self.substitute_binary(obj, p, new_value)
                             else:
                                 obj.__setattr__(p, new_value * self.scaling)
 
                     elif isinstance(self, IndexVariable):
                         obj.__setattr__(prop, new_value)
                     elif isinstance(self, BinaryVariable):
-                        """ If a binary variable has a target, assume that target
-                            is the section to be substituted. The section is
-                            given in the 'section' attribute of the variable.
-                        """
-                        if new_value == 1:
-                            if prop == 'profile' or prop == 'cross_section':
-                                obj.__setattr__(prop, self.section)
-                            elif prop == 'member':
-                                obj.__setattr__('active', True)
-                        else:
-                            """ If the target of a binary variable is a member,
-                                the binary variable is a member existence variable
-                                used in topology optimization. In that case,
-                                mark the member as passive.
-                            """
-                            if prop == 'member':
-                                obj.__setattr__('active', False)
+                        self.substitute_binary(obj, prop, new_value)
                     else:
                         obj.__setattr__(prop, new_value * self.scaling)
 
@@ -296,6 +282,25 @@ class BinaryVariable(IntegerVariable):
         self.section = section
         self.objects = objects
 
+    def substitute_binary(self, obj, prop, new_value):
+        """ If a binary variable has a target, assume that target
+            is the section to be substituted. The section is
+            given in the 'section' attribute of the variable.
+        """
+        if new_value == 1:
+            if prop == 'profile' or prop == 'cross_section':
+                obj.__setattr__(prop, self.section)
+            elif prop == 'member':
+                obj.__setattr__('active', True)
+        else:
+            """ If the target of a binary variable is a member,
+                the binary variable is a member existence variable
+                used in topology optimization. In that case,
+                mark the member as passive.
+            """
+            if prop == 'member':
+                obj.__setattr__('active', False)
+
 
 class IndexVariable(IntegerVariable):
     """
-- 
2.43.0


From 555c5adddf23e71e4f68cbf587ab9471f1081c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 064/257] fix: objective function substituted values of locked
 variables to the free ones

---
 metku/optimization/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index 5e0f042..e67c172 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -65,7 +65,7 @@ class ObjectiveFunction:
                 """
                 break
 
-        self.problem.substitute_variables(fixed_vals)
+        self.problem.substitute_variables(x)
 
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
-- 
2.43.0


From c22e8a8fa1d96d24128e07259076db73858264d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 065/257] fix: functions that need structural analysis used
 results of earlier variable values

---
 metku/optimization/constraints.py |  4 +---
 metku/optimization/objective.py   |  7 ++++---
 metku/optimization/structopt.py   | 15 +++++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e11955c..e1799c3 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -88,9 +88,7 @@ class Constraint:
         """
         if self.fea_required:
             for load_id in self.load_ids:
-                if load_id not in self.problem.fea_done:
-                    self.problem.fea(load_id)
-                elif not self.problem.fea_done[load_id]:
+                if self.problem.fea_needed(load_id):
                     self.problem.fea(load_id)
 
     def __repr__(self):
diff --git a/metku/optimization/objective.py b/metku/optimization/objective.py
index e67c172..84f042e 100644
--- a/metku/optimization/objective.py
+++ b/metku/optimization/objective.py
@@ -39,9 +39,6 @@ class ObjectiveFunction:
             Read values from 'x' and reverse them.
             Reversing is done so that 'pop' method can be employed.
         """
-        if self.fea_required and not self.problem.fea_done:
-            self.problem.fea()
-
         X = [val for val in x]
         X.reverse()
 
@@ -67,6 +64,10 @@ class ObjectiveFunction:
 
         self.problem.substitute_variables(x)
 
+        # The analysis is made for the structure with the new variable values
+        if self.fea_required and self.problem.fea_needed("ALL"):
+            self.problem.fea()
+
         if self.obj_type == ObjectiveTypeEnum.MIN:
             return self.obj_fun(fixed_vals)
         elif self.obj_type == ObjectiveTypeEnum.MAX:
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b0e7947..3ec04da 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -99,6 +99,8 @@ class OptimizationProblem:
         self.structure = structure
         self.profiles = profiles
         self.fea_done = {}
+        # Values of all variables in the latest analysis of each load case
+        self.fea_vals = {}
         self.X = None
         self.x0 = None
         self.num_iters = 0
@@ -556,8 +558,21 @@ class OptimizationProblem:
         
         self.structure.calculate(load_id, support_method="REM", design=False)
         self.fea_done[load_id] = True
+        self.fea_vals[load_id] = [var.value for var in self.__vars]
         self.num_fem_analyses += 1
 
+    def fea_needed(self, load_id="ALL"):
+        """
+        Is structural analysis needed for the current variable values?
+        Variables can also be changed without 'substitute_variables'
+        (e.g. when they are locked), so their values are compared with those
+        of the latest analysis.
+        """
+        if not self.fea_done.get(load_id, False):
+            return True
+
+        return self.fea_vals.get(load_id) != [var.value for var in self.__vars]
+
     def __call__(self, x=None, prec=2, ncons=5):
         """ Call method evaluates the objective function and all constraints
             at x and returns their values
-- 
2.43.0


From 5fffdd68bfd3c17ef439ca385051d021b0be078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 066/257] fix: constraints and objective given to the
 constructor or add_constraint(s) had no problem

---
 metku/optimization/structopt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 3ec04da..1d12805 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -86,11 +86,12 @@ class OptimizationProblem:
             self.vars = variables
         else:
             self.__vars = []
+        self.cons = []
         if constraints:
-            self.cons = constraints
-        else:
-            self.cons = []
+            self.add_constraints(constraints)
         self.obj = objective
+        if isinstance(objective, ObjectiveFunction) and objective.problem is None:
+            objective.problem = self
         # Gradient and Hessian of the objective function
         # should also include the possibility that some of the variables
         # can be fixed!
@@ -682,11 +683,13 @@ class OptimizationProblem:
     def add_constraint(self, con):
         """ Adds new constraint to the problem """
         self.cons.append(con)
+        if con.problem is None:
+            con.problem = self
 
     def add_constraints(self, constraints):
         """ Adds new constraints to the problem """
         for con in constraints:
-            self.cons.append(con)
+            self.add_constraint(con)
 
     def add_structure(self, structure):
         """ Add structure to the problem """
-- 
2.43.0


From 397c563fbd05220d581598e74deb6d134a848b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 067/257] fix: numerical gradient and MMA functions used
 np.float, which NumPy does not have

---
 metku/optimization/opt_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 65847bd..248afb2 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -28,12 +28,12 @@ def NumGrad(fun, x):
     # if isinstance(h, float):
     #    h = h * np.ones(n)
 
-    df = np.zeros(n, dtype=np.float)
+    df = np.zeros(n, dtype=float)
     #    
     for i in range(len(x)):
         # print("Täällä")
         # xh = deepcopy(x)
-        xh = np.asarray([val for val in x], dtype=np.float)
+        xh = np.asarray([val for val in x], dtype=float)
         h = max(1e-6 * abs(xh[i]), 1e-8)
         xh[i] += h
 
@@ -105,8 +105,8 @@ def mma_fun(xk, fk, dfk, L, U):
     n = len(xk)
 
     """ Initialize 'p' and 'q' as zeros. """
-    p = np.zeros(n, dtype=np.float)
-    q = np.zeros(n, dtype=np.float)
+    p = np.zeros(n, dtype=float)
+    q = np.zeros(n, dtype=float)
     for i, (Xk, Lk, Uk) in enumerate(zip(xk, L, U)):
         # Determine the constants p and q
         if dfk[i] >= 0:
-- 
2.43.0


From bfce75b3a297eda764e6ee58da532d030c7df93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 068/257] fix: linearization took wrong coefficients of linear
 constraints when variables are locked

---
 metku/optimization/structopt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 1d12805..26f92b1 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -374,6 +374,10 @@ class OptimizationProblem:
         if self.grad is not None:
             df = self.grad(x)
                 
+        # Positions of the free variables among all variables: coefficients of
+        # linear constraints are given for all of them.
+        free = [k for k, var in enumerate(self.all_vars) if not var.locked]
+
         for i, var in enumerate(self.vars):
             prev_val = var.value
             if isinstance(var, BinaryVariable):
@@ -409,7 +413,7 @@ class OptimizationProblem:
             dg = np.zeros(m)
             for j, con in enumerate(act_cons):
                 if isinstance(con,LinearConstraint):
-                    dg[j] = con.a[i]
+                    dg[j] = con.a[free[i]]
                 else:
                     if not isinstance(var,BinaryVariable):
                         dg[j] = (con(xh)-b[j])/h
-- 
2.43.0


From 1bb56e0c1f5c359a8cb63206ccb4492f17ba76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 069/257] fix: convex approximations took the linear
 constraints from the problem and ignored locked variables

---
 metku/optimization/constraints.py |  4 ++--
 metku/optimization/structopt.py   | 32 +++++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index e1799c3..496b837 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -222,8 +222,8 @@ class NonLinearConstraint(Constraint):
         """ Evaluate gradient at x """
         
         if self.grad is None:
-            # Evaluate gradient numerically
-            df = opt_funs.NumGrad(self.con,x)
+            # Evaluate gradient numerically with respect to free variables
+            df = opt_funs.NumGrad(self,x)
         else:
             df = self.grad(x)
         
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 26f92b1..5f20e8b 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -443,6 +443,24 @@ class OptimizationProblem:
         # print("Linearization took: ", end - start, " s")
         return A, B, df, fx
     
+    def free_linear_constraint(self,con):
+        """ Copy of linear constraint 'con' in terms of the free variables.
+            A copy is needed because the constraint knows its problem.
+        """
+        new_con = copy.copy(con)
+        b = con.b.value if isinstance(con.b,Variable) else con.b
+        free = []
+        for i, var in enumerate(self.all_vars):
+            if var.locked:
+                b -= con.a[i]*var.value
+            else:
+                free.append(i)
+
+        new_con.a = con.a[free]
+        new_con.b = b
+
+        return new_con
+
     def conlin(self,x):
         """ Generates convex-linear approximation of the problem
             around point 'x'
@@ -470,16 +488,19 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pconlin.add(con)
+                Pconlin.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, CONLIN approximation is made
                 conlin_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
                 
                 Pconlin.add(conlin_con)
         
+        # Gradients by differences leave the variables at the last point
+        self.substitute_variables(x)
+        
         return Pconlin
     
     def mma(self,x,U,L,mu=0.8):
@@ -520,16 +541,19 @@ class OptimizationProblem:
         for con in self.cons:
             if isinstance(con,LinearConstraint):
                 # Linear constraints are simply added
-                Pmma.add(con)
+                Pmma.add(self.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made
                 mma_con = copy.copy(con)
-                gx = con.con(x)
+                gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
                 
                 Pmma.add(mma_con)
         
+        # Gradients by differences leave the variables at the last point
+        self.substitute_variables(x)
+        
         return Pmma
         
     def nnonlincons(self):
-- 
2.43.0


From 5ce3b3da66cec6a6e6bef103405e563dcc58a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 070/257] fix: violated '>' constraints decreased the exact
 penalty function

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 5f20e8b..4c36128 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -934,7 +934,7 @@ class OptimizationProblem:
                     """ For geq type constraints, the penalty term is
                          min(0,val)
                     """
-                    F += R*min(0,val)
+                    F -= R*min(0,val)
             
             """ Variable bounds are treated separately """
             for (i,var) in enumerate(self.vars):                
-- 
2.43.0


From 5f20a4a8eabc065746c0bf34c621ca1a02c09e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 071/257] fix: multiplier of the upper bound was updated from
 that of the lower bound

---
 metku/optimization/structopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 4c36128..3715f9a 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -1119,7 +1119,7 @@ class OptimizationProblem:
                                 
             if var.ub < XUB:                    
                 val = x[i] - var.ub
-                var.ub_mult = max(var.lb_mult + 2*Rineq*val,0)
+                var.ub_mult = max(var.ub_mult + 2*Rineq*val,0)
             
 
 
-- 
2.43.0


From c44724c9d65073c9f804f101e5443b8cab833a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 072/257] fix: eval_eq_con and eval_ineq_con did not return the
 values

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 3715f9a..8974c0b 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -672,6 +672,8 @@ class OptimizationProblem:
             if con.type == "=":
                 geq.append(con(x))
 
+        return np.asarray(geq)
+
     def eval_ineq_con(self, x):
         """ Evaluate inequality constriants
             All constraints are evaluated in the form g(x) >= 0
@@ -685,6 +687,8 @@ class OptimizationProblem:
             elif con.type == "<":
                 g.append(-con(x))
 
+        return np.asarray(g)
+
     def nvars(self):
         """ Return number of variables """
         return len(self.vars)
-- 
2.43.0


From 2d05b7844c85c91da15fe5e0aca6d90770f8b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 073/257] fix: default value of the index variable of a group
 was a list

---
 metku/optimization/variable_group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/variable_group.py b/metku/optimization/variable_group.py
index 4a3f5ca..d184d3f 100644
--- a/metku/optimization/variable_group.py
+++ b/metku/optimization/variable_group.py
@@ -44,7 +44,11 @@ class VariableGroup:
         if not self.attributes:
             self.attributes = [self.attribute]
         if self.value is None:
-            self.value = [0] * len(self.attributes)
+            if self.var_type == VariableTypeEnum.INDEX:
+                # There is a single index variable
+                self.value = 0
+            else:
+                self.value = [0] * len(self.attributes)
 
         # Attribute check
         for attr in self.attributes:
-- 
2.43.0


From e88f30a2720a5eae2974600fd243774d2da80487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 074/257] fix: integer variables could not be branched

---
 metku/optimization/variables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metku/optimization/variables.py b/metku/optimization/variables.py
index 27c7979..55300c4 100644
--- a/metku/optimization/variables.py
+++ b/metku/optimization/variables.py
@@ -245,6 +245,16 @@ class IntegerVariable(Variable):
 
         return violation
 
+    def smaller_discrete_value(self, x):
+        """ Returns integer value smaller than 'x' and closest to it  """
+
+        return math.ceil(x) - 1
+
+    def larger_discrete_value(self, x):
+        """ Returns integer value larger than 'x' and closest to it  """
+
+        return math.floor(x) + 1
+
 
 class BooleanVariable(IntegerVariable):
     """ Class for boolean variables
-- 
2.43.0


From d99fac46d4189094608cc099caafdd95d42e9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 075/257] fix: feasibility of the current point failed when
 variables had been locked after substitution

---
 metku/optimization/structopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 8974c0b..f93ede4 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -202,8 +202,8 @@ class OptimizationProblem:
         res = True
 
         if x is None:
-            x = self.X
-
+            # Not self.X: variables may have been locked after substitution
+            x = self.var_values()
            
         for con in self.cons:
             g = con(x)             
-- 
2.43.0


From c7e7c75ad5265594a654177daec7bd69081a0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 076/257] fix: evaluating a convex approximation of a
 constraint that needs structural analysis failed

---
 metku/optimization/structopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index f93ede4..7086e1d 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -495,6 +495,8 @@ class OptimizationProblem:
                 gx = con(x)
                 dgx = con.df(x)
                 conlin_con.con = conlin_fun(x,gx,dgx)
+                # Evaluating the approximation needs no structural analysis
+                conlin_con.fea_required = False
                 
                 Pconlin.add(conlin_con)
         
@@ -548,6 +550,8 @@ class OptimizationProblem:
                 gx = con(x)
                 dgx = con.df(x)
                 mma_con.con = mma_fun(x,gx,dgx,L,U)
+                # Evaluating the approximation needs no structural analysis
+                mma_con.fea_required = False
                 
                 Pmma.add(mma_con)
         
-- 
2.43.0


From 1f5e509eeeca810937630a97bfded9d94f2038c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 077/257] fix: linearization by finite differences passed a
 step length NumGrad does not take

---
 metku/optimization/opt_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metku/optimization/opt_functions.py b/metku/optimization/opt_functions.py
index 248afb2..dab0c14 100644
--- a/metku/optimization/opt_functions.py
+++ b/metku/optimization/opt_functions.py
@@ -194,9 +194,7 @@ def Linearize(fun, x, grad=None):
     b = fun(x)
 
     if grad == None:
-        h = 0.01 * x  # check if this is OK
-        # h = np.ones_like(x) * 1e-2
-        a = NumGrad(fun, x, h)
+        a = NumGrad(fun, x)
     else:
         a = grad(x)
 
-- 
2.43.0


From 124ff1f8863c6a320ca0098f6efbc289bf110e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 078/257] fix: leading action of the characteristic combination
 was chosen with quasi-permanent values of the others

---
 metku/eurocodes/en1991/en1991.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1991/en1991.py b/metku/eurocodes/en1991/en1991.py
index 70a633e..0645e30 100644
--- a/metku/eurocodes/en1991/en1991.py
+++ b/metku/eurocodes/en1991/en1991.py
@@ -373,7 +373,7 @@ class SLSCombiner(Combiner):
                 if l is not lo:
                     case2qi.append({'load': lo, 'factor': lo[0].comb_factors[0]})
                     case3qi.append({'load': lo, 'factor': lo[0].comb_factors[2]})
-            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 2),
+            characteristic_combination.append({'value': self.sum_G_k() + l[0].value + self.sum_Q_k_excluding(l[0], 0),
                                                'combination': {'G': case1, 'Q1': case2q1, 'Qi': case2qi}})
             frequent_combination.append({'value': self.sum_G_k() + l[0].combined(1) + self.sum_Q_k_excluding(l[0], 2),
                                          'combination': {'G': case1, 'Q1': case3q1, 'Qi': case3qi}})
-- 
2.43.0


From e801c621a537b07a57f39cc1947c21f70fb96398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 079/257] fix: wind pressure of walls was zero when the loaded
 area is at most 10 m2

---
 metku/eurocodes/en1991/en1991_1_4.py | 56 ++++++++++++++--------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index f21cdb4..37474a1 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -281,35 +281,35 @@ def rect_building_wall_pressure(length,width,h,qp,wind_dir="long"):
     print("e = {0:4.2f} m".format(e))
     print("h/d = {0:4.2f} ".format(hd_ratio))
     
-    if A > 10:
-        zones["A"]['cpe'] = ext_pressure_walls["A"][5]["cpe10"]
-        zones["B"]['cpe'] = ext_pressure_walls["B"][5]["cpe10"]
-        zones["C"]['cpe'] = ext_pressure_walls["C"][5]["cpe10"]
-
-        if hd_ratio >= 5:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][5]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][5]["cpe10"]
-        elif hd_ratio >= 1:
-            """ Linear interpolation for E """
-            zones["D"]['cpe'] = ext_pressure_walls["D"][1]["cpe10"]
-            Y = [ext_pressure_walls["E"][1]["cpe10"],
-                 ext_pressure_walls["E"][5]["cpe10"]]
-            X = [1,5]            
-            zones["E"]['cpe'] = interpolate(X,Y,hd_ratio)
-        elif hd_ratio >= 0.25:
-            """ Linear interpolation for D and E """            
-            X = [0.25,1]                        
-            YD = [ext_pressure_walls["D"][0.25]["cpe10"],
-                 ext_pressure_walls["D"][1]["cpe10"]]            
-            YE = [ext_pressure_walls["E"][0.25]["cpe10"],
-                 ext_pressure_walls["E"][1]["cpe10"]]            
-            zones["D"]['cpe'] = interpolate(X,YD,hd_ratio)
-            zones["E"]['cpe'] = interpolate(X,YE,hd_ratio)
-            
-            #zones["E"]['cpe'] = ext_pressure_walls["E"][1]["cpe10"]
+    def cpe(zone,ratio):
+        """ EN 1991-1-4, Figure 7.2: pressure coefficient for the loaded area """
+        c = ext_pressure_walls[zone][ratio]
+        if A >= 10:
+            return c["cpe10"]
+        elif A <= 1:
+            return c["cpe1"]
         else:
-            zones["D"]['cpe'] = ext_pressure_walls["D"][0.25]["cpe10"]
-            zones["E"]['cpe'] = ext_pressure_walls["E"][0.25]["cpe10"]
+            return c["cpe1"] - (c["cpe1"]-c["cpe10"])*math.log10(A)
+    
+    zones["A"]['cpe'] = cpe("A",5)
+    zones["B"]['cpe'] = cpe("B",5)
+    zones["C"]['cpe'] = cpe("C",5)
+
+    if hd_ratio >= 5:
+        zones["D"]['cpe'] = cpe("D",5)
+        zones["E"]['cpe'] = cpe("E",5)
+    elif hd_ratio >= 1:
+        """ Linear interpolation for E """
+        zones["D"]['cpe'] = cpe("D",1)
+        zones["E"]['cpe'] = interpolate([1,5],[cpe("E",1),cpe("E",5)],hd_ratio)
+    elif hd_ratio >= 0.25:
+        """ Linear interpolation for D and E """            
+        X = [0.25,1]                        
+        zones["D"]['cpe'] = interpolate(X,[cpe("D",0.25),cpe("D",1)],hd_ratio)
+        zones["E"]['cpe'] = interpolate(X,[cpe("E",0.25),cpe("E",1)],hd_ratio)
+    else:
+        zones["D"]['cpe'] = cpe("D",0.25)
+        zones["E"]['cpe'] = cpe("E",0.25)
 
     for key, value in zones.items():
         value['we'] = qp*value['cpe']
-- 
2.43.0


From 4f009312e75d5857d0358b70942b960e247bd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 080/257] fix: monopitch roofs of 5-15 degrees had coefficients
 extrapolated from 15-30 degrees

---
 metku/eurocodes/en1991/en1991_1_4.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index 37474a1..10efb34 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -132,15 +132,10 @@ class ExternalPressureMonoRoof:
                 self.H = {'cpe10': interpolate([15,30],[-0.9,-0.8],angle), 'cpe1':interpolate([15,30],[-1.2,-0.8],angle)}
         elif angle >= 5:
             if wind_direction == 0:
-                cneg10 = interpolate([15,30],[-0.9,-0.5],angle)
-                cneg1 = interpolate([15,30],[-2.0,-1.5],angle)
-                cpos = interpolate([15,30],[0.2,0.7],angle)
-                self.F = {'cpe10': [cneg10,cpos], 'cpe1':[cneg1,cpos]} 
-                cneg10 = interpolate([15,30],[-0.8,-0.5],angle)
-                self.G = {'cpe10': [cneg10,cpos], 'cpe1':[-1.5,cpos]} 
-                cpos = interpolate([15,30],[0.2,0.4],angle)
-                cneg = interpolate([15,30],[-0.3,-0.2],angle)
-                self.H = {'cpe10': [cneg,cpos], 'cpe1':[cneg,cpos]} 
+                cpos = interpolate([5,15],[0.0,0.2],angle)
+                self.F = {'cpe10': [interpolate([5,15],[-1.7,-0.9],angle),cpos], 'cpe1':[interpolate([5,15],[-2.5,-2.0],angle),cpos]} 
+                self.G = {'cpe10': [interpolate([5,15],[-1.2,-0.8],angle),cpos], 'cpe1':[interpolate([5,15],[-2.0,-1.5],angle),cpos]} 
+                self.H = {'cpe10': [interpolate([5,15],[-0.6,-0.3],angle),cpos], 'cpe1':[interpolate([5,15],[-1.2,-0.3],angle),cpos]} 
             elif wind_direction == 180:
                 self.F = {'cpe10': interpolate([5,15],[-2.3,-2.5],angle), 'cpe1':interpolate([5,15],[-2.5,-2.8],angle)} 
                 self.G = {'cpe10': -1.3, 'cpe1':-2.0}
-- 
2.43.0


From f53441f07e1ff0c5acfdbf188cb9eaf005ec913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 081/257] fix: flat roof zones of a building shorter than e/2
 had negative width

---
 metku/eurocodes/en1991/en1991_1_4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1991/en1991_1_4.py b/metku/eurocodes/en1991/en1991_1_4.py
index 10efb34..c83223f 100644
--- a/metku/eurocodes/en1991/en1991_1_4.py
+++ b/metku/eurocodes/en1991/en1991_1_4.py
@@ -401,8 +401,8 @@ def flat_roof_pressure(d,b,h,qp,hp=0):
     """
     zones = {"F":{"length":0.25*e,'width':0.1*e,'cpe':0.0,'we':0.0},
              "G":{"length":b-0.5*e,'width':0.1*e,'cpe':0.0,'we':0.0},
-             "H":{"length":b,'width':0.4*e,'cpe':0.0,'we':0.0},
-             "I":{"length":b,'width':d-0.5*e,'cpe':0.0,'we':0.0}
+             "H":{"length":b,'width':min(0.4*e,d-0.1*e),'cpe':0.0,'we':0.0},
+             "I":{"length":b,'width':max(d-0.5*e,0.0),'cpe':0.0,'we':0.0}
              }
     
     hd_ratio = h/d
-- 
2.43.0


From b437c98b34d0e7e3cd17fb7ce68451548dc0b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 082/257] fix: reduction factors at 100-200 degrees, and of
 bolts above 1000 degrees, raised KeyError

---
 metku/eurocodes/en1993/en1993_1_2.py | 41 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 5e958a8..2c60a00 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -61,6 +61,8 @@ REDUCTION_FACTORS_BOLTS = {20:{'kb':1.0},
                            800:{'kb':0.067},
                            900:{'kb':0.033},
                            1000:{'kb':0.0},
+                           1100:{'kb':0.0},
+                           1200:{'kb':0.0},
                            }
 
 SPECIAL_TEMPS = np.array([20,100,150,200,300,400,500,600,700,800,900,1000,1100,1200])
@@ -109,16 +111,22 @@ def reduce_property(t,prop,steel='carbon'):
         of property 'prop'
     """
     rf = 1.0
+    if steel == 'carbon':
+        factors = REDUCTION_FACTORS_CS
+    elif steel == '1.4301':
+        factors = REDUCTION_FACTORS_14301
+    elif steel == 'bolts':
+        factors = REDUCTION_FACTORS_BOLTS
+    else:
+        print("Unidentified steel grade!")
+        return rf
+    
+    # The tables do not have rows for the same temperatures
+    temps = np.array(list(factors.keys()))
+    
     # Check if 't' matches any of the special temperatures
-    if any(SPECIAL_TEMPS == t):
-        if steel == 'carbon':
-            rf = REDUCTION_FACTORS_CS[t][prop]
-        elif steel =='1.4301':
-            rf = REDUCTION_FACTORS_14301[t][prop]
-        elif steel == 'bolts':
-            rf = REDUCTION_FACTORS_BOLTS[t][prop]
-        else:
-            print("Unidentified steel grade!")
+    if any(temps == t):
+        rf = factors[t][prop]
     else:
         # t does not match any of the special temperatures;
         # Do linear interpolation
@@ -126,18 +134,11 @@ def reduce_property(t,prop,steel='carbon'):
         """ Find the largest smaller and smallest larger
             temperatures and the corresponding reduction factors
         """
-        t_smaller = np.max(SPECIAL_TEMPS[SPECIAL_TEMPS < t])
-        t_larger = np.min(SPECIAL_TEMPS[SPECIAL_TEMPS > t])
+        t_smaller = np.max(temps[temps < t])
+        t_larger = np.min(temps[temps > t])
         
-        if steel == 'carbon':
-            p_smaller = REDUCTION_FACTORS_CS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_CS[t_larger][prop]
-        elif steel == '1.4301':
-            p_smaller = REDUCTION_FACTORS_14301[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_14301[t_larger][prop]
-        elif steel == 'bolts':
-            p_smaller = REDUCTION_FACTORS_BOLTS[t_smaller][prop]
-            p_larger = REDUCTION_FACTORS_BOLTS[t_larger][prop]
+        p_smaller = factors[t_smaller][prop]
+        p_larger = factors[t_larger][prop]
             
         rf = linear_interpolation((t_smaller,p_smaller), (t_larger,p_larger), t)
     
-- 
2.43.0


From 685ae96280a8bae22320b0c40839f2a813df62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:57 +0000
Subject: [PATCH 083/257] fix: factors of stainless steel at 1000-1200 degrees
 were a tenth of Table C.1

---
 metku/eurocodes/en1993/en1993_1_2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_2.py b/metku/eurocodes/en1993/en1993_1_2.py
index 2c60a00..8b0c798 100644
--- a/metku/eurocodes/en1993/en1993_1_2.py
+++ b/metku/eurocodes/en1993/en1993_1_2.py
@@ -43,9 +43,9 @@ REDUCTION_FACTORS_14301 = {20:{'ky':0.26,'k02':1.0,'ku':1.0,'kE':1.0,'kEct':0.11
                            700:{'ky':0.26,'k02':0.40,'ku':0.43,'kE':0.71,'kEct':0.02,'epsU': 0.30},
                            800:{'ky':0.35,'k02':0.27,'ku':0.27,'kE':0.63,'kEct':0.02,'epsU': 0.20},
                            900:{'ky':0.38,'k02':0.14,'ku':0.15,'kE':0.45,'kEct':0.02,'epsU': 0.20},
-                           1000:{'ky':0.040,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
-                           1100:{'ky':0.040,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
-                           1200:{'ky':0.040,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
+                           1000:{'ky':0.40,'k02':0.06,'ku':0.07,'kE':0.2,'kEct':0.02,'epsU': 0.20},
+                           1100:{'ky':0.40,'k02':0.03,'ku':0.03,'kE':0.1,'kEct':0.02,'epsU': 0.20},
+                           1200:{'ky':0.40,'k02':0.0,'ku':0.00,'kE':0.0,'kEct':0.02,'epsU': 0.20},
                            }
 
 # EN 1993-1-2, Table D.1
-- 
2.43.0


From dd3c70b32135c64cc44712b561dc600afc73f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 084/257] fix: buckling factor of outstand elements was 23.8 at
 psi = 1, and undefined for internal elements at psi = -3

---
 metku/eurocodes/en1993/en1993_1_5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_5.py b/metku/eurocodes/en1993/en1993_1_5.py
index 58115e9..f45ed30 100644
--- a/metku/eurocodes/en1993/en1993_1_5.py
+++ b/metku/eurocodes/en1993/en1993_1_5.py
@@ -83,7 +83,7 @@ def buckling_factor_internal(psi=1.0):
         ksigma = 7.81 - 6.29 * psi + 9.78 * psi ** 2
     elif psi == -1.0:
         ksigma = 23.9
-    elif psi > -3:
+    elif psi >= -3:
         ksigma = 5.98 * (1 - psi) ** 2
 
     return ksigma
@@ -109,7 +109,7 @@ def buckling_factor_outstand(psi=1.0, sigma1="tip"):
     else:
         if psi == 1.0:
             ksigma = 0.43
-        if psi < 1.0 and psi > 0.0:
+        elif psi < 1.0 and psi > 0.0:
             ksigma = 0.578 / (psi + 0.34)
         elif psi == 0.0:
             ksigma = 1.7
-- 
2.43.0


From 1b1c0c6b5413df717575d9d8e7b8ab3d5f1f587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 085/257] fix: ineffective part of a web was taken from the
 neutral axis of an earlier calculation and the wrong flange

---
 metku/sections/steel/wi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 8847e56..70fe238 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -835,8 +835,7 @@ class WISection(SteelSection):
         else:
             self.eff_web['bc'] = cw
 
-        ec = self.h - self.effective_neutral_axis()
-        self.eff_web['bneg'] = ec - self.tb - np.sqrt(2) * self.weld_throat - beff
+        self.eff_web['bneg'] = self.eff_web['bc'] - beff
         # self.eff_web['bneg'] = (1 - rho) * cw / 2
 
         if verb:
-- 
2.43.0


From c5111d27d698df59df1f80904ba4f76910d42524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 086/257] fix: effective second moment of area did not reduce a
 slender flange, and depended on earlier calculations

---
 metku/sections/steel/wi.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index 70fe238..f453f77 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -380,10 +380,16 @@ class WISection(SteelSection):
         return MRd, C
 
     def effective_second_moment_area_y(self, psi_init: float = -1) -> float:
+        # The flange in tension is fully effective
         if psi_init < 0:
             self.effective_flange('top')
+            self.eff_bottom = {'rho': 1.0, 'bneg': 0.0}
         else:
             self.effective_flange('bottom')
+            self.eff_top = {'rho': 1.0, 'bneg': 0.0}
+        # Effective widths of the flanges
+        b_t = self.bt - 2 * self.eff_top['bneg']
+        b_b = self.bb - 2 * self.eff_bottom['bneg']
         psi = psi_init
         # For -loop range(5) is a conservative guess for neutral axis convergence
         for i in range(5):
@@ -398,8 +404,8 @@ class WISection(SteelSection):
             h_e2 = self.cw + weld_h - self.eff_web['bneg'] - e1
             h_all = [h_t, h_b, h_e1, h_e2]
             # Areas
-            A_t = self.bt * self.tt
-            A_b = self.bb * self.tb
+            A_t = b_t * self.tt
+            A_b = b_b * self.tb
             A_e1 = h_e1 * self.tw
             A_e2 = h_e2 * self.tw
             A_all = [A_t, A_b, A_e1, A_e2]
@@ -410,8 +416,8 @@ class WISection(SteelSection):
             z_e2 = self.tb + h_e2 / 2
             z_all = [z_t, z_b, z_e1, z_e2]
             # Second moment of areas
-            I_t = self.bt * h_t ** 3 / 12
-            I_b = self.bb * h_b ** 3 / 12
+            I_t = b_t * h_t ** 3 / 12
+            I_b = b_b * h_b ** 3 / 12
             I_e1 = self.tw * h_e1 ** 3 / 12
             I_e2 = self.tw * h_e2 ** 3 / 12
             I_all = [I_t, I_b, I_e1, I_e2]
-- 
2.43.0


From a96a48cbaa28d250be1a955f9027cdd3e704d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 087/257] fix: upper limit of shear buckling resistance was not
 applied

---
 metku/sections/steel/wi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/sections/steel/wi.py b/metku/sections/steel/wi.py
index f453f77..f47be95 100644
--- a/metku/sections/steel/wi.py
+++ b/metku/sections/steel/wi.py
@@ -922,7 +922,8 @@ class WISection(SteelSection):
             else:
                 raise NotImplementedError("shear_buckling_resistance rM >= 1 not implemented")
 
-            VbRd = Vbw_Rd + Vbf_Rd
+            VbRd = min(Vbw_Rd + Vbf_Rd,
+                       eta * fyw * hw * tw / (math.sqrt(3) * constants.gammaM1))
 
         return VbRd
 
-- 
2.43.0


From 30c16f1f3c8f26a8f0b8ca08e3643674442e20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 088/257] fix: linear programming solver did not report
 infeasibility and used coefficients of wrong variables when some are locked

---
 metku/optimization/solvers/lp.py | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/metku/optimization/solvers/lp.py b/metku/optimization/solvers/lp.py
index ce9e3c6..4ffd1a2 100644
--- a/metku/optimization/solvers/lp.py
+++ b/metku/optimization/solvers/lp.py
@@ -28,11 +28,18 @@ class LP(OptSolver):
         self.algo = algorithm
         
 
-    def solve(self,problem,verb=False):
+    def solve(self,problem,verb=False,x0=None):
         """
+        Solves the linear problem with respect to the free variables.
         
+        :param x0: not needed, because the solution does not depend on the
+                   initial point. Included for compatibility with other solvers.
+        
+        :return: fopt, xopt
         """
     
+        self.problem = problem
+        
         if self.algo == "gurobi":
             import gurobipy as grb
             
@@ -58,25 +65,27 @@ class LP(OptSolver):
             else:
                 x.append(lp.NumVar(var.lb,var.ub,var.name))
                 
-        #nvars = len(x)
+        # Coefficients are given for all variables, also for the locked ones
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
                 
         if problem.obj.obj_type == "MIN":
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MINIMIZE
             else:
-                lp.Minimize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Minimize(lp.Sum(C * X for C, X in zip(c,x)))
         else:
             if self.algo == "gurobi":
                 obj_sense = grb.GRB.MAXIMIZE
             else:
-                lp.Maximize(lp.Sum(C * X for C, X in zip(problem.obj.c,x)))
+                lp.Maximize(lp.Sum(C * X for C, X in zip(c,x)))
         
         if self.algo == "gurobi":
-            lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+            lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
             
         # Generate constraints
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
                 if self.algo == "gurobi":
                     if con.type == '<':
                         con_sense = grb.GRB.LESS_EQUAL
@@ -114,15 +123,13 @@ class LP(OptSolver):
                     #qp.update()
             lp.optimize()
                     
-            if lp.Status == grb.GRB.OPTIMAL:
-                self.feasible = True
-            elif lp.Status == grb.GRB.INFEASIBLE:
-                self.feasible = False
+            self.feasible = lp.Status == grb.GRB.OPTIMAL
                     
             X = []
-            for v in lp.getVars():
-                #print('%s %g' % (v.varName, v.x))                    
-                X.append(v.x)
+            if self.feasible:
+                for v in lp.getVars():
+                    #print('%s %g' % (v.varName, v.x))                    
+                    X.append(v.x)
             
             # bounds = [x*self.move_limits for x in self.X]
             #
@@ -130,13 +137,23 @@ class LP(OptSolver):
         else:
             status = lp.Solve()
             
+            self.feasible = status == lp.OPTIMAL
+            
             X = []
-            if status == lp.OPTIMAL:
+            if self.feasible:
                 for v in lp.variables():
                     X.append(v.solution_value())    
 
         self.X = X
-        #return X
+        
+        if self.feasible:
+            self.best_x = np.array(X)
+            self.best_f = problem.obj(self.best_x)
+        else:
+            self.best_x = None
+            self.best_f = np.inf
+            
+        return self.best_f, self.best_x
 
 def Arora_Ex62():
     x1 = sopt.Variable('x1',0,1e4)
-- 
2.43.0


From aac1591951ebe019cb24ea6813f98ea8136461d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 089/257] fix: mixed-integer solver treated integer and
 discrete variables as continuous

---
 metku/optimization/solvers/milp.py | 43 +++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/metku/optimization/solvers/milp.py b/metku/optimization/solvers/milp.py
index 3876e4d..f8caad1 100644
--- a/metku/optimization/solvers/milp.py
+++ b/metku/optimization/solvers/milp.py
@@ -32,9 +32,13 @@ class MILP(OptSolver):
 
     def solve(self,problem,verb=False):
         """
+        Solves the mixed-integer linear problem with respect to the free variables.
         
+        :return: fopt, xopt
         """
     
+        self.problem = problem
+        
         import gurobipy as grb
                 
         lp = grb.Model("milp")
@@ -48,21 +52,36 @@ class MILP(OptSolver):
             """
             if isinstance(var,sopt.BinaryVariable):
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.BINARY,name=var.name))
+            elif isinstance(var,sopt.IntegerVariable):
+                x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.INTEGER,name=var.name))
             else:
                 x.append(lp.addVar(var.lb,var.ub,vtype=grb.GRB.CONTINUOUS,name=var.name))
                 
         #nvars = len(x)
+        
+        for var, xi in zip(problem.vars,x):
+            """
+                a discrete variable has exactly one of its values
+            """
+            if isinstance(var,sopt.DiscreteVariable):
+                y = [lp.addVar(vtype=grb.GRB.BINARY) for val in var.values]
+                lp.addLConstr(grb.quicksum(y), grb.GRB.EQUAL, 1)
+                lp.addLConstr(grb.LinExpr(var.values,y), grb.GRB.EQUAL, xi)
+                
+        # Coefficients are given for all variables, also for the locked ones
+        c = [ci for ci, var in zip(problem.obj.c,problem.all_vars) if not var.locked]
                 
         if problem.obj.obj_type == "MIN":
             obj_sense = grb.GRB.MINIMIZE
         else:
             obj_sense = grb.GRB.MAXIMIZE
         
-        lp.setObjective(grb.LinExpr(problem.obj.c,x),sense=obj_sense)
+        lp.setObjective(grb.LinExpr(c,x),sense=obj_sense)
         
         
         for con in problem.cons:
             if isinstance(con,sopt.LinearConstraint):
+                con = problem.free_linear_constraint(con)
                 if con.type == '<':
                     con_sense = grb.GRB.LESS_EQUAL
                             #lp.addLConstr(LinExpr(con.a, x), grb.GRB.LESS_EQUAL, con.b)
@@ -90,19 +109,25 @@ class MILP(OptSolver):
                 #qp.update()
         lp.optimize()
                 
-        if lp.Status == grb.GRB.OPTIMAL:
-            self.feasible = True
-        elif lp.Status == grb.GRB.INFEASIBLE:
-            self.feasible = False
+        self.feasible = lp.Status == grb.GRB.OPTIMAL
                 
         X = []
-        for v in lp.getVars():
-            #print('%s %g' % (v.varName, v.x))                    
-            X.append(v.x)
+        if self.feasible:
+            for v in x:
+                #print('%s %g' % (v.varName, v.x))                    
+                X.append(v.x)
         
         # bounds = [x*self.move_limits for x in self.X]
         #
         # res = linprog(df, A, B, bounds=bounds)
 
         self.X = X
-        #return X
\ No newline at end of file
+        
+        if self.feasible:
+            self.best_x = np.array(X)
+            self.best_f = problem.obj(self.best_x)
+        else:
+            self.best_x = None
+            self.best_f = np.inf
+            
+        return self.best_f, self.best_x
-- 
2.43.0


From 18178cf76d25942582ced6f4aff2061b516c496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 090/257] fix: branch-and-bound could not solve relaxations
 without initial point, with locked variables or with solvers other than SLSQP

---
 metku/optimization/solvers/bnb.py | 57 ++++++++++++++++---------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index 3830fb3..bc27f0a 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -362,45 +362,46 @@ class BnB(OptSolver):
             If problem is infeasible, the node can be fathomed.
             If the problem is feasible, update the lower bound and set xR
         """
-        nvars = self.problem.nvars()
+        variables = self.problem.vars
         locked_vars = []
-        locked_nd = []
-        for i,var in enumerate(self.problem.vars):
+        free = []
+        for i,var in enumerate(variables):
             if abs(var.ub-var.lb) < 1e-6:
                 var.lock(var.ub)
                 locked_vars.append(var)
-                locked_nd.append(i)
-
-        if len(locked_nd) > 1:
-            locked_nd.reverse()
-        
-        for n in locked_nd:
-            x0 = np.delete(x0,n)        
+            else:
+                free.append(i)
+    
+        if x0 is not None:
+            x0 = np.asarray(x0,dtype=float)[free]
     
         print('x0 = ',x0)
     
-        if x0 is not None:
-            flb, xlb = self.lb_solver.solve(self.problem,x0=x0,verb=True)
+        if not free:
+            # The branching limits determine the values of all variables
+            xlb = []
+            flb = self.problem.obj(xlb)
+            feasible = self.problem.feasible(xlb)
         else:
-            flb, xlb = self.lb_solver.solve(self.problem)
+            if x0 is not None:
+                flb, xlb = self.lb_solver.solve(self.problem,x0=x0,verb=True)
+            else:
+                flb, xlb = self.lb_solver.solve(self.problem)
+            feasible = self.lb_solver.feasible
 
         print('xlb = ',xlb)
 
-        xnew = np.zeros(nvars)
-        
-        i = 0
-        for j, var in enumerate(self.problem.all_vars):
-            if var.locked:
-                xnew[j] = var.value
-            else:
-                xnew[j] = xlb[i]
-                i +=1
+        if feasible:
+            xnew = np.zeros(len(variables))
+            
+            i = 0
+            for j, var in enumerate(variables):
+                if var.locked:
+                    xnew[j] = var.value
+                else:
+                    xnew[j] = xlb[i]
+                    i +=1
 
-        #print(self.lb_solver.result)
-        if self.lb_solver.result.success == True:
-            self.tree[node.identifier].data.lb = flb
-            self.tree[node.identifier].data.xR = xnew   
-        elif self.lb_solver.feasible:
             self.tree[node.identifier].data.lb = flb
             self.tree[node.identifier].data.xR = xnew
             
@@ -408,7 +409,7 @@ class BnB(OptSolver):
         for var in locked_vars:
             var.unlock()
         
-        return self.lb_solver.feasible
+        return feasible
         
     
     def upper_bound(self,node):
-- 
2.43.0


From f864c7d5ca8e260e0bbb82ce98feeb27989c828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 091/257] fix: branch-and-bound accepted infeasible designs and
 failed with continuous variables

---
 metku/optimization/solvers/bnb.py | 6 ++----
 metku/optimization/structopt.py   | 5 ++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index bc27f0a..a4fb0cf 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -419,9 +419,7 @@ class BnB(OptSolver):
         f_new = None        
         for xi in N:
             
-            gxi = self.problem.eval_cons(xi)            
-            
-            if all(gxi<=self.problem.con_tol):
+            if self.problem.feasible(xi):
                 #print("Upper bounding found feasible solution")
                 #print(self.problem.eval_cons(xi))
                 """ Feasible point found """
@@ -458,7 +456,7 @@ class BnB(OptSolver):
         res = []
         
         for i, var in enumerate(self.problem.vars):
-            res.append(var.is_allowed_value(xR[i]))
+            res.append(var.discrete_violation(xR[i]) == 0)
             
         
         return res
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 7086e1d..b190591 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -884,7 +884,7 @@ class OptimizationProblem:
         for i, var in enumerate(self.vars):
             if method == 'nearest':
                 if isinstance(var,DiscreteVariable):
-                    values = np.array(var.values)
+                    values = np.array([val for val in var.values if var.lb <= val <= var.ub])
                     """ Sort values in ascending order of distance from 'x' 
                         np.argsort returns the indices of 'values'
                     """
@@ -908,6 +908,9 @@ class OptimizationProblem:
                     neighborhood.append(new_values)
                     #var.lb = min(new_values)
                     #var.ub = max(new_values)
+                else:
+                    """ Continuous variables keep their values """
+                    neighborhood.append([x[i]])
                 
         
         """
-- 
2.43.0


From 594eec3b284349750aeed1423614617773f4c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 092/257] fix: bounds tightening of branch-and-bound ignored
 the sense of constraints and lost feasible designs

---
 metku/optimization/solvers/bnb.py | 89 +++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index a4fb0cf..e82ebc9 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -22,6 +22,7 @@ from treelib import Tree, Node
 
 from metku.optimization.solvers.optsolver import OptSolver
 from metku.optimization.solvers.lp import LP
+from metku.optimization.constants import INT_TOL, DISC_TOL
 from metku.optimization.structopt import OptimizationProblem
 from metku.optimization.objective import LinearObjective
 from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
@@ -521,34 +522,62 @@ class BnB(OptSolver):
             Based on linear constraints only        
         """
         print("Feasibility-based bounds tightening")
-        xlb, xub = self.problem.var_bounds()
         
         """ Do bounds tightening for linear constraints """
         for con in self.problem.cons:
             if isinstance(con,LinearConstraint):
-                ax_min = np.minimum(con.a*xub,con.a*xlb)
-                #axL = con.a*xlb
-                for i, var in enumerate(self.problem.vars):
-                    if abs(con.a[i]) > 1e-9:
-                        bnd = 1/con.a[i]*(con.b-(sum(ax_min)-ax_min[i]))
-                    if con.a[i] > 0:                        
-                        """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
-                        var.ub = min(var.ub,bnd)
-                        
-                        if isinstance(var,IntegerVariable):
-                            var.ub = np.floor(var.ub)
-                        elif isinstance(var,DiscreteVariable):
-                            var.ub = max(np.array(var.values)[np.array(var.values)<=var.ub])
-                    elif con.a[i] < 0:
-                        var.lb = max(var.lb,bnd)
+                lin_con = self.problem.free_linear_constraint(con)
+                feasible = True
+                if lin_con.type != '>':
+                    feasible = self.tighten_bounds(lin_con.a,lin_con.b)
+                if feasible and lin_con.type != '<':
+                    """ a*x >= b is the same as -a*x <= -b """
+                    feasible = self.tighten_bounds(-lin_con.a,-lin_con.b)
+                if not feasible:
+                    return False
+        
+        return True
+    
+    def tighten_bounds(self,a,b):
+        """ Tightens the variable bounds based on the condition a*x <= b.
+            Returns False, if there are no allowed values for some variable.
+        """
+        xlb, xub = self.problem.var_bounds()
+        ax_min = np.minimum(a*xub,a*xlb)
+        
+        for i, var in enumerate(self.problem.vars):
+            if abs(a[i]) > 1e-9:
+                """ x[i] <= 1/a[i]*(b[j] - sum min(a[i,j]xub[j],a[i,j]xlb[j])) """
+                bnd = 1/a[i]*(b-(sum(ax_min)-ax_min[i]))
+                if a[i] > 0:
+                    var.ub = min(var.ub,bnd)
+                else:
+                    var.lb = max(var.lb,bnd)
                 
-                        if isinstance(var,IntegerVariable):
-                            var.lb = np.ceil(var.lb)
-                        elif isinstance(var,DiscreteVariable):
-                            var.lb = min(np.array(var.values)[np.array(var.values)>=var.lb])
+                if not self.round_bounds(var):
+                    return False
         
-        xlb, xub = self.problem.var_bounds()
-        #print(xlb,xub)
+        return True
+    
+    def round_bounds(self,var):
+        """ Moves the bounds of a discrete variable to its allowed values.
+            Returns False, if there are no allowed values within the bounds.
+        """
+        if isinstance(var,IntegerVariable):
+            var.lb = np.ceil(var.lb-INT_TOL)
+            var.ub = np.floor(var.ub+INT_TOL)
+        elif isinstance(var,DiscreteVariable):
+            values = [val for val in var.values
+                      if var.lb-DISC_TOL <= val <= var.ub+DISC_TOL]
+            if not values:
+                return False
+            var.lb = min(values)
+            var.ub = max(values)
+        elif var.ub < var.lb <= var.ub + CON_TOL*max(1,abs(var.ub)):
+            # Bounds that differ only by the accuracy of calculations
+            var.lb = var.ub
+            
+        return bool(var.lb <= var.ub)
     
     def optimality_tightening(self):
         """ Optimality-based bounds tightening
@@ -571,13 +600,17 @@ class BnB(OptSolver):
             
             for con in self.problem.cons:            
                 if isinstance(con,LinearConstraint):
-                    LPprob.add(con)
+                    # The constraint itself must remain in its own problem
+                    LPprob.add(self.problem.free_linear_constraint(con))
             
             
             solver = LP("gurobi")
             solver.solve(LPprob)
             
     
+            if not solver.feasible:
+                return False
+    
             #LPprob(solver.X)
             if solver.feasible == True: 
                 #print("Upper bounding problem feasible.")                   
@@ -600,15 +633,17 @@ class BnB(OptSolver):
                     print("From {0:4.2f} to {1:4.2f}".format(self.problem.vars[i].ub,solver.X[i]))
                     self.problem.vars[i].ub = solver.X[i]
                     
+            if not self.round_bounds(var):
+                return False
+                    
             #print(solver.X)
+        
+        return True
             
     
     def pre_process(self,node):
         """ Pre-processing of a node """
-        self.feasibility_tightening()
-        self.optimality_tightening()
-        
-        feasible = True
+        feasible = self.feasibility_tightening() and self.optimality_tightening()
         
         for var in self.problem.vars:
             if var.lb > var.ub:
-- 
2.43.0


From e25b7c35a36aa4eb888fd97736235bea0169c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 093/257] fix: branch-and-bound did not report whether a
 feasible design was found

---
 metku/optimization/solvers/bnb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/solvers/bnb.py b/metku/optimization/solvers/bnb.py
index e82ebc9..41b6c5f 100644
--- a/metku/optimization/solvers/bnb.py
+++ b/metku/optimization/solvers/bnb.py
@@ -754,5 +754,7 @@ class BnB(OptSolver):
         
         # Wrap up: set original variable bounds
         self.set_variable_bounds()
+        
+        self.feasible = self.best_x is not None
     
         return self.best_f, self.best_x
\ No newline at end of file
-- 
2.43.0


From b3c99693ffea513b13e2ea8b4b70ece3ee507a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 094/257] fix: iteration history and the given starting point
 were overwritten by later iterates

---
 metku/optimization/solvers/optsolver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index bb74e12..31346e6 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -214,15 +214,16 @@ class OptSolver:
         self.problem = problem
         # If initial starting point is/isn't defined        
         if x0 is not None:
-            self.X = np.asarray(x0, dtype=float)
+            # A copy is needed, because the iterate is modified in place
+            self.X = np.array(x0, dtype=float)
             problem.substitute_variables(x0)
         else:
             self.X = self.random_feasible_point()
             problem.substitute_variables(self.X)
 
         # Store initial point
-        self.xvals.append(np.array(x0))
-        self.fvals.append(problem.obj(x0))
+        self.xvals.append(self.X.copy())
+        self.fvals.append(problem.obj(self.X))
 
 
         if plot:
@@ -303,7 +304,7 @@ class OptSolver:
                 problem.states.append(list(state))
                 problem.gvals.append(list(self.constr_vals).copy())
                 self.fvals.append(problem.obj(self.X))
-                self.xvals.append(self.X)
+                self.xvals.append(self.X.copy())
             end = time.time()
 
             if verb:
-- 
2.43.0


From 015e95fd8bf41289a10ac40bf716ca6af45117fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 095/257] fix: random starting point was not feasible for all
 types of constraints and ignored upper bounds

---
 metku/optimization/solvers/optsolver.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index 31346e6..7524cf2 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -345,22 +345,9 @@ class OptSolver:
         """
         print("Creating random feasible starting point!")
 
-        X = [0] * self.problem.nvars()
-        for i, var in enumerate(self.problem.vars):
-            if self.problem.prob_type == 'continuous':
-                X[i] = var.lb + (var.ub - var.lb) * np.random.rand()
-            else:
-                X[i] = np.random.randint(var.lb, var.ub)
-        while np.any(self.calc_constraints(X) > -0.15):
-
-            for i, var in enumerate(self.problem.vars):
-                if self.problem.prob_type == 'continuous':
-                    X[i] = var.lb + (var.ub - var.lb) * np.random.rand()
-                else:
-                    X[i] = np.random.randint(var.lb, var.ub)
-
-            self.problem.substitute_variables(X)
-            self.problem.fea()
+        X = self.problem.random_values()
+        while len(self.problem.cons) > 0 and not self.is_feasible(X):
+            X = self.problem.random_values()
 
         print("Starting point created!")
 
-- 
2.43.0


From 2256c2bffe5ccd734949737baa98271ad23309f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 096/257] fix: best design of iterative solvers could be worse
 than the initial point, and feasibility was not reported

---
 metku/optimization/solvers/optsolver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metku/optimization/solvers/optsolver.py b/metku/optimization/solvers/optsolver.py
index 7524cf2..7b98dcf 100644
--- a/metku/optimization/solvers/optsolver.py
+++ b/metku/optimization/solvers/optsolver.py
@@ -224,6 +224,12 @@ class OptSolver:
         # Store initial point
         self.xvals.append(self.X.copy())
         self.fvals.append(problem.obj(self.X))
+        
+        # The result must not be worse than a feasible initial point
+        self.calc_constraints(self.X)
+        if self.is_feasible() and self.fvals[-1] < self.best_f:
+            self.best_f = self.fvals[-1]
+            self.best_x = self.X.copy()
 
 
         if plot:
@@ -331,6 +337,8 @@ class OptSolver:
             if done:
                 break
 
+        self.feasible = self.best_x is not None
+
         if self.best_x is None:
             self.best_x = self.X
             self.best_f = problem.obj(self.X)
-- 
2.43.0


From 8dcbab2699a8db04c0918196021b40b3f7a5f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 097/257] fix: sequential linear programming ignored the sense
 of constraints

---
 metku/optimization/solvers/mislp.py |  3 +++
 metku/optimization/solvers/slp.py   | 13 +++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index e537d70..8d15e3f 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -110,6 +110,9 @@ class MISLP(OptSolver):
             if act_cons[i].type == '<':                
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) <= B[i] + beta)
+            elif act_cons[i].type == '>':
+                CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
+                                               for j in range(m)]) >= B[i] - beta)
             elif act_cons[i].type == '=':
                 CBC_solver.Add(CBC_solver.Sum([A[i, j] * x[j]
                                                for j in range(m)]) == B[i])
diff --git a/metku/optimization/solvers/slp.py b/metku/optimization/solvers/slp.py
index 4a316f2..62accca 100644
--- a/metku/optimization/solvers/slp.py
+++ b/metku/optimization/solvers/slp.py
@@ -89,11 +89,16 @@ class SLP(OptSolver):
         if self.include_beta:
             beta = solver.NumVar(0, self.beta, 'beta')
         # Constraints
-        for i in range(n):
-            if self.include_beta:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i] + beta)
+        for i, con in enumerate(self.problem.cons):
+            # Infeasibility allowed for constraint i
+            slack = beta if self.include_beta else 0.0
+            lhs = solver.Sum([A[i, j] * x[j] for j in range(m)])
+            if con.type == '<':
+                solver.Add(lhs <= B[i] + slack)
+            elif con.type == '>':
+                solver.Add(lhs >= B[i] - slack)
             else:
-                solver.Add(solver.Sum([A[i, j] * x[j] for j in range(m)]) <= B[i])
+                solver.Add(lhs == B[i])
 
         # Objective
         if self.include_beta:
-- 
2.43.0


From 451f2cab944f6d4372de9b5780f08558206ef903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 098/257] fix: mixed-integer sequential programming rounded
 variables to values that are not allowed

---
 metku/optimization/solvers/mislp.py |  5 ++++-
 metku/optimization/structopt.py     | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mislp.py b/metku/optimization/solvers/mislp.py
index 8d15e3f..317d17e 100644
--- a/metku/optimization/solvers/mislp.py
+++ b/metku/optimization/solvers/mislp.py
@@ -176,7 +176,10 @@ class MISLP(OptSolver):
         # for i in discrete_ids:
         #     print(int(X[i]))
         #     X[i] = discrete_vars[i].values[int(X[i])]
-        X = np.asarray([round(var.solution_value(), 3) for var in x.values()])
+        X = np.asarray([var.solution_value() for var in x.values()])
+        # Only the allowed values are possible, regardless of the accuracy
+        # of the solution of the linear problem
+        X = self.problem.allowed_values(X)
         return X - self.X
 
     def step(self, action):
diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index b190591..139db06 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -271,6 +271,27 @@ class OptimizationProblem:
         """
         return np.array([var.value for var in self.vars])
     
+    def allowed_values(self, x):
+        """
+        Values closest to 'x' that are within variable bounds and allowed for
+        discrete variables
+
+        Returns
+        -------
+        numpy array
+
+        """
+        vals = np.zeros(self.nvars())
+        for i, var in enumerate(self.vars):
+            val = max(var.lb, min(x[i], var.ub))
+            if isinstance(var,IntegerVariable):
+                val = round(val)
+            elif isinstance(var,DiscreteVariable):
+                val = min(var.values, key=lambda v: abs(v-val))
+            vals[i] = val
+
+        return vals
+
     def random_values(self):
         """
         Generates random variable values within the range of allowable values
-- 
2.43.0


From 18074ed9d6d98ab89396128d590aeb75b62cd7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 099/257] fix: particles were moved to values that are not
 allowed for the discrete variable in question

---
 metku/optimization/solvers/pso.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metku/optimization/solvers/pso.py b/metku/optimization/solvers/pso.py
index 56fc7d9..93e0ce6 100644
--- a/metku/optimization/solvers/pso.py
+++ b/metku/optimization/solvers/pso.py
@@ -385,13 +385,8 @@ class Particle:
         # (Perhaps the velocity should be changed instead?)
 
         self.x = np.minimum(np.maximum(xnew,xlb),xub)
-        type_of_problem = problem.type_of_vars()
-
-        if type_of_problem == "DiscreteVariable":
-            possible_values = problem.vars[0].values
-            # Round values
-            self.x = np.array([min(possible_values, key=lambda x: abs(x - var))
-                      for var in self.x])
+        # Round values of discrete variables
+        self.x = problem.allowed_values(self.x)
     
     def update_best(self):
         """ Updates the best value found so far """
-- 
2.43.0


From 32478b2af3efb8d6f8b8f12a41ec2e4b8fb8fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 100/257] fix: genes of a population were generated for wrong
 variables after solving a problem of different size

---
 metku/optimization/solvers/ga.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index e5d1cff..9c9786d 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -149,15 +149,14 @@ class GA(OptSolver):
         """
         creator.create("Individual", list, fitness=creator.FitnessMin)
 
-    def attribute_generator(self, counter_list=[0]):
+    def attribute_generator(self):
         """
         Generates one gene attribute
-        :param counter_list: list used for counting how
-                             many times function has been called
         :return:
         """
-        idx = counter_list[0] % len(self.problem.vars)
-        counter_list[0] = counter_list[0] + 1
+        # Number of generated attributes is reset for each problem
+        idx = self.attribute_counter % len(self.problem.vars)
+        self.attribute_counter += 1
 
         var = self.problem.vars[idx]
 
@@ -238,6 +237,7 @@ class GA(OptSolver):
 
         self.problem = problem
         self.x0 = x0
+        self.attribute_counter = 0
         """ Creates the fitness function 
             but the create_fitness method does not return anything!
         """
-- 
2.43.0


From afb0f9f92c268a64151b4ab307a1d94a93824555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 101/257] fix: genetic algorithm evaluated values that are not
 allowed for discrete variables

---
 metku/optimization/solvers/ga.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index 9c9786d..739c2e8 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -107,8 +107,8 @@ class GA(OptSolver):
         :param ind: 'individual', i.e. design variable values
         :return: objective value of optimization problem
         """
-        self.problem.substitute_variables(ind)
-        X = [round(var.value, 3) for var in self.problem.vars]
+        X = self.problem.allowed_values(ind)
+        self.problem.substitute_variables(X)
 
         """ Evaluate objective function """
         obj_val = self.problem.obj(X)
@@ -164,7 +164,10 @@ class GA(OptSolver):
         if self.x0 is not None:
             val = self.x0[idx]
         elif isinstance(var, (IndexVariable, IntegerVariable)):
-            val = np.random.randint(var.lb, var.ub)
+            val = np.random.randint(var.lb, var.ub + 1)
+
+        elif isinstance(var, DiscreteVariable):
+            val = np.random.choice(var.values)
 
         else:
             val = np.random.uniform(var.lb, var.ub)
-- 
2.43.0


From 4ec444cd1a813fcf4525aaac74272e95bf6ccae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 102/257] fix: genetic algorithm penalised feasible designs of
 '>' constraints and mixed up locked variables

---
 metku/optimization/solvers/ga.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/solvers/ga.py b/metku/optimization/solvers/ga.py
index 739c2e8..5ab1917 100644
--- a/metku/optimization/solvers/ga.py
+++ b/metku/optimization/solvers/ga.py
@@ -70,7 +70,14 @@ class GA(OptSolver):
             crossover_kwargs = {}
         if penalty is None:
             def penalty(constr_vals):
-                pos_vals = np.clip(constr_vals, 0, 100)
+                viol = []
+                for g, con in zip(constr_vals, self.problem.cons):
+                    if con.type == '>':
+                        g = -g
+                    elif con.type == '=':
+                        g = abs(g)
+                    viol.append(g)
+                pos_vals = np.clip(viol, 0, 100)
                 return 2e6 * sum(pos_vals ** 2)
 
         """ Toolbox contains basic evolutionary operators """
@@ -130,8 +137,7 @@ class GA(OptSolver):
                 ind[i] = x
             self.best_ind = ind
             self.prev_best = self.best_f
-            best_x = [var.value for var in self.problem.all_vars]
-            self.best_x = best_x.copy()
+            self.best_x = list(X)
             self.best_f = val
             self.counter = 0
 
-- 
2.43.0


From 43f8694fd5f812f4673757dde9e214d57deca1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 103/257] fix: discrete neighbourhood search left variable
 bounds, accepted infeasible designs and did not stop at a local optimum

---
 metku/optimization/solvers/vns.py | 37 ++++++++++++++-----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/metku/optimization/solvers/vns.py b/metku/optimization/solvers/vns.py
index 7acc9d1..5e8342c 100644
--- a/metku/optimization/solvers/vns.py
+++ b/metku/optimization/solvers/vns.py
@@ -181,18 +181,19 @@ class DiscreteVNS(OptSolver):
     """
 
     def __init__(self, step_length=1, subset_size=-1):
+        super().__init__()
         self.step_length = int(step_length)
         self.X = None
         self.problem = None
         self.constr_vals = None
-        self.fval = 10e3
-        self.best_fval = 10e3
+        self.fval = np.inf
+        self.best_fval = np.inf
         self.subset_size = subset_size
 
 
     def shake(self):
         action = np.random.randint(-self.step_length, self.step_length + 1, len(self.X))
-        x = np.clip(self.X.copy() + action, 0, self.problem.vars[0].ub)
+        x = np.clip(self.X.copy() + action, self.problem.xlb(), self.problem.xub())
         return x
 
     def first_improvement(self, x):
@@ -245,12 +246,7 @@ class DiscreteVNS(OptSolver):
 
         if not len(X):
             X = self.X.copy()
-        prev_cons_vals = self.constr_vals.copy()
-        X += action
-        X = np.clip(X, 0, self.problem.vars[0].ub)
-
-        for x, var in zip(X, self.problem.vars):
-            var.substitute(int(x))
+        X = np.clip(X + action, self.problem.xlb(), self.problem.xub())
 
         # Calculate objective
         fval = self.problem.obj(X)
@@ -259,12 +255,7 @@ class DiscreteVNS(OptSolver):
 
         self.calc_constraints(X)
 
-        prev_val = sum(np.clip(prev_cons_vals, 0, 100)**2)
-        cur_val = sum(np.clip(self.constr_vals, 0, 100)**2)
-
-        d_cons_vals = prev_val - cur_val
-
-        if dfval > 0 and d_cons_vals >= 0 and np.all(self.constr_vals <= 0):
+        if dfval > 0 and self.is_feasible():
             self.best_fval = fval
             reward = 1
         #
@@ -315,13 +306,14 @@ class DiscreteVNS(OptSolver):
         self.problem = problem
         # Srating point
         if x0 is None:
-            self.X = np.zeros(len(problem.vars), dtype=int)
-            self.X += problem.vars[0].ub
+            self.X = np.array(problem.xub(), dtype=int)
         else:
-            self.X = x0
+            self.X = np.array(x0, dtype=int)
         problem.substitute_variables(self.X)
-        self.constr_vals = np.zeros(len(self.problem.cons))
         self.calc_constraints()
+        # Only improvements of a feasible initial point are accepted
+        if self.is_feasible():
+            self.best_fval = problem.obj(self.X)
 
         start_time = time.time()
         
@@ -333,7 +325,7 @@ class DiscreteVNS(OptSolver):
                 if time.time() - start_time >= maxtime:
                     print("MAXTIME")
                     i = maxiter
-                    return self.X, problem.obj(self.X)
+                    return problem.obj(self.X), self.X
                 if r != 1:
                     action = np.random.randint(-self.step_length,
                                                self.step_length + 1,
@@ -341,6 +333,11 @@ class DiscreteVNS(OptSolver):
                 if list(action) not in actions:
                     actions.append(list(action))
                     s, r, d, _ = self.step(action)
+                if r <= 0 and len(actions) == (2*self.step_length + 1)**len(self.X):
+                    # No better design in the neighbourhood
+                    break
+            if r <= 0:
+                break
             if plot:
                 self.update_plot(fig, ax)
             self.X = s
-- 
2.43.0


From 25f818470db509adcde9c1666eccab590df4e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 104/257] fix: shear resistance of a bolt applied the
 threaded-plane factor to the unthreaded plane

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 2e3c7f5..b66c5d2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2119,12 +2119,12 @@ def bolt_shear_resistance(fub,A,bolt_class=8.8,threads_in_plane=False):
     """
     
     if threads_in_plane:
-        av = 0.6
-    else:
         if bolt_class in {10.9,6.8,5.8,4.8}:
             av = 0.5
         elif bolt_class in {4.6,5.6,8.8}:
             av = 0.6
+    else:
+        av = 0.6
     
     FvRd = av*fub*A/gammaM2
     
-- 
2.43.0


From 716799bc85ff1b9e95769bb7a6e2664084afcade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 105/257] fix: bearing resistance of a bolt lacked the partial
 safety factor and the limit from the bolt spacing

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index b66c5d2..39dfac5 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -2137,7 +2137,7 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         Input:
             fub .. ultimate strength of bolt [MPa]
             fu .. ultimate strength of plate [MPa]
-            d .. diameter of bolt hole [mm]
+            d .. diameter of bolt [mm]
             t .. thickness of plate [mm]
             pos_perp .. position of bolt in direction perpendicular to
                         load transfer ("edge" or "innter")
@@ -2157,14 +2157,14 @@ def bolt_bearing_resistance(fub,fu,d,t,e,p,d0,pos_perp="edge",pos_load="edge"):
         ad = p1/3/d0 - 0.25    
 
     if pos_perp == "edge":
-        k1 = min(2.8*e2/d0-1.7,2.5)
+        k1 = min(2.8*e2/d0-1.7,1.4*p2/d0-1.7,2.5)
     else:
         k1 = min(1.4*p2/d0-1.7,2.5)
         
     
     ab = min(ad,fub/fu,1.0)
     
-    FbRd = k1*ab*fu*d*t    
+    FbRd = k1*ab*fu*d*t/gammaM2
     
     return FbRd
 
-- 
2.43.0


From eb29cb92552f66ff65b4baa88b9ea9ea7c71e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 106/257] fix: changing the size of a bolt failed when the new
 size is not available in the required length

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 39dfac5..c14771d 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -207,6 +207,8 @@ class Bolt:
         self.washer_t = washer_size[val]["h"]
         self.washer_d = washer_size[val]["d2"]
         
+        length = self._length
+        bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
             if key >= self._length:
@@ -228,6 +230,9 @@ class Bolt:
                         bolt_type = 'Full thread'
                         break
         
+        if not bolt_available:
+            print("Warning: Bolt of size {0:2.0f} is not available with minimum length of {1:4.2f} mm".format(val,length))
+        
         self.length = length
         self.bolt_type = bolt_type
     
-- 
2.43.0


From ae06808526cf0ed01d18b179a289de9baaa8a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 107/257] fix: shear interaction factor of the column web
 increased for transformation parameters above one

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 73eb1e0..2623947 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -31,7 +31,7 @@ def min_coeff_w(beta, b_eff_c_wc, t_wc, A_vc):
     elif beta == 1.0:
         w = w_1
     elif 1.0 < beta < 2.0:
-        w = w_1 + 2.0 * (beta - 1.0) * (1.0 - w_1)
+        w = w_1 + (beta - 1.0) * (w_2 - w_1)
     elif beta == 2.0:
         w = w_2
     else:
-- 
2.43.0


From 69ab9f8e6001910a695d82157c2c04bb2199cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 108/257] fix: full strength welds could not be designed for
 S460M, S460Q, S500 and S700

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index c14771d..496b0bc 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -79,7 +79,11 @@ correlation_coefficient = {"S235": 0.8,
                            "S275": 0.85,
                            "S355": 0.9,
                            "S420": 1.0,
-                           "S460": 1.0}
+                           "S460": 1.0,
+                           "S460M": 1.0,
+                           "S460Q": 1.0,
+                           "S500": 1.0,
+                           "S700": 1.0}
 
 """ Bolt row types """
 TENSION_ROW = 'tension row'
-- 
2.43.0


From 9edcbef09cf3496701d2be896c51e06386a1348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 109/257] fix: a bolt longer than those on sale raised instead
 of giving the warning

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 496b0bc..196a927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -125,7 +125,7 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= length:
+            if key != 'max' and key >= length:
                 if value[size] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -137,7 +137,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= length:
+                if key != 'max' and key >= length:
                     if value[size] != 'N/A':
                         length = key                    
                         bolt_available = True                        
@@ -215,7 +215,7 @@ class Bolt:
         bolt_type = 'Full thread'
         bolt_available = False
         for key, value in bolt_unit_cost_part_thread.items():
-            if key >= self._length:
+            if key != 'max' and key >= self._length:
                 if value[val] != 'N/A':
                     length = key                    
                     bolt_available = True
@@ -227,7 +227,7 @@ class Bolt:
         """
         if not bolt_available:
             for key, value in bolt_unit_cost_full_thread.items():
-                if key >= self._length:
+                if key != 'max' and key >= self._length:
                     if value[val] != 'N/A':
                         length = key                    
                         bolt_available = True
-- 
2.43.0


From 28bc2dda1f6d1992a2e92166a4b0344a334c8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 110/257] fix: moment resistance of an end-plate joint included
 the stored force of shear rows

---
 metku/structures/steel/end_plate_joint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 6d302b2..ede512f 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -595,7 +595,8 @@ class EndPlateJoint:
         
         MjRd = 0.0
         for row in self.bolt_rows:
-            MjRd += row.FtRd * row.h
+            if row.type != SHEAR_ROW:
+                MjRd += row.FtRd * row.h
         
         if verb:
             print("MjRd = {0:4.2f} kNm".format(MjRd*1e-6))
-- 
2.43.0


From 967d8b8d3195991f599bce122d42aee7499e8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 111/257] fix: initial stiffness of an end-plate joint with one
 tension row could not be evaluated

---
 metku/structures/steel/end_plate_joint.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index ede512f..ed567ff 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -687,13 +687,9 @@ class EndPlateJoint:
         
         E = self.col.material.E
         
-        if self.tension_rows == 1:
-            """ Only one tension row: moment arm is the distance
-                between bottom 
-            """
-            z = self.moment_arm()
-        else:
-            z, k_eq = self.zeq_and_keq(verb)
+        # With only one tension row, the equivalent moment arm and stiffness
+        # are the moment arm and the effective stiffness of that row.
+        z, k_eq = self.zeq_and_keq(verb)
         
         kcomp = self.k_comp(z)
         
-- 
2.43.0


From fe9c2d248d5317b109f44882579e29e3d14b229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 112/257] fix: equivalent stiffness of the tension rows
 included shear rows

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index ed567ff..b40b4d9 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -618,8 +618,8 @@ class EndPlateJoint:
 
     def keq(self,verb=False):
         """ Equivalent stiffness of the tension rows """
-        keff = np.array([row.keff() for row in self.bolt_rows])
-        hr = self.hr()
+        keff = np.array([row.keff() for row in self.bolt_rows if row.type != SHEAR_ROW])
+        hr = self.hr('non-shear')
         
     
         return sum(keff*hr)/self.zeq(verb)
-- 
2.43.0


From 4ff7fb1ebd68b4eb3fd28811950c93aa0c2c182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 113/257] fix: T-stubs of a joint kept the steel grade of the
 column and plate the joint was created with

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 196a927..9756ff0 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1402,6 +1402,11 @@ class TStubColumnFlange(TStub):
         """ T-stub flange thickness is the thickness of the column flange """
         return self.bolts.joint.col.tf
     
+    @property
+    def fy(self):
+        """ Yield strength of the column """
+        return self.bolts.joint.col.fy
+    
     @property
     def emin(self):
         """ See Fig. 6.8 of EN 1993-1-8:2005 """   
@@ -1563,6 +1568,10 @@ class TStubEndPlate(TStub):
         """ T-stub flange thickness is the thickness of the end plate """
         return self.bolts.joint.tp
     
+    @property
+    def fy(self):
+        """ Yield strength of the end plate """
+        return self.bolts.joint.end_plate.fy
     
     @property
     def emin(self):
@@ -1852,7 +1861,7 @@ class TStubGroupColumnFlange(TStubGroup):
     
     @property
     def fy(self):
-        return self.group.rows[0].Tstub_col_flange.mat.fy
+        return self.group.rows[0].Tstub_col_flange.fy
     
     @property
     def tf(self):
@@ -1974,7 +1983,7 @@ class TStubGroupEndPlate(TStubGroup):
     
     @property
     def fy(self):
-        return self.group.rows[0].Tstub_end_plate.mat.fy
+        return self.group.rows[0].Tstub_end_plate.fy
     
     @property
     def tf(self):
-- 
2.43.0


From 3aee892e6d5609f5bb1bb6575d76db9f629224d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 114/257] fix: prying of an end plate wider than the column
 flange was taken at the plate edge

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 9756ff0..5916398 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1576,12 +1576,7 @@ class TStubEndPlate(TStub):
     @property
     def emin(self):
         """ See Fig. 6.10 of EN 1993-1-8:2005 """
-        if self.bolts.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-            emin = self.bolts.ex
-        else:
-            emin = self.bolts.end_plate_e
-            
-        return emin
+        return self.bolts.emin_plate
     
     @property
     def m(self):
-- 
2.43.0


From bc1d8431f95c9b371b6496a00faf9d3f6e0224e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 115/257] fix: effective length of a T-stub was that of the
 last evaluated resistance, and could not be asked from a new group

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 5916398..46babe0 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1269,11 +1269,10 @@ class TStub:
             
         """
         
-        """ If no failure mode has been detected,
-            calculate resistance of the T-stub
+        """ Calculate resistance of the T-stub to find the governing
+            failure mode for the current data
         """
-        if self.failure_mode == -1:
-            self.FT_Rd()
+        self.FT_Rd()
          
         if self.failure_mode == 0:
             """ Complete mechanism governs """
@@ -1731,11 +1730,10 @@ class TStubGroup:
         """ Returns the effective width of the T-stub
         """
         
-        """ If no failure mode has been detected,
-            calculate resistance of the T-stub
+        """ Calculate resistance of the T-stub to find the governing
+            failure mode for the current data
         """
-        if self.failure_mode == -1:
-            self.FT_Rd()
+        self.FT_Rd()
          
         if self.failure_mode == 0:
             """ Complete mechanism governs """
@@ -1825,7 +1823,7 @@ class TStubGroup:
             
         return FRd
     
-    def FT_Rd(self,verb):
+    def FT_Rd(self,verb=False):
         """ Design tension resistance """
         
         FT_Rd = np.array([0.0,0.0,0.0])
-- 
2.43.0


From 2173ad1a6b528d081c250f565a865dcfd9088a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 116/257] fix: bolt spacing of a row in a group was not updated
 for all row positions

---
 .../eurocodes/en1993/en1993_1_8/en1993_1_8.py | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 46babe0..caddeaa 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -1517,7 +1517,6 @@ class TStubColumnFlange(TStub):
             except:
                 alpha = cm.new_alpha(self.e, self.m, self.m2)                            
                 #print(alpha)
-            print(self.p,alpha,self.m,self.e)
             leff = 0.5*self.p + alpha*self.m - (2*self.m + 0.625*self.e)
             
             
@@ -1879,12 +1878,12 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
+            if position in (END_ROW,OTHER_END_ROW,ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW,OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             #print("p = ",row.Tstub_col_flange.p)
@@ -1904,12 +1903,12 @@ class TStubGroupColumnFlange(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['flange']
             
-            if position == END_ROW or position == ADJACENT_TO_STIFFENER_ROW:
+            if position in (END_ROW,OTHER_END_ROW,ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW,OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
         
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
@@ -1926,12 +1925,12 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position in (END_ROW,OTHER_END_ROW,ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW,OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_nc'] = row.Tstub_col_flange.leff_nc_as_group(position)
@@ -1949,12 +1948,12 @@ class TStubGroupColumnFlange(TStubGroup):
             i = self.group.rows.index(row)
             
             position = self.group.row_loc[i]['flange']
-            if position == END_ROW:
+            if position in (END_ROW,OTHER_END_ROW,ADJACENT_TO_STIFFENER_ROW):
                 if i == 0:
                     row.Tstub_col_flange.p = self.group.p[i]
                 else:
                     row.Tstub_col_flange.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position in (INNER_ROW,OTHER_INNER_ROW):
                 row.Tstub_col_flange.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_col_flange.leff_cp_as_group(position)
@@ -2033,12 +2032,14 @@ class TStubGroupEndPlate(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
             
-            if position == END_ROW:
+            if position in (FIRST_ROW_BELOW_BEAM_TENSION_FLANGE,OTHER_END_ROW):
                 if i == 0:
                     row.Tstub_end_plate.p = self.group.p[i]
+                elif position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
+                    row.Tstub_end_plate.p = self.group.p[i]
                 else:
                     row.Tstub_end_plate.p = self.group.p[i-1]
-            elif position == INNER_ROW:
+            elif position == OTHER_INNER_ROW:
                 row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])
             
             self._leff_rows[row]['leff_cp'] = row.Tstub_end_plate.leff_cp_as_group(position)
-- 
2.43.0


From 92333dcd7514d90dcbd7c1344153f407d24c51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 117/257] fix: bolt spacing of a row in a group was not updated
 for all row positions; bolt positions of an end-plate joint reported values
 from before the plate was changed

---
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py | 10 ++++------
 metku/structures/steel/end_plate_joint.py       |  4 +---
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index caddeaa..171c659 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -383,7 +383,6 @@ class BoltRow:
         
         self.joint = joint
         
-        self._z_top = 0.5*self.joint.beam.h+self.joint.etop - z
         #self.y = y
         """ p can be a single number, in which case there are two bolts
             in the row
@@ -457,12 +456,11 @@ class BoltRow:
     @property
     def z_top(self):
         """ Distance of the bolt row from the top of the end plate """
-        return self._z_top
+        return self.ex
     
     @z_top.setter
     def z_top(self,val):
         """ Distance of the bolt row from the top of the end plate """
-        self._z_top = val
         self.z = 0.5*self.joint.beam.h+self.joint.etop - val
         
     @property
@@ -2032,11 +2030,11 @@ class TStubGroupEndPlate(TStubGroup):
         for i, row in enumerate(self.group.rows):
             position = self.group.row_loc[i]['plate']
             
-            if position in (FIRST_ROW_BELOW_BEAM_TENSION_FLANGE,OTHER_END_ROW):
+            if position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
+                row.Tstub_end_plate.p = self.group.p[i]
+            elif position == OTHER_END_ROW:
                 if i == 0:
                     row.Tstub_end_plate.p = self.group.p[i]
-                elif position == FIRST_ROW_BELOW_BEAM_TENSION_FLANGE:
-                    row.Tstub_end_plate.p = self.group.p[i]
                 else:
                     row.Tstub_end_plate.p = self.group.p[i-1]
             elif position == OTHER_INNER_ROW:
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index b40b4d9..09a53ed 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -83,7 +83,6 @@ class EndPlateJoint:
         self._etop = etop
         self.ebottom = ebottom
         self._ebolts = e_bolts      
-        self._xbolts = 0.5*bp-e_bolts
         # Make bolt rows
         self.bolt_rows = []
         self.row_groups = []
@@ -234,12 +233,11 @@ class EndPlateJoint:
     @property
     def xbolts(self):
         """ Distance of bolts from center of beam """
-        return self._xbolts
+        return 0.5*self.bp-self.ebolts
 
     @xbolts.setter
     def xbolts(self,val):
         """ Distance of bolts from center of beam """
-        self._xbolts = val
         self.ebolts = 0.5*self.bp-val
     
     @property
-- 
2.43.0


From 94450bd449f12d33da3797826ca7085f0a573439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 118/257] fix: height of the end plate did not follow its lower
 extension

---
 metku/structures/steel/end_plate_joint.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 09a53ed..bfa98ea 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -81,7 +81,7 @@ class EndPlateJoint:
         
         self.end_plate = RectPlate(bp,hp,tp,material=mat_p)
         self._etop = etop
-        self.ebottom = ebottom
+        self._ebottom = ebottom
         self._ebolts = e_bolts      
         # Make bolt rows
         self.bolt_rows = []
@@ -230,6 +230,15 @@ class EndPlateJoint:
         self._etop = val
         self.end_plate.h = val + self.ebottom + self.beam.h
     
+    @property
+    def ebottom(self):
+        return self._ebottom
+    
+    @ebottom.setter
+    def ebottom(self,val):
+        self._ebottom = val
+        self.end_plate.h = self.etop + val + self.beam.h
+    
     @property
     def xbolts(self):
         """ Distance of bolts from center of beam """
-- 
2.43.0


From fac036aec5b0183237493016aedf0863cf8d3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 119/257] fix: an end-plate joint created without row types had
 no bolt rows

---
 metku/structures/steel/end_plate_joint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index bfa98ea..ad4ad34 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -101,6 +101,9 @@ class EndPlateJoint:
         
         # Geometrical properties
         
+        if len(row_types) == 0:
+            row_types = [TENSION_ROW]*len(y_bolts)
+        
         # Create bolt rows
         for y, row_pos, r_type in zip(y_bolts,bolt_row_pos,row_types):
             """ Determine location of bolt row with respect to
-- 
2.43.0


From 470f591713cdcf10507d5a6b51f5781122c978b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 120/257] fix: shear resistance of an end-plate joint ignored
 bearing and depended on whether the moment resistance had been evaluated

---
 metku/structures/steel/end_plate_joint.py | 69 ++++++++++++-----------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index ad4ad34..981f28d 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -744,44 +744,45 @@ class EndPlateJoint:
         if verb:
             print("-- SHEAR RESISTANCE --")
         
+        # Forces of the bolt rows correspond to the moment resistance
+        self.bending_resistance()
+        
         for i, row in enumerate(self.bolt_rows):
-            if row.FtRd > 0.0:
+            # Bearing resistance of end plate: the first row is the one
+            # next to the edge, the others follow at a distance from each other.
+            if i == 0:
+                e1 = row.ex
+                p1 = 0
+                lpos = 'edge'
+            else:
+                e1 = 0
+                p1 = abs(self.bolt_rows[i-1].z - row.z)
+                lpos = 'inner'
+            
+            VbRd_plate = row.bolt.bearing_resistance(self.end_plate.fu,
+                                                     self.tp,
+                                                     [e1,self.ebolts],[p1,self.p],
+                                                     pos_perp="edge",pos_load=lpos,verb=False)
+            
+            # Bearing resistance of column flange: the column is continuous
+            if i == 0:
+                e1 = 1e5
+            
+            VbRd_col = row.bolt.bearing_resistance(self.col.fu,
+                                                   self.col.tf,
+                                                   [e1,row.col_flange_e],[p1,self.p],
+                                                   pos_perp="edge",pos_load=lpos,verb=False)
+            
+            VbRd = min(VbRd_plate,VbRd_col)
+            
+            VvRd = row.bolt.shear_resistance()
+            if row.type != SHEAR_ROW and row.FtRd > 1e-3:
                 """ Rows in tension still have at least 28.6% of their
                     shear resistance left.
                 """
-                
-                # Bearing resistance of end plate
-                e = [0,self.ebolts]
-                p = [0,self.p]
-                if row.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-                    e[0] = self.etop
-                    lpos = 'edge'
-                else:
-                    lpos = 'inner'
-                    p[0] = abs(self.bolt_rows[i-1].z - row.z)
-                    
-                VbRd_plate = row.bolt.bearing_resistance(self.end_plate.fu,
-                                                         self.tp,
-                                                         e,p,pos_perp="edge",pos_load=lpos,verb=False)
-                # Bearing resistance of column flange
-                if row.loc_end_plate == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-                    e[0] = 1e5
-                    lpos = 'edge'
-                else:
-                    lpos = 'inner'
-                    p[0] = abs(self.bolt_rows[i-1].z - row.z)
-                    
-                VbRd_col = row.bolt.bearing_resistance(self.col.fu,
-                                                         self.tp,
-                                                         e,p,pos_perp="edge",pos_load=lpos,verb=False)
-                
-                # Bearing resistance
-                VbRd = min(VbRd_plate,VbRd_col)
-                
-                
-                VRd += 2*0.286*row.bolt.shear_resistance()
-            elif abs(row.FtRd) < 1e-3 or row.type == SHEAR_ROW:
-                VRd += 2*row.bolt.shear_resistance()
+                VvRd = 0.286*VvRd
+            
+            VRd += 2*min(VvRd,VbRd)
         
         if verb:
             print("VjRd = {0:4.2f} kN".format(VRd*1e-3))
-- 
2.43.0


From a1b166c147d8f3dae32f12aade92ca8413560ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 121/257] fix: column web stiffeners of end-plate joints could
 not be evaluated

---
 metku/eurocodes/en1993/en1993_1_8/component_method.py | 2 +-
 metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py       | 6 ++----
 metku/structures/steel/end_plate_joint.py             | 6 ++----
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/component_method.py b/metku/eurocodes/en1993/en1993_1_8/component_method.py
index 2623947..e87e21b 100644
--- a/metku/eurocodes/en1993/en1993_1_8/component_method.py
+++ b/metku/eurocodes/en1993/en1993_1_8/component_method.py
@@ -234,7 +234,7 @@ def col_web_trv_comp_stiffened(column, plate):
     e = column.eps
     tw = column.tw
     bsg = plate.b
-    ts = plate.khp
+    ts = plate.t
     
     fy = plate.material.fy
     As_eff = (30*e*tw+ts)*tw + 2*bsg*ts
diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index 171c659..a188103 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -578,13 +578,13 @@ class BoltRow:
         if self.z > zbeam:
             """ Row is above the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    + 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    + 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     + 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             return self.z-zweld
         else:
             """ Row is below the stiffener """
             zweld = zbeam - 0.5 * self.joint.beam.tf + \
-                    - 0.5 * self.joint.stiffeners['col_top_flange'].khp + \
+                    - 0.5 * self.joint.stiffeners['col_top_flange'].t + \
                     - 0.8 * math.sqrt(2) * self.joint.stiffeners['col_top_flange'].weld_size
             
             return zweld-self.z
@@ -799,8 +799,6 @@ class BoltRow:
         #self.Tstub_col_flange.emin = self.emin_flange
         #self.Tstub_col_flange.m = self.col_flange_m
         #self.Tstub_col_flange.e = self.col_flange_e
-        if self.joint.stiffeners['col_top_flange'] is not None:
-            self.Tstub_col_flange.m2 = self.top_flange_stiffener_m2
         """ Determine effective length 
             The 'leff_1' and 'leff_2' methods store the
             effective length of each failure mode to the T-stub,
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 981f28d..102a6c0 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -351,7 +351,7 @@ class EndPlateJoint:
                     hp = self.beam.h
                     bp = self.col.hw
                 tp = value
-                plate = RectPlate(hp,bp,tp,material=self.col.material.name)
+                plate = RectPlate(bp,hp,tp,material=self.col.material.name)
             elif key == 'plate':
                 plate = value
             
@@ -379,9 +379,7 @@ class EndPlateJoint:
                         self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
                     else:
                         self.bolt_rows[0].loc_col_flange = END_ROW_ADJACENT_TO_STIFFENER
-                    self.bolt_rows[0].Tstub_col_flange.m2 = self.bolt_rows[0].top_flange_stiffener_m2
                     self.bolt_rows[1].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                    self.bolt_rows[1].Tstub_col_flange.m2 = self.bolt_rows[1].top_flange_stiffener_m2
                     
                     for group in self.row_groups:
                         for i, row in enumerate(group.rows):
@@ -411,7 +409,7 @@ class EndPlateJoint:
                 beam flanges (this may not be true for top stiffener for flushed end-plat)
             """
             ds = self.beam.h-self.beam.tf            
-            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()
+            V_wp_add_Rd[0] = 4*self.Mpl_fc_Rd()/ds
             fyt = self.stiffeners['col_top_flange'].fy
             tst = self.stiffeners['col_top_flange'].t
             fyb = self.stiffeners['col_bottom_flange'].fy
-- 
2.43.0


From e0b7f9384bea257c570be101e071111d67295f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 122/257] fix: bearing of the beam web in a fin-plate joint
 used the edge distance of the plate

---
 metku/structures/steel/fin_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 63a0230..4f6b63a 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -316,7 +316,7 @@ class FinPlateJoint:
             a = 0.5*self.z*p2/self.I
             b = 0.5*self.z*self.p1/self.I*(n1-1)
         
-        ever = [self.e1,self.e2b]        
+        ever = [self.e1b,self.e2b]        
         pver = [self.p1,p2]
         # NOTE! This bearing resistance distinguishes between edge and other bolts.
         # ECCS guide takes the minimum edge distance term using e and p regardless of
@@ -324,7 +324,7 @@ class FinPlateJoint:
         FbverRd = self.bolt.bearing_resistance(self.beam.fu, self.beam.tw, ever, pver)
         
         
-        ehor = [self.e2b,self.e1]
+        ehor = [self.e2b,self.e1b]
         phor = [p2,self.p1]
         FbhorRd = self.bolt.bearing_resistance(self.beam.fu, self.beam.tw, ehor, phor)
         
-- 
2.43.0


From 6898b12b5005db40f98daf5062ecdd894123bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 123/257] fix: fin-plate joints created with the default bolt
 shared one bolt

---
 metku/structures/steel/fin_plate_joint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 4f6b63a..4b5d898 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -28,7 +28,7 @@ from metku.cost.cost_data import nut_unit_cost, washer_unit_cost
 
 class FinPlateJoint:
     """ Class for fin plate joints """
-    def __init__(self, beam, plate, bolt=Bolt(20,8.8), gh=10,workshop=None):
+    def __init__(self, beam, plate, bolt=None, gh=10,workshop=None):
         """
             beam .. beam profile (ISection)
             plate .. RectPlateWithHoles object
@@ -47,6 +47,8 @@ class FinPlateJoint:
             p2 .. horizontal distance between bolt centers
             
         """
+        if bolt is None:
+            bolt = Bolt(20,8.8)
         self.beam = beam
         self.plate = plate
         # Vertical position of the center of the plate relative to
-- 
2.43.0


From b5887f5ec12b3852fb492a90240a656a53705a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 124/257] fix: effective lengths of bolt rows next to a column
 stiffener extended over the stiffener

---
 .../eurocodes/en1993/en1993_1_8/en1993_1_8.py  | 18 ++++++++++++++----
 metku/structures/steel/end_plate_joint.py      |  6 +++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
index a188103..bfdf113 100644
--- a/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
+++ b/metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py
@@ -625,6 +625,9 @@ class BoltRow:
                 appearing in the given group. Then, take the minimum of those values.
             """
             #leff_g = min(group.Tstub_col_flange._leff_rows[self].values())
+            if group.separated_by_stiffener:
+                # No yield line pattern extends over the stiffener
+                continue
             leff_g = min(group.Tstub_col_flange.leff_cp_row(self),group.Tstub_col_flange.leff_nc_row(self))
             if leff_g > 0.0:
                 """ If the group does not have column flange in bending
@@ -1023,6 +1026,16 @@ class BoltRowGroup:
             rows.
         """
         return [self.rows[i].z-self.rows[i+1].z for i in range(len(self.rows)-1)]
+    
+    @property
+    def separated_by_stiffener(self):
+        """ True, if the first row is on the opposite side of the
+            transverse stiffener of the column than the other rows
+        """
+        first = self.row_loc[0]
+        return first['flange'] == END_ROW_ADJACENT_TO_STIFFENER or \
+            (first['flange'] == ADJACENT_TO_STIFFENER_ROW and first['plate'] == ROW_OUTSIDE_BEAM_TENSION_FLANGE)
+    
     def info(self):
         """ Prints info """
         
@@ -1133,7 +1146,7 @@ class BoltRowGroup:
                       'Beam web in tension'
                       ]
         
-        if self.row_loc[0]['flange'] == END_ROW_ADJACENT_TO_STIFFENER:
+        if self.separated_by_stiffener:
             """ In this case, the first row is on the opposite side
                 of the stiffener than the other rows. This implies that
                 the resistance related to column flange in bending of this
@@ -1141,9 +1154,6 @@ class BoltRowGroup:
             """
             Ft_i_Rd[0] = np.inf
             Ft_i_Rd[2] = np.inf
-        elif self.row_loc[0]['flange'] == ADJACENT_TO_STIFFENER_ROW and self.row_loc[0]['plate'] == ROW_OUTSIDE_BEAM_TENSION_FLANGE:
-            Ft_i_Rd[0] = np.inf
-            Ft_i_Rd[2] = np.inf
         else:
             Ft_i_Rd[0] = self.column_flange_in_bending(verb)
             Ft_i_Rd[2] = self.column_web_in_tension(verb)
diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 102a6c0..fe44cc4 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -396,7 +396,11 @@ class EndPlateJoint:
                 else:
                     """ In this case the first row is below the top flange of the beam """
                     self.bolt_rows[0].loc_col_flange = ADJACENT_TO_STIFFENER_ROW
-                pass
+                    
+                    for group in self.row_groups:
+                        for i, row in enumerate(group.rows):
+                            if row == self.bolt_rows[0]:
+                                group.row_loc[i]['flange'] = ADJACENT_TO_STIFFENER_ROW
                 
                 
         
-- 
2.43.0


From 9cc684236d1a88637f5e1804e8b976439f1898d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 125/257] fix: timber members and fire protections could not be
 imported on their own (circular imports)

---
 metku/eurocodes/en1995/en1995_1_2.py     | 7 +------
 metku/structures/timber/timber_member.py | 3 ++-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 31d2e42..2a15a6d 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -7,11 +7,6 @@
 """
 import math
 import sys
-try:
-    from metku.eurocodes.en1995.fire_protection import FireProtection
-except:
-    from eurocodes.en1995.fire_protection import FireProtection
-
 if sys.version_info[0] == 3 and sys.version_info[1] < 9:
     from typing import List
     list_out = List[float]
@@ -62,7 +57,7 @@ def charring_speed(rhok: (int, float), type: str, hardness: str, h_p: (int, floa
     return beta
 
 
-def d_char_n(fp: FireProtection, t: (int, float), beta_n: float) -> float:
+def d_char_n(fp: 'FireProtection', t: (int, float), beta_n: float) -> float:
     """
     Returns the burned depth of single side
     @param fp: fire protection on the side
diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 45daaef..4200830 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -10,7 +10,6 @@ Timber member
 from math import log, tan, pi, sqrt, isclose, sin, cos, radians
 import numpy as np
 
-import metku.frame2d as frame2d
 from metku.materials.timber_data import Timber, T
 from metku.eurocodes.en1995.en1995_1_1 import kmod, kdef, k_to_d, get_gammaM
 from metku.eurocodes.en1995.constants import k_m
@@ -762,6 +761,8 @@ class TimberMember:
         beta = [[], []]
 
         def form_beta(lc: list, index: int, beam=False):
+            from metku.frame2d import frame2d
+
             startsupp = None
             endsupp = None
             for supp in self.parent.frame2d.supports.values():
-- 
2.43.0


From fcd1a6542bb9af15ec8f62ab1924184d1316f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 126/257] fix: design strengths of a timber member did not
 follow its service class, load duration and material

---
 metku/structures/timber/timber_member.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 4200830..9989687 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -103,13 +103,17 @@ class TimberMember:
 
         self.edge_load = edge_load
 
-        self.kmod = kmod(self.material.type, self.sc, self.ldc)
-
         self.section = profile
 
         self.R = 0
 
-        self.gammaM = get_gammaM(self.material.type)
+    @property
+    def kmod(self) -> float:
+        return kmod(self.material.type, self.sc, self.ldc)
+
+    @property
+    def gammaM(self) -> float:
+        return get_gammaM(self.material.type)
 
     @property
     def k_L(self):
-- 
2.43.0


From 48019ce20974de26e953cdb56ac02b3979b4258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 127/257] fix: volume factor was reduced for solid timber

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 9989687..230b9b8 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -402,7 +402,7 @@ class TimberMember:
         # SFS 1995-1-1 (6.51)
         if self.perm_k_vol is not None:
             return self.perm_k_vol
-        if self.material.type == 'solid timber':
+        if self.material.type == 'solid_timber':
             return 1.0
         v = self.V()
         if v > (2 / 3) * self.V_tot():
-- 
2.43.0


From 79f17d8d3619217bc783cffca2ec9dbdd2b3540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 128/257] fix: apex stress factor of pitched cambered beams

---
 metku/structures/timber/timber_member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 230b9b8..19ab45c 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -441,7 +441,7 @@ class TimberMember:
             return 1 + 0.35 * (self.section.hap / r) + 0.6 * (self.section.hap / r) ** 2
         elif isinstance(self.section, KaarevaHarjaPalkki):
             r = self.section.r_in + 0.5 * self.section.hap
-            k2 = 0.35 * - 8 * np.tan(self.alfa())
+            k2 = 0.35 - 8 * np.tan(self.alfa())
             k3 = 0.6 + 8.3 * np.tan(self.alfa()) - 7.8 * np.tan(self.alfa()) ** 2
             k4 = 6 * np.tan(self.alfa()) ** 2
             return k1 + k2 * (self.section.hap / r) + k3 * (
-- 
2.43.0


From 61096966a99d83523bb77b231631823ff350dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 129/257] fix: strength reduction of bent laminates was never
 applied, the radius was taken in metres

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 19ab45c..96da222 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -347,10 +347,10 @@ class TimberMember:
         if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
             return 1
         elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
-            if self.section.r_in * 1000 / self.section.t >= 240:
+            if self.section.r_in / self.section.t >= 240:
                 return 1
             else:
-                return 0.76 + 0.001 * (self.section.r_in * 1000 / self.section.t)
+                return 0.76 + 0.001 * (self.section.r_in / self.section.t)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 3093d2a2975abf70981f10f6b854f258d1d2b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 130/257] fix: stress distribution factor of curved beams was
 that of pitched cambered beams

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 96da222..67ea0cb 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -412,9 +412,9 @@ class TimberMember:
 
     def k_dis(self) -> float:
         # SFS 1995-1-1 (6.52)
-        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki)):
+        if isinstance(self.section, (HarjaPalkki, PulpettiPalkki, MahaPalkki, KaarevaPalkki)):
             return 1.4
-        elif isinstance(self.section, (KaarevaHarjaPalkki, KaarevaPalkki)):
+        elif isinstance(self.section, KaarevaHarjaPalkki):
             return 1.7
 
     def k_p(self) -> float:
-- 
2.43.0


From 969c14a09ed74a8d28be52a7fc85e53918388343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 131/257] fix: utilization of timber members was reduced by
 minor axis bending and torsion of negative sign

---
 metku/structures/timber/timber_member.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 67ea0cb..35db06f 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1113,30 +1113,30 @@ class TimberMember:
 
     def check_bending_moment(self, n: int) -> float:
         # Bending moment utilization ratio:                         SFS-EN 1995-1-1 § 6.1.6
-        UM1 = abs(self.sigma_md(n)[0] / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd)
-        UM2 = abs(self.sigma_md(n)[1] / self.fmd + k_m * self.sigma_md(n)[0] / self.fmd)
+        UM1 = abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = abs(self.sigma_md(n)[1]) / self.fmd + k_m * abs(self.sigma_md(n)[0]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_torsion(self, n: int) -> float:
         # Torsion utilization ratio:                                SFS-EN 1995-1-1 § 6.1.8
-        UTx = self.tau_tord(n) / (self.k_shape(n) * self.fvd)
+        UTx = abs(self.tau_tord(n)) / (self.k_shape(n) * self.fvd)
         r = UTx
         return r
 
     def check_bending_tension(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.3
         # TODO z-suuntainen taivutusjännitys tarkistettava merkkien osalta (deplanaatiota ei ole otettu huomioon)
-        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = self.sigma_t0d(n) / self.ft0d + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = self.sigma_t0d(n) / self.ft0d + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
     def check_bending_compression(self, n: int) -> float:
         #                                                           SFS-EN 1995-1-1 § 6.2.4
         # TODO katso ylemää
-        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * self.sigma_md(n)[1] / self.fmd
-        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + self.sigma_md(n)[1] / self.fmd
+        UM1 = (self.sigma_c0d(n) / self.fc0d) ** 2 + abs(self.sigma_md(n)[0]) / self.fmd + k_m * abs(self.sigma_md(n)[1]) / self.fmd
+        UM2 = (self.sigma_c0d(n) / self.fc0d) ** 2 + k_m * abs(self.sigma_md(n)[0]) / self.fmd + abs(self.sigma_md(n)[1]) / self.fmd
         r = max(UM1, UM2)
         return r
 
@@ -1179,8 +1179,8 @@ class TimberMember:
         mz0 = np.array(sigma_mzd_list[0])
         mz1 = np.array(sigma_mzd_list[1])
 
-        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * mz0 / self.fmd),
-              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + mz1 / self.fmd)]
+        UB = [(abs(sc0) / (self.k_c()[0] * self.fc0d) + abs(my0) / self.fmd + k_m * abs(mz0) / self.fmd),
+              (abs(sc1) / (self.k_c()[1] * self.fc0d) + k_m * abs(my1) / self.fmd + abs(mz1) / self.fmd)]
         UB_fixed = [UB[0] * (sc0 < 0), UB[1] * (sc1 < 0)]
 
         return [max(UB_fixed[0]), max(UB_fixed[1])]
-- 
2.43.0


From 9003fc5e11cf4b6225779e7825df2fa019d8e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 132/257] fix: lateral-torsional buckling of a timber member
 was not checked for negative moments, and tension was taken as compression

---
 metku/structures/timber/timber_member.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 35db06f..49dd63d 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -1195,14 +1195,14 @@ class TimberMember:
         for i in range(len(supp) - 1):
             for loc in self.loc:
                 if supp[i] <= loc <= supp[i + 1]:
-                    if max(self.myed, key=abs) != 0 and abs(max(self.ned, key=abs)) <= 0.1:
-                        ULT_list.append({'r': self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
+                    if self.ned[self.loc.index(loc)] >= -0.1:
+                        # No compression
+                        ULT_list.append({'r': abs(self.sigma_md(self.loc.index(loc))[0]) / (self.k_crit(i, 1, loc) * self.fmd), 'kaava': 33, 'loc': loc, 'i': i})
                     else:
                         ULT_list.append({
                             'r': ((self.sigma_md(self.loc.index(loc))[0] / (self.k_crit(i, 1, loc) * self.fmd)) ** 2) +
                             abs(self.sigma_c0d(self.loc.index(loc))) / (self.k_c()[1][i] * self.fc0d), 'kaava': 35, 'loc': loc, 'i': i})
 
-                # TODO sigma_cod positiivinen tai negatiivinen
         if get_full:
             return max(ULT_list, key=lambda x: x['r'])
         return max(ULT_list, key=lambda x: x['r'])['r']
-- 
2.43.0


From 48a01c4447d9fa9a150e239355d817c40bb2dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 133/257] fix: torsion constant of rectangular timber sections
 was several times too large between the tabulated ratios

---
 metku/structures/timber/timber_member.py | 70 ++++++------------------
 1 file changed, 17 insertions(+), 53 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 49dd63d..8326826 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -20,6 +20,12 @@ from metku.sections.steel.ISection import HEA
 
 PREC = 5
 
+# Torsion of rectangular sections: T. Salmi 2000, Lujuusopin perusteet, p. 258.
+# The arguments are the ratios of the smaller dimension to the larger one
+TORSION_RATIO = [0, 1 / 10, 1 / 8, 1 / 6, 1 / 5, 1 / 4, 1 / 3, 1 / 2.5, 1 / 2, 1 / 1.5, 1 / 1.2, 1]
+TORSION_ALPHA = [0.333, 0.313, 0.307, 0.299, 0.291, 0.281, 0.263, 0.249, 0.229, 0.196, 0.166, 0.141]
+TORSION_BETA = [0.333, 0.313, 0.307, 0.299, 0.291, 0.282, 0.267, 0.258, 0.246, 0.231, 0.219, 0.208]
+
 import sys
 
 if sys.version_info[0] == 3 and sys.version_info[1] < 9:
@@ -634,72 +640,30 @@ class TimberMember:
         EN-1995-1-1 6-1-8
         Alpha and beta are based on the theoretical tables given in: T. Salmi 2000, Lujuusopin perusteet, p. 258
         """
-        section_height_to_width_ratio = self.section.get_H(self.loc[n]) / self.section.B
-        if section_height_to_width_ratio < 1:
-            section_height_to_width_ratio = 1 / section_height_to_width_ratio
-        if 0.95 < section_height_to_width_ratio < 1.05:
-            beta = 0.208
-        elif 1.45 < section_height_to_width_ratio < 1.55:
-            beta = 0.231
-        elif 1.95 < section_height_to_width_ratio < 2.05:
-            beta = 0.246
-        elif 2.45 < section_height_to_width_ratio < 2.55:
-            beta = 0.258
-        elif 2.95 < section_height_to_width_ratio < 3.05:
-            beta = 0.267
-        elif 3.95 < section_height_to_width_ratio < 4.05:
-            beta = 0.282
-        elif 4.95 < section_height_to_width_ratio < 5.05:
-            beta = 0.299
-        elif 5.95 < section_height_to_width_ratio < 6.05:
-            beta = 0.307
-        elif 7.95 < section_height_to_width_ratio < 8.05:
-            beta = 0.313
-        elif 9 < section_height_to_width_ratio < np.inf:
-            beta = 0.333
-        else:
-            beta = -0.0007 * section_height_to_width_ratio ** 2 + 0.0193 * section_height_to_width_ratio + 0.1923
-        Wv = beta * self.section.get_H(self.loc[n]) * self.section.B ** 2
+        h = max(self.section.get_H(self.loc[n]), self.section.B)
+        b = min(self.section.get_H(self.loc[n]), self.section.B)
+        beta = np.interp(b / h, TORSION_RATIO, TORSION_BETA)
+        Wv = beta * h * b ** 2
         return self.ted[n] / Wv
 
     def I_tor(self, loc: float) -> float:
         """
         @return: torsional constant for rectangular cross sections
         """
-        ratio = self.section.get_H(loc) / self.section.B
-        if ratio < 1:
-            ratio = 1 / ratio
-        if 1 < ratio < 1.05:
-            alpha = 0.141
-        elif 1.45 < ratio < 1.55:
-            alpha = 0.196
-        elif 1.95 < ratio < 2.05:
-            alpha = 0.229
-        elif 2.45 < ratio < 2.55:
-            alpha = 0.249
-        elif 2.95 < ratio < 3.05:
-            alpha = 0.263
-        elif 3.95 < ratio < 4.05:
-            alpha = 0.281
-        elif 4.95 < ratio < 5.05:
-            alpha = 0.299
-        elif 5.95 < ratio < 6.05:
-            alpha = 0.307
-        elif 7.95 < ratio < 8.05:
-            alpha = 0.313
-        elif 9 < ratio < np.inf:
-            alpha = 0.333
-        else:
-            alpha = -0.0022 * ratio ** 2 + 0.425 * ratio + 0.1116
+        h = max(self.section.get_H(loc), self.section.B)
+        b = min(self.section.get_H(loc), self.section.B)
+        alpha = np.interp(b / h, TORSION_RATIO, TORSION_ALPHA)
 
-        return alpha * self.section.get_H(loc) * self.section.B ** 3
+        return alpha * h * b ** 3
 
     def k_shape(self, n: int) -> float:
         """
         SFS EN 1995-1-1 §6.1.8(6.15)
         @return: cross section factor for rectangular cross sections (circular sections not included)
         """
-        return min(1.3, 1 + 0.05 * self.section.get_H(self.loc[n]) / self.section.B)
+        h = max(self.section.get_H(self.loc[n]), self.section.B)
+        b = min(self.section.get_H(self.loc[n]), self.section.B)
+        return min(1.3, 1 + 0.05 * h / b)
 
     def beta_c(self) -> float:
         """
-- 
2.43.0


From 9d5307f5cd910597f4846eac83e154a64dfa9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 134/257] fix: buckling factor of stocky timber members was
 above one

---
 metku/structures/timber/timber_member.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 8326826..09fc2e3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -876,8 +876,9 @@ class TimberMember:
         # SFS-EN 1995-1-1 § 6.3.2 (6.26)
         k = self.k()
         l_rel = self.lamda_rel()
-        r = [np.power(k[0] + np.power(np.power(k[0], 2) - np.power(l_rel[0], 2), 0.5), -1),
-             np.power(k[1] + np.power(np.power(k[1], 2) - np.power(l_rel[1], 2), 0.5), -1)]
+        # the strength is not reduced when the relative slenderness is at most 0.3, but not increased either
+        r = [np.minimum(np.power(k[0] + np.power(np.power(k[0], 2) - np.power(l_rel[0], 2), 0.5), -1), 1.0),
+             np.minimum(np.power(k[1] + np.power(np.power(k[1], 2) - np.power(l_rel[1], 2), 0.5), -1), 1.0)]
         return r
 
     def l_ef(self, i: int, yz: int, loc: float) -> float:
-- 
2.43.0


From d69e5d0af475825995dce801c14628648ad78309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 135/257] fix: size factor of a bent timber section with axial
 force was that of its width

---
 metku/sections/timber/timber_section.py | 30 ++++++++++---------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index 1cd68a1..ecc7e04 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -173,27 +173,21 @@ class TimberSection:
         # SFS-EN1995-1-1 3.2, 3.3, 3.4
         # TODO pitää kysyä samilta
         # toimii kaikille rajatiloille, jos halutaan poistaa palolta niin pitää muokata koodia
-        Med = max(self.timber_member.MEdY, self.timber_member.MEdZ)
+        # Governing dimension: depth in bending, larger dimension in tension
+        dims = []
+        if self.timber_member.NEd > 0:
+            dims.append(max(self.B, self.H))
+        if self.timber_member.MEdY != 0:
+            dims.append(self.H)
+        if self.timber_member.MEdZ != 0:
+            dims.append(self.B)
+        h = max(dims, default=np.inf)
         if self.material.rhok <= 700 and self.material.type == 'solid_timber':
-            if self.timber_member.NEd > 0 and self.B < 150 and Med != 0 and self.H < 150:
-                return min(min(1.3, (150 / self.B) ** 0.2), min(1.3, (150 / self.H) ** 0.2))
-            elif self.timber_member.NEd > 0 and self.B < 150:
-                return min(1.3, (150 / self.B) ** 0.2)
-            elif Med != 0 and self.H < 150:
-                return min(1.3, (150 / self.H) ** 0.2)
-            else:
-                return 1.0
+            return min(1.3, (150 / h) ** 0.2) if h < 150 else 1.0
         elif self.material.type == 'glt':
-            if self.timber_member.NEd > 0 and self.B < 600 and Med != 0 and self.H < 600:
-                return min(min(1.1, (600 / self.B) ** 0.1), min(1.1, (600 / self.H) ** 0.1))
-            elif self.timber_member.NEd > 0 and self.B < 600:
-                return min(1.1, (600 / self.B) ** 0.1)
-            elif Med != 0 and self.H < 600:
-                return min(1.1, (600 / self.H) ** 0.1)
-            else:
-                return 1.0
+            return min(1.1, (600 / h) ** 0.1) if h < 600 else 1.0
         elif self.material.type == 'lvl':
-            if Med != 0 and self.H != 300:
+            if max(self.timber_member.MEdY, self.timber_member.MEdZ) != 0 and self.H != 300:
                 return min(1.2, (300 / self.H) ** self.material.s)
             else:
                 return 1.0
-- 
2.43.0


From 3e770a6255902f31262c788005595d9d9d453b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 136/257] fix: strength at the tapered edge of a beam used
 compression strength in tension, and the wrong edge

---
 metku/structures/timber/timber_member.py | 25 +++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 09fc2e3..cc9fcd3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -455,21 +455,18 @@ class TimberMember:
 
     def k_m_alpha(self) -> float:
         # SFS 1995-1-1 (6.39) ja (6.40)
+        # The tapered edge is the upper one, or the lower one if the section is flipped.
+        # A positive bending moment causes tension at the lower edge
         sigma_malphad = self.sigma_m_alpha_d()
-        if not self.section.flipped:
-            if sigma_malphad >= 0:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-            else:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+        tan_a = np.tan(self.alfa())
+        if (sigma_malphad >= 0) == bool(self.section.flipped):
+            # tension parallel to the tapered edge
+            kma = np.power(1 + np.power(tan_a * (4 / 3) * self.fmd / self.fvd, 2) +
+                           np.power(np.power(tan_a, 2) * self.fmd / self.ft90d, 2), -1 / 2)
         else:
-            if sigma_malphad <= 0:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (4 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
-            else:
-                kma = np.power(1 + np.power(np.tan(self.alfa()) * (2 / 3) * self.fmd / self.fvd, 2) +
-                               np.power(np.power(np.tan(self.alfa()), 2) * self.fmd / self.fc90d, 2), -1 / 2)
+            # compression parallel to the tapered edge
+            kma = np.power(1 + np.power(tan_a * (2 / 3) * self.fmd / self.fvd, 2) +
+                           np.power(np.power(tan_a, 2) * self.fmd / self.fc90d, 2), -1 / 2)
         return kma
 
     def alfa(self) -> float:
@@ -925,7 +922,7 @@ class TimberMember:
 
     def check_single_tapered_beam_bending_tension(self) -> float:
         # SFS 1995-1-1 (6.38)
-        return self.sigma_m_alpha_d() / (self.k_m_alpha() * self.fmd)
+        return abs(self.sigma_m_alpha_d()) / (self.k_m_alpha() * self.fmd)
 
     def check_tapered_beam_bending_tension(self) -> float:
         """
-- 
2.43.0


From 50ad06b0b8f20f30319e0b7eec86cd58b030ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 137/257] fix: bending at the apex of a beam was not checked
 for negative moments

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index cc9fcd3..77e78b3 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -954,7 +954,7 @@ class TimberMember:
                     self.sigma_md(self.loc.index(minusloc))[0] + self.sigma_md(self.loc.index(plusloc))[
                 0]) / 2
 
-        return sig / (self.k_r() * self.fmd)
+        return abs(sig) / (self.k_r() * self.fmd)
 
     def check_perpendicular_to_grain_tension(self) -> float:
         """
@@ -1212,7 +1212,7 @@ class TimberMember:
     def check_apex_bending_stress(self) -> float:
         # EN 1995-1-1 (6.41)
         sigma = self.k_l() * self.M_apd() / self.W_ap()[0]
-        return sigma / (self.k_r() * self.fmd)
+        return abs(sigma) / (self.k_r() * self.fmd)
 
     def check_apex_perpendicular_tension(self) -> float:
         # EN 1995-1-1 (6.50)
-- 
2.43.0


From 2f948a21e6b5fd7e37cac91d755e453b81fdda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 138/257] fix: charring depth of protected timber lacked the
 zero-strength layer before charring, and jumped at the failure of the
 protection

---
 metku/eurocodes/en1995/en1995_1_2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1995/en1995_1_2.py b/metku/eurocodes/en1995/en1995_1_2.py
index 2a15a6d..566bc47 100644
--- a/metku/eurocodes/en1995/en1995_1_2.py
+++ b/metku/eurocodes/en1995/en1995_1_2.py
@@ -84,11 +84,11 @@ def d_char_n(fp: 'FireProtection', t: (int, float), beta_n: float) -> float:
         return t * beta_n + k0 * d0
     # RIL-205-2-2009 kuvat 3.3 - 3.5
     if t < fp.t_ch:
-        return 0
+        return k0 * d0
     if fp.t_ch < fp.t_f:
         if t < fp.t_f:
             return (t - fp.t_ch) * 0.73 * beta_n + k0 * d0
-        elif fp.t_f < t < fp.t_a:
+        elif t < fp.t_a:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (t - fp.t_f) * 2 * beta_n + k0 * d0
         else:
             return (fp.t_f - fp.t_ch) * 0.73 * beta_n + (fp.t_a - fp.t_f) * 2 * beta_n + (t - fp.t_a) * beta_n + k0 * d0
-- 
2.43.0


From 4abaa534e0851e1c5d79328de19236534a62c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 139/257] fix: fire protection given to an existing timber
 section could not be evaluated

---
 metku/sections/timber/timber_section.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/sections/timber/timber_section.py b/metku/sections/timber/timber_section.py
index ecc7e04..27858af 100644
--- a/metku/sections/timber/timber_section.py
+++ b/metku/sections/timber/timber_section.py
@@ -98,6 +98,10 @@ class TimberSection:
             self.__material.direction = self.lvldir
         self.set_beta_0_and_n()
 
+        self.set_fire_protections()
+
+    def set_fire_protections(self):
+        """ Sets the protected material and the resulting times of the fire protections """
         # RIL-205-2-2009 3.4.3
         # Asetetaan palosuojille millainen materiaali suojataan jotta voidaan laskea ta ja tf
         if self.fire_protection_right:
@@ -225,6 +229,7 @@ class TimberSection:
             self.fire_protection_left = val
             self.fire_protection_bottom = val
             self.fire_protection_top = val
+        self.set_fire_protections()
 
     def get_R(self) -> (int, float):
         return self.R
-- 
2.43.0


From 0b7868ea993b9ee31f9ae88a85dcd0da7bbf8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 140/257] fix: timber of the hardwood classes was taken as
 softwood

---
 metku/materials/timber_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/materials/timber_data.py b/metku/materials/timber_data.py
index 2e6b7b0..8ca66dc 100644
--- a/metku/materials/timber_data.py
+++ b/metku/materials/timber_data.py
@@ -119,8 +119,11 @@ lvl = {T.Kerto_S: {"fmk": 44, "s": 0.12, "fm0flatk": 50, "ft0k": 35, "ft90edgek"
 
 
 class Timber(Material):
-    def __init__(self, timber_type: T=T.C14, hardness: str='softwood'):
+    def __init__(self, timber_type: T=T.C14, hardness: str=None):
         self.timber_type = timber_type
+        if hardness is None:
+            # strength classes of hardwood are denoted by D
+            hardness = 'hardwood' if timber_type.name.startswith('D') else 'softwood'
         self.hardness = hardness
         if timber_type in solid_timber:
             self.type = 'solid_timber'
-- 
2.43.0


From 323364a6f2c5776d479127c2464e1e032a6e4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 141/257] fix: buckling length of a timber column depended on
 which end is fixed

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 77e78b3..0fc340b 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -752,8 +752,8 @@ class TimberMember:
                         beta[index] = 0.7
                     elif isinstance(startsupp, frame2d.XYHingedSupport) and isinstance(endsupp, frame2d.XYHingedSupport):
                         beta[index] = 1
-                    elif (isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport) and
-                          isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport)):
+                    elif ((isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport)) and
+                          (isinstance(startsupp, frame2d.XYHingedSupport) or isinstance(endsupp, frame2d.XYHingedSupport))):
                         beta[index] = 0.85
                     elif isinstance(startsupp, frame2d.YHingedSupport) or isinstance(endsupp, frame2d.YHingedSupport):
                         if isinstance(startsupp, frame2d.FixedSupport) or isinstance(endsupp, frame2d.FixedSupport):
-- 
2.43.0


From bacba576d4d73e4084ee6c9eb8215981256a5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 142/257] fix: buckling length factors of a timber member did
 not follow its supports after the first evaluation

---
 metku/structures/timber/timber_member.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 0fc340b..12af25d 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -87,7 +87,8 @@ class TimberMember:
         self.type = mtype
         self.Sj1 = Sj1
         self.Sj2 = Sj2
-        self.beta = beta
+        self._beta = beta  # given buckling length factors
+        self._beta_calc = None  # buckling length factors from the supports and end stiffnesses
         self.perm_k_vol = k_vol
 
         self.ned = []
@@ -113,6 +114,16 @@ class TimberMember:
 
         self.R = 0
 
+    @property
+    def beta(self):
+        if self._beta is not None:
+            return self._beta
+        return self._beta_calc
+
+    @beta.setter
+    def beta(self, val):
+        self._beta = val
+
     @property
     def kmod(self) -> float:
         return kmod(self.material.type, self.sc, self.ldc)
@@ -804,7 +815,7 @@ class TimberMember:
                         else:
                             beta[index].append(1)
 
-        if self.beta is not None:
+        if self._beta is not None:
             if isinstance(self.beta, (int, float)):
                 return np.asarray([self.beta * self.L_c[0], self.beta * self.L_c[1]], dtype=object)
             elif isinstance(self.beta, list):
@@ -812,12 +823,12 @@ class TimberMember:
         if self.type == 'column':
             form_beta(self.L_c[0], 0)
             form_beta(self.L_c[1], 1)
-            self.beta = beta
+            self._beta_calc = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
         elif self.type in ('rigid-beam', 'beam'):
             form_beta(self.L_c[0], 0, True)
             form_beta(self.L_c[1], 1, True)
-            self.beta = beta
+            self._beta_calc = beta
             return np.asarray([beta[0] * self.L_c[0], beta[1] * self.L_c[1]], dtype=object)
 
         if self.Sj1 >= 1e15 and self.Sj2 >= 1e15:
-- 
2.43.0


From 626c964d857b3013ad12315820d89dbd8b521e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 143/257] fix: slenderness of a tapered timber member under
 negative moments was that of its least bent section

---
 metku/structures/timber/timber_member.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/timber/timber_member.py b/metku/structures/timber/timber_member.py
index 12af25d..0f4f939 100644
--- a/metku/structures/timber/timber_member.py
+++ b/metku/structures/timber/timber_member.py
@@ -707,7 +707,7 @@ class TimberMember:
                 if supp_y[i] <= loc <= supp_y[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iy.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         for i in range(len(supp_z) - 1):
             sig_md_in_seg = []
@@ -716,7 +716,7 @@ class TimberMember:
                 if supp_z[i] <= loc <= supp_z[i + 1]:
                     sig_md_in_seg.append(sig_md_list[self.loc.index(loc)])
                     locs.append(loc)
-            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg))])
+            iz.append(locs[sig_md_in_seg.index(max(sig_md_in_seg, key=lambda x: abs(x[0])))])
 
         y = [sqrt(self.section.get_I(i)[0] / self.section.get_A(i)) for i in iy]
         z = [sqrt(self.section.get_I(i)[1] / self.section.get_A(i)) for i in iz]
-- 
2.43.0


From cc097b3075e746aeaa07c9b279b1a8eab58ec01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 144/257] fix: chord stress factor was not applied to
 resistances of Y and X joints of hollow sections

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 6d8d763..0dfb927 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -832,7 +832,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -854,7 +854,7 @@ class RHSYJoint(RHSJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From f4e3793995cad9b48e49f311ede50d2ca99c80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 145/257] fix: chord stress factor of hollow section joints
 could become negative

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 0dfb927..7a9f28e 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -188,7 +188,7 @@ class RHSJoint:
         n = self.eval_N()
         b = self.beta()
         if n > 0.0: # compression
-            kn = min(1.3-0.4*n/b, 1.0)
+            kn = max(min(1.3-0.4*n/b, 1.0),0.0)
         
         return kn
         
-- 
2.43.0


From 627274d1935c27438ac0958248ffff371f5eb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 146/257] fix: resistance of wide braces was not interpolated
 from chord face failure at beta 0.85

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 7a9f28e..03092e4 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -821,9 +821,11 @@ class RHSYJoint(RHSJoint):
         
         return fb
             
-    def chord_face_failure(self,verb=False):
-                        
-        b = self.beta()
+    def chord_face_failure(self,verb=False,beta=None):
+        """ Resistance to chord face failure
+            :param: beta .. ratio of brace and chord widths, that of the joint by default
+        """
+        b = self.beta() if beta is None else beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -983,7 +985,7 @@ class RHSYJoint(RHSJoint):
             NjRd = self.chord_face_failure()
             
         else:
-            N_cff_Rd = self.chord_face_failure()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
             N_csw_Rd = self.chord_web_buckling()
             N_bf_Rd = self.brace_failure()
             
-- 
2.43.0


From aa995e674335df5261821f264671cc240eae7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 147/257] fix: compression brace of a Y joint was taken as
 tension, and changes of its force were ignored

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 03092e4..be7eb47 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -765,12 +765,18 @@ class RHSYJoint(RHSJoint):
             self.brace = brace
         self.angle = angle
         
-        self._N1 = self.brace.NEd
+        # Force of the brace, if it is given separately
+        self._N1 = None
         
     @property
     def N1(self):
-        """ Force in the brace """
-        #return self.brace.NEd
+        """ Force in the brace, negative for compression """
+        if self._N1 is None:
+            # NEd is an absolute value
+            if -self.brace.NcEd >= self.brace.NEd:
+                return self.brace.NcEd
+            return self.brace.NEd
+
         return self._N1
     
     @N1.setter
-- 
2.43.0


From 9b3ff17091be464c4b6be41829424640ac6e0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 148/257] fix: buckling factor of stocky chord side walls was
 above one

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index be7eb47..8ac01c3 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -818,7 +818,7 @@ class RHSYJoint(RHSJoint):
             alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0) if slend > 0.2 else 1.0
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -1025,7 +1025,7 @@ class RHSXJoint(RHSYJoint):
             alpha = self.chord.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0) if slend > 0.2 else 1.0
             
             res = 0.8*chi * self.fy0*np.sin(np.radians(self.angle))            
         else:
-- 
2.43.0


From 827861e320be089d337f61a7fb43d7a0486c0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 149/257] fix: X joints of hollow sections could not be
 evaluated

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 8ac01c3..25cbe37 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -1022,7 +1022,7 @@ class RHSXJoint(RHSYJoint):
                 
                 
         if self.N1 < 0.0:            
-            alpha = self.chord.imp_factor[0]
+            alpha = self.chord.profile.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
             chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0) if slend > 0.2 else 1.0
@@ -1043,7 +1043,7 @@ class RHSXJoint(RHSYJoint):
             # Take the minimium of chord web buckling for X joints
             # and chord shear for K and N joints
             # 
-            Nshear = self.fy0*self.chord.Ashear/np.sqrt(3)/np.sin(np.radians(self.angle))
+            Nshear = self.fy0*self.chord.profile.Ashear[1]/np.sqrt(3)/np.sin(np.radians(self.angle))
             # The strength reduction factor is already taken into account
             # for the chord web buckling of the Y joint class method.
             # It must be applied for the chord shear.
@@ -1060,14 +1060,14 @@ class RHSXJoint(RHSYJoint):
         
         RHSJoint.info(self)
         
-        print("  Brace: {0:s}".format(self.brace.__repr__()))
-        if self.brace.Ned < 0:
+        print("  Brace: {0:s}".format(self.brace.profile.__repr__()))
+        if self.N1 < 0:
             Nsense = "compression"
-        elif self.brace.Ned > 0:
+        elif self.N1 > 0:
             Nsense = "tension"
         else:
             Nsense = "no axial force"
-        print("  NEd: {0:4.2f} kN ({1:s})".format(self.brace.Ned*1e-3,Nsense))
+        print("  NEd: {0:4.2f} kN ({1:s})".format(self.N1*1e-3,Nsense))
         print("    Angle to chord: {0:4.2f} deg".format(self.angle))
         
         beta = self.beta()
-- 
2.43.0


From 1b065d7f3b83d6b0ddf17edeadc4996868659f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 150/257] fix: tension brace of a K gap joint could not be
 evaluated

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index 25cbe37..e2895a2 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -330,15 +330,15 @@ class RHSKGapJoint(RHSJoint):
     @property
     def N2(self):
         """ Axial force in the tension member """
-        if self.braces[0].NcEd <= 0.0:
-            return abs(self.braces[1].NcEd)
+        if self.braces[0].NcEd < 0.0:
+            return self.braces[1].NEd
         else:
             return self.braces[0].NEd
     
     @property
     def angle2(self):
         """ Angle of the tension member """
-        if self.braces[0].Ned <= 0.0:
+        if self.braces[0].NcEd < 0.0:
             return self.angles[1]
         else:
             return self.angles[0]
-- 
2.43.0


From ebe318dc10a8118e3d57133e24f72e44a4e048de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 151/257] fix: K gap joints of hollow sections could not be
 designed

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index e2895a2..fb36056 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -711,7 +711,8 @@ class RHSKGapJoint(RHSJoint):
 
         Returns
         -------
-        Utilization ratios N1Ed/NjRd and N2Ed/NjRd
+        Utilization ratios N1Ed/NjRd and N2Ed/NjRd of the braces, and
+        N0gap/N0Rd of the chord in the gap
 
         """
         
@@ -730,7 +731,8 @@ class RHSKGapJoint(RHSJoint):
             N_ps_Rd = self.punching_shear()        
             NjRd = np.minimum(NjRd,N_ps_Rd)
 
-        res = np.array(abs(self.NEd)/NjRd,abs(self.N0/N0Rd))
+        r0 = abs(self.N0gap)/N0Rd if N0Rd > 0.0 else np.inf
+        res = np.append(abs(NiEd)/NjRd,r0)
 
         return res
 
-- 
2.43.0


From bc9347a6141c815f21bd0c68637e86d9bf82d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 152/257] fix: chord face plates could not be added to K gap
 joints

---
 metku/eurocodes/en1993/en1993_1_8/rhs_joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
index fb36056..0c4639c 100644
--- a/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
+++ b/metku/eurocodes/en1993/en1993_1_8/rhs_joints.py
@@ -502,8 +502,8 @@ class RHSKGapJoint(RHSJoint):
 
         """
         
-        lp_min = 1.5*(self.braces[0].h/np.sin(np.radians(self.angles[0])) + self.gap + 
-                                              self.braces[1].h/np.sin(np.radians(self.angles[1])))
+        lp_min = 1.5*(self.h[0]/np.sin(np.radians(self.angles[0])) + self.gap + 
+                                              self.h[1]/np.sin(np.radians(self.angles[1])))
         
         lp = max(lp,lp_min)
         
-- 
2.43.0


From 24f33a389a58c98d1e6a4084e0088918f3f49856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 153/257] fix: ridge of a truss with unequal half spans was
 generated at the middle of the span

---
 metku/raami/raami_plane_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2399d9b..ee9dd22 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -518,6 +518,10 @@ class SlopedTruss(PlaneTruss):
         # Joint at the ridge
         self.ridge_joint = None
     
+    def xmid(self):
+        """ coordinates of the top chord at the ridge """
+        return np.array([self.origin[0]+self.L1,self.origin[1]+self.Hmid-self.Hleft])
+    
     def height_of_slope_left(self):
         """ Height of the truss above the origin """
         return self.L1*np.tan(np.radians(self.slope))
@@ -750,7 +754,7 @@ class SlopedTruss(PlaneTruss):
             
             # First half
             X0 = np.array([self.origin[0]+dx1,ycoord])
-            X1 = np.array([self.origin[0]+0.5*self.span,ycoord])  
+            X1 = np.array([self.origin[0]+self.L1,ycoord])  
             X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
                         
             Xbot = [FrameNode(X0+s*(X1-X0)) for s in S]
-- 
2.43.0


From 1993244326054f66b7b1111d1f15d44e2d88527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 154/257] fix: second half of a truss with unequal half spans
 was divided with the spacing of the first

---
 metku/raami/raami_plane_truss.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ee9dd22..2dbd13c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -590,20 +590,23 @@ class SlopedTruss(PlaneTruss):
                 # Distance between nodes in x direction
                 #Dx = (self.L1-2*dx1)/(ndiv-1)
                 Dx = (self.L1-dx1)/(ndiv-0.5)
+                Dx2 = (self.L2-dx2)/(ndiv-0.5)
             else:
                 S = np.linspace(0,1,ndiv+1)
                 if not first_diagonal_up:
                     S = np.linspace(0,1,ndiv)
                     Xbot0 = FrameNode(np.array([self.origin[0],ycoord]))
                     Dx = self.L1/(ndiv-0.5)
+                    Dx2 = self.L2/(ndiv-0.5)
                 else:
                     # Distance between nodes in x direction
                     Dx = self.L1/ndiv
+                    Dx2 = self.L2/ndiv
             
             # First half
             if dx1 == 0 and not first_diagonal_up:
                 X0 = np.array([self.origin[0]+0.5*Dx,ycoord])
-                X2 = np.array([self.origin[0]+self.span-0.5*Dx,ycoord])
+                X2 = np.array([self.origin[0]+self.span-0.5*Dx2,ycoord])
             else:
                 X0 = np.array([self.origin[0]+dx1,ycoord])
                 X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
@@ -612,7 +615,7 @@ class SlopedTruss(PlaneTruss):
             Xbot = [FrameNode(X0+s*(X1-X0)) for s in S]
         
             # Second half
-            X1[0] += Dx
+            X1[0] = self.origin[0]+self.L1+0.5*Dx2
             
             Xbot += [FrameNode(X1+s*(X2-X1)) for s in S]
         
@@ -648,6 +651,9 @@ class SlopedTruss(PlaneTruss):
                         #print(top_line, bottom_line)                    
                         Xtop.append(FrameNode(Xtop1))
                     
+                    # The last node of the first half is at the ridge
+                    Xtop[-1] = FrameNode(X1)
+                    
                     v0 = v2/np.linalg.norm(v2)
                     top_line = Line(v=v0,p1=Xtop[-1].coords)
                     
@@ -680,6 +686,9 @@ class SlopedTruss(PlaneTruss):
                     #print(top_line, bottom_line)                    
                     Xtop.append(FrameNode(Xtop1))
                 
+                # The last node of the first half is at the ridge
+                Xtop[-1] = FrameNode(X1)
+                
                 v0 = v2/np.linalg.norm(v2)
                 top_line = Line(v=v0,p1=Xtop[-1].coords)
                 
@@ -880,6 +889,7 @@ class SlopedTruss(PlaneTruss):
                 # Distance between nodes in x direction
                 #Dx = (self.L1-2*dx1)/(ndiv-1)
                 Dx = (self.L1-dx1)/(ndiv-0.5)
+                Dx2 = (self.L2-dx2)/(ndiv-0.5)
             else:
                 # If the first bottom chord node is not at x = 0, do the
                 # following:
@@ -894,14 +904,16 @@ class SlopedTruss(PlaneTruss):
                     S = np.linspace(0,1,ndiv)
                     Xbot0 = FrameNode(np.array([self.origin[0],ycoord]))
                     Dx = self.L1/ndiv
+                    Dx2 = self.L2/ndiv
                 else:
                     # Distance between nodes in x direction
                     Dx = 2*self.L1/(2*ndiv+1)
+                    Dx2 = 2*self.L2/(2*ndiv+1)
             
             # First half
             if dx1 == 0 and not first_diagonal_up:
                 X0 = np.array([self.origin[0]+0.5*Dx,ycoord])
-                X2 = np.array([self.origin[0]+self.span-0.5*Dx,ycoord])
+                X2 = np.array([self.origin[0]+self.span-0.5*Dx2,ycoord])
             else:
                 X0 = np.array([self.origin[0]+dx1,ycoord])
                 X2 = np.array([self.origin[0]+self.span-dx2,ycoord])
@@ -913,7 +925,7 @@ class SlopedTruss(PlaneTruss):
             
             
             # Second half
-            X1[0] += Dx
+            X1[0] = self.origin[0]+self.L1+0.5*Dx2
             
             Xbot += [FrameNode(X1+s*(X2-X1)) for s in S]
         
@@ -972,7 +984,7 @@ class SlopedTruss(PlaneTruss):
                     t, Xtop1 = top_line.intersect(bottom_line)                
                     Xtop.append(FrameNode(Xtop1))
                     
-                    p1New = X.coords + np.array([0.5*Dx,0])
+                    p1New = X.coords + np.array([0.5*Dx2,0])
                     bottom_line = Line(v=np.array([0.0,1.0]),p1=p1New)
                     t, Xtop2 = top_line.intersect(bottom_line)
                     
-- 
2.43.0


From ad129ec033e81520f11af5e6cb8a6f3ce9936d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 155/257] fix: panels of K trusses were unequal at the ridge
 when the bottom chord is as long as the top chord

---
 metku/raami/raami_plane_truss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2dbd13c..cdd23c9 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -596,12 +596,12 @@ class SlopedTruss(PlaneTruss):
                 if not first_diagonal_up:
                     S = np.linspace(0,1,ndiv)
                     Xbot0 = FrameNode(np.array([self.origin[0],ycoord]))
-                    Dx = self.L1/(ndiv-0.5)
-                    Dx2 = self.L2/(ndiv-0.5)
-                else:
-                    # Distance between nodes in x direction
                     Dx = self.L1/ndiv
                     Dx2 = self.L2/ndiv
+                else:
+                    # Distance between nodes in x direction
+                    Dx = 2*self.L1/(2*ndiv+1)
+                    Dx2 = 2*self.L2/(2*ndiv+1)
             
             # First half
             if dx1 == 0 and not first_diagonal_up:
-- 
2.43.0


From dae76f035ba17b4e2babf56f7ce6c03b6fde1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 156/257] fix: brace modelled by a single beam element was
 hinged at one end only

---
 metku/raami/raami_plane_truss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index cdd23c9..2be66aa 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2388,7 +2388,11 @@ class TrussBrace(SteelFrameMember):
         
         if self.hinges[1]:
             """ There is a hinge in the last end """
-            self.fem_elements[-1].releases = [5]
+            # Keep the release of the first end if there is only one element
+            if len(self.fem_elements) == 1 and self.hinges[0]:
+                self.fem_elements[-1].releases = [2,5]
+            else:
+                self.fem_elements[-1].releases = [5]
     
     def angle_top(self):
         """ Angle between the brace and top chord """
-- 
2.43.0


From 9bc0fe5dec4ed94ba0c27f2a5358f42459563f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 157/257] fix: trusses with chord ends without braces could not
 be modelled with joint eccentricities

---
 metku/raami/raami_plane_truss.py | 91 ++++++++++++++++----------------
 1 file changed, 45 insertions(+), 46 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2be66aa..ff9626d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1150,6 +1150,15 @@ class SlopedTruss(PlaneTruss):
                         load_name = load_name0 + '_line'
                         self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
     
+    def generate_fem_nodes_without_joint(self):
+        """ Creates FEM nodes to nodes where no braces are connected """
+        
+        joint_nodes = [joint.node for joint in self.joints.values()]
+        
+        for node in self.nodes:
+            if not any(node is joint_node for joint_node in joint_nodes):
+                node.fem_node = self.fem.add_node(node.x,node.y)
+    
     def generate_joints(self):
         """ Creates joints for the truss. These are welded tubular joints by default. """
         
@@ -1299,6 +1308,8 @@ class SlopedTruss(PlaneTruss):
                     
         elif model == "en1993":
             #print("FEM Model according to EN 1993")
+            self.generate_fem_nodes_without_joint()
+            
             # This is more complicated:
             # 1) braces are bars that meet at the intersection points of centerlines
             for joint in self.joints.values():
@@ -1378,6 +1389,8 @@ class SlopedTruss(PlaneTruss):
             # Eccentricity elements are added for K joints
             # from the intersection of brace centerline and chord
             # face to the chord centerline.
+            self.generate_fem_nodes_without_joint()
+            
             for joint in self.joints.values():
                 if isinstance(joint,TubularYJoint):      
                     # For Y joints, no eccentricity elements are used.
@@ -1746,6 +1759,24 @@ class SlopedTruss(PlaneTruss):
         
         
     
+def chord_end_fem_node(chord,end,key):
+    """ FEM node of a chord member at its end
+        :param: chord .. chord member
+        :param: end .. 0 or 1
+        :param: key .. key of the FEM node of a K gap joint: 'xc' or 'xch'
+    """
+    node = chord.nodes[end]
+    
+    for joint in chord.joints:
+        if joint.node is node:
+            if key == 'xch' and isinstance(joint,TubularKGapJoint):
+                return joint.fem_nodes['xch'][chord]
+            else:
+                return joint.fem_nodes['xc']
+    
+    # There is no joint at the end
+    return node.fem_node
+
 class TrussMember(SteelFrameMember):
     
     def __init__(self,nodes,section,mem_type='bar',mem_id="",nel=4,hinges=None):
@@ -1822,7 +1853,7 @@ class TopChord(SteelFrameMember):
                 self.fem_elements[-1].releases = [5]
         elif model == "en1993":
             # First end node
-            self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
+            self.fem_nodes.append(chord_end_fem_node(self,0,'xc'))
             
             # Generate internal nodes:
             # global_node_coord include also the end node coordinates,
@@ -1836,7 +1867,7 @@ class TopChord(SteelFrameMember):
                 self.fem_nodes.append(newNode)
             
             # Last end node
-            self.fem_nodes.append(self.joints[1].fem_nodes['xc'])
+            self.fem_nodes.append(chord_end_fem_node(self,1,'xc'))
             
             # Create members
             # The zip command allows to create two iterables, where the
@@ -1858,25 +1889,14 @@ class TopChord(SteelFrameMember):
                 """ There is a hinge in the last end """
                 self.fem_elements[-1].releases = [5]
         elif model == "ecc_elements":
-            if isinstance(self.joints[0],TubularYJoint):
-                N1 = self.joints[0].fem_nodes['xc']                              
-            elif isinstance(self.joints[0],TubularKGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face            
-                N1 = self.joints[0].fem_nodes['xch'][self]
-            else:
-                N1 = self.joints[0].fem_nodes['xc']
+            # In case of K gap joint, the node is created at the point of the
+            # chord center line closest to the intersection between
+            # brace center line and chord face
+            N1 = chord_end_fem_node(self,0,'xch')
             
             self.fem_nodes.append(N1)
             
-            if isinstance(self.joints[1],TubularYJoint):
-                N2 = self.joints[1].fem_nodes['xc']                
-            elif isinstance(self.joints[1],TubularKGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face            
-                N2 = self.joints[1].fem_nodes['xch'][self]                
-            else:
-                N2 = self.joints[1].fem_nodes['xc']
+            N2 = chord_end_fem_node(self,1,'xch')
                 
             # Generate internal nodes:
             # global_node_coord include also the end node coordinates,
@@ -2001,7 +2021,7 @@ class BottomChord(SteelFrameMember):
             super().generate_elements(fem)
         elif model == "en1993":
             # First end node
-            self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
+            self.fem_nodes.append(chord_end_fem_node(self,0,'xc'))
             
             # Generate internal nodes:
             # global_node_coord include also the end node coordinates,
@@ -2015,7 +2035,7 @@ class BottomChord(SteelFrameMember):
                 self.fem_nodes.append(newNode)
             
             # Last end node
-            self.fem_nodes.append(self.joints[1].fem_nodes['xc'])
+            self.fem_nodes.append(chord_end_fem_node(self,1,'xc'))
             
             # Create members
             # The zip command allows to create two iterables, where the
@@ -2029,35 +2049,14 @@ class BottomChord(SteelFrameMember):
                 fem.add_element(newElement)
                 self.fem_elements.append(newElement)
         elif model == "ecc_elements":
-            if isinstance(self.joints[0],TubularYJoint):
-                N1 = self.joints[0].fem_nodes['xc']
-                #self.fem_nodes.append(self.joints[0].fem_nodes['xc'])                
-            elif isinstance(self.joints[0],TubularKGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face  
-                N1 = self.joints[0].fem_nodes['xch'][self]
-                #self.fem_nodes.append(self.joints[0].fem_nodes['xch'][self])
-            elif isinstance(self.joints[0],TubularKTGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face            
-                N1 = self.joints[0].fem_nodes['xc']
-                #self.fem_nodes.append(self.joints[0].fem_nodes['xc'])
+            # In case of K gap joint, the node is created at the point of the
+            # chord center line closest to the intersection between
+            # brace center line and chord face
+            N1 = chord_end_fem_node(self,0,'xch')
             
             self.fem_nodes.append(N1)
             
-            if isinstance(self.joints[1],TubularYJoint):
-                N2 = self.joints[1].fem_nodes['xc']
-                #self.fem_nodes.append(self.joints[1].fem_nodes['xc'])                
-            elif isinstance(self.joints[1],TubularKGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face           
-                N2 = self.joints[1].fem_nodes['xch'][self]
-                #self.fem_nodes.append(self.joints[1].fem_nodes['xch'][self])
-            elif isinstance(self.joints[1],TubularKTGapJoint):
-                # in case of K gap joint, the node is created at the
-                # intersection between brace center line and chord face          
-                N2 = self.joints[1].fem_nodes['xc']
-                #self.fem_nodes.append(self.joints[1].fem_nodes['xc'])
+            N2 = chord_end_fem_node(self,1,'xch')
             
             X = divide_line_segment(np.array([N1.x,N1.y]),np.array([N2.x,N2.y]),self.num_elements)
             
-- 
2.43.0


From 35f385ae530fa70802e48ebd9394c0be93a07a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 158/257] fix: loads of the chords at gaps of joints were wrong
 with several loads, load factors or a single chord member

---
 metku/raami/raami_plane_truss.py | 74 ++++++++++++++++----------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index ff9626d..4b92629 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1529,44 +1529,7 @@ class SlopedTruss(PlaneTruss):
                 # Add loads to gap elements
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
-                        # Add load to gap element
-                        for load1 in joint.chords[0].loads:
-                            for load2 in joint.chords[1].loads:
-                                if load1.load_id == load2.load_id:
-                                    if joint == self.ridge_joint:
-                                        q = load1.f*load1.values[1]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][0],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                        q = load1.f*load2.values[0]
-                                        load = FEMLineLoad(load1.load_id,
-                                                           joint.fem_elements['gap'][1],
-                                                           [0.0,1.0],
-                                                           [q,q],
-                                                           load1.direction,
-                                                           load1.coord_sys)
-                                        self.fem.add_load(load)
-                                    else:
-                                        if isinstance(load1,LineLoad) or isinstance(load1,PWLineLoad):
-                                            if abs(load1.values[1]) >= abs(load2.values[0]):
-                                                q = load1.f*load1.values[1]
-                                                
-                                            else:
-                                                q = load2.f*load2.values[0]
-                                                                                    
-                                            load = FEMLineLoad(load1.load_id,
-                                                               joint.fem_elements['gap'],
-                                                               [0.0,1.0],
-                                                               [q,q],
-                                                               load1.direction,
-                                                               load1.coord_sys)                                            
-                                            self.fem.add_load(load)
-                                    break
-                                    
+                        self.add_gap_loads(joint)
                 
                 # Set nodal degrees of freedom
                 self.fem.nodal_dofs()
@@ -1574,6 +1537,41 @@ class SlopedTruss(PlaneTruss):
         else:
             print("Weird FEM model.")
     
+    def add_gap_loads(self,joint):
+        """ Adds line loads of the chord members to the gap elements of a joint """
+        
+        gap = joint.fem_elements['gap']
+        if not isinstance(gap,list):
+            gap = [gap]
+        
+        # Values of the line loads of the chord members at the joint.
+        # Loads of the same load id act together.
+        q = {}
+        for load in self.loads.values():
+            if isinstance(load,(LineLoad,PWLineLoad)):
+                for i, chord in enumerate([joint.left_chord,joint.right_chord]):
+                    if load.member is chord:
+                        end = 0 if chord.nodes[0] is joint.node else 1
+                        key = (load.load_id,load.direction,load.coord_sys)
+                        q.setdefault(key,[0.0,0.0])[i] += load.f*load.values[end]
+        
+        for (load_id,direction,coord_sys), (q_left,q_right) in q.items():
+            # Elements on the left and right side of the joint
+            if joint.left_chord is None:
+                values = [q_right,q_right]
+            elif joint.right_chord is None:
+                values = [q_left,q_left]
+            else:
+                values = [q_left,q_right]
+            
+            if len(gap) == 1:
+                # Use the greater of the loads on the two sides
+                values = [max(values,key=abs)]
+            
+            for element, value in zip(gap,values):
+                self.fem.add_load(FEMLineLoad(load_id,element,[0.0,1.0],
+                                              [value,value],direction,coord_sys))
+    
     def update_fem_joint_nodes(self):
         """ Updates nodal positions at joints. It is assumed that cross-sections
             have been changed along the way.
-- 
2.43.0


From f4ab535a07d714350c4871fd0eb5951adcd07e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 159/257] fix: eccentricity model of trusses with horizontal
 top chord could not be generated

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 4b92629..538852c 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1433,7 +1433,7 @@ class SlopedTruss(PlaneTruss):
                     
                     # For the apex, create a FEM node to the intersection
                     # of chord centerlines
-                    if joint is self.ridge_joint:
+                    if joint.ridge:
                         xc = joint.node.coords
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         joint.fem_nodes['xc'] = xcNode
-- 
2.43.0


From 47f0cdc555f69c0eacf53138e3de82a81b754c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 160/257] fix: trusses with supports or point loads at gap
 joints could not be modelled with eccentricity elements

---
 metku/raami/raami_plane_truss.py | 50 +++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 538852c..f6ea30d 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -419,12 +419,15 @@ class PlaneTruss(Raami):
                     options.ecc_elements.append(joint.fem_elements['right_ecc'])
                     
                     if joint.chord == "top":
-                        if joint.ridge:
+                        if isinstance(joint.fem_elements['gap'],list):
                             options.top_gap_elements += joint.fem_elements['gap']
                         else:
                             options.top_gap_elements.append(joint.fem_elements['gap'])
                     elif joint.chord == 'bottom':
-                        options.bottom_gap_elements.append(joint.fem_elements['gap'])
+                        if isinstance(joint.fem_elements['gap'],list):
+                            options.bottom_gap_elements += joint.fem_elements['gap']
+                        else:
+                            options.bottom_gap_elements.append(joint.fem_elements['gap'])
         
         for el in options.top_gap_elements:
             if all([n.x <= L2 for n in el.nodes]):
@@ -1150,6 +1153,14 @@ class SlopedTruss(PlaneTruss):
                         load_name = load_name0 + '_line'
                         self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
     
+    def needs_fem_node(self,joint):
+        """ Is there a support or a point load at the node of the joint? """
+        
+        if any(supp.node is joint.node for supp in self.supports.values()):
+            return True
+        
+        return any(isinstance(load,PointLoad) and load.node is joint.node for load in self.loads.values())
+    
     def generate_fem_nodes_without_joint(self):
         """ Creates FEM nodes to nodes where no braces are connected """
         
@@ -1433,9 +1444,18 @@ class SlopedTruss(PlaneTruss):
                     
                     # For the apex, create a FEM node to the intersection
                     # of chord centerlines
-                    if joint.ridge:
+                    # It is also needed for supports and point loads at the joint.
+                    joint.node.fem_node = None
+                    if joint.ridge or self.needs_fem_node(joint):
                         xc = joint.node.coords
-                        xcNode = self.fem.add_node(xc[0],xc[1])
+                        xcNode = None
+                        for fem_node in joint.fem_nodes['xch'].values():
+                            # Use the node at the center line of the chord, if
+                            # it is at the same point.
+                            if np.hypot(fem_node.x-xc[0],fem_node.y-xc[1]) < 1e-6:
+                                xcNode = fem_node
+                        if xcNode is None:
+                            xcNode = self.fem.add_node(xc[0],xc[1])
                         joint.fem_nodes['xc'] = xcNode
                         joint.node.fem_node = xcNode
                     
@@ -1498,19 +1518,21 @@ class SlopedTruss(PlaneTruss):
                     self.fem.add_element(newElement)
                     
                     # Add gap elements
-                    if joint.ridge:
-                        nApex = joint.fem_nodes['xc']
-                        cs_chord = joint.chords[0].cross_section
-                        newElement1 = EBBeam(nc1,nApex,cs_chord,cs_chord.material)
-                        self.fem.add_element(newElement1)
-                        newElement2 = EBBeam(nApex,nc2,cs_chord,cs_chord.material)
-                        self.fem.add_element(newElement2)
-                        joint.fem_elements['gap'] = [newElement1,newElement2]
-                    else:
-                        cs_chord = joint.chords[0].cross_section
+                    cs_chord = joint.chords[0].cross_section
+                    if joint.node.fem_node is None:
                         newElement = EBBeam(nc1,nc2,cs_chord,cs_chord.material)
                         self.fem.add_element(newElement)
                         joint.fem_elements['gap'] = newElement
+                    else:
+                        # The gap is divided at the FEM node of the joint
+                        nApex = joint.fem_nodes['xc']
+                        gap_elements = []
+                        for n1, n2 in [(nc1,nApex),(nApex,nc2)]:
+                            if not n1 is n2:
+                                newElement = EBBeam(n1,n2,cs_chord,cs_chord.material)
+                                self.fem.add_element(newElement)
+                                gap_elements.append(newElement)
+                        joint.fem_elements['gap'] = gap_elements
             
             if not nodes_and_elements_only:
                 # Generate supports
-- 
2.43.0


From 5c09fe2d1318e199fce9d93c6a650c25a3c2a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 161/257] fix: generating the model of a truss again kept nodes
 and elements of the previous model

---
 metku/raami/raami_plane_truss.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index f6ea30d..78e0cf7 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1319,6 +1319,8 @@ class SlopedTruss(PlaneTruss):
                     
         elif model == "en1993":
             #print("FEM Model according to EN 1993")
+            self.clear_fem()
+            self.fem_generated = True
             self.generate_fem_nodes_without_joint()
             
             # This is more complicated:
@@ -1394,12 +1396,19 @@ class SlopedTruss(PlaneTruss):
                     if load.load_id not in lcase_ids:
                         self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
                 
+                # Load cases without loads
+                for load_id in self.load_cases:
+                    if load_id not in self.fem.loadcases:
+                        self.fem.add_loadcase(supp_id=1,load_id=load_id)
+                
                 # Set nodal degrees of freedom
                 self.fem.nodal_dofs()
         elif model == "ecc_elements":
             # Eccentricity elements are added for K joints
             # from the intersection of brace centerline and chord
             # face to the chord centerline.
+            self.clear_fem()
+            self.fem_generated = True
             self.generate_fem_nodes_without_joint()
             
             for joint in self.joints.values():
@@ -1548,6 +1557,11 @@ class SlopedTruss(PlaneTruss):
                     if load.load_id not in lcase_ids:
                         self.fem.add_loadcase(supp_id=1,load_id=load.load_id)
                 
+                # Load cases without loads
+                for load_id in self.load_cases:
+                    if load_id not in self.fem.loadcases:
+                        self.fem.add_loadcase(supp_id=1,load_id=load_id)
+                
                 # Add loads to gap elements
                 for joint in self.joints.values():
                     if isinstance(joint,TubularKGapJoint):
@@ -3573,14 +3587,14 @@ class TubularKGapJoint(TubularJoint):
         self.fem_nodes['xc'] = None
         self.fem_nodes['xp'] = None
         
-        for fem_node in self.fem_nodes['xcf'].values():
-            fem_node = None
+        for brace in self.fem_nodes['xcf']:
+            self.fem_nodes['xcf'][brace] = None
         
-        for fem_node in self.fem_nodes['xch'].values():
-            fem_node = None
+        for chord in self.fem_nodes['xch']:
+            self.fem_nodes['xch'][chord] = None
 
-        for ele in self.fem_elements.values():
-            ele = None
+        for ele in self.fem_elements:
+            self.fem_elements[ele] = None
 
 class TubularKTGapJoint(TubularJoint):
     """ Class for KT gap joints """
-- 
2.43.0


From 825bc689568aee0f8a19ef95c94e9b5fb914ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 162/257] fix: trusses with joints without eccentricity could
 not be modelled according to EN 1993

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 78e0cf7..c4ecc91 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1347,7 +1347,7 @@ class SlopedTruss(PlaneTruss):
                         xc = joint.xchord()
                     
                     if np.linalg.norm(xp-xc) < 1e-6:
-                        xcNode = xp
+                        xcNode = xpNode
                     else:
                         xcNode = self.fem.add_node(xc[0],xc[1])
                         
@@ -1376,6 +1376,9 @@ class SlopedTruss(PlaneTruss):
                 if isinstance(joint,TubularKGapJoint):
                     n1 = joint.fem_nodes['xp']
                     n2 = joint.fem_nodes['xc']
+                    if n1 is n2:
+                        # No eccentricity
+                        continue
                     cs = IPE(500)
                                  
                     newElement = EBBeam(n1,n2,cs,cs.material)                    
-- 
2.43.0


From a7ed257631863d93db59d8753a2f0e03c174cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 163/257] fix: ridge joint of a truss was not recognised when
 its coordinate was not exact

---
 metku/raami/raami_plane_truss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index c4ecc91..aab08c1 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1219,7 +1219,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6*self.span:
                     self.ridge_joint = newJoint
                 
             elif nbraces == 2:
@@ -1228,7 +1228,7 @@ class SlopedTruss(PlaneTruss):
                 self.add(newJoint)                
                 njoint += 1
                 
-                if node in self.top_nodes and node.x == self.L1:
+                if node in self.top_nodes and abs(node.x-self.L1) < 1e-6*self.span:
                     self.ridge_joint = newJoint
                     
             elif nbraces == 1:                
@@ -1341,7 +1341,7 @@ class SlopedTruss(PlaneTruss):
                     #    same node.
                     xp = joint.xp_coord
                     xpNode = self.fem.add_node(xp[0],xp[1])
-                    if joint is self.ridge_joint:
+                    if joint.ridge:
                         xc = joint.node.coords
                     else:
                         xc = joint.xchord()
-- 
2.43.0


From f3a83a454f47d9d511613d1d7d9c07d623b86254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 164/257] fix: angle between the right brace and the chord was
 wrong at the ridge of a truss

---
 metku/raami/raami_plane_truss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index aab08c1..882b990 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2748,16 +2748,22 @@ class TubularJoint:
         if brace is None:
             brace = self.braces[0]
         
+        # Chord direction vector. If the chord is not straight at the joint,
+        # the chord on the side of the brace is used.
+        vc = self.chords[0].dir_vector
+        x_brace = brace.opposite_node(self.node).x
+        for chord in self.chords:
+            x_chord = chord.opposite_node(self.node).x
+            if (x_chord-self.node.x)*(x_brace-self.node.x) > 0:
+                vc = chord.dir_vector
+        
         if geometry == "init":
             # Angle is calculated according to the initial geometry
-            angle = np.degrees(np.arccos(np.dot(self.chords[0].dir_vector,brace.dir_vector)))
+            angle = np.degrees(np.arccos(np.dot(vc,brace.dir_vector)))
         elif geometry == "actual":
             # Angle is calculated according to the actual geometry, taking into account
             # eccentricities when relevant.
             
-            # Chord direction vector
-            vc = self.chords[0].dir_vector
-            
             # Brace direction vector 
             vb = brace.dir_vector_xp()
             
-- 
2.43.0


From 7c1f43655c20bb6f689e4d13742bb759bc3c6f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 165/257] fix: chord stress function was an exponent in the
 resistance of Y joints

---
 metku/raami/raami_plane_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 882b990..f2646a2 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2922,7 +2922,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         fy0 = self.fy0
         t0 = self.t0
-        NRd = r**kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
+        NRd = r*kn*fy0*t0**2 / ((1-b)*np.sin(np.radians(self.angle)))
         NRd = NRd * (2*self.eta / np.sin(np.radians(self.angle)) + 4*np.sqrt(1-b))
         NRd = NRd/ gammaM5
 
@@ -2935,7 +2935,7 @@ class TubularYJoint(TubularJoint):
         r = self.strength_reduction()
         t0 = self.t0
         h = self.h
-        NRd = r**kn*fb*t0 / (np.sin(np.radians(self.angle)))
+        NRd = r*kn*fb*t0 / (np.sin(np.radians(self.angle)))
         NRd = NRd * (2*h / np.sin(np.radians(self.angle)) + 10*t0)
         NRd = NRd / gammaM5
         return NRd
-- 
2.43.0


From 5d98e86ecc4de36f79af7a99aafc0d03c3496bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 166/257] fix: resistance of truss joints was negative for
 large chord stresses

---
 metku/raami/raami_plane_truss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index f2646a2..2cbf4de 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2675,7 +2675,7 @@ class TubularJoint:
         n = self.eval_N()
         b = self.beta()
         if n > 0.0: # compression
-            kn = min(1.3-0.4*n/b, 1.0)
+            kn = max(min(1.3-0.4*n/b, 1.0), 0.0)
         
         return kn
         
-- 
2.43.0


From 40760e1ea684d670a58082a127aa41dfb0336adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 167/257] fix: wide Y joints of trusses could not be designed

---
 metku/raami/raami_plane_truss.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 2cbf4de..5ad9247 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2896,7 +2896,7 @@ class TubularYJoint(TubularJoint):
             alpha = self.chords[0].cross_section.imp_factor[0]
             slend = self.slend()
             phi = 0.5*(1 + alpha*(slend - 0.2) + slend **2)
-            chi = 1 / (phi + np.sqrt(phi**2 - slend**2))
+            chi = min(1 / (phi + np.sqrt(phi**2 - slend**2)), 1.0) if slend > 0.2 else 1.0
             
             fb = chi * self.fy0
             #print(chi,fb)
@@ -2911,9 +2911,11 @@ class TubularYJoint(TubularJoint):
         sl = sl / (np.pi * np.sqrt(E / self.fy0))
         return sl
     
-    def chord_face_failure(self,verb=False):
-                        
-        b = self.beta()
+    def chord_face_failure(self,verb=False,beta=None):
+        """ Resistance to chord face failure
+            :param: beta .. ratio of brace and chord widths, that of the joint by default
+        """
+        b = self.beta() if beta is None else beta
         if b >= 1:
             # If beta is grater than 1, artificially reduce it to "nearly 1".
             b = 0.99
@@ -2928,9 +2930,10 @@ class TubularYJoint(TubularJoint):
 
         return NRd
     
-    def chord_web_buckling(self):
+    def chord_web_buckling(self,load_id):
+        """ Resistance to buckling of the chord side walls in load case 'load_id' """
         
-        fb = self.fb()
+        fb = self.fb(load_id)
         kn = self.eval_KN()
         r = self.strength_reduction()
         t0 = self.t0
@@ -3003,8 +3006,8 @@ class TubularYJoint(TubularJoint):
             if verb:
                 print('Chord face failure: NjRd = {0:4.2f} kN'.format(NjRd*1e-3))
         else:
-            N_cff_Rd = self.chord_face_failure()
-            N_csw_Rd = self.chord_web_buckling()
+            N_cff_Rd = self.chord_face_failure(beta=0.85)
+            N_csw_Rd = self.chord_web_buckling(load_id)
             N_bf_Rd = self.brace_failure()
             
             # Linear interpolation between chord face failure at b = 0.85
@@ -3018,7 +3021,11 @@ class TubularYJoint(TubularJoint):
                 N_ps_Rd = self.punching_shear()                
                 NjRd = min(NjRd,N_ps_Rd)
 
-        r = abs(N1)/NjRd        
+        if NjRd > 0:
+            r = abs(N1)/NjRd
+        else:
+            # Chord face has no resistance left
+            r = np.inf if N1 != 0 else 0.0
         
         self.utilization[load_id] = r
         
-- 
2.43.0


From 149f019bbe2d4be4b948ad3f766cdd77a6fd68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 168/257] fix: joints of trusses were designed with the smaller
 chord force, and those with a single chord member could not be designed

---
 metku/raami/raami_plane_truss.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 5ad9247..4144bee 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -2790,6 +2790,10 @@ class TubularJoint:
         self.costs['welding'] = C
         return C
     
+    def chord_force(self,load_id):
+        """ Axial force of the chord: that of the more stressed chord member """
+        return max([chord.NEd[load_id] for chord in self.chords],key=abs)
+    
     def symmetry_joint(self,joints):
         """ Determine the joint lying symmetrically with respect to the 'node'.
             Requires symmetry_node attribute of the 'node' to have been set.
@@ -2986,7 +2990,7 @@ class TubularYJoint(TubularJoint):
         #        N0 = N
         
         N1 = self.braces[0].NEd[load_id]
-        self.N0 = self.chords[0].NEd[load_id]
+        self.N0 = self.chord_force(load_id)
 
         #r = self.joint.design()
         b = self.beta()
@@ -2999,7 +3003,7 @@ class TubularYJoint(TubularJoint):
             print("Beta: {0:4.2f}".format(b))
             print("Angle: {0:4.2f}".format(self.angle))
             print("N1_Ed: {0:4.2f} kN".format(self.braces[0].NEd[load_id]*1e-3))
-            print("N0_Ed: {0:4.2f} kN".format(self.chords[0].NEd[load_id]*1e-3))
+            print("N0_Ed: {0:4.2f} kN".format(self.N0*1e-3))
         
         if b < 0.85:
             NjRd = self.chord_face_failure()
@@ -3501,10 +3505,7 @@ class TubularKGapJoint(TubularJoint):
         #    joint_brace.Ned = brace.NEd[load_id]
         
         """ Load in the chord """
-        if abs(self.chords[0].NEd[load_id]) < abs(self.chords[1].NEd[load_id]):
-            N0 = self.chords[0].NEd[load_id]
-        else:
-            N0 = self.chords[1].NEd[load_id]
+        N0 = self.chord_force(load_id)
         
         M0 = 0.0
         """
-- 
2.43.0


From cff87aac19248e8b7511535ea2c177deb7c55acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 169/257] fix: shear force at the gap was not available in all
 models of a truss, and negative shear forces were disregarded

---
 metku/raami/raami_plane_truss.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 4144bee..556018b 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3204,7 +3204,17 @@ class TubularKGapJoint(TubularJoint):
     
     def V0gap(self,load_id):
         """ Shear force in the gap """
-        return max(self.fem_elements['gap'].fint[load_id]['fz'])
+        gap = self.fem_elements['gap']
+        
+        if gap is None:
+            # The model does not include the gap: use the component of
+            # brace forces perpendicular to the chord.
+            return max(abs(brace.NEd[load_id]*np.sin(np.radians(angle))) for brace, angle in zip(self.braces,self.angles))
+        
+        if not isinstance(gap,list):
+            gap = [gap]
+        
+        return max(abs(V) for element in gap for V in element.fint[load_id]['fz'])
     
     @property
     def angles(self):
-- 
2.43.0


From c91dbb19c3382eb3f58d14d865358514d7ad5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 170/257] fix: gap joints of trusses could not be designed

---
 metku/raami/raami_plane_truss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 556018b..e86febc 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3562,7 +3562,10 @@ class TubularKGapJoint(TubularJoint):
             NjRd = np.minimum(NjRd,N_ps_Rd)
         
         #NjRd = N_cff_Rd
-        r = np.array(abs(NEd)/NjRd,abs(self.N0/N0Rd))
+        demand = np.append(abs(NEd),abs(self.N0))
+        resistance = np.append(NjRd,N0Rd)
+        r = np.full(len(demand),np.inf)
+        np.divide(demand,resistance,out=r,where=resistance > 0)
         
         self.utilization[load_id] = max(r)
         
-- 
2.43.0


From 9d3ded2c8fe0964272b250de7418b0f306659397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 171/257] fix: gap of truss joints was wrong with braces
 leaning to the same side

---
 metku/raami/raami_plane_truss.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index e86febc..1fe2de8 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -3398,10 +3398,27 @@ class TubularKGapJoint(TubularJoint):
         """
         return self.yloc
     
+    def inner_angle(self,brace):
+        """ Angle between the brace and the chord on the side of the brace
+            in degrees. The angle is obtuse, if the brace leans over the joint.
+        """
+        
+        # Directions of the brace and the chord away from the joint
+        v_brace = brace.dir_vector_xp()
+        if np.dot(v_brace,brace.opposite_node(self.node).coords-self.node.coords) < 0:
+            v_brace = -v_brace
+        
+        if brace is self.left_brace:
+            v_chord = -(self.left_chord or self.right_chord).dir_vector
+        else:
+            v_chord = (self.right_chord or self.left_chord).dir_vector
+        
+        return np.degrees(np.arccos(np.dot(v_chord,v_brace)))
+    
     def calc_gap(self):
         """ Calculates the gap based on eccentricity and brace angles """
         e = self.eccentricity()
-        theta = np.array([self.brace_angle(brace,geometry="actual") for brace in self.braces])
+        theta = np.array([self.inner_angle(brace) for brace in self.braces])
         
         # Set angles to the RHS joint object as well
         #self.joint.angles = theta
-- 
2.43.0


From b31ef0ec46eac6436777d9428bd56d16864267ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 172/257] fix: piecewise uniform load of a truss was missing or
 doubled with several zone borders in a member or one border

---
 metku/raami/raami_plane_truss.py | 48 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 1fe2de8..681a9be 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1120,38 +1120,28 @@ class SlopedTruss(PlaneTruss):
         load_name0 = 'TC_' + ltype
         
         for mem in self.top_chord:
-            if mem.nodes[1].x <= xzones[0]:
-                # Member is in the first zone
-                vals = [q[0],q[0]]
-                load_name = load_name0 + '_line'
-                self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
-            elif mem.nodes[0].x > xzones[-1]:
-                # Member is in the last zone
-                vals = [q[-1],q[-1]]
+            x1 = mem.nodes[0].x
+            x2 = mem.nodes[1].x
+            
+            # Zone at the start of the member, and borders of zones inside the member
+            n = sum(1 for x in xzones if x <= x1 + 1e-6)
+            xinside = [x for x in xzones if x1 + 1e-6 < x < x2 - 1e-6]
+            
+            if len(xinside) == 0:
+                # Member is totally inside a zone
+                vals = [q[n],q[n]]
                 load_name = load_name0 + '_line'
                 self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name, "global"))
             else:
-                
-                for i, (x1, x2) in enumerate(zip(xzones[:-1],xzones[1:])):
-                    if mem.nodes[0].x < x1 and mem.nodes[1].x > x1:
-                        # member is partially outside
-                        vals = [q[i],q[i+1]]
-                        xdiv = (x1-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x1
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x > x2:
-                        # member is partially outside
-                        vals = [q[i+1],q[i+2]]
-                        xdiv = (x2-mem.nodes[0].x)/(mem.nodes[1].x-mem.nodes[0].x)
-                        #xdiv = x2
-                        load_name = load_name0 + '_pw_line'
-                        self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
-                    elif mem.nodes[0].x >= x1 and mem.nodes[1].x <= x2:
-                        # member is totally inside
-                        vals = [q[i+1],q[i+1]]
-                        load_name = load_name0 + '_line'
-                        self.add(LineLoad(mem, vals, 'y', load_id, 1.0, ltype, load_name,"global"))
+                # Load changes at the border of the zones. If there are several
+                # borders in the member, the changes are added to the first load.
+                vals = [q[n],q[n+1]]
+                for i, x in enumerate(xinside):
+                    if i > 0:
+                        vals = [0.0,q[n+i+1]-q[n+i]]
+                    xdiv = (x-x1)/(x2-x1)
+                    load_name = load_name0 + '_pw_line'
+                    self.add(PWLineLoad(mem, vals, xdiv, 'y', load_id, 1.0, ltype, load_name,"global"))
     
     def needs_fem_node(self,joint):
         """ Is there a support or a point load at the node of the joint? """
-- 
2.43.0


From 7f3d9f484d412780dde6a03ae52f08588e85e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 173/257] fix: element next to the step of a piecewise uniform
 load could have the load of the other side

---
 metku/raami/frame_loads.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metku/raami/frame_loads.py b/metku/raami/frame_loads.py
index 774ffe2..1052b45 100644
--- a/metku/raami/frame_loads.py
+++ b/metku/raami/frame_loads.py
@@ -372,15 +372,16 @@ class PWLineLoad(Load):
         xdiv = self.xdiv
         
         for elem in self.member.fem_elements:
-            # Local coordinates of the ends of the element (rounded to
-            # avoid numerical noise at the step)
-            X = [round(self.member.global_to_local(node.coord),9) for node in elem.nodes]
+            # Local coordinates of the ends of the element. A tolerance is
+            # used to avoid numerical noise at the step.
+            X = [self.member.global_to_local(node.coord) for node in elem.nodes]
             X.sort()
-            if X[1] <= xdiv:
+            tol = 1e-6
+            if X[1] <= xdiv+tol:
                 q = qval[0]
-            elif X[0] >= xdiv:
+            elif X[0] >= xdiv-tol:
                 q = qval[1]
-            elif X[0] < xdiv and X[1] >= xdiv:
+            else:
                 nd = np.argmax(abs(qval))
                 q = qval[nd]
                 
-- 
2.43.0


From df4217d58ec6d9bfab2f0ed85f266e951a2eb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 174/257] fix: frame2d: a trapezoidal line load varies linearly
 along the member also when its nodes are not evenly spaced

---
 metku/frame2d/frame2d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 99abf01..27c8bc4 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3656,7 +3656,12 @@ class LineLoad(Load):
         """ Add the load to the FEM model """
         # k = self.calc_k()
         v0, v1 = self.values
-        qvals = np.linspace(v0, v1, len(self.member.elements) + 1)
+        # The load varies linearly along the member, the nodes of which are not
+        # necessarily evenly spaced
+        L = self.member.length
+        c0 = np.asarray(self.member.coordinates[0])
+        qvals = [v0 + (v1 - v0) * np.linalg.norm(node.coord - c0) / L
+                 for node in self.member.nodes.values()]
         for i, elem_id in enumerate(self.member.elements.keys()):
             # v1 = (i * k) + v0
             load = fem.LineLoad(self.load_id,
-- 
2.43.0


From 8dcd008024f04a75f9b64e98e5fb57d542ffc3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 175/257] fix: frame2d: the scaling factor of a line load
 applies

---
 metku/frame2d/frame2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 27c8bc4..4d417bf 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3671,6 +3671,7 @@ class LineLoad(Load):
                                 # [v0, v1],
                                 self.direction,
                                 self.coord_sys)
+            load.f = self.f
             fem_model.add_load(load)
             v0 = v1
 
-- 
2.43.0


From 8124762f67321a5cae147d7d86883e896c3f8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 176/257] fix: frame2d: supports and point loads added before
 their member act on it

---
 metku/frame2d/frame2d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 4d417bf..e00457f 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -255,6 +255,12 @@ class Frame2D:
                 this.add_node_coord(coord)
                 member.add_node_coord(coord)
 
+        # Supports and point loads can be added before the member
+        for coord in self.support_nodes:
+            this.add_node_coord(coord)
+        for load in self.point_loads.values():
+            this.add_node_coord(load.coordinate)
+
         if str(this.nodal_coordinates) not in [str(c) for c in
                                                self.nodal_coordinates]:
             self.nodal_coordinates.extend(this.nodal_coordinates)
-- 
2.43.0


From 0b653766fa6042c5b38d2ca67b1448d4a1c28bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 177/257] fix: frame2d: crossing members, loads and supports on
 inclined members were not connected because of rounding

---
 metku/frame2d/frame2d.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index e00457f..233e77d 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2718,24 +2718,18 @@ class FrameMember:
         x2, y2 = end_node
         x, y = coordinate
 
-        res = False
-
         # The line between start_node and end_node is
         # x(t) = start_node + t*(end_node-start_node), t \in [0,1]
         # If we can find t \in [0,1], for which x(t) = coordinate, then
         # the point and member intersect.
-        if abs(x2 - x1) > 1e-8:
-            t1 = (x - x1) / (x2 - x1)
-            if 0 <= t1 <= 1 and abs(y1 + t1 * (y2 - y1) - y) < 1e-8:
-                res = True
-
-        else:
-            # Member is vertical
-            t1 = (y - y1) / (y2 - y1)
-            if 0 <= t1 <= 1 and abs(x1 - x) < 1e-8:
-                res = True
+        # The coordinates are rounded to PREC decimals.
+        tol = 10 ** -PREC
+        L = math.hypot(x2 - x1, y2 - y1)
+        dx, dy = (x2 - x1) / L, (y2 - y1) / L
+        t1 = (x - x1) * dx + (y - y1) * dy
+        dist = abs((y - y1) * dx - (x - x1) * dy)
 
-        return res
+        return -tol <= t1 <= L + tol and dist <= tol
 
         """
         # Coordinate is between member's coordinates
@@ -3605,8 +3599,10 @@ class PointLoad(Load):
 
     def add_load(self, fem_model):
 
-        if self.coordinate in fem_model.nodal_coords:
-            idx = fem_model.nodal_coords.index(self.coordinate)
+        # The nodal coordinates are rounded to PREC decimals
+        coordinate = [round(c, PREC) for c in self.coordinate]
+        if coordinate in fem_model.nodal_coords:
+            idx = fem_model.nodal_coords.index(coordinate)
             self.node = fem_model.nodes[idx]
             fem_model.add_load(
                 fem.PointLoad(self.load_id, self.node, self.v, self.f))
-- 
2.43.0


From 240d0ef388a1577d1b8178b4520c4948fedb5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 178/257] fix: frame2d: largest internal forces of a member
 missed one side of its nodes, and VEd was always zero

---
 metku/frame2d/frame2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 233e77d..10ab85d 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1627,9 +1627,9 @@ class FrameMember:
         return unit
 
     def get_absmax_force_value(self, load_id, force='fx'):
-        F0 = [list(self.elements.values())[0].fint[load_id][force][0]]
-        F = [el.fint[load_id][force][1] for el in self.elements.values()]
-        F.extend(F0)
+        F = []
+        for el in self.elements.values():
+            F.extend(el.fint[load_id][force])
         F_min = min(F)
         F_max = max(F)
         if F_max > abs(F_min):
@@ -1650,7 +1650,7 @@ class FrameMember:
     def VEd(self):
         VEds = {}
         for load_id in self.load_ids:
-            VEd = self.get_absmax_force_value(load_id, 'fy')
+            VEd = self.get_absmax_force_value(load_id, 'fz')
             VEds[load_id] = VEd
         return VEds
 
-- 
2.43.0


From a12f7813c27af3188058f3a0489f6c601124c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 179/257] fix: frame2d: cross-sections were checked with the
 forces of only one side of each node

---
 metku/frame2d/frame2d.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 10ab85d..0d44bf7 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2531,19 +2531,18 @@ class FrameMember:
         self.member.length = self.length
         self.member.profile = self.cross_section
         self.member.clear_sections()
+        # Internal forces can differ on the two sides of a node: use the larger
+        # absolute value
+        sections = [{} for _ in self.locs]
         for i, element in enumerate(self.elements.values()):
-            # M1, M2 = element.bending_moment
-            # N1, N2 = element.axial_force
-            # V1, V2 = element.shear_force
-            M1, M2 = element.fint[load_id]['my']
-            N1, N2 = element.fint[load_id]['fx']
-            V1, V2 = element.fint[load_id]['fz']
-            loc = self.locs[i]
-            self.member.add_section(ned=N1, vzed=V1,
-                                    myed=M1, loc=loc)
-        loc = self.locs[i + 1]
-        self.member.add_section(ned=N2, vzed=V2,
-                                myed=M2, loc=loc)
+            for force in ('fx', 'fz', 'my'):
+                for j, val in enumerate(element.fint[load_id][force]):
+                    sections[i + j][force] = max(sections[i + j].get(force, 0.0),
+                                                 val, key=abs)
+
+        for loc, section in zip(self.locs, sections):
+            self.member.add_section(ned=section['fx'], vzed=section['fz'],
+                                    myed=section['my'], loc=loc)
 
         #
         # if not self.steel_member.nsect():
-- 
2.43.0


From d0420670fbe14ba07464c569f770130be4626c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 180/257] fix: frame2d: profiles were selected with the forces
 of the last load case only and iteration stopped by the last member

---
 metku/frame2d/frame2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 0d44bf7..595c24b 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -551,8 +551,10 @@ class Frame2D:
 
         while PROFILES_CHANGED and k < kmax:
             self.calculate('all', 'REM')
+            PROFILES_CHANGED = False
             for member in self.members.values():
-                PROFILES_CHANGED = member.optimum_design(prof_type)
+                if member.optimum_design(prof_type):
+                    PROFILES_CHANGED = True
 
             k += 1
 
@@ -2656,6 +2658,7 @@ class FrameMember:
             self.profile = profile
 
             for load_id in self.load_ids:
+                self.assign_forces(load_id)
                 self.design(load_id)
 
             if all(r <= 1.0 for r in self.r.values()):  # <= 1.0:
-- 
2.43.0


From 5c6bc8790bfd65a4b9e356a9101f3f2fc2f92af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 181/257] fix: frame2d: generating the model again doubled the
 loads

---
 metku/frame2d/frame2d.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 595c24b..fd3e8f4 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -723,7 +723,8 @@ class Frame2D:
 
         # Add point loads (if any)
         for pointLoad in self.point_loads.values():
-            pointLoad.add_load(self.f)
+            if pointLoad.node is None:
+                pointLoad.add_load(self.f)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.f.loadcases.values()]
             if pointLoad.load_id not in lcase_ids:
@@ -736,9 +737,10 @@ class Frame2D:
         # Add line loads (if any)
         for lineLoad in self.line_loads.values():
             member = lineLoad.member
-            lineLoad.element_ids = member.lineload_elements(
-                lineLoad.coordinates)
-            lineLoad.add_load(self.f)
+            if lineLoad.element_ids is None:
+                lineLoad.element_ids = member.lineload_elements(
+                    lineLoad.coordinates)
+                lineLoad.add_load(self.f)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.f.loadcases.values()]
             if lineLoad.load_id not in lcase_ids:
-- 
2.43.0


From 33a937a93560cdddb686d8c9c345a21ee773b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 182/257] fix: frame2d: nodes of a generated member were
 misplaced when its geometry was updated

---
 metku/frame2d/frame2d.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index fd3e8f4..5e105e4 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -2115,6 +2115,15 @@ class FrameMember:
         #         # print(j, len(self.nodal_coordinates))
         #         node.coord = np.array(self.nodal_coordinates[j])
 
+        if self.is_generated:
+            # The nodes keep their relative location along the member
+            self.nodal_coordinates = [list(self.to_global(loc))
+                                      for loc in self.node_locs]
+            for node, coord in zip(self.nodes.values(), self.nodal_coordinates):
+                if node is not self.n1 and node is not self.n2:
+                    node.coord = np.array(coord)
+            return
+
         # clear list of nodal coordinates
         self.nodal_coordinates.clear()
         """ add optional coordinates that are derived from point loads and supports
@@ -2150,10 +2159,6 @@ class FrameMember:
         self.nodal_coordinates.sort(
             key=lambda c: np.linalg.norm(np.asarray(c0) - np.asarray(c)))
 
-        if self.is_generated:
-            for j, node in enumerate(self.nodes.values()):
-                node.coord = np.array(self.nodal_coordinates[j])
-
     def add_node_coord(self, coord):
         """
         Adds coordinate to member's coordinates and
@@ -2206,6 +2211,11 @@ class FrameMember:
         if not self.n2 and idx:
             self.n2 = fem_model.nodes[idx]
 
+        # Relative location of each node along the member
+        c0 = np.asarray(self.coordinates[0])
+        self.node_locs = [np.linalg.norm(node.coord - c0) / self.length
+                          for node in self.nodes.values()]
+
     def generate_elements(self, fem_model):
         """ Generates elements between nodes
             For beam member's first and last element, creates semi-rigid end
-- 
2.43.0


From 1b58cd303b7a82e4545fef73f4c1fbcde57068da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 183/257] fix: frame2d: point loads added after the model was
 moved act at their coordinate

---
 metku/frame2d/frame2d.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 5e105e4..ba32818 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -3613,10 +3613,13 @@ class PointLoad(Load):
 
     def add_load(self, fem_model):
 
-        # The nodal coordinates are rounded to PREC decimals
+        # The nodal coordinates are rounded to PREC decimals. The nodes of a
+        # generated model can have been moved since they were created.
         coordinate = [round(c, PREC) for c in self.coordinate]
-        if coordinate in fem_model.nodal_coords:
-            idx = fem_model.nodal_coords.index(coordinate)
+        nodal_coords = [[round(c, PREC) for c in node.coord]
+                        for node in fem_model.nodes]
+        if coordinate in nodal_coords:
+            idx = nodal_coords.index(coordinate)
             self.node = fem_model.nodes[idx]
             fem_model.add_load(
                 fem.PointLoad(self.load_id, self.node, self.v, self.f))
-- 
2.43.0


From 606e08c4909347420b2a568435a5cda5c89f3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 184/257] fix: frame2d: selection of current profile type
 changed square hollow sections to rectangular

---
 metku/frame2d/frame2d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index ba32818..53ebecc 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -1972,7 +1972,8 @@ class FrameMember:
             elif profile_type == 'CHS':
                 self.cross_section = CHS(H, T, self.fy)
 
-            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3):
+            elif profile_type == 'RHS' or (profile_type == "SHS" and len(vals) == 3
+                                           and H != B):
                 self.cross_section = RHS(H, B, T, self.fy)
 
             elif profile_type == 'SHS':
@@ -2642,10 +2643,11 @@ class FrameMember:
                 prof_type = "H"
             elif isinstance(self.cross_section, HEB):
                 prof_type = "H"
-            elif isinstance(self.cross_section, RHS):
-                prof_type = "RHS"
             elif isinstance(self.cross_section, SHS):
+                # SHS is a subclass of RHS
                 prof_type = "SHS"
+            elif isinstance(self.cross_section, RHS):
+                prof_type = "RHS"
             elif isinstance(self.cross_section, CHS):
                 prof_type = "CHS"
             else:
-- 
2.43.0


From b7f48765b6d25b2b5dcbd6fdf3e749bde0f57201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 185/257] fix: release of a second degree of freedom of an
 element replaced the earlier ones

---
 metku/framefem/framefem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 690dfe4..99b681b 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -331,7 +331,8 @@ class FrameFEM:
                            are released (set to zero)
         """
         print("vapautus")
-        self.elements[eid].releases = dofs
+        elem = self.elements[eid]
+        elem.releases = sorted(set(elem.releases).union(dofs))
     
     def nodal_dofs(self):
         """ Assign nodal degrees of freedom
-- 
2.43.0


From 354630aec5408bc750fbd5d72cff511a6d57ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 186/257] fix: truss_lp: default stress bounds referred to an
 undefined truss

---
 metku/optimization/problems/raami_truss_optimization.py | 4 ++--
 metku/optimization/problems/truss_optimization.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/problems/raami_truss_optimization.py b/metku/optimization/problems/raami_truss_optimization.py
index 52f5bb6..6e9b4c7 100644
--- a/metku/optimization/problems/raami_truss_optimization.py
+++ b/metku/optimization/problems/raami_truss_optimization.py
@@ -641,10 +641,10 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Aub = Aub*np.ones(nmem)
         
     if slb is None:
-        slb = [mem.fy for i, mem in t.members.items()]
+        slb = [mem.fy for i, mem in truss.members.items()]
     
     if sub is None:
-        sub = [mem.fy for i, mem in t.members.items()]
+        sub = [mem.fy for i, mem in truss.members.items()]
     
     if not (isinstance(slb,np.ndarray) or isinstance(slb,list)):        
         slb = slb*np.ones(nmem)
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 3b59bbb..30f9a57 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -650,10 +650,10 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Aub = Aub*np.ones(nmem)
         
     if slb is None:
-        slb = [mem.fy for i, mem in t.members.items()]
+        slb = [mem.fy for i, mem in truss.members.items()]
     
     if sub is None:
-        sub = [mem.fy for i, mem in t.members.items()]
+        sub = [mem.fy for i, mem in truss.members.items()]
     
     if not (isinstance(slb,np.ndarray) or isinstance(slb,list)):        
         slb = slb*np.ones(nmem)
-- 
2.43.0


From f589a16ed00e735d9948ef3e47500fa964eddc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 187/257] fix: linear truss problems could not be made for the
 default load case

---
 .../problems/raami_truss_optimization.py           | 14 +++++++-------
 metku/optimization/problems/truss_milp.py          |  4 ++--
 metku/optimization/problems/truss_optimization.py  | 14 +++++++-------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/metku/optimization/problems/raami_truss_optimization.py b/metku/optimization/problems/raami_truss_optimization.py
index 6e9b4c7..5ae873b 100644
--- a/metku/optimization/problems/raami_truss_optimization.py
+++ b/metku/optimization/problems/raami_truss_optimization.py
@@ -662,7 +662,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Also the stress constraints must be changed to take into account groups.
     """
     for i, mem in truss.members.items():
-        dvars.append(Variable(name="A{0:.0g}".format(i),lb=Alb[i],ub=Aub[i],
+        dvars.append(Variable(name="A{0:.0f}".format(i),lb=Alb[i],ub=Aub[i],
                                   target={"objects":[mem],"property":["A"]},
                                   value=mem.A))
         c.append(mem.length)
@@ -670,7 +670,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
     """ Design variables: member forces """
     for lc in truss.load_cases:
         for i, mem in truss.members.items():
-            dvars.append(Variable(name="N{0:.0g}{1:.0g}".format(lc,i),lb=-1e9,ub=1e9,
+            dvars.append(Variable(name="N{0}-{1:.0f}".format(lc,i),lb=-1e9,ub=1e9,
                                   target=None,
                                   value=1))
             c.append(0)
@@ -698,7 +698,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
                 vector. 
             """
             a[(j+1)*nmem:(j+2)*nmem] = b            
-            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0f}-LC{1}".format(i,lc)))
     
     """ Constraints: stress constraints 
         These are expressed in terms of member forces, i.e.
@@ -709,11 +709,11 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
             a = np.zeros(lp.nvars())
             a[i] = -sub[i]
             a[(j+1)*nmem+i] = 1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0f}-LC{1}".format(i,lc)))
             
             a[i] = -slb[i]
             a[(j+1)*nmem+i] = -1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0f}-LC{1}".format(i,lc)))
     
     return lp
 
@@ -793,7 +793,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
     for lc in truss.load_cases:
         for i, mem in truss.members.items():            
             for j in range(nprof):
-                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
+                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
                                           target=None,value=1))
                 c.append(0)
     
@@ -845,7 +845,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
                 Insert the current row of the statics matrix as the coefficient
                 vector. 
             """
-            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0f}-LC{1}".format(i,lc)))
     
     """ Constraints: compatibility conditions """
     nx = lp.nvars()
diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 86fcf23..de9bfe8 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -170,7 +170,7 @@ class TrussMILP:
                 for j, p in enumerate(self.members[i]['profiles']):
                     self.vars['force'][i][k].append(
                         sop.Variable(
-                            name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),
+                            name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),
                             lb=self.members[i]['Nlb'][j],
                             ub=self.members[i]['Nub'][j],
                             target=None,value=1))
@@ -570,7 +570,7 @@ class TrussMILP:
                 # The first 'nmem' variables are the cross-sectional areas.
                 #    Insert the current row of the statics matrix as the coefficient
                 #    vector.            
-                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+                self.milp.add(sop.LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0f}-LC{1}".format(i,lc)))
         
         # Constraints: compatibility and strength
         self.compatibility_constraints(B)
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 30f9a57..bf29c6c 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -671,7 +671,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
         Also the stress constraints must be changed to take into account groups.
     """
     for i, mem in truss.members.items():
-        dvars.append(Variable(name="A{0:.0g}".format(i),lb=Alb[i],ub=Aub[i],
+        dvars.append(Variable(name="A{0:.0f}".format(i),lb=Alb[i],ub=Aub[i],
                                   target={"objects":[mem],"property":["A"]},
                                   value=mem.A))
         c.append(mem.length)
@@ -679,7 +679,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
     """ Design variables: member forces """
     for lc in truss.load_cases:
         for i, mem in truss.members.items():
-            dvars.append(Variable(name="N{0:.0g}{1:.0g}".format(lc,i),lb=-1e9,ub=1e9,
+            dvars.append(Variable(name="N{0}-{1:.0f}".format(lc,i),lb=-1e9,ub=1e9,
                                   target=None,
                                   value=1))
             c.append(0)
@@ -707,7 +707,7 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
                 vector. 
             """
             a[(j+1)*nmem:(j+2)*nmem] = b            
-            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,pi,con_type="=", name="EQ-{0:.0f}-LC{1}".format(i,lc)))
     
     """ Constraints: stress constraints 
         These are expressed in terms of member forces, i.e.
@@ -718,11 +718,11 @@ def truss_lp(truss,Alb=0,Aub=1e9,slb=None,sub=None):
             a = np.zeros(lp.nvars())
             a[i] = -sub[i]
             a[(j+1)*nmem+i] = 1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-UB-{0:.0f}-LC{1}".format(i,lc)))
             
             a[i] = -slb[i]
             a[(j+1)*nmem+i] = -1
-            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(a,0,con_type="<", name="STR-LB-{0:.0f}-LC{1}".format(i,lc)))
     
     return lp
 
@@ -802,7 +802,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
     for lc in truss.load_cases:
         for i, mem in truss.members.items():            
             for j in range(nprof):
-                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2:.0f})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
+                dvars.append(Variable(name="N({0:.0f},{1:.0f},{2})".format(i,j,lc),lb=Nlb[j,i],ub=Nub[j,i],
                                           target=None,value=1))
                 c.append(0)
     
@@ -854,7 +854,7 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
                 Insert the current row of the statics matrix as the coefficient
                 vector. 
             """
-            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0g}-LC{1:.0g}".format(i,lc)))
+            lp.add(LinearConstraint(b,pi,con_type="=", name="EQ-{0:.0f}-LC{1}".format(i,lc)))
     
     """ Constraints: compatibility conditions """
     nx = lp.nvars()
-- 
2.43.0


From 8e1a5e703613ebb53749570f16d93c31f3d07805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 188/257] fix: truss MILP: every load case balanced the forces
 of the first one

---
 .../problems/raami_truss_optimization.py       | 13 +++++++------
 metku/optimization/problems/truss_milp.py      | 18 ++++++++++--------
 .../problems/truss_optimization.py             | 13 +++++++------
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/metku/optimization/problems/raami_truss_optimization.py b/metku/optimization/problems/raami_truss_optimization.py
index 5ae873b..27bcd64 100644
--- a/metku/optimization/problems/raami_truss_optimization.py
+++ b/metku/optimization/problems/raami_truss_optimization.py
@@ -829,13 +829,14 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
         lp.add(LinearConstraint(a,1,con_type="=", name="Sum y({0:.0f},j)=1".format(i)))
     
     """ Constraints: equilibrium equations """
-    B0 = np.zeros([ndof,lp.nvars()])
-    
-    for i in range(nmem):
-        B0[:,(nmem*nprof + i*nprof):(nmem*nprof + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
-        
-    
     for j, lc in enumerate(truss.load_cases):
+        """ Each load case has its own force variables """
+        B0 = np.zeros([ndof,lp.nvars()])
+        Nstart = (j+1)*nmem*nprof
+        
+        for i in range(nmem):
+            B0[:,(Nstart + i*nprof):(Nstart + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
+        
         """ Load vector for the load case, including only unsupported dofs """
         p = np.delete(truss.f.global_load_vector(lc),truss.f.supp_dofs)*Nscale
         """ a is a placeholder for the coefficient vector of a linear constraint """
diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index de9bfe8..76bc7d5 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -304,6 +304,8 @@ class TrussMILP:
                     
                     yndx += 1                
                     Nndx +=1
+            # Skip the displacement variables in variable indexing
+            Nndx += ndof
                     
     def strength_constraints(self):
         """ Constraints: member strength (stress constraints)
@@ -551,17 +553,17 @@ class TrussMILP:
         # Create augmented statics matrix, whose columns correspond to
         # the columns of the original statics matrix copied as many times
         # as there are profile variables for each member.        
-        B0 = np.zeros([ndof,nvars])
         B = self.statics_matrix
         
-        # TODO! This has to be accommodated for several load cases!
-        start = self.nprof_vars
-        for i, yvars in enumerate(self.vars['profile']):
-            end = start + len(yvars)
-            B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
-            start = end
-                            
         for j, lc in enumerate(self.structure.load_cases):
+            # Each load case has its own force variables
+            B0 = np.zeros([ndof,nvars])
+            start = self.nprof_vars + j*(self.nprof_vars + ndof)
+            for i, yvars in enumerate(self.vars['profile']):
+                end = start + len(yvars)
+                B0[:,start:end] += np.reshape(B[:,i],(ndof,1))
+                start = end
+                            
             # Load vector for the load case, including only unsupported dofs """
             p = np.delete(self.structure.f.global_load_vector(lc),self.structure.f.supp_dofs)*self.scaling['N']
             # a is a placeholder for the coefficient vector of a linear constraint """
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index bf29c6c..225ce10 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -838,13 +838,14 @@ def truss_milp(truss,profiles,ulb=-1e3,uub=1e3):
         lp.add(LinearConstraint(a,1,con_type="=", name="Sum y({0:.0f},j)=1".format(i)))
     
     """ Constraints: equilibrium equations """
-    B0 = np.zeros([ndof,lp.nvars()])
-    
-    for i in range(nmem):
-        B0[:,(nmem*nprof + i*nprof):(nmem*nprof + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
-        
-    
     for j, lc in enumerate(truss.load_cases):
+        """ Each load case has its own force variables """
+        B0 = np.zeros([ndof,lp.nvars()])
+        Nstart = (j+1)*nmem*nprof
+        
+        for i in range(nmem):
+            B0[:,(Nstart + i*nprof):(Nstart + (i+1)*nprof)] += np.reshape(B[:,i],(ndof,1))
+        
         """ Load vector for the load case, including only unsupported dofs """
         p = np.delete(truss.f.global_load_vector(lc),truss.f.supp_dofs)*Nscale
         """ a is a placeholder for the coefficient vector of a linear constraint """
-- 
2.43.0


From cea8206ff4cd8b9d0ac73290d58efc689d3adb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 189/257] fix: TrussMILP.create_milp returned an undefined name

---
 metku/optimization/problems/truss_milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 76bc7d5..649065f 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -579,7 +579,7 @@ class TrussMILP:
         self.strength_constraints()
                 
         
-        return lp
+        return self.milp
     
     def substitute_design(self,x):
         """ Substitutes the design in 'x' to the truss structure """
-- 
2.43.0


From a72dbfcac813ca3be5a8b58265f783011a5bd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 190/257] fix: TrussMILP: resistances and displacement bounds
 are scaled to the units of the problem

---
 metku/optimization/problems/truss_milp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 649065f..3bcff95 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -76,7 +76,7 @@ class TrussMILP:
         self.milp = None
         
         # Resistance of cross-sections
-        self.NRd = [np.floor(p.NRd)*self.scaling['A'] for p in profiles]
+        self.NRd = [np.floor(p.NRd)*self.scaling['N'] for p in profiles]
     
         # Member data
         self.members = [{'L':0.0,'k0':0.0,'profiles':[],
@@ -141,8 +141,8 @@ class TrussMILP:
             # i) calculate buckling resistance
             # ii) create profile selection variable
             # iii) calculate force variable bounds
-            nlb = np.sum(np.maximum(B[:,i],0)*ulb) + np.sum(np.minimum(B[:,i],0)*uub)
-            nub = np.sum(np.minimum(B[:,i],0)*ulb) + np.sum(np.maximum(B[:,i],0)*uub)
+            nlb = np.sum(np.maximum(B[:,i],0)*self.ulb) + np.sum(np.minimum(B[:,i],0)*self.uub)
+            nub = np.sum(np.minimum(B[:,i],0)*self.ulb) + np.sum(np.maximum(B[:,i],0)*self.uub)
             for j, p in enumerate(self.members[i]['profiles']):
                 mem.profile = p
                 # Calculate buckling resistance for section 'p'
@@ -182,7 +182,7 @@ class TrussMILP:
             for j in range(self.ndof):
                 self.vars['disp'][k].append(
                     sop.Variable(name="u({0:.0f},{1:.0f})".format(j,k),
-                                 lb=ulb,ub=uub,target=None,value=0.0))
+                                 lb=self.ulb,ub=self.uub,target=None,value=0.0))
                 self.__nvars += 1
                 #c.append(0)
         
-- 
2.43.0


From 5813f30fa1949459708006f01df99527bffb048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 191/257] fix: TrussMILP: default lower bound of displacements
 required positive displacements

---
 metku/optimization/problems/truss_milp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 3bcff95..4bbd649 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -37,7 +37,7 @@ class TrussMILP:
     """
     
     def __init__(self,name,
-                 truss,profiles,ulb=1e-3,uub=1e3,
+                 truss,profiles,ulb=-1e3,uub=1e3,
                  scaling={'N':1.0, 'u':1.0},
                  groups=None,
                  member_profiles=None):
@@ -62,7 +62,7 @@ class TrussMILP:
         self.uub = uub*scaling['u']
         
         # Scaling
-        self.scaling = scaling
+        self.scaling = dict(scaling)
         self.scaling['A'] = self.scaling['u']**2
         self.scaling['E'] = self.scaling['N']/(self.scaling['u']**2)
         
-- 
2.43.0


From 13f175edd3098c1e1774c07d940fca481718e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 192/257] fix: TrussMILP topology: an existing node required
 all of its members

---
 metku/optimization/problems/truss_milp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 4bbd649..9380981 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -385,8 +385,8 @@ class TrussMILP:
         for j, node in enumerate(self.nodes):            
             for m in node['members']:
                 a = np.zeros(nx)
-                a[Zstart+j] = 1
-                a[Ystart+m] = -1
+                a[Zstart+j] = -1
+                a[Ystart+m] = 1
                 self.milp.add(sop.LinearConstraint(a,0,con_type="<",
                                                    name="Y[{0:.0f}] <= Z[{1:.0f}]".format(m,j)))
         
-- 
2.43.0


From fcf253f214f4febc5c45435f114291972ac6a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 193/257] fix: frame2d: analysis in an optimization problem
 failed

---
 metku/frame2d/frame2d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 53ebecc..09790de 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -500,14 +500,16 @@ class Frame2D:
                 for j in t.joints.values():
                     j.calc_nodal_coordinates()
 
-    def calculate(self, load_id=None, support_method='ZERO'):
+    def calculate(self, load_id=None, support_method='ZERO', design=True):
         """ Calculates forces and displacements
             
             Parameters
             ----------
             :param load_id: Id of the loads to be added in the calculation model
+            :param design: are the members designed after the analysis
             
             :type load_id: int / str
+            :type design: bool
         """
 
         if load_id is None:
@@ -527,7 +529,8 @@ class Frame2D:
             for lid in lcase_ids:
                 # for lid in self.f.loadcases.values():
                 self.calculate(load_id=lid,
-                               support_method=support_method)
+                               support_method=support_method,
+                               design=design)
         else:
             # print('Calculate case:' + str(load_id))
 
@@ -536,7 +539,8 @@ class Frame2D:
             self.calc_nodal_forces(load_id)
             self.calc_nodal_displacements(load_id)
             self.assign_forces(load_id)
-            self.design_members(load_id)
+            if design:
+                self.design_members(load_id)
             # self.check_members_strength()
             # self.alpha_cr, _ = self.f.linear_buckling(k=4)
 
-- 
2.43.0


From 5540dfb8196c3f4a257ab7c6ae957227a9367006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 194/257] fix: raami: area variables of a simple truss did not
 change the truss

---
 metku/raami/raami_simple_truss.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/metku/raami/raami_simple_truss.py b/metku/raami/raami_simple_truss.py
index 948cc56..5a97f5c 100644
--- a/metku/raami/raami_simple_truss.py
+++ b/metku/raami/raami_simple_truss.py
@@ -112,7 +112,16 @@ class SimpleTrussMember(FrameMember):
     def __init__(self, nodes, section, mtype='bar', mem_id="", nel=1):
 
         super().__init__(nodes, section, mtype, mem_id, nel)
+
+    @property
+    def A(self):
+        """ Cross-sectional area """
+        return self.cross_section.A
     
+    @A.setter
+    def A(self,val):
+        """ Set cross-sectional area """
+        self.cross_section.A = val
     
 class SimpleTrussSteelMember(SteelFrameMember):
     """ Class for simple truss members. These are a subclass of FrameMember,
@@ -126,6 +135,16 @@ class SimpleTrussSteelMember(SteelFrameMember):
 
         super().__init__(nodes, section, mtype, mem_id, nel)
 
+    @property
+    def A(self):
+        """ Cross-sectional area """
+        return self.cross_section.A
+    
+    @A.setter
+    def A(self,val):
+        """ Set cross-sectional area """
+        self.cross_section.A = val
+
 def three_bar_truss(L=1000,F1=100e3,F2=100e3,nlc=1,
                     profiles=[RHS(50,50,3),RHS(50,50,3),RHS(50,50,3)],
                     truss_type='general'):
-- 
2.43.0


From cbb62746f72a38cb3af8fe6c14d1000afab39ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 195/257] fix: truss sizing: members were constrained in the
 first load case only

---
 .../problems/truss_optimization.py            | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 225ce10..7bff4c0 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -327,42 +327,35 @@ class TrussOptimization(OptimizationProblem):
             # Clear constraint list
             self.cons.clear()
 
+        # Constraints are needed for every load case
+        load_cases = list(self.structure.load_ids)
+
         for mem in members:
-            if stress:
-                stress_cons = self.stress_constraints(mem)
-                for key, val in stress_cons.items():                    
-                    con = NonLinearConstraint(
-                        name=f"{key}: {mem.mem_id}",
-                        con_fun=val,
-                        con_type='<',
-                        fea_required=True,
-                        vars=mem)
-                    self.add(con)
-                    self.stress_cons.append(con)
-            
-            if strength:
-                new_cons = self.strength_constraints(mem)
-                for key, val in new_cons.items():                    
+            for load_case in load_cases:
+                new_cons = {}
+                stress_cons = {}
+                
+                if stress:
+                    stress_cons = self.stress_constraints(mem,load_case=load_case)
+                    new_cons.update(stress_cons)
+                
+                if strength:
+                    new_cons.update({f"{key} strength": val for key, val in
+                                     self.strength_constraints(mem,load_case).items()})
+                
+                if buckling:
+                    new_cons.update(self.buckling_constraints(mem,buckling,load_case))
+                
+                for key, val in new_cons.items():
                     con = NonLinearConstraint(
-                        name=f"{key}: {mem.mem_id}",
+                        name=f"{key}: {mem.mem_id}, LC {load_case}",
                         con_fun=val,
                         con_type='<',
                         fea_required=True,
                         vars=mem)
                     self.add(con)
-            
-            if buckling:
-                new_cons = self.buckling_constraints(mem,buckling)
-                for key, val in new_cons.items():
-                    con = NonLinearConstraint(
-                    name=f"{key}: {mem.mem_id}",
-                    con_fun=val,
-                    con_type='<',
-                    fea_required=True,
-                    vars=mem)
-                
-                self.add(con)
-            
+                    if key in stress_cons:
+                        self.stress_cons.append(con)
 
     
     def stress_constraints(self, mem, max_stress=None, load_case=None):
-- 
2.43.0


From 8e262da7d67ce1ee7e191b72a52b7b0b6159edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 196/257] fix: fully stressed design: size members for the
 greatest force, also compression

---
 .../problems/raami_truss_optimization.py      | 24 ++++++++++---------
 .../problems/truss_optimization.py            | 24 ++++++++++---------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/metku/optimization/problems/raami_truss_optimization.py b/metku/optimization/problems/raami_truss_optimization.py
index 27bcd64..68878eb 100644
--- a/metku/optimization/problems/raami_truss_optimization.py
+++ b/metku/optimization/problems/raami_truss_optimization.py
@@ -541,31 +541,33 @@ class TrussOptimization(OptimizationProblem):
         while k < kmax:
             print("  Iteration {0:3g}".format(k))
             k += 1
+            # Required values of the variables: the greatest for
+            # all load cases and all targeted members
+            req = [var.lb for var in self.vars]
             for load_case in self.structure.load_ids:
                 # Calculate response of the structure
                 # for this load case
                 self.fea(load_case)
                 
                 if verb:
-                    print("   Load case: {0:s}".format(load_case))
+                    print(f"   Load case: {load_case}")
                             
-                for var in self.vars:
+                for i, var in enumerate(self.vars):
                     # For each variable, go through
                     # all members that the variable is targeted at.
                     for mem in var.target['objects']:
                         # Run update rule:
                         # 1. get member force
-                        # 2. update variable value
-                        N = mem.member.NEd
-                        new_val = N/mem.member.fy()
-                        
-                        new_val = min(max(new_val,var.lb),var.ub)
+                        # 2. update required value
+                        N = mem.ned
+                        fy = mem.material.fy
+                        req[i] = max(req[i],abs(N)/fy)
                         
                         if verb:
-                            print("{0:s}(old) = {1:5.3f}, N = {2:5.3f}, NRd = {4:5.3f}, {0:s}(new) = {3:5.3f}".format(var.name,var.value,N,new_val,var.value*mem.member.fy()))
-                                            
-                        
-                        var.substitute(new_val)
+                            print(f"{var.name}(old) = {var.value:5.3f}, N = {N:5.3f}, NRd = {var.value*fy:5.3f}, {var.name}(new) = {req[i]:5.3f}")
+            
+            for var, new_val in zip(self.vars,req):
+                var.substitute(min(new_val,var.ub))
         
         #self.print_vars()
     
diff --git a/metku/optimization/problems/truss_optimization.py b/metku/optimization/problems/truss_optimization.py
index 7bff4c0..9515d48 100644
--- a/metku/optimization/problems/truss_optimization.py
+++ b/metku/optimization/problems/truss_optimization.py
@@ -543,31 +543,33 @@ class TrussOptimization(OptimizationProblem):
         while k < kmax:
             print("  Iteration {0:3g}".format(k))
             k += 1
+            # Required values of the variables: the greatest for
+            # all load cases and all targeted members
+            req = [var.lb for var in self.vars]
             for load_case in self.structure.load_ids:
                 # Calculate response of the structure
                 # for this load case
                 self.fea(load_case)
                 
                 if verb:
-                    print("   Load case: {0:s}".format(load_case))
+                    print(f"   Load case: {load_case}")
                             
-                for var in self.vars:
+                for i, var in enumerate(self.vars):
                     # For each variable, go through
                     # all members that the variable is targeted at.
                     for mem in var.target['objects']:
                         # Run update rule:
                         # 1. get member force
-                        # 2. update variable value
-                        N = mem.member.NEd
-                        new_val = N/mem.member.fy()
-                        
-                        new_val = min(max(new_val,var.lb),var.ub)
+                        # 2. update required value
+                        N = mem.NEd[load_case]
+                        fy = mem.material.fy
+                        req[i] = max(req[i],abs(N)/fy)
                         
                         if verb:
-                            print("{0:s}(old) = {1:5.3f}, N = {2:5.3f}, NRd = {4:5.3f}, {0:s}(new) = {3:5.3f}".format(var.name,var.value,N,new_val,var.value*mem.member.fy()))
-                                            
-                        
-                        var.substitute(new_val)
+                            print(f"{var.name}(old) = {var.value:5.3f}, N = {N:5.3f}, NRd = {var.value*fy:5.3f}, {var.name}(new) = {req[i]:5.3f}")
+            
+            for var, new_val in zip(self.vars,req):
+                var.substitute(min(new_val,var.ub))
         
         #self.print_vars()
     
-- 
2.43.0


From 70a0fedb714b1f6c86becef436c813169dd5da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 197/257] fix: TrussMILP: objective class is not in structopt

---
 metku/optimization/problems/truss_milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/problems/truss_milp.py b/metku/optimization/problems/truss_milp.py
index 9380981..d7ea979 100644
--- a/metku/optimization/problems/truss_milp.py
+++ b/metku/optimization/problems/truss_milp.py
@@ -25,6 +25,7 @@ from metku.frame2d.frame2d import SteelBeam
 from metku.frame2d.simple_truss import SimpleTruss, three_bar_truss, ten_bar_truss
 from metku.sections.steel import SteelSection
 import metku.optimization.structopt as sop
+from metku.optimization.objective import LinearObjective
 from metku.sections.steel.catalogue import ipe_profiles, shs_profiles, hea_profiles
 from metku.sections.steel import ISection, WISection, RHS, SHS
 from metku.optimization.solvers.lp import LP
@@ -513,7 +514,7 @@ class TrussMILP:
         """ Objective function: truss weight.
             This is the same for all problem types.
         """
-        obj = sop.LinearObjective("Weight", self.weight_obj())
+        obj = LinearObjective("Weight", self.weight_obj())
         self.milp.add(obj)
         
         ndof = self.ndof
-- 
2.43.0


From 70c22e44fdc642f7986932a7de2909ca4a040cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 198/257] fix: cost of sawing added the blade cost per minute
 as if it were the total

---
 metku/cost/workshop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/cost/workshop.py b/metku/cost/workshop.py
index 89363d9..90c640c 100644
--- a/metku/cost/workshop.py
+++ b/metku/cost/workshop.py
@@ -852,7 +852,8 @@ class SawingCost(CostCentre):
         # calculate productive time and cost of consumables for each end.   
         for t, h, Ah, At in zip(T,H,AH,AT):     
             TPnew = self.productive_time(steel_grade, h, t, Ah)
-            cCS += self.consumables(At, t, TPnew, steel_grade)
+            # 'consumables' is the cost of the blade per minute of sawing
+            cCS += TPnew*self.consumables(At, t, TPnew, steel_grade)
             TP += TPnew            
                     
         self.times["productive"] = TP
-- 
2.43.0


From 55db1be649a212ee25ef89057ced0798bafbf0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 199/257] fix: cost of a plate kept its removed welds and holes

---
 metku/structures/steel/plates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/plates.py b/metku/structures/steel/plates.py
index ca9948b..6c83de8 100644
--- a/metku/structures/steel/plates.py
+++ b/metku/structures/steel/plates.py
@@ -101,10 +101,12 @@ class RectPlate:
         self._cost['cutting'] = workshop.cost_centres['cutting'].cost(self.t,self.circumference())
         self._cost['painting'] = workshop.cost_centres['painting'].cost(self.paint_area())
         self._cost['blasting'] = workshop.cost_centres['blasting'].cost(max(self.b,self.h))
+        self._cost['welding'] = 0.0
         if self.weld_size > 0:
             self._cost['welding'] = workshop.cost_centres['assembly_welding'].cost(self.weld_size,self.circumference())
         
         
+        self._cost['holes'] = 0.0
         if len(self.holes) > 0:
             total_holes = sum([d*math.pi for d in self.holes]) 
             self._cost['holes'] = workshop.cost_centres['cutting'].cost(self.t,total_holes)
-- 
2.43.0


From 35988066e68aafaaf67c755375a495c9f5bab725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 200/257] fix: end plate joint cost: two bolts of a row had one
 nut and one washer

---
 metku/structures/steel/end_plate_joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index fe44cc4..4cdcf94 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -818,8 +818,8 @@ class EndPlateJoint:
             else:
                 bolt_cost = 2*bolt_costs_pt[int(row.bolt.length)][int(row.bolt.d)]
             self._cost['bolts'] += bolt_cost
-            self._cost['bolts'] += nut_unit_cost[int(row.bolt.d)]
-            self._cost['bolts'] += washer_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*nut_unit_cost[int(row.bolt.d)]
+            self._cost['bolts'] += 2*2*washer_unit_cost[int(row.bolt.d)]
             """ Hole costs include forming holes both in the plate in the column """
             hole_cut_length += 2*row.bolt.d0*math.pi
            
-- 
2.43.0


From 86a45410023b44d8c004ae5d73419ad4df3e181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 201/257] fix: end plate joint cost: holes of the column were
 missing

---
 metku/structures/steel/end_plate_joint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index 4cdcf94..fdfa515 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -826,6 +826,7 @@ class EndPlateJoint:
             #self._cost['holes'] += 2*workshop.cost_centres['cutting'].cost(self.col.tf,row.bolt.d0*math.pi)
 
         self._cost['holes'] = self.workshop.cost_centres['cutting'].cost(self.tp,hole_cut_length)
+        self._cost['holes'] += self.workshop.cost_centres['cutting'].cost(self.col.tf,hole_cut_length)
 
         """ Welding cost """
         flange_weld_length = 2*(self.beam.b + self.beam.tf) - 2*self.beam.r - self.beam.tw + self.beam.r*math.pi
-- 
2.43.0


From a31798c86d1e4d5621656ec0e628d9c669917302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 202/257] fix: fin plate joint cost: holes of the plate were
 those of the first bolts

---
 metku/structures/steel/fin_plate_joint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/fin_plate_joint.py b/metku/structures/steel/fin_plate_joint.py
index 4b5d898..7099889 100644
--- a/metku/structures/steel/fin_plate_joint.py
+++ b/metku/structures/steel/fin_plate_joint.py
@@ -454,6 +454,8 @@ class FinPlateJoint:
         
         plate_cost = self.workshop.steel_price["plates"]
         
+        # Holes of the plate follow the current bolts
+        self.plate.d0 = self.d0
         self._cost['plate'] = self.plate.cost(self.workshop,plate_cost)
         
         # Bolt costs: bolt assemply includes
-- 
2.43.0


From b835991aac29b0567284562dc67647f64b637564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 203/257] fix: end plate joint cost: the plate had the height
 of the first beam

---
 metku/structures/steel/end_plate_joint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/structures/steel/end_plate_joint.py b/metku/structures/steel/end_plate_joint.py
index fdfa515..d265210 100644
--- a/metku/structures/steel/end_plate_joint.py
+++ b/metku/structures/steel/end_plate_joint.py
@@ -807,6 +807,8 @@ class EndPlateJoint:
         
         plate_cost = self.workshop.steel_price["plates"]
         
+        # The plate reaches over the current beam
+        self.end_plate.h = self.etop + self.ebottom + self.beam.h
         self._cost['plate'] = self.end_plate.cost(self.workshop,plate_cost)
         hole_cut_length = 0.0
         for row in self.bolt_rows:
-- 
2.43.0


From 19d27af15ddd4b21d1cf0ff220bd4bb8843346ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 204/257] fix: second order line loads: read the modulus from
 the material of the element

---
 metku/framefem/elements/ebbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index af2f8a7..dbf5bb3 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -399,7 +399,7 @@ class EBBeam(Element):
                             floc[2] = L**2*(1/20*q1+1/30*q2)
                             floc[5] = -L**2*(1/30*q1+1/20*q2)
                         else:
-                            k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                            k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
                             s = np.sin(k*L)
@@ -456,7 +456,7 @@ class EBBeam(Element):
                         floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
                         floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
                     else:
-                        k = np.sqrt(abs(P)/self.section.E/self.section.Iy)
+                        k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                         a = 0.5*L
                         lam = k*a
                         s = np.sin(lam)
-- 
2.43.0


From 7039d59e4405adb022cffa024231ded9b5160f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 205/257] fix: second order fixed end moments of line loads in
 local coordinates

---
 metku/framefem/elements/ebbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index dbf5bb3..e7f2662 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -402,13 +402,13 @@ class EBBeam(Element):
                             k = np.sqrt(abs(P)/self.material.young/self.section.I[0])
                             a = 0.5*L
                             lam = k*a
-                            s = np.sin(k*L)
-                            c = np.cos(k*L)
+                            s = np.sin(lam)
+                            c = np.cos(lam)
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
+                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
-- 
2.43.0


From 063560e10c741d6cc6a59a6ab5534de42391cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 206/257] fix: second order analysis of members with a small
 compression force

---
 metku/framefem/elements/ebbeam.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index e7f2662..b60892a 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -266,11 +266,19 @@ class EBBeam(Element):
             slam = np.sin(lam)
             clam = np.cos(lam)
             
-            D = 2-2*clam-lam*slam
-            K = lam**3/12*slam/D
-            H = lam**2/6*(1-clam)/D
-            PSI = lam/4*(slam-lam*clam)/D
-            PHI = 0.5*lam*(lam-slam)/D
+            if lam < 0.1:
+                # The closed form expressions lose their accuracy (0/0) when
+                # the axial force is small: use series expansions instead.
+                K = 1 - lam**2/10 - lam**4/8400
+                H = 1 - lam**2/60 - lam**4/8400
+                PSI = 1 - lam**2/30 - 11*lam**4/25200
+                PHI = 1 + lam**2/60 + 13*lam**4/25200
+            else:
+                D = 2-2*clam-lam*slam
+                K = lam**3/12*slam/D
+                H = lam**2/6*(1-clam)/D
+                PSI = lam/4*(slam-lam*clam)/D
+                PHI = 0.5*lam*(lam-slam)/D
             
             k0 = np.zeros((6, 6))
             #
@@ -407,8 +415,10 @@ class EBBeam(Element):
                             
                             floc[1] = 0.5*q1*L
                             floc[4] = 0.5*q1*L                    
-                            floc[2] = -q1*a**2*(lam*c-s)/lam**2/s
-                            floc[5] = q1*a**2*(lam*c-s)/lam**2/s
+                            # (the series avoids 0/0 for small axial force)
+                            m = 1/3+lam**2/45 if lam < 0.01 else (s-lam*c)/lam**2/s
+                            floc[2] = q1*a**2*m
+                            floc[5] = -q1*a**2*m
                 #print(floc)
             else:
                 """ Load is given in global coordinates: it has to be transformed
@@ -471,8 +481,10 @@ class EBBeam(Element):
                         #print()
                         floc[1] = 0.5*qy1*L
                         floc[4] = 0.5*qy1*L                    
-                        floc[2] = -qy1*a**2*(lam*c-s)/lam**2/s
-                        floc[5] = qy1*a**2*(lam*c-s)/lam**2/s
+                        # (the series avoids 0/0 for small axial force)
+                        m = 1/3+lam**2/45 if lam < 0.01 else (s-lam*c)/lam**2/s
+                        floc[2] = qy1*a**2*m
+                        floc[5] = -qy1*a**2*m
                         
                         
                         
-- 
2.43.0


From 6a9013ce06fb73658ff55de13d8c8d9122ebe96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 207/257] fix: second order analysis: the default method used
 the supports of all support cases

---
 metku/framefem/framefem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 99b681b..77f903a 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -715,8 +715,11 @@ class FrameFEM:
         
         # Supports        
         if support_method == 'ZERO':
-            for i in self.supp_dofs:
-                KII[i,:] = 0
+            supp_dofs = [supp.node.dofs[dof] for supp in self.supports
+                         if supp.sid == supp_id for dof in supp.dof]
+            for i in supp_dofs:
+                if i < 0:
+                    continue
                 KII[i,:] = 0
                 KII[:,i] = 0
                 KII[i,i] = 1
-- 
2.43.0


From bb3496b5db81ce962a70715e130738cc1ba5dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 208/257] fix: second order displacements of nodes supported
 since the previous analysis

---
 metku/framefem/framefem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 77f903a..4bc9662 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -741,6 +741,9 @@ class FrameFEM:
         self.u2 = u2
         
         """ Substitute obtained displacements to nodes """
+        for node in self.nodes:
+            node.u2[lcase] = np.zeros(len(node.dofs))
+
         if support_method == 'ZERO':
             """ Distribute displacements to nodes """
             for node in self.nodes:
-- 
2.43.0


From b0a1158ac85cb577d5f62ab205b050a93d1b170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 209/257] fix: second order analysis of tension members with
 releases

---
 metku/framefem/elements/ebbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index b60892a..51fd5e6 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -299,7 +299,8 @@ class EBBeam(Element):
             k0[[2, 5], [2, 5]] = a*PSI
         else:
             # For members in tension, use first order stiffness matrix
-            k0 = self.local_stiffness_matrix(E, A, I1, Le)
+            # (in which the releases are already taken into account)
+            return self.local_stiffness_matrix(E, A, I1, Le)
         
         if len(self.releases) > 0:
             """ There are releases in the element, so the stiffness matrix
-- 
2.43.0


From 117c9638dfca8b778c7a76e6f0e4d6aedd025052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 210/257] fix: MMA: lower bounds of the subproblem could lie
 below a negative asymptote

---
 metku/optimization/solvers/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 3bfff3e..1a7d0de 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -54,7 +54,7 @@ class MMAProblem(OptimizationProblem):
         for i, var in enumerate(P.vars):
             # Create variables for the mma problem
             # Rules for variable bounds are from Svanberg (2007)
-            lb = max(var.lb, L[i] + 0.1 * (x[i] - abs(L[i])), x[i] - 0.5 * (var.ub - var.lb))
+            lb = max(var.lb, L[i] + 0.1 * (x[i] - L[i]), x[i] - 0.5 * (var.ub - var.lb))
             ub = min(var.ub, U[i] - 0.1 * (U[i] - x[i]), x[i] + 0.5 * (var.ub - var.lb))
             self.add(Variable(name=var.name,
                               lb=lb,
-- 
2.43.0


From c099b9b607acfc0021e9012191b5e39bed890df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 211/257] fix: MMA: linear constraints were moved to the
 subproblem and ignored locked variables

---
 metku/optimization/solvers/mma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/solvers/mma.py b/metku/optimization/solvers/mma.py
index 1a7d0de..cceeec4 100644
--- a/metku/optimization/solvers/mma.py
+++ b/metku/optimization/solvers/mma.py
@@ -73,8 +73,9 @@ class MMAProblem(OptimizationProblem):
         self.cons.clear()
         for con in P.cons:
             if isinstance(con, cons.LinearConstraint):
-                # Linear constraints are simply added
-                self.add(con)
+                # Linear constraints are added in terms of the free variables.
+                # A copy is used, because the constraint knows its problem.
+                self.add(P.free_linear_constraint(con))
             else:
                 # For nonlinear constraints, MMA approximation is made                
                 mma_con = copy(con)
-- 
2.43.0


From 8270bac2d1158186c1c1eea6578c44da279e5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 212/257] fix: trust region solver: linear constraints of
 problems with locked variables

---
 metku/optimization/solvers/trust_region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metku/optimization/solvers/trust_region.py b/metku/optimization/solvers/trust_region.py
index 20543fa..efcb236 100644
--- a/metku/optimization/solvers/trust_region.py
+++ b/metku/optimization/solvers/trust_region.py
@@ -131,6 +131,8 @@ class TrustRegionConstr(OptSolver):
                     ))
             else:
             #elif isinstance(con,sopt.LinearConstraint):
+                # Linear constraint in terms of the free variables
+                con = self.problem.free_linear_constraint(con)
                 lb = -np.inf
                 ub = np.inf
                 if con.type == "<" or con.type == "<=":                
-- 
2.43.0


From fee3a999b6b9b10813f67f336e83a84f6783e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 213/257] fix: COBYLA: bounds of the variables were ignored and
 the result was not reported

---
 metku/optimization/solvers/slsqp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/solvers/slsqp.py b/metku/optimization/solvers/slsqp.py
index a60828a..b30fc2d 100644
--- a/metku/optimization/solvers/slsqp.py
+++ b/metku/optimization/solvers/slsqp.py
@@ -205,10 +205,16 @@ class COBYLA(SLSQP):
         out = minimize(self.problem.obj,
                        x0,
                        method='COBYLA',
+                       bounds=self._create_bounds(),
                        constraints=constraints,
                        options=options)
         # print(out)
-        return out
+        self.feasible = bool(out.success)
+        self.result = out
+        self.best_x = out.x
+        self.best_f = out.fun
+        self.X = out.x
+        return self.best_f, self.best_x
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 78bac0b3ab4be0ad016e232ea83749d6dec758b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 214/257] fix: linearisation: perturbed points changed which
 constraints are potentially active

---
 metku/optimization/structopt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metku/optimization/structopt.py b/metku/optimization/structopt.py
index 139db06..dbc871e 100644
--- a/metku/optimization/structopt.py
+++ b/metku/optimization/structopt.py
@@ -373,6 +373,7 @@ class OptimizationProblem:
         #b = self.eval_nonlin_cons(x)
         
         con_vals = self.eval_cons(x)
+        potential = [con.potential for con in self.cons]
                 
         """ Get number of nonlinear constraints """
         if only_potential:
@@ -445,6 +446,10 @@ class OptimizationProblem:
             """ Substitute the original value x[i] to current variable """
             var.substitute(prev_val)            
             
+        # Evaluation at the perturbed points must not change the set of
+        # potentially active constraints.
+        for con, pot in zip(self.cons, potential):
+            con.potential = pot
 
         #B = A @ x.T - b
         B = A.dot(x) - b
-- 
2.43.0


From a434f2a11e4670f0ae67a2ea1e8f0d71ee9a9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 215/257] fix: shear stud resistance: import the partial
 factor, EN 1994-1-1 Eq. (6.18)

---
 metku/eurocodes/en1994/en1994_1_1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1994/en1994_1_1.py b/metku/eurocodes/en1994/en1994_1_1.py
index 2f11218..7ed78b0 100644
--- a/metku/eurocodes/en1994/en1994_1_1.py
+++ b/metku/eurocodes/en1994/en1994_1_1.py
@@ -15,6 +15,7 @@ import math
 
 try:
     from metku.eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
+    from metku.eurocodes.en1994.constants import gammaV
 except:
     from eurocodes.en1992.constants import gammaC, gammaS, alpha_cc, concrete
     from eurocodes.en1994.constants import gammaV
@@ -42,7 +43,7 @@ class ShearStud:
     def PRd(self,fck,Ecm,verb=False):
         """ Shear force resistance of a stud """
         
-        PRd_steel = 0.8*self.fu*math.pi**2*self.d**2/4
+        PRd_steel = 0.8*self.fu*math.pi*self.d**2/4/gammaV
         
         if self.length/self.d > 4:
             alpha = 1.0
-- 
2.43.0


From 1b361395a8a730dbead2e9364b03c6a1c9d4b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 216/257] fix: composite beam: plastic neutral axis is in the
 flange when the flanges can balance the resultants

---
 metku/sections/composite/composite_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index cedc960..534bebb 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -363,7 +363,7 @@ class CompositeIBeam:
         
         if Ra < Rc:
             ec0 = Ra/Rc*hc
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
         else:
@@ -395,7 +395,7 @@ class CompositeIBeam:
                 print("Ra = {0:4.2f} kN".format(Ra*1e-3))
                 print("Rc = {0:4.2f} kN".format(Rc*1e-3))
                 print("ec0 = {0:4.2f} [mm]".format(ec0))
-        elif Rc < Ra-2*self.Rf():
+        elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
             ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-- 
2.43.0


From 453360676b61739841dd48289d8a1bc57cca5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 217/257] fix: composite beam: welded I sections give their
 flange dimensions for both flanges

---
 metku/sections/composite/composite_beam.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/metku/sections/composite/composite_beam.py b/metku/sections/composite/composite_beam.py
index 534bebb..67df2e5 100644
--- a/metku/sections/composite/composite_beam.py
+++ b/metku/sections/composite/composite_beam.py
@@ -207,6 +207,16 @@ class CompositeIBeam:
         """ Young's modulus of steel part """
         return self.steel.E
     
+    @property
+    def bf(self):
+        """ Width of the top flange of the steel part """
+        return getattr(self.steel,"bt",self.steel.b)
+    
+    @property
+    def tf(self):
+        """ Thickness of the top flange of the steel part """
+        return getattr(self.steel,"tt",self.steel.tf)
+    
     @property
     def EAa(self):
         """ Axial stiffness of steel part """
@@ -341,7 +351,7 @@ class CompositeIBeam:
     def Rf(self):
         """ Resultant of top flange of the steel beam """
         
-        Af = self.steel.tf * self.steel.b        
+        Af = self.tf * self.bf
         
         return self.steel.fy*Af
     
@@ -365,13 +375,13 @@ class CompositeIBeam:
             ec0 = Ra/Rc*hc
         elif Rc >= Ra-2*self.Rf():
             hl = self.slab.h
-            ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
+            ec0 = 0.5*(Ra-Rc)/self.bf/self.steel.fy + self.slab.h
         else:
             Rf = self.Rf()
             Rw = self.Rw()
             hw = self.steel.hw
             hl = self.slab.h
-            tf = self.steel.tf
+            tf = self.tf
             
             ec0 = 0.5*(Ra-Rc-2*Rf)/Rw*hw+hl+tf
             
@@ -398,15 +408,15 @@ class CompositeIBeam:
         elif Rc >= Ra-2*self.Rf():
             """ Neutral axis in top flange of steel beam """
             hl = self.slab.h
-            ec0 = 0.5*(Ra-Rc)/self.steel.b/self.steel.fy + self.slab.h
-            MplRd = Ra*(ei-hl+0.5*hc) + Rc*(hl-0.5*hc) - 0.25*(Ra-Rc)**2/self.Rf()*self.steel.tf
+            ec0 = 0.5*(Ra-Rc)/self.bf/self.steel.fy + self.slab.h
+            MplRd = Ra*(ei-hl+0.5*hc) + Rc*(hl-0.5*hc) - 0.25*(Ra-Rc)**2/self.Rf()*self.tf
         else:
             """ Neutral axis in the web of the steel part """
             Rf = self.Rf()
             Rw = self.Rw()
             hw = self.steel.hw
             hl = self.slab.h
-            tf = self.steel.tf
+            tf = self.tf
             
             ec0 = 0.5*(Ra-Rc-2*Rf)/Rw*hw+hl+tf
             
-- 
2.43.0


From 167e816c7c47c795d99b9028c2b38611914ba9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 218/257] fix: concrete filled tube: horizontal cover of rebar

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 962c28e..28996b8 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -143,7 +143,7 @@ class ConcreteFilledTube:
         """ Distance in y-direction (horizontal) of the rebar edge from
             inner surface of the steel profile
         """
-        return 0.5*self.steel.B - self.steel.T - self.rebar_pos[0] + self.rebar.r
+        return 0.5*self.steel.B - self.steel.T - (self.rebar_pos[0] + self.rebar.r)
         
     @v.setter
     def v(self,v):
-- 
2.43.0


From a0bbcb712236f7462de6e5d83bf6eb0fca68f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 219/257] fix: concrete filled tube: centroid of the concrete
 corners in the second moment of area

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 28996b8..2b262d6 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -264,7 +264,7 @@ class ConcreteFilledTube:
         
         Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
         
         return Icy
     
-- 
2.43.0


From b84f865b9dc36c96b42970218188199b186eecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 220/257] fix: concrete filled tube: area of reinforcement
 follows the number of bars

---
 metku/sections/composite/composite_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 2b262d6..15bd696 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -163,7 +163,7 @@ class ConcreteFilledTube:
     def As(self):
         """ Total area of rebar
         """
-        return 4*self.rebar.A
+        return self.nbars*self.rebar.A
     
     @property
     def Aa(self):
-- 
2.43.0


From d7d6ca2b6fa437a29453112734492ddd9d17c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 221/257] fix: concrete filled tube: effective modulus of
 concrete without axial force

---
 metku/sections/composite/composite_column.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 15bd696..da2f57d 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -224,7 +224,10 @@ class ConcreteFilledTube:
         """
         phi = self.concrete.creep_coefficient(h0=1e11,t=1e11,t0=28)
         
-        print(phi)
+        if self.ned == 0:
+            # No axial force, no creep due to permanent loads
+            return self.Ecm
+        
         return self.Ecm*1/(1+self.nged/self.ned*phi)
         
     
-- 
2.43.0


From 5162e716fdcf37dddcc97808b2e2f6f6a01959c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 222/257] fix: concrete filled tube: sections without
 reinforcement

---
 metku/sections/composite/composite_column.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index da2f57d..8cf5348 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -20,6 +20,7 @@ import matplotlib.patches as patches
 
 from metku.eurocodes.en1993 import en1993_1_1, en1993_1_5, constants
 from metku.eurocodes.en1994 import en1994_1_1
+from metku.eurocodes.en1992.en1992_1_1 import Rebar
     
 
 class ConcreteFilledTube:
@@ -52,7 +53,8 @@ class ConcreteFilledTube:
         self.length = length
         self.steel = steel_part
         self.concrete = concrete
-        self.rebar = rebar
+        # Without reinforcement, use a bar of zero diameter
+        self.rebar = Rebar(0) if rebar is None else rebar
         self.rebar_pos = [0,0]
         self.nbars = 4
         self.ned = 0.0
-- 
2.43.0


From b688013fa868b16ef567d8f70e194f76a4127e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 223/257] fix: concrete filled tube: design for negative
 bending moments

---
 metku/sections/composite/composite_column.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 8cf5348..1f2a48f 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -575,15 +575,15 @@ class ConcreteFilledTube:
             if verb:
                 print("Include second-order effects.")
                 
-            if self.M2 > 0:
+            if self.M2 != 0:
                 bm = max(0.66+0.44*self.M1/self.M2,0.44)
             else:
                 bm = 0
                 
-            MEdI = bm*self.M2 + Med0
+            MEdI = bm*abs(self.M2) + Med0
             km = max(1/(1-self.NEd/Ncr_eff),1.0)
             
-            MEd = max(km*MEdI,self.M2)
+            MEd = max(km*MEdI,abs(self.M2))
             
             if verb:
                 print("bm = {0:4.3f}".format(bm))
@@ -592,7 +592,7 @@ class ConcreteFilledTube:
                 print("MEd = {0:4.2f} kNm".format(MEd*1e-6))
                             
         else:
-            MEd = Med0 + self.M2
+            MEd = Med0 + abs(self.M2)
             if verb:
                 print("No need to include second-order effects.")
                 
-- 
2.43.0


From 07283bc6537ad75182fadffe092988201780e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 224/257] fix: concrete filled tube: effective stiffness and
 buckling about the minor axis

---
 metku/sections/composite/composite_column.py | 46 ++++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/metku/sections/composite/composite_column.py b/metku/sections/composite/composite_column.py
index 1f2a48f..a4d36a2 100644
--- a/metku/sections/composite/composite_column.py
+++ b/metku/sections/composite/composite_column.py
@@ -209,6 +209,11 @@ class ConcreteFilledTube:
         
         return Is1
     
+    @property
+    def Isz(self):
+        """ Second moment of area of reinforcement with respect to minor axis """
+        return self.nbars*(self.rebar.I + self.rebar.A*self.y_rebar**2)
+    
     @property
     def Wps(self):
         """ Bending resistance of reinforcement """
@@ -261,17 +266,25 @@ class ConcreteFilledTube:
         """ Second moment of area of concrete part with respect to
             major axis at the centroid
         """
-        b = self.steel.B
-        h = self.steel.H
+        return self.second_moment_concrete("y")
+    
+    def second_moment_concrete(self,axis="y"):
+        """ Second moment of area of concrete part with respect to
+            the major ("y") or minor ("z") axis at the centroid
+        """
+        if axis == "y":
+            b, h, Is = self.steel.B, self.steel.H, self.Is
+        else:
+            b, h, Is = self.steel.H, self.steel.B, self.Isz
         t = self.steel.T
         # Inner radius
         r = self.steel.R-t
         
-        Icy = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
+        Ic = (b-2*t)*(h-2*t)**3/12 - r**4/3 - r**2*(h-2*t-r)**2 + \
                 +r**4*(9*math.pi**2-64)/36/math.pi + \
-                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - self.Is
+                +math.pi*r**2*(0.5*h-t-r+4*r/3/math.pi)**2 - Is
         
-        return Icy
+        return Ic
     
     
     @property
@@ -301,16 +314,24 @@ class ConcreteFilledTube:
         return self.Ea*(self.Ia+self.ya_com()**2*self.Aa) + self.Ecm*(self.Ic+self.yc_com()**2*self.Ac)
 
     
+    def flexural_parts(self,axis="y"):
+        """ Bending stiffness of steel part and reinforcement and second
+            moment of area of concrete with respect to 'axis'
+        """
+        if axis == "y":
+            return self.EIa, self.EIs, self.Ic
+        
+        return self.Ea*self.steel.I[1], self.rebar.E*self.Isz, self.second_moment_concrete("z")
+    
     def EIeff(self,axis="y"):
         """ Effective flexural stiffness for determining Ncr 
             EN 1994-1-1, Eq. (6.40)
         """
         Ke = 0.6
         
-        if axis == "y":
-            Ic = self.Ic
-    
-        return self.EIa + self.EIs + Ke*self.Eceff*Ic
+        EIa, EIs, Ic = self.flexural_parts(axis)
+        
+        return EIa + EIs + Ke*self.Eceff*Ic
     
     
     def EIeffII(self,axis="y"):
@@ -320,10 +341,9 @@ class ConcreteFilledTube:
         Ko = 0.9
         Ke = 0.5
         
-        if axis == "y":
-            Ic = self.Ic
-    
-        return Ko*(self.EIa + self.EIs + Ke*self.Eceff*Ic)
+        EIa, EIs, Ic = self.flexural_parts(axis)
+        
+        return Ko*(EIa + EIs + Ke*self.Eceff*Ic)
     
     def e0(self):
         """ Member imperfection 
-- 
2.43.0


From d043afa03c5fe65a7b0a54899b31c39b4081f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 225/257] fix: structural problem: default variables had no
 list of profiles

---
 metku/optimization/problems/structural_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index da5f5eb..ed4bd73 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -677,7 +677,7 @@ class StructuralProblem(OptimizationProblem):
                     "name": f"{mem.mtype.capitalize()} {mem.mem_id}",
                     "objects": [mem],
                     "value": 0,
-                    "profiles": self.profiles,
+                    "values": self.profiles,
                     "property": "profile",
                     "var_type": 'index',
                 }
-- 
2.43.0


From 8984bcac14835f8fb7a48e7e87037091de6f2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 226/257] fix: structural problem: cross-section constraints
 read forces that elements do not have and only at their first end

---
 .../problems/structural_problem.py            | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index ed4bd73..8c4e9b1 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -399,23 +399,31 @@ class StructuralProblem(OptimizationProblem):
         :return: dict of created functions
         """
 
+        def forces(force):
+            """ Internal force at both ends of the element, all load cases """
+            return [val for fint in elem.fint.values()
+                    for val in fint.get(force, [0.0, 0.0])]
+
         def compression(x):
-            N = elem.axial_force[0]
-            return -N / mem.NRd - 1
+            return -min(forces('fx')) / mem.NRd - 1
 
         def tension(x):
-            N = elem.axial_force[0]
-            return N / mem.NRd - 1
+            return max(forces('fx')) / mem.NRd - 1
 
         def shear(x):
-            V = elem.shear_force[0]
-            return abs(V) / mem.VRd - 1
+            V = max(abs(val) for val in forces('fz'))
+            return V / mem.VRd - 1
 
         def bending_moment(x):
             # Moment about y
             # TODO: Moment about z
-            M = elem.bending_moment[0]
-            return abs(M) / mem.MRd[0] - 1
+            vals = []
+            for N, M in zip(forces('fx'), forces('my')):
+                # Forces are needed for cross-section classification
+                mem.cross_section.Ned = N
+                mem.cross_section.Med[0] = M
+                vals.append(abs(M) / mem.MRd)
+            return max(vals) - 1
 
         cons = {
             'compression': compression,
-- 
2.43.0


From 55e1443cfedb6aa5902bd7e1d6cc99fdf9322c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 227/257] fix: structural problem: deflection constraints only
 looked at the first node of the structure

---
 metku/optimization/problems/structural_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index 8c4e9b1..317d30c 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -480,13 +480,13 @@ class StructuralProblem(OptimizationProblem):
 
         def deflection_y(x):
             displacements = mem.nodal_displacements.values()
-            vals = [abs(l[0][1]) for l in displacements]
+            vals = [abs(u[1]) for l in displacements for u in l.values()]
             abs_max = max(vals)
             return abs_max / limit_y - 1
 
         def deflection_x(x):
             displacements = mem.nodal_displacements.values()
-            vals = [abs(l[0][0]) for l in displacements]
+            vals = [abs(u[0]) for l in displacements for u in l.values()]
             abs_max = max(vals)
             return abs_max / limit_x - 1
 
-- 
2.43.0


From 95adb32df38788f081ff781eb9cda877c348f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 228/257] fix: structural problem: lateral-torsional buckling
 is a constraint of open sections

---
 metku/optimization/problems/structural_problem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index 317d30c..f4d3dcf 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -102,7 +102,7 @@ class StructuralProblem(OptimizationProblem):
                     bending_moment=False,
                     buckling_y=False,
                     buckling_z=False,
-                    LT_buckling=False,
+                    lt_buckling=False,
                     compression_bending_y=False,
                     compression_bending_z=False,
                     deflection_y=None,
@@ -455,7 +455,7 @@ class StructuralProblem(OptimizationProblem):
             return mem.check_beamcolumn(section_class=section_class)[1] - 1
 
         def lt_buckling(x):
-            return abs(max(mem.myed)) / mem.MbRd - 1
+            return mem.check_LT_buckling() - 1
 
         cons = {
             'buckling_y': buckling_y,
@@ -464,7 +464,7 @@ class StructuralProblem(OptimizationProblem):
             'compression_bending_z': com_compression_bending_z
         }
 
-        if isinstance(mem.profile, RHS):
+        if isinstance(mem.profile, (ISection, WISection)):
             cons['lt_buckling'] = lt_buckling
 
         return cons
@@ -575,7 +575,7 @@ class StructuralProblem(OptimizationProblem):
         :param bending_moment:
         :param buckling_y:
         :param buckling_z:
-        :param LT_buckling:
+        :param lt_buckling:
         :param compression_bending_y:
         :param compression_bending_z:
         :param deflection_y:
-- 
2.43.0


From 7f5c9d04edc6f02b556b80268bb8c3c0c8b178b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 229/257] fix: structural problem: stability constraints are
 those of all load cases

---
 .../problems/structural_problem.py            | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index f4d3dcf..cb33794 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -434,28 +434,39 @@ class StructuralProblem(OptimizationProblem):
 
         return cons
 
-    def stability_constraints(self, mem, section_class):
+    def stability_constraints(self, mem, section_class, frame_member):
         """
         Creates stability constraint functions
 
-        :param mem: FrameMember object
+        :param mem: SteelMember object
+        :param frame_member: FrameMember object that 'mem' belongs to
         :return:
         """
 
+        def worst(check):
+            """ Greatest value of all load cases """
+            vals = []
+            for load_id in frame_member.load_ids:
+                frame_member.assign_forces(load_id)
+                vals.append(check())
+            return max(vals)
+
         def buckling_y(x):
-            return -min(mem.ned) / mem.NbRd[0] - 1
+            return worst(lambda: -min(mem.ned) / mem.NbRd[0] - 1)
 
         def buckling_z(x):
-            return -min(mem.ned) / mem.NbRd[1] - 1
+            return worst(lambda: -min(mem.ned) / mem.NbRd[1] - 1)
 
         def com_compression_bending_y(x):
-            return mem.check_beamcolumn(section_class=section_class)[0] - 1
+            return worst(lambda: mem.check_beamcolumn(
+                section_class=section_class)[0] - 1)
 
         def com_compression_bending_z(x):
-            return mem.check_beamcolumn(section_class=section_class)[1] - 1
+            return worst(lambda: mem.check_beamcolumn(
+                section_class=section_class)[1] - 1)
 
         def lt_buckling(x):
-            return mem.check_LT_buckling() - 1
+            return worst(lambda: mem.check_LT_buckling() - 1)
 
         cons = {
             'buckling_y': buckling_y,
@@ -596,7 +607,8 @@ class StructuralProblem(OptimizationProblem):
                     section_class = 3
                 else:
                     section_class = 2
-                stability_cons = self.stability_constraints(smem, section_class)
+                stability_cons = self.stability_constraints(smem, section_class,
+                                                            mem)
                 for key, val in stability_cons.items():
                     if eval(key.lower()):
                         con = NonLinearConstraint(
-- 
2.43.0


From 3c94a5aae933d974b3ba2ab4d2a4cf7d3af3b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 230/257] fix: structural problem: constraints of a group
 replace the earlier constraints of its members

---
 metku/optimization/problems/structural_problem.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index cb33794..11699c3 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -823,18 +823,17 @@ class StructuralProblem(OptimizationProblem):
             con_groups = [group for group in self.con_groups if
                           "constraints" in group]
 
-            for group in self.con_groups:
+            for group in con_groups:
                 cons = group['constraints']
                 for obj in group['objects']:
-                    for con in self.cons:
+                    for con in list(self.cons):
                         if obj in con.vars:
                             # Remove old constraints
                             self.cons.remove(con)
-                            del con
-                    init_cons = self.constraints.copy()
-                    init_cons.update(cons)
-                    self.create_constraints(**init_cons,
-                                            members=group['objects'])
+                init_cons = self.constraints.copy()
+                init_cons.update(cons)
+                self.create_constraints(**init_cons,
+                                        members=group['objects'])
 
     def create_objective(self):
         """ By default, weight of the structure is taken as the
-- 
2.43.0


From 71f8d31fb67c3c191508933308fc085ef48cf390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 231/257] fix: structural problem: cross-section class
 constraints of rolled sections

---
 metku/optimization/problems/structural_problem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metku/optimization/problems/structural_problem.py b/metku/optimization/problems/structural_problem.py
index 11699c3..a72afd1 100644
--- a/metku/optimization/problems/structural_problem.py
+++ b/metku/optimization/problems/structural_problem.py
@@ -520,7 +520,8 @@ class StructuralProblem(OptimizationProblem):
 
         def web_class(x):
             if isinstance(mem.cross_section, (ISection, WISection)):
-                c = mem.cross_section.cw
+                # Straight part of the web
+                c = getattr(mem.cross_section, 'cw', mem.cross_section.hw)
                 t = mem.cross_section.tw
                 K = K_web[column_class]
 
@@ -533,8 +534,12 @@ class StructuralProblem(OptimizationProblem):
 
         def flange_class(x):
             if isinstance(mem.cross_section, (ISection, WISection)):
-                c = mem.cross_section.cf_top
-                t = mem.cross_section.tt
+                if isinstance(mem.cross_section, WISection):
+                    c = mem.cross_section.cf_top
+                    t = mem.cross_section.tt
+                else:
+                    c = mem.cross_section.cf
+                    t = mem.cross_section.tf
                 K = K_flange[column_class]
 
             elif isinstance(mem.cross_section, RHS):
-- 
2.43.0


From afc5d723ce17f5daffe0777997949b37293ef48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 232/257] fix: constraints of a new problem were evaluated
 without substituting the initial values of the variables

---
 metku/optimization/constraints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/optimization/constraints.py b/metku/optimization/constraints.py
index 496b837..af1a0f0 100644
--- a/metku/optimization/constraints.py
+++ b/metku/optimization/constraints.py
@@ -77,8 +77,11 @@ class Constraint:
                 new values.
 
                 NOTE: X_TOL should be small
+
+                Before the first substitution the structure does not need to
+                correspond to the initial values of the variables.
             """
-            if np.linalg.norm(X - x) > X_TOL:
+            if self.problem.X is None or np.linalg.norm(X - x) > X_TOL:
                 # print('variablet asetettiin')
                 self.problem.substitute_variables(x)
 
-- 
2.43.0


From 8a51bfa161536713c6d0527cf7f136d6aae87075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 233/257] fix: open profile: torsion constant after splitting a
 segment or changing its thickness, whole number as thickness

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 919ecb1..233fb24 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -40,17 +40,22 @@ class OpenProf:
                 self.nodes.append(Node(y=node[0],z=node[1]))
         
         #self.nodes = np.array(nodes)
-        if isinstance(t,float):
-            self.t = t*np.ones(n-1)
+        if np.isscalar(t):
+            t = t*np.ones(n-1)
         else:
-            self.t = np.array(t)
+            t = np.array(t)
                         
         self.segments = []
         
         for i in range(1,n):                      
-            self.add_segment(self.nodes[i-1],self.nodes[i],self.t[i-1])
+            self.add_segment(self.nodes[i-1],self.nodes[i],t[i-1])
             #self.add_segment(self.nodes[i,:],self.nodes[i-1,:],self.t[i-1])
 
+    @property
+    def t(self):
+        """ Thicknesses of the segments """
+        return np.array([s.t for s in self.segments])
+    
     @property
     def n(self):
         """ Number of nodes """
-- 
2.43.0


From 03e929c53b856d349eb90f7367627bc926cc4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 234/257] fix: open profile: principal axes of the
 cross-section

---
 metku/eurocodes/en1993/en1993_1_3/open_prof.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/open_prof.py b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
index 233fb24..bea32a0 100644
--- a/metku/eurocodes/en1993/en1993_1_3/open_prof.py
+++ b/metku/eurocodes/en1993/en1993_1_3/open_prof.py
@@ -233,13 +233,16 @@ class OpenProf:
         Iy, Iz = self.second_moments_gc()
         Iyz = self.product_moment_gc()
         d = Iz-Iy
-        if abs(d) > 1e-8:
-            a = .5*np.atan(2*Iyz/d)
+        if abs(d) > 1e-10*(Iy+Iz):
+            a = .5*np.arctan(2*Iyz/d)
+        elif abs(Iyz) > 1e-10*(Iy+Iz):
+            # Equal second moments: axes at 45 degrees
+            a = np.copysign(np.pi/4,Iyz)
         else:
             a = 0
             
-        I1 = 0.5*(Iy+Iz+np.sqrt(d^2+4*Iyz^2))
-        I2 = .5*(Iy+Iz-np.sqrt(d^2+4*Iyz^2))
+        I1 = 0.5*(Iy+Iz+np.sqrt(d**2+4*Iyz**2))
+        I2 = .5*(Iy+Iz-np.sqrt(d**2+4*Iyz**2))
         
         return [I1,I2], a
     
-- 
2.43.0


From f8c620d99c698c1d6a48053dc4de0f8e5efd3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 235/257] fix: cold-formed sections: nodes of a short lip or a
 narrow top flange folded back over the corner

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 31b8ac2..69391ba 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -512,8 +512,8 @@ class ZSection:
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[rm+0.25*self.c_top,web_nodes[1][1]],
+                          [rm+0.75*self.c_top,web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -531,7 +531,7 @@ class ZSection:
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-bp_top_lip+0.5*self.ca_straight],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
             top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
@@ -1498,8 +1498,8 @@ class CSection(ZSection):
         top_nodes = [[rm,web_nodes[1][1]]]
         
         if bp_top_lip > 0.0:
-            top_nodes += [[0.25*bp_top,web_nodes[1][1]],
-                          [0.75*bp_top,web_nodes[1][1]],
+            top_nodes += [[rm+0.25*self.c_top,web_nodes[1][1]],
+                          [rm+0.75*self.c_top,web_nodes[1][1]],
                           [bp_top-rm,web_nodes[1][1]]]
             
             # Corner
@@ -1517,7 +1517,7 @@ class CSection(ZSection):
             # Top lip nodes
             
             self.add([bp_top,web_nodes[1][1]-rm],'top_lip')
-            self.add([bp_top,web_nodes[1][1]-0.5*bp_top_lip],'top_lip')
+            self.add([bp_top,web_nodes[1][1]-bp_top_lip+0.5*self.ca_straight],'top_lip')
             self.add([bp_top,web_nodes[1][1]-bp_top_lip],'top_lip')
         else:
             top_nodes += [[0.5*bp_top,web_nodes[1][1]],[bp_top,web_nodes[1][1]]]
-- 
2.43.0


From 32f7cb1693406820d42e65f4ce2ed7e710e820aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 236/257] fix: cold-formed sections: number of bends in the
 average yield strength of sections without lips

---
 metku/eurocodes/en1993/en1993_1_3/cf_profs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
index 69391ba..b0ea703 100644
--- a/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
+++ b/metku/eurocodes/en1993/en1993_1_3/cf_profs.py
@@ -281,7 +281,7 @@ class ZSection:
     @property
     def fya(self):
         """ Average yield strength """        
-        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),n=4)
+        return en1993_1_3.fya(self.fyb,self.fu,self.t,Ag=self.Agross(),n=2+(self.ca > 0)+(self.cb > 0))
         
     @property
     def fyb(self):
-- 
2.43.0


From f3aeda30313ba393e218e9d73515c595674bfd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 237/257] fix: trapezoidal sheet: length of the inclined web
 and pitch of the corrugations

---
 metku/eurocodes/en1993/en1993_1_3/trapezoidal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
index 21d213f..846418c 100644
--- a/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
+++ b/metku/eurocodes/en1993/en1993_1_3/trapezoidal.py
@@ -89,12 +89,12 @@ class TrapezoidalSheet:
     @property
     def sw(self):
         """ Length of one web """
-        return self.hw*np.sin(self.angle_rad)
+        return self.hw/np.sin(self.angle_rad)
     
     @property
     def pitch(self):
         """ Pitch of corrugations """
-        return self.bb+self.bt+2*self.h*np.cos(self.angle_rad)
+        return self.bb+self.bt+2*self.hw/np.tan(self.angle_rad)
     
     @property
     def width(self):
-- 
2.43.0


From 7696838961d37dcf39cbc8dca7e34ddf5b871f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 238/257] fix: local transverse resistance of webs:
 coefficients of EN 1993-1-3, 6.1.7.2 and stiffened webs

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index df7dfdb..1b9f22d 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -173,7 +173,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         return min(max(1.15-0.15*r/t,0.5),1.0)
     
     def k3(phi):
-        return 0.7 + 0.3*(phi/90**2)
+        return 0.7 + 0.3*(phi/90)**2
 
     def k4(k):
         return 1.22-0.22*k
@@ -201,13 +201,13 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         if hw_t < 66.5:
             return 1/k
         else:
-            return (1.1-hw_t/665)*k
+            return (1.1-hw_t/665)/k
     
     def k9(t):
-        return 0.82 + 0.15*t/0.19
+        return 0.82 + 0.15*t/1.9
     
     def k10(hw,t,k):
-        return (0.98-hw/t/865)*k
+        return (0.98-hw/t/865)/k
     
     def k11(t):
         return 0.64+0.31*t/1.9
@@ -222,7 +222,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # of the member.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k7(hw,t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
@@ -236,7 +236,7 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
                         C = C0*(5.92-hw/t/132)*(0.71+0.015*ss_t)
         else:
             if web_stiffeners:
-                C0 = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
+                C = k5_star(k)*k6(t)*(13.2+2.87*np.sqrt(ss/t))                
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 ss_t = ss/t
@@ -252,14 +252,14 @@ def RwRd(fyb,t,hw,ss,c,r,phi=90,e=0.0,flange_stiffeners=False,web_stiffeners=Fal
         # the two forces separately.
         if c <= 1.5*hw:
             if web_stiffeners:
-                C0 = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
+                C = k10(hw,t,k)*k11(t)*(8.8+1.1*np.sqrt(ss/t))
             else:
                 # Load is close to the end of the member
                 C0 = k1(k)*k2(r,t)*k3(phi)
                 C = C0*(6.66-hw/t/64)*(1+0.01*ss/t)
         else:
             if web_stiffeners:
-                C0 = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
+                C = k8(hw,t,k)*k9(t)*(13.2+2.87*np.sqrt(ss/t))
             else:
                 C0 = k3(phi)*k4(k)*k5(r,t)
                 C = C0*(21.0-hw/t/16.3)*(1+0.0013*ss/t)
-- 
2.43.0


From c76c23c772047548b370b523fc70fb2d13c83690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 239/257] fix: notional width with a single corner

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index 1b9f22d..a891808 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -68,7 +68,7 @@ def notional_width(b,rm,phi=np.array([90,90])):
     rm = np.array(rm)
     phi = np.array(phi)
     #print(sum(rm*np.sin(np.radians(0.5*phi))))
-    return b + sum(rm*np.sin(np.radians(0.5*phi)))
+    return b + np.sum(rm*np.sin(np.radians(0.5*phi)))
 
 def rounding_factor(r,phi,bp):
     """ Factor 'delta' of Eq. (5.1d) 
-- 
2.43.0


From 85aa85c1d97882b5a85c2e83532557b1cadfc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 240/257] fix: self-tapping screws: edge distance in the range
 of validity

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index a891808..eb668de 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -386,7 +386,7 @@ def RwRd_two_webs(fyb,r,t,phi,hw,ss,verb=False,code='old',**kwargs):
 """ Table 8.2: Design resistances for self-tapping screws """
 def screw_validity(e1,e2,p1,p2,d,t,t1):
     """ Check the conditions on the range of validity """
-    if e1 >= 3*d and e2 >= 1.5 and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
+    if e1 >= 3*d and e2 >= 1.5*d and p1 >= 3*d and p2 >= 3*d and d <= 8.0 and d >= 3.0:
         return True
     else:
         return False
-- 
2.43.0


From 465d01ba0283aa9513a9074b78cc008bd6a2613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 241/257] fix: rotational stiffness of sheeting: negative
 position and thicknesses between 0.75 and 1.0 mm

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index eb668de..b7295ab 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -533,15 +533,11 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
     
     if load == 'gravity':
         if position == 'pos':
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.08
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA_075 = 0.08
         else:
-            if tnom == 0.75:
-                kA = 1.0+(A-1.0)*0.16
-            elif tnom >= 1.0:
-                kA = 1.0+(A-1.0)*0.095
+            kA_075 = 0.16
+        # linear interpolation between t = 0.75 and t = 1.0
+        kA = 1.0+(A-1.0)*linear_interpolation((0.75,kA_075),(1.0,0.095),min(max(tnom,0.75),1.0))
     else:
         kA = 1.0
     
@@ -555,7 +551,7 @@ def CD_A(ba,tnom,position,A,bT,bR,load='gravity'):
             C100 = 5.2
         else:
             bT_max = 120
-            C10 = 3.1
+            C100 = 3.1
     else:
         C100 = 2.6
         bT_max = 40
-- 
2.43.0


From 7eebe25ff64e7cba3000a2ee0cb8fe6d6742c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 242/257] fix: axial force resistance of cold-formed sections
 was declared as a method

---
 metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
index b7295ab..5f08583 100644
--- a/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
+++ b/metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py
@@ -126,7 +126,7 @@ def distortional_buckling_stress(Is,As,E,K):
     return 2*math.sqrt(K*E*Is)/As
 
 """ Chapter 6: Design of members """
-def axial_force_resistance(self,Ned,A,**kwargs):
+def axial_force_resistance(Ned,A,**kwargs):
     try:
         if Ned >= 0:
             NRd = kwargs['fya']*A/gammaM0        
-- 
2.43.0


From c5b733377ca0c66a48a5d293feed102803f18fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 243/257] fix: material of a Frame2D member was shared by all
 the members and frames

---
 metku/frame2d/frame2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metku/frame2d/frame2d.py b/metku/frame2d/frame2d.py
index 09790de..d878cbc 100644
--- a/metku/frame2d/frame2d.py
+++ b/metku/frame2d/frame2d.py
@@ -6,6 +6,7 @@
 @author: Jaakko Huusko
 """
 
+import copy
 import os
 import sys
 from enum import Enum
@@ -1877,7 +1878,7 @@ class FrameMember:
         Changes member's matrial and gets new material properties
         from tables_and_tuples.mat -dict
         """
-        self.__material = MATERIALS[val]
+        self.__material = copy.copy(MATERIALS[val])
 
         # self.fy = MATERIALS[self.material]['f_y']
         # self.E = MATERIALS[self.material]['E']
-- 
2.43.0


From 1111cb70a23b68806a321cc6bcd5626030e2fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 244/257] fix: three-bar and fifteen-bar truss: stress limit,
 and names of tension and compression constraints

---
 metku/optimization/benchmarks/fifteen_bar_truss.py | 6 +++---
 metku/optimization/benchmarks/three_bar_truss.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/metku/optimization/benchmarks/fifteen_bar_truss.py b/metku/optimization/benchmarks/fifteen_bar_truss.py
index 4b7d735..9f62774 100644
--- a/metku/optimization/benchmarks/fifteen_bar_truss.py
+++ b/metku/optimization/benchmarks/fifteen_bar_truss.py
@@ -207,10 +207,10 @@ class FifteenBarTruss(OptimizationProblem):
     def constraint_generator(self, mem):
 
         def tension_fun(X):
-            return mem.ned / mem.NRd - 1
+            return mem.ned / (mem.A * self.sigma_max) - 1
 
         def compression_fun(X):
-            return -mem.ned / mem.NRd - 1
+            return -mem.ned / (mem.A * self.sigma_max) - 1
 
         def buckling_fun(X):
             sigma_cr = 100 * mem.E * mem.A / (8 * mem.length ** 2)
@@ -231,7 +231,7 @@ class FifteenBarTruss(OptimizationProblem):
                 if isinstance(mem, FrameMember):
                     i += 1
 
-                    compression_fun, tension_fun, buckling_fun = self.constraint_generator(mem)
+                    tension_fun, compression_fun, buckling_fun = self.constraint_generator(mem)
 
                     comp_con = NonLinearConstraint(con_fun=compression_fun,
                                                    name="Compression " + str(
diff --git a/metku/optimization/benchmarks/three_bar_truss.py b/metku/optimization/benchmarks/three_bar_truss.py
index da79448..83d56e9 100644
--- a/metku/optimization/benchmarks/three_bar_truss.py
+++ b/metku/optimization/benchmarks/three_bar_truss.py
@@ -175,10 +175,10 @@ class ThreeBarTruss(OptimizationProblem):
     def constraint_generator(self, mem):
 
         def tension_fun(X):
-            return mem.ned / mem.NRd - 1
+            return mem.ned / (mem.A * self.sigma_max) - 1
 
         def compression_fun(X):
-            return -mem.ned / mem.NRd - 1
+            return -mem.ned / (mem.A * self.sigma_max) - 1
 
         def buckling_fun(X):
             sigma_cr = 100 * mem.E * mem.A / (8 * mem.length ** 2)
@@ -199,7 +199,7 @@ class ThreeBarTruss(OptimizationProblem):
                     if isinstance(mem, FrameMember):
                         i += 1
 
-                        compression_fun, tension_fun, buckling_fun = self.constraint_generator(mem)
+                        tension_fun, compression_fun, buckling_fun = self.constraint_generator(mem)
 
                         comp_con = NonLinearConstraint(con_fun=compression_fun,
                                                        name="Compression " + str(i),
-- 
2.43.0


From ea328937b7af285061d92c919879b7abc052f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 245/257] fix: three-bar truss: discrete variables had no
 values

---
 metku/optimization/benchmarks/three_bar_truss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metku/optimization/benchmarks/three_bar_truss.py b/metku/optimization/benchmarks/three_bar_truss.py
index 83d56e9..33e75b8 100644
--- a/metku/optimization/benchmarks/three_bar_truss.py
+++ b/metku/optimization/benchmarks/three_bar_truss.py
@@ -97,10 +97,10 @@ class ThreeBarTruss(OptimizationProblem):
 
         if self.prob_type == "discrete":
             # Variables
-            A1 = DiscreteVariable('A1', profiles=THREE_BAR_AREAS_mm2,
+            A1 = DiscreteVariable('A1', values=THREE_BAR_AREAS_mm2,
                                   target={"property": "A",
                                           "objects": [bar1, bar3]})
-            A2 = DiscreteVariable('A2', profiles=THREE_BAR_AREAS_mm2,
+            A2 = DiscreteVariable('A2', values=THREE_BAR_AREAS_mm2,
                                   target={"property": "A", "objects": [bar2]})
             vars = [A1, A2]
 
-- 
2.43.0


From 11f047cb356680e4331daef7ebc273f36bc5d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 246/257] fix: Vierendeel truss: joints could not be generated

---
 metku/raami/raami_vierendeel.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index 0705f19..c83af44 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -251,11 +251,6 @@ class VierendeelTruss(PlaneTruss):
                 for chord in joint['chord']:                
                     chord.joints.append(newJoint)
         
-        # Set the actual geometry for all joints
-        for joint in self.joints.values():  
-            angle = joint.brace_angle(joint.braces[0],geometry="actual")
-            joint.joint.angle = angle
-    
     def generate_uniform_load(self,q,chord="top",load_id=LoadIDs['ULS'],ltype='live'):
         """ Creates a uniform line load to one of the chords """
 
-- 
2.43.0


From d9a3811bfb95d48cdaf31c81e14f8c2be5dea98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 247/257] fix: Vierendeel truss: a new FEM model was added to
 the old one

---
 metku/raami/raami_vierendeel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metku/raami/raami_vierendeel.py b/metku/raami/raami_vierendeel.py
index c83af44..470e411 100644
--- a/metku/raami/raami_vierendeel.py
+++ b/metku/raami/raami_vierendeel.py
@@ -340,6 +340,7 @@ class VierendeelTruss(PlaneTruss):
             # Eccentricity elements are added for K joints
             # from the intersection of brace centerline and chord
             # face to the chord centerline.
+            self.clear_fem()
             for joint in self.joints.values():
                 # For Y joints, no eccentricity elements are used.
                 newNode = self.fem.add_node(joint.node.x,joint.node.y)                    
-- 
2.43.0


From 782f74210ccd250d824ea1c1feb67d05355fdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 248/257] fix: steel_data could not be imported before the
 modules of EN 1993

---
 metku/materials/steel_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metku/materials/steel_data.py b/metku/materials/steel_data.py
index 8cb7b31..1604444 100644
--- a/metku/materials/steel_data.py
+++ b/metku/materials/steel_data.py
@@ -11,7 +11,6 @@ Created on Wed Aug  7 09:23:08 2019
 """
 
 from math import sqrt
-import metku.eurocodes.en1993.en1993_1_2 as en1993_1_2
 
 steels = {"S235": {"fy": 235.0, "fu": 360.0, "E": 210000.0, "v": 0.3, "rho": 7850e-9},
        "S275": {"fy": 275.0, "fu": 430.0, "E": 210000.0, "v": 0.3, "rho": 7850e-9},
@@ -116,5 +115,9 @@ class StainlessSteel:
         return sqrt(235.0/self.fy*self.E/200000.0)
 
 
+# This module is imported by the modules of EN 1993, so the classes must exist
+# before they are loaded.
+import metku.eurocodes.en1993.en1993_1_2 as en1993_1_2
+
 s = Steel()
 s.fy
\ No newline at end of file
-- 
2.43.0


From 96aa6aae7129f74398b94e71ea2be8c7cc526cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 249/257] fix: sandwich panels shared the default fastener and
 the list of screw distances

---
 metku/sandwich/sandwich.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metku/sandwich/sandwich.py b/metku/sandwich/sandwich.py
index 3c9273a..898c2e7 100644
--- a/metku/sandwich/sandwich.py
+++ b/metku/sandwich/sandwich.py
@@ -135,8 +135,8 @@ class Core:
 class SandwichPanel:
     """ Class for sandwich panels """
     
-    def __init__(self,faces,core,width=1200,length=6000,c=[1000],
-                 fastener=SandwichScrew(d=5.5,dS=5.1,d1=4.59)):
+    def __init__(self,faces,core,width=1200,length=6000,c=None,
+                 fastener=None):
         """ Constructor
 
             Parameters:
@@ -145,7 +145,9 @@ class SandwichPanel:
                 :param core: class core object
                 :param width, length: self-evident [mm]
                 :param c: list of screw pair distances [mm], starting from
-                        outermost screws
+                        outermost screws. The default is [1000].
+                :param fastener: class SandwichScrew object. The default is
+                        SandwichScrew(d=5.5,dS=5.1,d1=4.59)
 
                 Variables:
                 ----------
@@ -159,8 +161,9 @@ class SandwichPanel:
         self.core = core
         self.width = width
         self.length = length
-        self.c = c
-        self.fastener = fastener
+        # Default values must not be shared by the panels
+        self.c = [1000] if c is None else c
+        self.fastener = SandwichScrew(d=5.5,dS=5.1,d1=4.59) if fastener is None else fastener
         
     @property
     def thickness(self):
-- 
2.43.0


From d784591538c32464a0aa9a19987e71f4f1942e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 250/257] fix: the degrees of freedom of a node in space are
 integers, so that supports can be taken into account

---
 metku/framefem/framefem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 4bc9662..29653be 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1493,7 +1493,7 @@ class FEMNode:
             self.X = np.array([x, y, z], dtype=float)
             # Degrees of freedom (integer values)
             #self.dofs = [0, 0, 0, 0, 0, 0]
-            self.dofs = -np.ones(6)
+            self.dofs = -np.ones(6, dtype=int)
             # Nodal displacements
             # [Ux, Uy, Uz, Rx, Ry, Rz]
             self.v = np.array([0, 0, 0, 0, 0, 0])
-- 
2.43.0


From ad0f36a52a97812490633660de5158d503931ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 251/257] fix: a node added in space after the load cases has
 displacements for them, as in plane

---
 metku/framefem/framefem.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index 29653be..ee64172 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -175,14 +175,12 @@ class FrameFEM:
             """
 
             self.nodal_coords.append([x, y])            
-            for load_id in self.loadcases.keys():   
-                newNode.u[load_id] = np.zeros(len(newNode.dofs))
-                #newNode.u[load_id] = [0.0, 0.0, 0.0]
         else:
             self.dim = 3
             self.nodal_coords.append([x, y, z])
-            #for i in range(self.nloadcases()):
-            #    newNode.u = np.vstack((newNode.u, [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]))
+
+        for load_id in self.loadcases.keys():
+            newNode.u[load_id] = np.zeros(len(newNode.dofs))
 
         self.nodes.append(newNode)
         return newNode
-- 
2.43.0


From 9dd94e6aee29f17f1602e37f8e176ed841d1b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 252/257] fix: a beam element in space can be created and
 analysed (reference node, torsional constant, local displacements)

---
 metku/framefem/elements/ebbeam.py | 4 ++--
 metku/framefem/framefem.py        | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 51fd5e6..5c35c13 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -17,7 +17,7 @@ import numpy as np
 #except:
 #    from framefem import Element, LineLoad
 
-from ..framefem import Element, LineLoad
+from ..framefem import Element, LineLoad, FEMNode
 
 class EBBeam(Element):
     """ Euler-Bernoulli beam element
@@ -760,7 +760,7 @@ class EBBeam3D(Element):
         
         return l0
         
-    def transformation_matrix(self):
+    def transformation_matrix(self, initial=True):
         """ Calculates transformation matrix from local to global coordinates
 
             Returns:
diff --git a/metku/framefem/framefem.py b/metku/framefem/framefem.py
index ee64172..a5fd3a2 100644
--- a/metku/framefem/framefem.py
+++ b/metku/framefem/framefem.py
@@ -1180,6 +1180,11 @@ class BeamSection(Section):
         
         return self.I[1]
 
+    @property
+    def It(self):
+        
+        return self.J
+
 class Support:
     """ Supported nodes / degrees of freedom
 
-- 
2.43.0


From daae155a002252628175eec26dc41331840ac9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 253/257] fix: line loads on a beam element in space act in
 their direction, with all their loads and load factor

---
 metku/framefem/elements/ebbeam.py | 84 +++++++++----------------------
 1 file changed, 24 insertions(+), 60 deletions(-)

diff --git a/metku/framefem/elements/ebbeam.py b/metku/framefem/elements/ebbeam.py
index 5c35c13..ee4eaaf 100644
--- a/metku/framefem/elements/ebbeam.py
+++ b/metku/framefem/elements/ebbeam.py
@@ -869,7 +869,7 @@ class EBBeam3D(Element):
 
         return ke
     
-    def equivalent_nodal_loads(self, load):
+    def equivalent_nodal_loads(self, load, order=1):
         """ Equivalent nodal loads for a load 
         
             'load' is a Load type object. By default, it is assumed that
@@ -905,65 +905,29 @@ class EBBeam3D(Element):
         L = self.length()
 
         if isinstance(load,LineLoad):
-            q1 = load.qval[0]
-            q2 = load.qval[1]
-            #print(q1,q2)
-            if load.coords == 'local':
-                #print('local coordinates')
-                """ Load is given in local coordinates """
-                if load.dir == "x":
-                    """ Load is in the axial direction """
-                elif load.dir == 'y':
-                    """ Load is perpendicular to the member """
-                    floc[1] = 7/20*q1*L + 3/20*q2*L
-                    floc[7] = 3/20*q1*L + 7/20*q2*L                    
-                    floc[5] = L**2*(1/20*q1+1/30*q2)
-                    floc[11] = -L**2*(1/30*q1+1/20*q2)
-                elif load.dir == 'z':
-                    floc[2] = 7/20*q1*L + 3/20*q2*L
-                    floc[8] = 3/20*q1*L + 7/20*q2*L                    
-                    floc[4] = L**2*(1/20*q1+1/30*q2)
-                    floc[10] = -L**2*(1/30*q1+1/20*q2)
-                #print(floc)
-            else:
+            q1 = load.f*load.qval[0]
+            q2 = load.f*load.qval[1]
+            # Direction of the load
+            d = np.zeros(3)
+            d['xyz'.index(load.dir)] = 1
+            if load.coords != 'local':
                 """ Load is given in global coordinates: it has to be transformed
                     first into local coordinates.
                 """
-                if load.dir == "x":                    
-                    q = np.array([1, 0, 0,0,0,0])
-                elif load.dir == 'y':                    
-                    q = np.array([0, 1, 0,0,0,0])
-                elif load.dir == 'z':                    
-                    q = np.array([0, 0, 1,0,0,0])
-                # Load vector transformed into element local coordinate system
-                qloc = T[:3, :3].dot(q)
-                
-                """ Loads perpendicular to the axis of the element """
-                qy1 = q1*qloc[1]
-                qy2 = q2*qloc[1]
-                floc[1] = 7/20*qy1*L + 3/20*qy2*L
-                floc[4] = 3/20*qy1*L + 7/20*qy2*L
-                floc[2] = L**2*(1/20*qy1+1/30*qy2)
-                floc[5] = -L**2*(1/30*qy1+1/20*qy2)
-                
-                """ Loads parallel to the axis of the element """
-                qx1 = q1*qloc[0]
-                qx2 = q2*qloc[0]
-                floc[0] = 0.5*L*(0.5*(qx1+qx2)-1/6*(qx2-qx1))
-                floc[3] = 0.5*L*(0.5*(qx1+qx2)+1/6*(qx2-qx1))
-                
-                # Construct nodal load in local coordinates
-                # qloc[0,1,2] = axial, shear, moment of node 1
-                # qloc[3,4,5] = axial, shear, moment ofnode 2
-                # Axial force
-                #floc[[0, 3]] = 0.5 * qloc[0] * L
-                # Shear force
-                #floc[[1, 4]] = 0.5 * qloc[1] * L
-                # Moment
-                #floc[2] = qloc[1] * L ** 2 / 12.0
-                #floc[5] = -floc[2]
-
-                #print(floc)
+                d = T[:3, :3].dot(d)
+            
+            """ Loads parallel to the axis of the element """
+            floc[0] = L*(1/3*q1+1/6*q2)*d[0]
+            floc[6] = L*(1/6*q1+1/3*q2)*d[0]
+            
+            """ Loads perpendicular to the axis of the element """
+            for k, kr, sgn in ((1, 5, 1), (2, 4, -1)):
+                # A positive load in the direction of the local z axis
+                # rotates end 1 in the negative direction about the y axis
+                floc[k] = (7/20*q1*L + 3/20*q2*L)*d[k]
+                floc[k+6] = (3/20*q1*L + 7/20*q2*L)*d[k]
+                floc[kr] = sgn*L**2*(1/20*q1+1/30*q2)*d[k]
+                floc[kr+6] = -sgn*L**2*(1/30*q1+1/20*q2)*d[k]
 
         if len(self.releases) > 0:
             """ There are releases in the element, so the local load vector
@@ -971,14 +935,14 @@ class EBBeam3D(Element):
             """
             rel = self.releases
             # nrel is the list of non-released forces
-            nrel = np.setdiff1d(np.arange(12,rel))          
+            nrel = np.setdiff1d(np.arange(12),rel)
             
             #print(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[nrel] -= self.Krel['K12'].dot(np.linalg.inv(self.Krel['K22']).dot(floc[rel]))
             floc[rel] = 0            
 
-        # Store local loads
-        self.floc[load.sid] = floc
+        # Store local loads: there can be several loads with the same id
+        self.floc[load.sid] = self.floc.get(load.sid, 0) + floc
 
         # print(self.floc)
 
-- 
2.43.0


From d875d3bdbc70345ffd369ad6d7afe35c56c527c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 254/257] fix: a line load in the global z direction on a rod
 in space acts in the z direction

---
 metku/framefem/elements/rod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metku/framefem/elements/rod.py b/metku/framefem/elements/rod.py
index 569be6b..1f6177e 100644
--- a/metku/framefem/elements/rod.py
+++ b/metku/framefem/elements/rod.py
@@ -135,7 +135,7 @@ class Rod(Element):
             d = np.array(c) if load.dir == 'x' else np.array([-c[1], c[0]])
         else:
             d = np.zeros(self.dim)
-            d[0 if load.dir == 'x' else 1] = 1.0
+            d['xyz'.index(load.dir)] = 1.0
         
         q1, q2 = load.f * load.qval[0], load.f * load.qval[1]
         fglob = np.hstack((L * (q1 / 3 + q2 / 6) * d, L * (q1 / 6 + q2 / 3) * d))
-- 
2.43.0


From 429d3dce4fccf3ad64e5525a494eb71346e247b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 255/257] fix: portal trusses could not be analysed: the model
 of the truss was separated from that of the frame

---
 metku/raami/raami_plane_truss.py  | 25 ++++++++++++++++++++-----
 metku/raami/raami_portal_truss.py |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/metku/raami/raami_plane_truss.py b/metku/raami/raami_plane_truss.py
index 681a9be..ccc6efa 100644
--- a/metku/raami/raami_plane_truss.py
+++ b/metku/raami/raami_plane_truss.py
@@ -1157,7 +1157,9 @@ class SlopedTruss(PlaneTruss):
         joint_nodes = [joint.node for joint in self.joints.values()]
         
         for node in self.nodes:
-            if not any(node is joint_node for joint_node in joint_nodes):
+            # The model can already have the node, e.g. as the end of a column
+            in_model = any(node.fem_node is fem_node for fem_node in self.fem.nodes)
+            if not in_model and not any(node is joint_node for joint_node in joint_nodes):
                 node.fem_node = self.fem.add_node(node.x,node.y)
     
     def generate_joints(self):
@@ -1309,7 +1311,8 @@ class SlopedTruss(PlaneTruss):
                     
         elif model == "en1993":
             #print("FEM Model according to EN 1993")
-            self.clear_fem()
+            if self.fem_generated:
+                self.clear_fem()
             self.fem_generated = True
             self.generate_fem_nodes_without_joint()
             
@@ -1400,7 +1403,8 @@ class SlopedTruss(PlaneTruss):
             # Eccentricity elements are added for K joints
             # from the intersection of brace centerline and chord
             # face to the chord centerline.
-            self.clear_fem()
+            if self.fem_generated:
+                self.clear_fem()
             self.fem_generated = True
             self.generate_fem_nodes_without_joint()
             
@@ -1794,13 +1798,24 @@ def chord_end_fem_node(chord,end,key):
     """
     node = chord.nodes[end]
     
-    for joint in chord.joints:
-        if joint.node is node:
+    # Joints between chord and column come after the joints of the truss
+    joints = sorted(chord.joints, key=lambda joint: not isinstance(joint,TubularJoint))
+    
+    for joint in joints:
+        if joint.node is node and isinstance(joint,TubularJoint):
             if key == 'xch' and isinstance(joint,TubularKGapJoint):
                 return joint.fem_nodes['xch'][chord]
             else:
                 return joint.fem_nodes['xc']
     
+    # The joint can have been moved along the chord (chords connected to a column)
+    other = chord.nodes[1-end]
+    for joint in joints:
+        x = joint.node.coords
+        if (not (joint.node is other) and
+            np.linalg.norm(x-node.coords) < np.linalg.norm(x-other.coords)):
+            return joint.fem_nodes['xc']
+    
     # There is no joint at the end
     return node.fem_node
 
diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index e0a02a8..ab7d38b 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -376,7 +376,7 @@ class PortalTruss(Raami):
             # Then, generate truss, including loads on trusses
             self.truss.generate_fem("ecc_elements",nodes_and_elements_only=False)
             
-            self.truss.top_chord[0].fem_elements[-1].releases = [5]
+            self.truss.top_chord[0].fem_elements[0].releases = [2]
             self.truss.top_chord[-1].fem_elements[-1].releases = [5]
             
             if self.bottom_chord_to_column:
-- 
2.43.0


From ad3b537f15ac144fda0a6d00c378b483d4d03200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 256/257] fix: the loads of the truss acted twice in portal
 trusses

---
 metku/raami/raami_portal_truss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metku/raami/raami_portal_truss.py b/metku/raami/raami_portal_truss.py
index ab7d38b..abde34f 100644
--- a/metku/raami/raami_portal_truss.py
+++ b/metku/raami/raami_portal_truss.py
@@ -467,9 +467,10 @@ class PortalTruss(Raami):
         
         #self.fem.draw()
         
-        # Generate loads
+        # Generate loads. The loads of the truss are already in the model
         for load in self.loads.values():
-            load.add_load(self.fem)
+            if not any(load is truss_load for truss_load in self.truss.loads.values()):
+                load.add_load(self.fem)
             # Creates new loadcase if one with same load_id does not exist
             lcase_ids = [lc.load for lc in self.fem.loadcases.values()]
             if load.load_id not in lcase_ids:
-- 
2.43.0


From 02fd7ad7cbcf3254d2460f23da652541260d05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 257/257] Undo the repairs of the three-bar and fifteen-bar
 trusses: benchmark files stay as they were

---
 metku/optimization/benchmarks/fifteen_bar_truss.py |  6 +++---
 metku/optimization/benchmarks/three_bar_truss.py   | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/metku/optimization/benchmarks/fifteen_bar_truss.py b/metku/optimization/benchmarks/fifteen_bar_truss.py
index 9f62774..4b7d735 100644
--- a/metku/optimization/benchmarks/fifteen_bar_truss.py
+++ b/metku/optimization/benchmarks/fifteen_bar_truss.py
@@ -207,10 +207,10 @@ class FifteenBarTruss(OptimizationProblem):
     def constraint_generator(self, mem):
 
         def tension_fun(X):
-            return mem.ned / (mem.A * self.sigma_max) - 1
+            return mem.ned / mem.NRd - 1
 
         def compression_fun(X):
-            return -mem.ned / (mem.A * self.sigma_max) - 1
+            return -mem.ned / mem.NRd - 1
 
         def buckling_fun(X):
             sigma_cr = 100 * mem.E * mem.A / (8 * mem.length ** 2)
@@ -231,7 +231,7 @@ class FifteenBarTruss(OptimizationProblem):
                 if isinstance(mem, FrameMember):
                     i += 1
 
-                    tension_fun, compression_fun, buckling_fun = self.constraint_generator(mem)
+                    compression_fun, tension_fun, buckling_fun = self.constraint_generator(mem)
 
                     comp_con = NonLinearConstraint(con_fun=compression_fun,
                                                    name="Compression " + str(
diff --git a/metku/optimization/benchmarks/three_bar_truss.py b/metku/optimization/benchmarks/three_bar_truss.py
index 33e75b8..da79448 100644
--- a/metku/optimization/benchmarks/three_bar_truss.py
+++ b/metku/optimization/benchmarks/three_bar_truss.py
@@ -97,10 +97,10 @@ class ThreeBarTruss(OptimizationProblem):
 
         if self.prob_type == "discrete":
             # Variables
-            A1 = DiscreteVariable('A1', values=THREE_BAR_AREAS_mm2,
+            A1 = DiscreteVariable('A1', profiles=THREE_BAR_AREAS_mm2,
                                   target={"property": "A",
                                           "objects": [bar1, bar3]})
-            A2 = DiscreteVariable('A2', values=THREE_BAR_AREAS_mm2,
+            A2 = DiscreteVariable('A2', profiles=THREE_BAR_AREAS_mm2,
                                   target={"property": "A", "objects": [bar2]})
             vars = [A1, A2]
 
@@ -175,10 +175,10 @@ class ThreeBarTruss(OptimizationProblem):
     def constraint_generator(self, mem):
 
         def tension_fun(X):
-            return mem.ned / (mem.A * self.sigma_max) - 1
+            return mem.ned / mem.NRd - 1
 
         def compression_fun(X):
-            return -mem.ned / (mem.A * self.sigma_max) - 1
+            return -mem.ned / mem.NRd - 1
 
         def buckling_fun(X):
             sigma_cr = 100 * mem.E * mem.A / (8 * mem.length ** 2)
@@ -199,7 +199,7 @@ class ThreeBarTruss(OptimizationProblem):
                     if isinstance(mem, FrameMember):
                         i += 1
 
-                        tension_fun, compression_fun, buckling_fun = self.constraint_generator(mem)
+                        compression_fun, tension_fun, buckling_fun = self.constraint_generator(mem)
 
                         comp_con = NonLinearConstraint(con_fun=compression_fun,
                                                        name="Compression " + str(i),
-- 
2.43.0

