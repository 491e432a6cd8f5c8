From b2ad33ab7d9fd8d2f290a9ac7d1af4d1e4d17f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 01/45] fix: pass a shape tuple to zeros() in the dense
 geometric stiffness matrix

---
 PyNite/FEModel3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..8b8dc29 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1607,7 +1607,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From 62102860fd62ae4111fffc45776ea4760d61a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 02/45] fix: pass the model when partitioning the dense
 geometric stiffness matrix

---
 PyNite/Analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..9ece83a 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -196,7 +196,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -304,7 +304,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
-- 
2.43.0


From c657c8034f15a02f15ac49f9c2e8d4cf3c1bfff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 03/45] fix: report the reaction of a support spring as the
 force the spring exerts on the structure

---
 PyNite/Analysis.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 9ece83a..92f1d5f 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -796,41 +796,29 @@ def _calc_reactions(model, log=False, combo_tags=None):
             
             # Calculate any reactions due to active spring supports at the node
             if node.spring_DX[0] != None and node.spring_DX[2] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
+                node.RxnFX[combo.name] -= k*DX
             if node.spring_DY[0] != None and node.spring_DY[2] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
+                node.RxnFY[combo.name] -= k*DY
             if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
+                node.RxnFZ[combo.name] -= k*DZ
             if node.spring_RX[0] != None and node.spring_RX[2] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
+                node.RxnMX[combo.name] -= k*RX
             if node.spring_RY[0] != None and node.spring_RY[2] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
+                node.RxnMY[combo.name] -= k*RY
             if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
-- 
2.43.0


From 20b7850307a0d248a232261830e393fbd63b7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 04/45] fix: keep the activity of one-way support springs
 separately for each load combination

---
 PyNite/Analysis.py  | 22 ++++++++++++++--------
 PyNite/FEModel3D.py | 24 ++++++++++++------------
 PyNite/Node3D.py    |  2 +-
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 92f1d5f..994f502 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -35,6 +35,12 @@ def _prepare_model(model):
         for combo_name in model.load_combos.keys():
             spring.active[combo_name] = True
     
+    # Activate all support springs for all load combinations
+    for node in model.nodes.values():
+        for spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ):
+            if spring[0] is not None:
+                spring[2] = {}
+
     # Activate all physical members for all load combinations
     for phys_member in model.members.values():
         for combo_name in model.load_combos.keys():
@@ -494,8 +500,8 @@ def _check_TC_convergence(model, combo_name="Combo 1", log=True, spring_toleranc
                 ) or (spring[1] == "+" and displacement >= spring_tolerance)
 
                 # Check if there's a need to switch the active state of the spring
-                if spring[2] != should_be_active:
-                    spring[2] = should_be_active
+                if spring[2].get(combo_name, True) != should_be_active:
+                    spring[2][combo_name] = should_be_active
                     convergence = False
 
     # TODO: Adjust the code below to allow elements to reactivate on subsequent iterations if deformations at element nodes indicate the member goes back into an active state. This will lead to a less conservative and more realistic analysis. Nodal springs (above) already do this.
@@ -795,27 +801,27 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
+            if node.spring_DX[0] != None and node.spring_DX[2].get(combo.name, True) == True:
                 k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] -= k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
+            if node.spring_DY[0] != None and node.spring_DY[2].get(combo.name, True) == True:
                 k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] -= k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
+            if node.spring_DZ[0] != None and node.spring_DZ[2].get(combo.name, True) == True:
                 k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] -= k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
+            if node.spring_RX[0] != None and node.spring_RX[2].get(combo.name, True) == True:
                 k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] -= k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
+            if node.spring_RY[0] != None and node.spring_RY[2].get(combo.name, True) == True:
                 k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] -= k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
+            if node.spring_RZ[0] != None and node.spring_RZ[2].get(combo.name, True) == True:
                 k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
                 node.RxnMZ[combo.name] -= k*RZ
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 8b8dc29..454a854 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -951,17 +951,17 @@ class FEModel3D():
         if dof in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
             if direction in ('+', '-', None):
                 if dof == 'DX':
-                    self.nodes[node_name].spring_DX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DX = [stiffness, direction, {}]
                 elif dof == 'DY':
-                    self.nodes[node_name].spring_DY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DY = [stiffness, direction, {}]
                 elif dof == 'DZ':
-                    self.nodes[node_name].spring_DZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DZ = [stiffness, direction, {}]
                 elif dof == 'RX':
-                    self.nodes[node_name].spring_RX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RX = [stiffness, direction, {}]
                 elif dof == 'RY':
-                    self.nodes[node_name].spring_RY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RY = [stiffness, direction, {}]
                 elif dof == 'RZ':
-                    self.nodes[node_name].spring_RZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RZ = [stiffness, direction, {}]
             else:
                 raise ValueError('Invalid support spring direction. Specify \'+\', \'-\', or None.')
         else:
@@ -1310,7 +1310,7 @@ class FEModel3D():
             if node.spring_DX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DX[2] == True:
+                if node.spring_DX[2].get(combo_name, True) == True:
                     m, n = node.ID*6, node.ID*6
                     if sparse == True:
                         data.append(float(node.spring_DX[0]))
@@ -1322,7 +1322,7 @@ class FEModel3D():
             if node.spring_DY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DY[2] == True:
+                if node.spring_DY[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 1, node.ID*6 + 1
                     if sparse == True:
                         data.append(float(node.spring_DY[0]))
@@ -1334,7 +1334,7 @@ class FEModel3D():
             if node.spring_DZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DZ[2] == True:
+                if node.spring_DZ[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 2, node.ID*6 + 2
                     if sparse == True:
                         data.append(float(node.spring_DZ[0]))
@@ -1346,7 +1346,7 @@ class FEModel3D():
             if node.spring_RX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RX[2] == True:
+                if node.spring_RX[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 3, node.ID*6 + 3
                     if sparse == True:
                         data.append(float(node.spring_RX[0]))
@@ -1358,7 +1358,7 @@ class FEModel3D():
             if node.spring_RY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RY[2] == True:
+                if node.spring_RY[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 4, node.ID*6 + 4
                     if sparse == True:
                         data.append(float(node.spring_RY[0]))
@@ -1370,7 +1370,7 @@ class FEModel3D():
             if node.spring_RZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RZ[2] == True:
+                if node.spring_RZ[2].get(combo_name, True) == True:
                     m, n = node.ID*6 + 5, node.ID*6 + 5
                     if sparse == True:
                         data.append(float(node.spring_RZ[0]))
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..22cd982 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -46,7 +46,7 @@ class Node3D():
         self.support_RZ = False
 
         # Inititialize all support springs
-        self.spring_DX = [None, None, None]  # [stiffness, direction, active]
+        self.spring_DX = [None, None, None]  # [stiffness, direction, active flags by load combination name]
         self.spring_DY = [None, None, None]
         self.spring_DZ = [None, None, None]
         self.spring_RX = [None, None, None]
-- 
2.43.0


From 6ea5531490bf9ffa47a55fb900917b0826e22906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 05/45] fix: do not share the default factors dictionary
 between load combinations

---
 PyNite/LoadCombo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..484d766 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -2,7 +2,7 @@ class LoadCombo():
     """A class that stores all the information necessary to define a load combination.
     """
 
-    def __init__(self, name, combo_tags=None, factors={}):
+    def __init__(self, name, combo_tags=None, factors=None):
         """Initializes a new load combination.
 
         :param name: A unique name for the load combination.
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        self.factors = {} if factors is None else factors  # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 1a9340f701be8c04091ff680e5480721f2ba56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 06/45] fix: check statics of tagged load combinations when
 other combinations have no tags

---
 PyNite/Analysis.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 994f502..8654e1f 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -848,13 +848,7 @@ def _check_statics(model, combo_tags=None):
     statics_table.field_names = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
 
     # Identify which load combinations to evaluate
-    if combo_tags is None:
-        combo_list = model.load_combos.values()
-    else:
-        combo_list = []
-        for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
-                combo_list.append(combo)
+    combo_list = _identify_combos(model, combo_tags)
 
     # Step through each load combination
     for combo in combo_list:
-- 
2.43.0


From 0a3bba7a74e349a7a51aaedc38fa2eab3d83c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 07/45] fix: generate meshes that have not been generated yet
 before an analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 8654e1f..55879d1 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -27,7 +27,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all springs and members for all load combinations
-- 
2.43.0


From 5e8cda05d4a4add02af8d07faf82b491ea596b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 08/45] fix: raise an error when the sparse solver reports a
 singular stiffness matrix

---
 PyNite/Analysis.py  | 4 +++-
 PyNite/FEModel3D.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 55879d1..527b415 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isfinite
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -221,6 +221,8 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # The partitioned stiffness matrix is already in `csr` format. The `@`
                     # operator performs matrix multiplication on sparse matrices.
                     Delta_D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
+                    # `spsolve` does not raise an error for a singular matrix. It returns `nan` values instead.
+                    if not isfinite(Delta_D1).all(): raise ValueError('Singular matrix')
                     Delta_D1 = Delta_D1.reshape(len(Delta_D1), 1)
                 else:
                     # The partitioned stiffness matrix is in `csr` format. It will be
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 454a854..9475297 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -3,7 +3,7 @@ from os import rename
 import warnings
 from math import isclose
 
-from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
+from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all, isfinite
 from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
@@ -1995,6 +1995,8 @@ class FEModel3D():
                             # matrix will be converted to `csr` format for mathematical operations.
                             # The `@` operator performs matrix multiplication on sparse matrices.
                             D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
+                            # `spsolve` does not raise an error for a singular matrix. It returns `nan` values instead.
+                            if not isfinite(D1).all(): raise ValueError('Singular matrix')
                             D1 = D1.reshape(len(D1), 1)
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
@@ -2099,6 +2101,8 @@ class FEModel3D():
                         # matrix will be converted to `csr` format for mathematical operations.
                         # The `@` operator performs matrix multiplication on sparse matrices.
                         D1 = spsolve(K11.tocsr(), subtract(subtract(P1, FER1), K12.tocsr() @ D2))
+                        # `spsolve` does not raise an error for a singular matrix. It returns `nan` values instead.
+                        if not isfinite(D1).all(): raise ValueError('Singular matrix')
                         D1 = D1.reshape(len(D1), 1)
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
-- 
2.43.0


From 0cd9dd399959856b3fea8c065fad08390b873e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 09/45] fix: restart the P-Delta analysis when every
 displacement is known

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 527b415..9c025d4 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -213,7 +213,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From f2caf5080e3712a1fa95f3637f548447ab840220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 10/45] fix: a member with an axial end release carries no
 axial force in the geometric stiffness

---
 PyNite/Member3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..1371c52 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -208,7 +208,8 @@ class Member3D():
                
         # Calculate the condensed local geometric stiffness matrix
         # Note that a matrix of zeros cannot be inverted, so if P is 0 an error will occur
-        if isclose(P, 0.0):
+        # A member with an axial end release carries no axial force, and has no terms in the released row to condense
+        if isclose(P, 0.0) or self.Releases[0] or self.Releases[6]:
             kg_Condensed = zeros(kg11.shape)
         else:
             kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
-- 
2.43.0


From e38410192b95534669d54cadc027a5be45f4f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 11/45] fix: keep the slope of a distributed load that spans
 three or more pieces of a physical member

---
 PyNite/PhysMember.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..736581c 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -109,7 +109,7 @@ class PhysMember(Member3D):
                     case = dist_load[5]
 
                     # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    w = lambda x, w1=w1, w2=w2: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From d5d3a425a7f466bff419dbd4e3e197690fabdba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 12/45] fix: do not lose items when renaming to a name another
 item still has

---
 PyNite/FEModel3D.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 9475297..253330c 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2335,46 +2335,51 @@ class FEModel3D():
 
         # Rename each node in the model
         temp = self.nodes.copy()
+        self.nodes.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
+            self.nodes[new_key] = temp[old_key]
             self.nodes[new_key].name = new_key
             id += 1
         
         # Rename each spring in the model
         temp = self.springs.copy()
+        self.springs.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
+            self.springs[new_key] = temp[old_key]
             self.springs[new_key].name = new_key
             id += 1
 
         # Rename each member in the model
         temp = self.members.copy()
+        self.members.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
+            self.members[new_key] = temp[old_key]
             self.members[new_key].name = new_key
             id += 1
         
         # Rename each plate in the model
         temp = self.plates.copy()
+        self.plates.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
+            self.plates[new_key] = temp[old_key]
             self.plates[new_key].name = new_key
             id += 1
         
         # Rename each quad in the model
         temp = self.quads.copy()
+        self.quads.clear()
         id = 1
         for old_key in temp.keys():
             new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
+            self.quads[new_key] = temp[old_key]
             self.quads[new_key].name = new_key
             id += 1
 
-- 
2.43.0


From 0a29dd94f75c8a5c23d9c560ed9494cb51bf3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 13/45] fix: remove the springs attached to a node when the
 node is deleted

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 253330c..ce8810f 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,6 +840,7 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
-- 
2.43.0


From dbda452e8e3ca1c28cb519b0cb11c8a9f8ba290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 14/45] fix: detach a deleted auxiliary node from the members
 using it

---
 PyNite/FEModel3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index ce8810f..5f2e82a 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -856,11 +856,11 @@ class FEModel3D():
         """
 
         # Remove the auxiliary node
-        self.aux_nodes.pop(auxnode_name)
+        aux_node = self.aux_nodes.pop(auxnode_name)
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is aux_node:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From f90250358212e064c53cbeea06331bf6e94e6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 15/45] fix: do not use the type of the previous analysis while
 a model is being analyzed

---
 PyNite/Analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 9c025d4..3b1d0dd 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -10,6 +10,9 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
+    # Flag the model as unsolved, so that results needed during the analysis are not based on the type of the previous analysis
+    model.solution = None
+
     # Reset any nodal displacements
     model._D = {}
     for node in model.nodes.values():
-- 
2.43.0


From 8213fa1b2844b8f5080289c997853caa24ee5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 16/45] fix: keep the loads and enforced displacements of
 merged nodes

---
 PyNite/FEModel3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 5f2e82a..ce67572 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -799,6 +799,15 @@ class FEModel3D():
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
                 
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
+
+                # Merge any enforced displacements
+                enforced_disp = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in enforced_disp:
+                    if getattr(self.nodes[node_2_name], dof) is not None:
+                        setattr(self.nodes[node_1_name], dof, getattr(self.nodes[node_2_name], dof))
+
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
 
-- 
2.43.0


From 088699ac9f5af2530e7b94a579fe62641ddcf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 17/45] fix: take array results at a jump from the same side as
 the results at a point

---
 PyNite/Member3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 1371c52..c779229 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1,5 +1,5 @@
 # %%
-from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where
+from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where, around
 from numpy.linalg import inv, pinv
 from math import isclose
 from PyNite.BeamSegZ import BeamSegZ
@@ -2190,7 +2190,7 @@ class Member3D():
                 index2 = len(x_array)
             else:
                 try:
-                    index2 = where(x_array > segment.x2)[0][0]
+                    index2 = where(around(x_array, 10) >= round(segment.x2, 10))[0][0]
                 except IndexError:
                     index2 = len(x_array)
             
-- 
2.43.0


From dc145ef3bb6d654aed7200f398eae416b041fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 18/45] fix: result arrays of a physical member follow its
 sub-members

---
 PyNite/PhysMember.py | 58 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 736581c..8cceb39 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, linspace
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -419,6 +419,62 @@ class PhysMember(Member3D):
         member, x_mod = self.find_member(x)
         return member.rel_deflection(Direction, x_mod, combo_name)
 
+    def shear_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the physical member for the given direction. See `Member3D.shear_array`.
+        """
+
+        return self._result_array(lambda x: self.shear(Direction, x, combo_name), n_points, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the physical member for the given direction. See `Member3D.moment_array`.
+        """
+
+        return self._result_array(lambda x: self.moment(Direction, x, combo_name), n_points, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the physical member. See `Member3D.torque_array`.
+        """
+
+        return self._result_array(lambda x: self.torque(x, combo_name), n_points, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the physical member. See `Member3D.axial_array`.
+        """
+
+        return self._result_array(lambda x: self.axial(x, combo_name), n_points, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the physical member for the given direction. See `Member3D.deflection_array`.
+        """
+
+        return self._result_array(lambda x: self.deflection(Direction, x, combo_name), n_points, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the physical member for the given direction. See `Member3D.rel_deflection_array`.
+        """
+
+        return self._result_array(lambda x: self.rel_deflection(Direction, x, combo_name), n_points, x_array)
+
+    def _result_array(self, result, n_points, x_array=None):
+        """
+        Returns an array of locations along the physical member and the results at those locations
+        """
+
+        L = self.L()
+
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        elif any(x_array < 0) or any(x_array > L):
+            raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        return array([x_array, [result(x) for x in x_array]])
+
     def find_member(self, x):
         """
         Returns the sub-member that the physical member's local point 'x' lies on, and 'x' modified for that sub-member's
-- 
2.43.0


From 21d9c6c7e1e84c6ac86727e817a700012d94f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 19/45] fix: an inactive spring carries no force in any
 orientation

---
 PyNite/Spring3D.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..814f009 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -94,8 +94,16 @@ class Spring3D():
             The name of the load combination to construct the displacement vector for (not the load combination itself).
         '''
         
-        # Calculate and return the local displacement vector
-        return matmul(self.T(), self.D(combo_name))
+        # Calculate the local displacement vector
+        d = matmul(self.T(), self.D(combo_name))
+
+        # Apply axial displacements only if the spring is active
+        if self.active[combo_name] == False:
+            d[0, 0] = 0
+            d[6, 0] = 0
+
+        # Return the local displacement vector
+        return d
         
 #%%
     def T(self):
@@ -208,17 +216,13 @@ class Spring3D():
         D = zeros((12, 1))
         
         # Read in the global displacements from the nodes
-        # Apply axial displacements only if the spring is active
-        if self.active[combo_name] == True:
-            D[0, 0] = self.i_node.DX[combo_name]
-            D[6, 0] = self.j_node.DX[combo_name]
-
-        # Apply the remaining displacements
+        D[0, 0] = self.i_node.DX[combo_name]
         D[1, 0] = self.i_node.DY[combo_name]
         D[2, 0] = self.i_node.DZ[combo_name]
         D[3, 0] = self.i_node.RX[combo_name]
         D[4, 0] = self.i_node.RY[combo_name]
         D[5, 0] = self.i_node.RZ[combo_name]
+        D[6, 0] = self.j_node.DX[combo_name]
         D[7, 0] = self.j_node.DY[combo_name]
         D[8, 0] = self.j_node.DZ[combo_name]
         D[9, 0] = self.j_node.RX[combo_name]
-- 
2.43.0


From 509aaacc6b2b3092b7808ca18ff1dd6e71e9d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 20/45] fix: twisting moment of rectangular plates uses the
 shear modulus of the plate

---
 PyNite/Plate3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index a870d03..06e0d75 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -115,7 +115,7 @@ class Plate3D():
         # Calculate the constitutive matrix [Db]
         Db = t**3/(12*(1 - nu_xy*nu_yx))*array([[   Ex,    nu_yx*Ex, 0],
                                                 [nu_xy*Ey,    Ey,    0],
-                                                [   0,        0,     G]])
+                                                [   0,        0,  (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Db]
         return Db
-- 
2.43.0


From 04f5b5c26cccc0b9145ada9e4d8f37b3fdd4c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 21/45] fix: moments of rectangular plates use the bending
 stiffness the plate was solved with

---
 PyNite/Plate3D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index 06e0d75..c0b0d36 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -108,8 +108,9 @@ class Plate3D():
         t = self.t
         nu_xy = self.nu
         nu_yx = self.nu
-        Ex = self.E*self.kx_mod
-        Ey = self.E*self.ky_mod
+        # The stiffness modification factors only apply to in-plane stiffness (see `k_b`)
+        Ex = self.E
+        Ey = self.E
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Db]
-- 
2.43.0


From 134a3892aedb5414993db06a64f64ebf063a7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 22/45] fix: symmetric membrane stiffness of plates with
 different stiffness modifiers

---
 PyNite/Plate3D.py | 6 ++++--
 PyNite/Quad3D.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyNite/Plate3D.py b/PyNite/Plate3D.py
index c0b0d36..75d7bf7 100644
--- a/PyNite/Plate3D.py
+++ b/PyNite/Plate3D.py
@@ -92,8 +92,10 @@ class Plate3D():
         G = self.E/(2*(1 + self.nu))
 
         # Calculate the constitutive matrix [Dm]
-        Dm = 1/(1 - nu_xy*nu_yx)*array([[   Ex,    nu_yx*Ex,            0             ],
-                                        [nu_xy*Ey,    Ey,               0             ],
+        # The Poisson terms must be equal for the stiffness to be symmetric (reciprocity)
+        Exy = self.nu*(Ex*Ey)**0.5
+        Dm = 1/(1 - nu_xy*nu_yx)*array([[   Ex,         Exy,            0             ],
+                                        [   Exy,      Ey,               0             ],
                                         [   0,        0,     (1 - nu_xy*nu_yx)*G]])
 
         # Return the constitutive matrix [Dm]
diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index 3e228cf..af2d8e6 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -437,8 +437,10 @@ class Quad3D():
         G = self.E/(2*(1 + self.nu))
 
         # Gallagher, Equation 9.3, page 251
-        Cm = 1/(1 - nu_xy*nu_yx)*np.array([[   Ex,    nu_yx*Ex,           0         ],
-                                           [nu_xy*Ey,    Ey,              0         ],
+        # The Poisson terms must be equal for the stiffness to be symmetric (reciprocity)
+        Exy = self.nu*(Ex*Ey)**0.5
+        Cm = 1/(1 - nu_xy*nu_yx)*np.array([[   Ex,         Exy,           0         ],
+                                           [   Exy,      Ey,              0         ],
                                            [    0,        0,     (1 - nu_xy*nu_yx)*G]])
         
         return Cm
-- 
2.43.0


From 8eadfa44d254b10d7fee61fbe336b2f69b282009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 23/45] fix: find the interior moment extremum of nearly
 uniformly loaded segments

The roots of the shear polynomial were computed by subtracting nearly equal
numbers when its quadratic coefficient was rounding noise, so max_moment and
min_moment could miss the extremum altogether.
---
 PyNite/BeamSegY.py | 18 ++++++++++++++----
 PyNite/BeamSegZ.py | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..87e8efb 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -132,8 +132,13 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny for nearly uniform loads
+            if b < 0:
+                q = (-b+(b**2-4*a*c)**0.5)/2
+            else:
+                q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -178,8 +183,13 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny for nearly uniform loads
+            if b < 0:
+                q = (-b+(b**2-4*a*c)**0.5)/2
+            else:
+                q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..970a16b 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -316,8 +316,13 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny for nearly uniform loads
+            if b < 0:
+                q = (-b+(b**2-4*a*c)**0.5)/2
+            else:
+                q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
@@ -361,8 +366,13 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny for nearly uniform loads
+            if b < 0:
+                q = (-b+(b**2-4*a*c)**0.5)/2
+            else:
+                q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            x2 = c/q if q != 0 else 0
     
         x3 = 0
         x4 = L
-- 
2.43.0


From 4bf8f3cad3449c92d9d96cd857a3d2fd1c394d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 24/45] fix: result arrays of inactive members are zero like
 their pointwise results

---
 PyNite/Member3D.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index c779229..3eb5d3d 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -911,6 +911,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
 
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         # Check which axis is of interest
         if Direction == 'Fz':
             return self._extract_vector_results(self.SegmentsY, x_array, 'shear')
@@ -1175,6 +1179,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
                 
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         if P_delta:
             #P-delta analysis is not vectorised yet, do it element-wise
             y_arr = array([self.moment(Direction, x, combo_name) for x in x_array])
@@ -1353,6 +1361,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
             
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         return self._extract_vector_results(self.SegmentsX, x_array, 'torque')
 
         
@@ -1514,6 +1526,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
             
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         return self._extract_vector_results(self.SegmentsZ, x_array, 'axial')
 
                         
@@ -1740,6 +1756,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
                 
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         if P_delta:
             #P-delta analysis is not vectorised yet, do it element-wise
             y_arr = array([self.deflection(Direction, x, combo_name) for x in x_array])
@@ -1892,6 +1912,10 @@ class Member3D():
             if any(x_array<0) or any(x_array>L):
                 raise ValueError(f"All x values must be in the range 0 to {L}")
 
+        # Inactive members have no results
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
         # Check which axis is of interest
         if Direction == 'dy':
             deflections = self._extract_vector_results(self.SegmentsZ, x_array, 'deflection')[1]
-- 
2.43.0


From 49fb8ef4b622c04e1101ab895196e6cedc4573ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 25/45] fix: assign array positions to the same segments as
 pointwise results

numpy.around and round differ in the last digit for some positions, so at the
position of a load an array held the value on the other side of the jump.
---
 PyNite/Member3D.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 3eb5d3d..24e8e60 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1,5 +1,5 @@
 # %%
-from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where, around
+from numpy import array, zeros, add, subtract, matmul, insert, cross, divide, linspace, vstack, hstack, allclose, where
 from numpy.linalg import inv, pinv
 from math import isclose
 from PyNite.BeamSegZ import BeamSegZ
@@ -708,6 +708,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -945,6 +948,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -1215,6 +1221,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -1383,6 +1392,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -1553,6 +1565,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -1798,6 +1813,9 @@ class Member3D():
         # Only calculate results if the member is currently active
         if self.active[combo_name]:
 
+            # NumPy's numbers do not round the same way Python's do
+            x = float(x)
+
             # Segment the member if necessary
             if self._solved_combo is None or combo_name != self._solved_combo.name:
                 self._segment_member(combo_name)
@@ -2207,6 +2225,9 @@ class Member3D():
     def _extract_vector_results(self, segments, x_array, result_name, P_delta=False):
         """Extract results from the given segments using vectorised numpy functions"""
         
+        # Assign each point to the same segment the pointwise results do
+        x_rounded = array([round(float(x), 10) for x in x_array])
+
         segment_results = []
         last_index = 0
         for i, segment in enumerate(segments):
@@ -2214,7 +2235,7 @@ class Member3D():
                 index2 = len(x_array)
             else:
                 try:
-                    index2 = where(around(x_array, 10) >= round(segment.x2, 10))[0][0]
+                    index2 = where(x_rounded >= round(segment.x2, 10))[0][0]
                 except IndexError:
                     index2 = len(x_array)
             
-- 
2.43.0


From 7ea32cd1b852c99b72ab1a407643444f5821e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 26/45] fix: clear stored reactions before a new analysis

---
 PyNite/Analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 3b1d0dd..02ccab0 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -13,7 +13,7 @@ def _prepare_model(model):
     # Flag the model as unsolved, so that results needed during the analysis are not based on the type of the previous analysis
     model.solution = None
 
-    # Reset any nodal displacements
+    # Reset any nodal displacements and reactions
     model._D = {}
     for node in model.nodes.values():
         node.DX = {}
@@ -22,6 +22,12 @@ def _prepare_model(model):
         node.RX = {}
         node.RY = {}
         node.RZ = {}
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
 
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
-- 
2.43.0


From b66c5399d821fb2596ad351abab3aef719c3f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 27/45] fix: compute the local axes of a quad before its fixed
 end reactions

---
 PyNite/Quad3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Quad3D.py b/PyNite/Quad3D.py
index af2d8e6..4df4e6b 100644
--- a/PyNite/Quad3D.py
+++ b/PyNite/Quad3D.py
@@ -642,6 +642,9 @@ class Quad3D():
             The name of the load combination to get the consistent load vector for.
         """
         
+        # Recalculate the local coordinate system
+        self._local_coords()
+
         Hw = lambda xi, eta : 1/4*np.array([[(1 - xi)*(1 - eta), 0, 0, (1 + xi)*(1 - eta), 0, 0, (1 + xi)*(1 + eta), 0, 0, (1 - xi)*(1 + eta), 0, 0]])
 
         # Initialize the fixed end reaction vector
-- 
2.43.0


From a226773ab9b1303d3ca6642de9c1e9fee1a62dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 28/45] fix: end the P-delta deflection iteration at points
 that do not deflect

---
 PyNite/BeamSegZ.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 970a16b..30a57e2 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -214,7 +214,8 @@ class BeamSegZ():
                     d_delta = abs(delta_x/delta_last - 1)
                 else:
                     # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
+                    # Neither do points whose deflection has stayed at zero
+                    if delta_1 - delta_x == 0 or delta_x == 0:
                         break
             
             # Return the calculated deflection
-- 
2.43.0


From a9ab20685521e0fc79a84e429d5af22633f879cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 29/45] fix: delete the loads and results of member pieces and
 the displacement vectors with the loads

---
 PyNite/FEModel3D.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index ce67572..50da403 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1248,6 +1248,15 @@ class FEModel3D():
             member.SegmentsZ = []
             member.SegmentsY = []
             member.SegmentsX = []
+
+            # The pieces the member was divided into for the analysis hold copies of its loads and results
+            for sub_member in member.sub_members.values():
+                sub_member.DistLoads = []
+                sub_member.PtLoads = []
+                sub_member.SegmentsZ = []
+                sub_member.SegmentsY = []
+                sub_member.SegmentsX = []
+                sub_member._solved_combo = None
         
         # Delete the plate loads
         for plate in self.plates.values():
@@ -1276,6 +1285,9 @@ class FEModel3D():
             node.RxnMY = {}
             node.RxnMZ = {}
         
+        # Delete the calculated global displacement vectors
+        self._D = {}
+
         # Flag the model as unsolved
         self.solution = None
                
-- 
2.43.0


From 28a2d301ee0dd82ef1b712d8a6bc7b1dfc0fdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 30/45] fix: update the node and element names of meshes when
 renaming

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 50da403..b503166 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2405,6 +2405,11 @@ class FEModel3D():
             self.quads[new_key].name = new_key
             id += 1
 
+        # Meshes look up their nodes and elements by name, so update their dictionary keys
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
+
     def orphaned_nodes(self):
         """
         Returns a list of the names of nodes that are not attached to any elements.
-- 
2.43.0


From 71f60dcc8235acecc233cb91ccc64c20aaa4f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 31/45] fix: remove a deleted node and the elements attached to
 it from their mesh too

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index b503166..a7ebdd3 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -854,6 +854,11 @@ class FEModel3D():
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and the elements attached to it from any meshes
+        for mesh in self.meshes.values():
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if node.name != node_name}
+            mesh.elements = {name: element for name, element in mesh.elements.items() if element.i_node.name != node_name and element.j_node.name != node_name and element.m_node.name != node_name and element.n_node.name != node_name}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From 67539a2afddfe84c8fbadbad6a0c5b16764f76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 32/45] fix: keep the support springs of both nodes when
 merging duplicate nodes

---
 PyNite/FEModel3D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index a7ebdd3..1b0db6d 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -797,6 +797,10 @@ class FEModel3D():
                 for dof in spring_cond:
                     value = getattr(self.nodes[node_2_name], dof)
                     if value != [None, None, None]:
+                        # Springs at both nodes acting in the same direction act in parallel
+                        kept = getattr(self.nodes[node_1_name], dof)
+                        if kept[0] is not None and kept[1] == value[1]:
+                            value = [kept[0] + value[0], value[1], {}]
                         setattr(self.nodes[node_1_name], dof, value)
                 
                 # Merge any nodal loads
-- 
2.43.0


From 77536f411bbe9663ba2603616d0b8f88cc34b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 33/45] fix: return the names of the nodes removed by
 merge_duplicate_nodes

---
 PyNite/FEModel3D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 1b0db6d..6b27470 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -841,6 +841,9 @@ class FEModel3D():
         # Flag the model as unsolved
         self.solution = None
 
+        # Return the names of the removed nodes
+        return remove_list
+
     def delete_node(self, node_name):
         """Removes a node from the model. All nodal loads associated with the node and elements attached to the node will also be removed.
 
-- 
2.43.0


From a9b4b56bd18d99393ec992c903f2dbf9e7814877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 34/45] fix: keep existing nodes and elements when generating
 annulus, frustrum and cylinder meshes

---
 PyNite/Mesh.py | 84 +++++++++++++++++++-------------------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..e371818 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -85,6 +85,22 @@ class Mesh():
         self.nodes = revised_nodes
         self.elements = revised_elements
             
+    def _remove_generated(self):
+        """Removes any nodes and elements generated earlier from the mesh and the model
+        """
+
+        for node in self.nodes.values():
+            if self.model.nodes.get(node.name) is node:
+                del self.model.nodes[node.name]
+
+        for element in self.elements.values():
+            for elements in (self.model.quads, self.model.plates):
+                if elements.get(element.name) is element:
+                    del elements[element.name]
+
+        self.nodes = {}
+        self.elements = {}
+
     def generate(self):
         """
         A placeholder to be overwritten by subclasses inheriting from this class
@@ -804,6 +820,9 @@ class AnnulusMesh(Mesh):
     
     def generate(self):
         
+        # Discard the previous mesh if the mesh is being generated again
+        self._remove_generated()
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -863,17 +882,11 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
+        # At this point we have a mesh, but some of the element or node names may already be
+        # being used in the model. Rename any names that are already being used, and add the nodes
+        # and elements to the model.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -988,17 +1001,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1166,16 +1168,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1288,6 +1280,9 @@ class CylinderMesh(Mesh):
     
     def generate(self):
         
+        # Discard the previous mesh if the mesh is being generated again
+        self._remove_generated()
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
@@ -1348,16 +1343,11 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
+        # At this point we have a mesh, but some of the element or node names may already be
+        # being used in the model. Rename any names that are already being used, and add the nodes
+        # and elements to the model.
+        self._rename_duplicates()
+
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1531,16 +1521,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From 32cfdaf1544086a90812f66ea2e0ae9deb48f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 35/45] fix: leave the lists of control points given to a
 rectangle mesh as they are

---
 PyNite/Mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index e371818..6172281 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -454,10 +454,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
@@ -471,8 +471,8 @@ class RectangleMesh(Mesh):
         Yo = self.origin[1]
         Zo = self.origin[2]
         plane = self.plane
-        x_control = self.x_control
-        y_control = self.y_control
+        x_control = list(self.x_control)
+        y_control = list(self.y_control)
 
         element_type = self.element_type
 
-- 
2.43.0


From 5654fe26b8c91c5c2c77379ac3475dc17b11b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 36/45] fix: ignore control points outside a rectangle mesh

---
 PyNite/Mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 6172281..26e4b13 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -482,9 +482,9 @@ class RectangleMesh(Mesh):
         y_control.append(0)
         y_control.append(height)
 
-        # Sort the control points in ascending order
-        x_control = sorted(x_control)
-        y_control = sorted(y_control)
+        # Sort the control points in ascending order, ignoring any that are outside the mesh
+        x_control = sorted(x for x in x_control if 0 <= x <= width)
+        y_control = sorted(y for y in y_control if 0 <= y <= height)
 
         # Remove any values that are duplicates or near duplicates from `x_control`
         unique_list = []
-- 
2.43.0


From 83f2a5683f89c89a3e1142717ee2e074528bdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 37/45] fix: recognize near duplicate control points at the
 edge of a rectangle mesh

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 26e4b13..5f34114 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -490,7 +490,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(x_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(x_control[i], x_control[i+1]):
+            if not isclose(x_control[i], x_control[i+1], abs_tol=1e-10):
                 unique_list.append(x_control[i])
         unique_list.append(x_control[-1])
         x_control = unique_list
@@ -499,7 +499,7 @@ class RectangleMesh(Mesh):
         unique_list = []
         for i in range(len(y_control) - 1):
             # Only keep the value at `i` if it's not a duplicate or near duplicate of the next value
-            if not isclose(y_control[i], y_control[i+1]):
+            if not isclose(y_control[i], y_control[i+1], abs_tol=1e-10):
                 unique_list.append(y_control[i])
         unique_list.append(y_control[-1])
         y_control = unique_list
-- 
2.43.0


From 839138e39727e89ae59fbab6d698feb04178a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 38/45] fix: keep the last row and column of large rectangle
 meshes

---
 PyNite/Mesh.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 5f34114..1239299 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -524,47 +524,35 @@ class RectangleMesh(Mesh):
         # Step through each y control point (except the first one which is always zero)
         num_rows = 0
         num_cols = 0
-        y, h = 0, None
         for j in range(1, len(y_control), 1):
             
-            # If this is not the first iteration 'y' will be too high at this point.
-            if j != 1:
-                y -= h
-
             # Determine the mesh size between this y control point and the previous one
             ny = max(1, (y_control[j] - y_control[j - 1])/mesh_size)
             h = (y_control[j] - y_control[j - 1])/ceil(ny)
 
-            # Adjust 'y' if this is not the first iteration.
-            if j != 1:
-                y += h
-
-            # Generate nodes between the y control points
-            while round(y, 10) <= round(y_control[j], 10):
+            # Generate nodes between the y control points. Nodes at the first of the two points have already been
+            # generated if this is not the first iteration.
+            for row in range(0 if j == 1 else 1, ceil(ny) + 1):
                 
+                y = y_control[j - 1] + row*h
+
                 # Count the number of rows of plates as we go
                 num_rows += 1
 
                 # Step through each x control point (except the first one which is always zero)
-                x, b = 0, None
                 for i in range(1, len(x_control), 1):
                     
-                    # 'x' needs to be adjusted for the same reasons 'y' needed to be adjusted
-                    if i != 1:
-                        x -= b
-
                     # Determine the mesh size between this x control point and the previous one
                     nx = max(1, (x_control[i] - x_control[i - 1])/mesh_size)
                     b = (x_control[i] - x_control[i - 1])/ceil(nx)
 
-                    if i != 1:
-                        x += b
-
                     # Generate nodes between the x control points
-                    while round(x, 10) <= round(x_control[i], 10):
+                    for col in range(0 if i == 1 else 1, ceil(nx) + 1):
                         
+                        x = x_control[i - 1] + col*b
+
                         # Count the number of columns of plates as we go
-                        if y == 0:
+                        if num_rows == 1:
                             num_cols += 1
 
                         # Assign the node a name
@@ -589,14 +577,8 @@ class RectangleMesh(Mesh):
                         # Add the node to the mesh
                         self.nodes[node_name] = Node3D(node_name, X, Y, Z)
 
-                        # Move to the next x coordinate
-                        x += b
-
                         # Move to the next node number
                         node_num += 1
-
-                # Move to the next y coordinate
-                y += h
         
         # At this point `num_cols` and `num_rows` represent the number of columns and rows of
         # nodes. We'll adjust these variables to be the number of columns and rows of elements
-- 
2.43.0


From 8598a4501550dc3ca1764284de37770f3b6f731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 39/45] fix: cut openings into rectangle meshes with distant
 origins

---
 PyNite/Mesh.py | 38 ++++++--------------------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 1239299..00e8311 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -618,30 +618,9 @@ class RectangleMesh(Mesh):
                                                                     self.nodes['N' + str(n_node + node_offset)],
                                                                     self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Initialize a list of nodes and associated elements that fall within opening boundaries
-        # that will be deleted
-        node_del_list = []
+        # Initialize a list of elements that fall within opening boundaries that will be deleted
         element_del_list = []
 
-        # Go back through the mesh and delete any nodes that are in the openings
-        for node in self.nodes.values():
-            
-            # Get the node's position in the mesh's local coordinate sytem.
-            x, y = self.node_local_coords(node)
-
-            # Step through each opening in the mesh
-            for opng in self.openings.values():
-
-                # Determine if the node falls within the boundaries of the opening
-                if (round(x, 10) > round(opng.x_left, 10)
-                and round(x, 10) < round(opng.x_left + opng.width, 10) 
-                and round(y, 10) > round(opng.y_bott, 10) 
-                and round(y, 10) < round(opng.y_bott + opng.height, 10)):
-
-                    # Mark the node for deletion if it's not already marked
-                    if node.name not in node_del_list:
-                        node_del_list.append(node.name)
-                
         # Go back through the mesh and delete any elements that are in the openings
         for element in self.elements.values():
 
@@ -651,11 +630,10 @@ class RectangleMesh(Mesh):
 
             for opng in self.openings.values():
 
-                # Determine if the element falls within the boundaries of the opening
-                if ((round(opng.y_bott + opng.height, 10) >= round(top, 10))
-                and (round(opng.y_bott, 10) <= round(bott, 10))
-                and (round(opng.x_left, 10) <= round(left, 10))
-                and (round(opng.x_left + opng.width, 10) >= round(right, 10))):
+                # Determine if the element falls within the boundaries of the opening. The edges of
+                # the opening are control points, so the center of the element can be used.
+                if (opng.x_left < (left + right)/2 < opng.x_left + opng.width
+                and opng.y_bott < (bott + top)/2 < opng.y_bott + opng.height):
 
                     # Mark the element for deletion if it's not already marked
                     if element.name not in element_del_list:
@@ -665,11 +643,7 @@ class RectangleMesh(Mesh):
         for element_name in element_del_list:
             del self.elements[element_name]
 
-        # Delete the nodes marked for deletion
-        for node_name in node_del_list:
-            del self.nodes[node_name]
-        
-        # Find any remaining orphaned nodes around the perimeter of the mesh
+        # Find any orphaned nodes in the openings and around the perimeter of the mesh
         node_del_list = []
         for node in self.nodes.values():
             if (node not in [element.i_node for element in self.elements.values()]
-- 
2.43.0


From be1a678e869c5323c97e76d29d75d71dcd59b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 40/45] fix: discard the previous rectangle mesh when it is
 generated again

---
 PyNite/Mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 00e8311..de81679 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -464,6 +464,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Discard the previous mesh if the mesh is being generated again
+        self._remove_generated()
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
-- 
2.43.0


From affcddf9fd0e95db2b3323cb027247b473918422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 41/45] fix: mesh annuluses and cylinders that are small
 compared to the mesh size

---
 PyNite/Mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index de81679..5756949 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -789,7 +789,7 @@ class AnnulusMesh(Mesh):
         q = int(self.start_element[1:])
 
         circumf = 2*pi*r_inner           # Circumference of the ring at the inner radius
-        n_circ = int(circumf/mesh_size)  # Number of times `mesh_size` fits in the circumference
+        n_circ = max(int(circumf/mesh_size), 3)  # Number of times `mesh_size` fits in the circumference (at least 3)
         self.num_quads_outer = n_circ
 
         # Mesh the annulus from the inside toward the outside
@@ -798,7 +798,7 @@ class AnnulusMesh(Mesh):
             radial = r_outer - r_inner                    # Remaining length in the radial direction to be meshed
             circumf = 2*pi*r_inner                        # Circumference of the ring at the inner radius
             b_circ = circumf/n_circ                       # Element width in the circumferential direction
-            n_rad = int(radial/min(mesh_size, 3*b_circ))  # Number of times the plate width fits in the remaining unmeshed radial direction
+            n_rad = max(int(radial/min(mesh_size, 3*b_circ)), 1)  # Number of times the plate width fits in the remaining unmeshed radial direction (at least 1)
             h_rad = radial/n_rad                          # Element height in the radial direction
 
             # Determine if the mesh is getting too big. If so the mesh will need to transition to a
@@ -1226,7 +1226,7 @@ class CylinderMesh(Mesh):
         # Check if the user has requested a specific number of elements for each course of plates. This can be useful for ensuring the mesh matches up with other meshes.
         if num_elements == None:
             # Calculate the number of elements if the user hasn't specified
-            self.num_elements = int(round(2*pi*radius/mesh_size, 0))
+            self.num_elements = max(int(round(2*pi*radius/mesh_size, 0)), 3)
         else:
             # Use the user specified number of elements
             self.num_elements = num_elements
-- 
2.43.0


From da0517548a70d9d72fb06998ac9638d4d7c89efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 42/45] fix: form frustrum meshes about the X and Z axes

---
 PyNite/Mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 5756949..df3f615 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1150,7 +1150,7 @@ class FrustrumMesh(AnnulusMesh):
         super().generate()
         
         Xo = self.origin[0]
-        Yo = self.origin[1]  # Not used
+        Yo = self.origin[1]
         Zo = self.origin[2]
 
         # Adjust the cooridnates of each node to make a frustrum
@@ -1158,12 +1158,14 @@ class FrustrumMesh(AnnulusMesh):
             X = node.X
             Y = node.Y
             Z = node.Z
-            r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
             if self.axis == 'Y':
+                r = ((X - Xo)**2 + (Z - Zo)**2)**0.5
                 node.Y += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'X':
+                r = ((Y - Yo)**2 + (Z - Zo)**2)**0.5
                 node.X += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             elif self.axis == 'Z':
+                r = ((X - Xo)**2 + (Y - Yo)**2)**0.5
                 node.Z += (r - self.outer_radius)/(self.outer_radius - self.inner_radius)*self.height
             else:
                 raise Exception('Invalid axis specified for frustrum mesh.')
-- 
2.43.0


From d50c150f518bc9971e159506aaecea16322e3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 43/45] fix: place cylinder meshes at their origin

---
 PyNite/Mesh.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index df3f615..01289a1 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1263,6 +1263,9 @@ class CylinderMesh(Mesh):
         elif self.axis == 'Z':
              y = self.origin[2]
 
+        # Set the cylinder top's local y-coordinate
+        top = y + h
+
         n = int(self.start_node[1:])
         q = int(self.start_element[1:])
 
@@ -1273,19 +1276,19 @@ class CylinderMesh(Mesh):
             num_elements = int(2*pi/mesh_size)
 
         # Mesh the cylinder from the bottom toward the top
-        while round(y, 10) < round(h, 10):
+        while round(y, 10) < round(top, 10):
 
-            height = h - y  #Remaining height to be meshed
+            height = top - y  #Remaining height to be meshed
             # Number of times the plate height fits in the remaining unmeshed height, resulting at least one element
             n_vert = max(int(abs(height)/mesh_size),1)
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], y, self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, self.origin[1], self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], self.origin[1], y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From 60057badbbec3cb72c59d13dee13083da40ff4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 44/45] fix: use the stiffness modification factors of cylinder
 meshes

---
 PyNite/Mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 01289a1..f0373d7 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1284,11 +1284,11 @@ class CylinderMesh(Mesh):
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], y, self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [self.origin[0], y, self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, self.origin[1], self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [y, self.origin[1], self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], self.origin[1], y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, self.kx_mod, self.ky_mod, [self.origin[0], self.origin[1], y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From 39eba458067e2e776111af9740bcee8fbd10b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 45/45] fix: mark the model as unsolved when a mesh is
 generated

---
 PyNite/Mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index f0373d7..b87ca42 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -84,6 +84,9 @@ class Mesh():
         # Replace the old dictionaries of nodes and elements with the revised dictionaries
         self.nodes = revised_nodes
         self.elements = revised_elements
+
+        # Flag the model as unsolved
+        self.model.solution = None
             
     def _remove_generated(self):
         """Removes any nodes and elements generated earlier from the mesh and the model
-- 
2.43.0

