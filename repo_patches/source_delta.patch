From 93bcef63a400274aeb2197d4932c7d8ce20d4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 01/87] fix: GaussRule on triangles could not be constructed
 and its one-point rule was not exact

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..46c61d7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -155,7 +155,7 @@ class GaussRule():
                 self.__nodes = np.array(nodes)
                 self.__weights = np.array(weights)
 
-        elif element.cell_type == 'triangle':
+        elif shape == 'triangle':
             #
             # Two dimensional rules over triangles
             #
@@ -164,7 +164,7 @@ class GaussRule():
                 #
                 # One point rule
                 #
-                r = [(2.0/3.0,1.0/3.0)]
+                r = [(1.0/3.0,1.0/3.0)]
                 w = [0.5]
             elif order == 3:
                 #
-- 
2.43.0


From b607f35ea88b00e8ee2b5909c5277658a3073846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/87] fix: convert_to_array returned a 3-D array for
 one-entry vectors and refused lists of reals

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..5f2037e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From cc97e770659ecfb6f27971369322265307658de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 03/87] fix: HalfEdge.contains_points treated falling edges as
 horizontal

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5f2037e..923c60c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2389,7 +2389,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<1e-14:
             #
             # Horizontal line
             #
-- 
2.43.0


From 9f988a6c858404035e02c302720b9b78ee3bfb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 04/87] fix: QuadCell.reference_map could not invert rectangles
 whose first edge is vertical

---
 src/mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 923c60c..b40e139 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3960,8 +3960,12 @@ class QuadCell(Cell, Tree):
                 #
                 # Cell is a rectangle - the inverse mapping is explicit
                 #
-                s = (x-p_sw_x)/(p_se_x-p_sw_x)
-                t = (y-p_sw_y)/(p_nw_y-p_sw_y)
+                # (the first edge may be parallel to either axis)
+                sx_e, sy_e = p_se_x-p_sw_x, p_se_y-p_sw_y
+                tx_e, ty_e = p_nw_x-p_sw_x, p_nw_y-p_sw_y
+                Det = sx_e*ty_e - tx_e*sy_e
+                s = (ty_e*(x-p_sw_x) - tx_e*(y-p_sw_y))/Det
+                t = (sx_e*(y-p_sw_y) - sy_e*(x-p_sw_x))/Det
 
                 x_trg = np.array([s,t]).T
             else:
-- 
2.43.0


From 333026633857885b73b936fadd50b416d3425d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 05/87] fix: shape derivatives vanished on rectangles whose
 first edge is vertical

---
 src/fem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..1389e1c 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -585,7 +585,8 @@ class QuadFE(Element):
                             p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
                             p[:,i] = ds_dx*p[:,i]
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
+                        edge = cell.get_half_edge(0).to_vector()
+                        if cell.is_rectangle() and abs(edge[0])>abs(edge[1]):
                             #
                             # Rectangular cells are simpler
                             #
@@ -624,7 +625,8 @@ class QuadFE(Element):
                         for i in range(n_dofs_loc):
                             p[:,i] = (ds_dx)**2*self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
+                        edge = cell.get_half_edge(0).to_vector()
+                        if cell.is_rectangle() and abs(edge[0])>abs(edge[1]):
                             #
                             # Rectangular cell: mixed derivatives 0
                             #
-- 
2.43.0


From 4d0962c5a44856bdb295f1fe4da51a2c3c2ef83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 06/87] fix: reference derivatives of 1D shape functions could
 not be evaluated at several points

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 1389e1c..8b39ae9 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -606,7 +606,7 @@ class QuadFE(Element):
                                 p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
 
             elif der[0]==2:
                 #
@@ -671,7 +671,7 @@ class QuadFE(Element):
                     # No mapping
                     #
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:])
+                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
             phi.append(p)
 
         if is_singleton:
-- 
2.43.0


From e59bdee173c197d7ca73c8f9b41d9122024154ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 07/87] fix: a side of a DQ0 cell reported the cell's interior
 dof as its own

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 8b39ae9..93fc778 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2104,7 +2104,7 @@ class DofHandler(object):
                     # Add endpoint vertices
                     #
                     if v in end_points:
-                        dofs.append(cell_dofs[i])
+                        dofs.extend(cell_dofs[i:i+dpv])
                     i += dpv
             else:
                 #
-- 
2.43.0


From eabc51bb82bfe44f230e5f250ee94c9e83ddf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 08/87] fix: Tree.tree_depth counted unflagged descendants
 below the first level

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index b40e139..36ce42b 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -442,7 +442,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From b44fc69211f27d4776b5b442c69ad7fdab1fa452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 09/87] fix: Forest.get_children(flag, reverse=True) returned
 nothing

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 36ce42b..3eedc16 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1388,9 +1388,11 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
+
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From 16b8b1eb4b197fb09b65e91a22fe648ebfd6c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 10/87] fix: Forest.find_node returned a leaf for addresses
 extending below it

---
 src/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 3eedc16..d0f902e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1340,6 +1340,9 @@ class Forest(object):
                     return None
                 else:
                     node = node.get_child(a)
+            else:
+                # Address extends below a leaf
+                return None
         return node
 
 
-- 
2.43.0


From a819f946a7502d2129b35e703c8fd8e08fe67b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 11/87] fix: node addresses went stale when a refined tree
 entered or left a forest

---
 src/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index d0f902e..d82e3f2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -425,6 +425,9 @@ class Tree(object):
         """
         Return address of the node
         """
+        if self.has_parent():
+            return self.get_parent().get_node_address() \
+                + [self.get_node_position()]
         return self._node_address
 
 
-- 
2.43.0


From cd0e23e10d7b8a6b8fbf43c28564378c1c3d4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 12/87] fix: Forest.remove_tree left the positions of the
 remaining trees unchanged

---
 src/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index d82e3f2..b716fe7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1421,6 +1421,9 @@ class Forest(object):
         tree = self.get_child(position)
         tree.remove_from_forest()
         del self._trees[position]
+        # Trees after the deleted one move up
+        for i in range(position, len(self._trees)):
+            self._trees[i].plant_in_forest(self, i)
 
 
     def record(self, flag):
-- 
2.43.0


From f149708ebbec1142a961d40e6ee4c9a4da8f1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 13/87] fix: Cell.get_neighbors ignored the flag around
 interior vertices

---
 src/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index b716fe7..6211f3d 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3513,6 +3513,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
@@ -3542,6 +3544,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
-- 
2.43.0


From da7c27f0456db795792fa47aded66922949596d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 14/87] fix: Mesh2D.get_boundary_segments(flag) deleted by
 stale positions

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 6211f3d..33aa854 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7262,12 +7262,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From 2fdc85466cb3910f9a9a6f31f0d97f948660aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 15/87] fix: Mesh2D.get_boundary_segments lost boundary sides
 of domains with holes

---
 src/mesh.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 33aa854..60a1261 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7200,34 +7200,36 @@ class Mesh2D(Mesh):
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
-        while True:
-            merger_activity = False
-            for g1 in bnd_hes_sorted:
+        bnd_hes_sorted = []
+        todo = [deque([he]) for he in bnd_hes]
+        while len(todo)>0:
+            g1 = todo.pop(0)
+            merger_activity = True
+            while merger_activity:
                 #
-                # Check if g1 can add a deque in bnd_hes_sorted
+                # Check if g1 can add one of the remaining deques
                 #
                 merger_activity = False
-                for g2 in bnd_hes_sorted:
+                for g2 in todo:
                     #
                     # Does g1's head align with g2's tail?
                     #
                     if g1[-1].head()==g2[0].base():
-                        # Remove g2 from list
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
                         g1.extend(g2)
                         merger_activity = True
                     #
                     # Does g1's tail align with g2's head?
                     #
                     elif g1[0].base()==g2[-1].head():
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                        g2.reverse()
-                        g1.extendleft(g2)
+                        g1.extendleft(reversed(g2))
                         merger_activity = True
 
-            if not merger_activity or len(bnd_hes_sorted)==1:
-                break
+                    if merger_activity:
+                        # Remove g2 from the remaining deques
+                        todo.remove(g2)
+                        break
+
+            bnd_hes_sorted.append(g1)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From 2238f29dc9598a1bcdb3faae730e92f49618d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 16/87] fix: level-wise neighbours across a periodic end
 descended on the wrong side

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 60a1261..a44f785 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2816,7 +2816,7 @@ class Interval(HalfEdge):
                                 # Search children until depth matches
                                 #
                                 if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
+                                    nbr = nbr.get_child(nbr.n_children()-1)
                                 else:
                                     #
                                     # There are no children at same depth as interval
@@ -2852,7 +2852,7 @@ class Interval(HalfEdge):
                                 # Iterate through children until depth matches
                                 #
                                 if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
+                                    nbr = nbr.get_child(0)
                                 else:
                                     #
                                     # There are no cells matching cell's depth
-- 
2.43.0


From 56120cadbdbfc955b91631f7d2e37c95135a2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 17/87] fix: DCEL.get_boundary_half_edges lost and disordered
 sides of domains with holes

---
 src/mesh.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index a44f785..5e6ee64 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6316,36 +6316,38 @@ class DCEL(object):
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
-
-        while True:
-            for g1 in bnd_hes_sorted:
+        bnd_hes_sorted = []
+        todo = [deque([he]) for he in bnd_hes]
+        while len(todo)>0:
+            g1 = todo.pop(0)
+            merger_activity = True
+            while merger_activity:
                 #
-                # Check if g1 can add a deque in bnd_hes_sorted
+                # Check if g1 can add one of the remaining deques
                 #
                 merger_activity = False
-                for g2 in bnd_hes_sorted:
+                for g2 in todo:
                     #
                     # Does g1's head align with g2's tail?
                     #
                     if self.half_edges['connectivity'][g1[-1]][1]==\
                        self.half_edges['connectivity'][g2[0]][0]:
-                        # Remove g2 from list
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extend(g2)
-                            merger_activity = True
+                        g1.extend(g2)
+                        merger_activity = True
                     #
                     # Does g1's tail align with g2's head?
                     #
                     elif self.half_edges['connectivity'][g1[0]][0]==\
                          self.half_edges['connectivity'][g2[-1]][1]:
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extendleft(g2)
-                            merger_activity = True
-            if not merger_activity:
-                break
+                        g1.extendleft(reversed(g2))
+                        merger_activity = True
+
+                    if merger_activity:
+                        # Remove g2 from the remaining deques
+                        todo.remove(g2)
+                        break
+
+            bnd_hes_sorted.append(g1)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From 689542ffc97e7557c005adbf99d32410d82cd365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 18/87] fix: derivatives requested by a Kernel were ignored
 during assembly

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 46c61d7..8758cdf 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -956,7 +956,7 @@ class Kernel(object):
             if isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
                 dof_f = None if dofs is None else dofs[f.basis()]
-                if dof_f is None or phi_f is None:
+                if dof_f is None or phi_f is None or dfdx is not None:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
                 else:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell, phi=phi_f,
-- 
2.43.0


From 6454cb1583a8c4c33eb22c58841f3d1bd6d38e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 19/87] fix: edge integrals of basis derivatives divided by
 zero on axis-aligned edges

---
 src/assembler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 8758cdf..7d9fbff 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3430,8 +3430,7 @@ class Assembler(object):
                 w_ref = self.edge_rule.weights()
 
                 # Map from interval to physical region
-                xg[region], mg = region.reference_map(r, jac_r2p=True,
-                                         jac_p2r=jac_p2r, hess_p2r=hess_p2r)
+                xg[region], mg = region.reference_map(r, jac_r2p=True)
 
                 # Get jaobian of forward mapping
                 jac = mg['jac_r2p']
-- 
2.43.0


From 03b0a0f4febfe6982b74bfbdef228d2b66b146ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 20/87] fix: point evaluation of a form without shape functions
 failed

---
 src/assembler.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 7d9fbff..a688495 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3487,24 +3487,25 @@ class Assembler(object):
                 #
                 # Vertex (special case)
                 #
-                xg[region], wg[region] = convert_to_array(region.coordinates()), 1
+                xg[region] = convert_to_array(region, dim=region.dim())
+                wg[region] = 1
 
-                #
-                # Determine reference vertex corresponding to Vertex region
-                #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
+                if len(shape_info[region])>0:
+                    #
+                    # Determine reference vertex corresponding to Vertex region
+                    #
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
 
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
 
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
-                wg[region] = 1
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
                                 'QuadCells supported')
-- 
2.43.0


From ad109689ddbb682d278032f1ca882aa6bbbb8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 21/87] fix: basis functions on a coarser submesh were
 evaluated on the fine cell

---
 src/assembler.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index a688495..5fd3f05 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3524,10 +3524,23 @@ class Assembler(object):
                     #
                     element = basis.dofhandler().element
                     D = basis.derivative()
-                    jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
-                    hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-                    p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
+                    #
+                    # The basis' own cell may be an ancestor of the current one
+                    #
+                    x_b, mg_b = x_ref, mg
+                    cell_b = cell.nearest_ancestor(basis.subforest_flag())
+                    if cell_b is not None and cell_b != cell:
+                        x_b, mg_b = cell_b.reference_map(xg[region],
+                                                         mapsto='reference',
+                                                         jac_p2r=True,
+                                                         hess_p2r=True)
+                        x_b = convert_to_array(x_b, dim=element.dim())
+
+                    jac_p2r = mg_b['jac_p2r'] if D[0] in [1,2] else None
+                    hess_p2r = mg_b['hess_p2r'] if D[0]==2 else None
+
+                    p = element.shape(x_ref=x_b, derivatives=D, cell=cell_b,
                                       jac_p2r=jac_p2r, hess_p2r=hess_p2r)
                     phi[region][basis] = p
 
-- 
2.43.0


From 678376cb6d85a0bbdbe3adbd9e52eac4fabfb43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 22/87] fix: shape of a constant form on cells outside its
 region of integration

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5fd3f05..1599797 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1366,7 +1366,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From 52f33860523b1f9f991bdfe31f12377cf31e29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 23/87] fix: IIForm interpolated at the wrong points and over
 the first region only

---
 src/assembler.py | 50 +++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 1599797..a538d58 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1531,8 +1531,8 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
-        n = x.shape[0]
+        x_v = test.dofhandler().get_dof_vertices(test.dofs())
+        n = x_v.shape[0]
 
         # =====================================================================
         # Specify trial function
@@ -1542,7 +1542,8 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        # Initialize local matrix
+        f_loc = np.zeros((n,n_dofs))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1550,39 +1551,24 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            x = (x_v[ii.ravel(),:],x_g[jj.ravel(),:])
 
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
-
-                """
+            C_loc = self.kernel.eval(x, region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss)
 
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
-
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = np.diag(w_g).dot(phi_g)
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+            # Combine
+            f_loc += C_loc.dot(Wphi)
         return f_loc
 
 
-- 
2.43.0


From 54ad95aef4c41a44b847a1e7fb58d343a9b976c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 24/87] fix: IPForm without a region of integration in a cell
 returned None

---
 src/assembler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index a538d58..cba9ee5 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1720,6 +1720,12 @@ class IPForm(Form):
                 # Combine
                 f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
 
+        if f_loc is None:
+            #
+            # No regions of integration in this pair of cells
+            #
+            f_loc = np.zeros((n_dofsi,n_dofsj))
+
         # Return local form
         return f_loc
 
-- 
2.43.0


From 48fec8da967accd3a835ba6a05a924c5179bf659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 25/87] fix: symmetric assembly of integral forms with
 different test and trial functions

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index cba9ee5..583e939 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2455,7 +2455,7 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.kernel.is_symmetric() and form.test is form.trial:
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
-- 
2.43.0


From 305e3b2c5dbf87819d5273dc8d47b850d4e2383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 26/87] fix: deterministic and sampled forms could not be
 combined in a vector or scalar

---
 src/assembler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 583e939..df749a4 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4106,6 +4106,12 @@ class AssembledForm(object):
 
 
         # Update dofs
+        elif n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Single sample: Copy it
+            #
+            vals = np.tile(vals, (1,n_samples))
+
         for i in range(dim):
             # Update ith set of dofs
             data[cell]['dofs'][i].extend(dofs[i])
-- 
2.43.0


From 6f97c51cbb2c8f025748ac37f0c10334c5df6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 27/87] fix: assembled dofs were assumed sorted but taken from
 a set

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index df749a4..655dd1d 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4361,7 +4361,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
-- 
2.43.0


From 37e6809f0676689164a2c20fe2989404d31caa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 28/87] fix: Dirichlet correction of a problem without
 Dirichlet nodes

---
 src/assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 655dd1d..fc8d63b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4432,6 +4432,8 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From ea4b061333f782e2b0f481525d3e12da86889f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 29/87] fix: Assembler.solve stored values by global dof
 instead of basis index

---
 src/assembler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index fc8d63b..276c057 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3765,13 +3765,14 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
+        if len(dir_dofs)>0:
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
-- 
2.43.0


From f846d487008352aa01ba15050385bd9648abf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 30/87] fix: hanging nodes of the assembler mesh instead of the
 trial function mesh

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 276c057..42f2ab9 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3672,7 +3672,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From b2f4aeb7625a1d79654b571596a0393a973cc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 31/87] fix: Assembler modified the list of problems passed by
 the caller

---
 src/assembler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assembler.py b/src/assembler.py
index 42f2ab9..bf2b827 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2070,6 +2070,7 @@ class Assembler(object):
             #
             # Multiple forms (and/or problems)
             #
+            problems = list(problems)
             if all([isinstance(problem, Form) for problem in problems]):
                 #
                 # Single problem consisting of multiple forms
-- 
2.43.0


From 272a7ff7d130f9b89043abea7fbc149586506a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 32/87] fix: distribute emptied the cellwise data it was asked
 to keep

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index bf2b827..81e26c1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4207,7 +4207,9 @@ class AssembledForm(object):
         if clear_cellwise_data:
             cell_data = self.__cellwise_data[cell]
         else:
-            cell_data = self.__cellwise_data[cell].copy()
+            cell_data = self.__cellwise_data[cell]
+            cell_data = {'dofs': [list(d) for d in cell_data['dofs']],
+                         'vals': list(cell_data['vals'])}
 
         # Aggregate data
         data = self.__aggregate_data
-- 
2.43.0


From 38ed0327b1de89abf3408cb093e57ead6efe6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 33/87] fix: assembling twice added the second assembly to the
 first

---
 src/assembler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 81e26c1..7fa61c8 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2349,6 +2349,14 @@ class Assembler(object):
         #t_reference_map = 0
 
 
+        #
+        # Discard the results of previous assemblies
+        #
+        for i_problem in range(self.n_problems()):
+            for aform in self.__af[i_problem]:
+                if aform is not None:
+                    aform.clear()
+
         #
         # Assemble forms over mesh cells
         #
@@ -3929,6 +3937,14 @@ class AssembledForm(object):
         #
         # Initialize cellwise- and aggregate data
         #
+        self.clear()
+
+
+    def clear(self):
+        """
+        (Re)initialize cellwise- and aggregate data
+        """
+        dim = self.dim()
         self.__cellwise_data = {}
         self.__aggregate_data = {'dofs':[[] for dummy in range(dim)],
                                  'udofs': [],
-- 
2.43.0


From 40516eaf8ff2ea06e418efbd715496d0b66ffd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 34/87] fix: Dirichlet conditions on half-edges found no
 degrees of freedom

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 7fa61c8..ea6af4b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3610,7 +3610,7 @@ class Assembler(object):
             #
             # Two dimensional mesh
             #
-            dir_dofs = dh.get_region_dofs(entity_type='vertex',
+            dir_dofs = dh.get_region_dofs(entity_type='half_edge',
                                           entity_flag=dir_marker,
                                           interior=False,
                                           on_boundary=on_bnd, \
@@ -3632,7 +3632,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From f7dc32c7619cd1c787cb991fb4068cce48135a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 35/87] fix: degrees of freedom of a region were not sorted

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 93fc778..4f6f008 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2183,7 +2183,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From 4386c194a8f80c2137ae298c34542745ca39d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 36/87] fix: HalfEdge.subcell_position divided by zero on
 vertical half-edges

---
 src/mesh.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5e6ee64..a153e94 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2526,18 +2526,12 @@ class HalfEdge(Tree):
         assert all(self.contains_points([v0,v1])), \
             'Input "subedge" not contained within HalfEdge.'
         
-        #
-        # It suffices to work with x-coordinates
-        #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        # Locate base of the sub-edge along the HalfEdge
+        v = self.to_vector()
+        w = np.array(v0.coordinates()) - np.array(self.base().coordinates())
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = np.dot(w,v)/np.dot(v,v)
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From 43f932126f271d83d3e724d0b04132c5468c271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 37/87] fix: QuadCell.subcell_position of the cell itself
 raised UnboundLocalError

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index a153e94..2ca0297 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3797,7 +3797,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 1b983861c1844e9ab561e7c20f7aefd7d45076cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 38/87] fix: Mesh2D.locate_point returned a coarse cell instead
 of the smallest one

---
 src/mesh.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 2ca0297..51a4577 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7153,13 +7153,9 @@ class Mesh2D(Mesh):
             cell: smallest cell that contains x
 
         """
-        for cell in self.cells.get_children():
-            if flag is None:
-                if cell.contains_points(point):
-                    return cell
-            else:
-                if cell.is_marked(flag) and cell.contains_points(point):
-                    return cell
+        for cell in self.cells.get_leaves(subforest_flag=flag):
+            if cell.contains_points(point):
+                return cell
 
 
     def get_boundary_segments(self, subforest_flag=None, flag=None):
-- 
2.43.0


From 6d295499b65c2d020cf2864ff33003c6f4786d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 39/87] fix: HalfEdge.reference_map inverse Jacobian was no
 left inverse and divided by zero

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 51a4577..7460aed 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2644,8 +2644,9 @@ class HalfEdge(Tree):
             if jac_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
-                # TODO: Shouldn't this also be a list?
-                mg['jac_p2r'] = np.array([[1/(x1-x0), 1/(y1-y0)]])
+                #
+                v = np.array([[x1-x0, y1-y0]])
+                mg['jac_p2r'] = [v/np.sum(v**2)]*n
             if hess_r2p:
                 #
                 # Hessian of mapping from reference to physical region
-- 
2.43.0


From ee2d7bedda7ec386b8a034dabf17d0e327297232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 40/87] fix: nodal data of a bivariate function had its
 arguments exchanged

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..87321b6 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From 8771da4b454c2a26084b9ca8a81290c09f721c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 41/87] fix: Explicit.set_rules(pos) called a missing method

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 87321b6..663caab 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From 9d5b9aaeb4e9221730505cf17d8e254512d27ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 42/87] fix: Explicit.add_rule extended the lists passed by the
 caller

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index 663caab..eff6fe6 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,8 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 1e1f8fc84213c158b92ed3fe6e17424040f8f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 43/87] fix: Nodal.eval with shape functions but no dofs asked
 the arrays for dofs

---
 src/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index eff6fe6..903ca93 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1869,7 +1869,9 @@ class Nodal(Map):
                 #
                 # Get local dofs if not specified
                 #
-                dofs = [b.dofs(cell) for b in phi] 
+                cells = cell if type(cell) in (tuple, list) \
+                    else [cell]*n_variables
+                dofs = [self.basis().dofs(c) for c in cells]
             
             
             if type(dofs) is tuple:
-- 
2.43.0


From 79f327309f8c012c1b5e61e5fa9cdd5bd6617706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 44/87] fix: Nodal.differentiate took one-sided derivatives
 from the wrong cell at shared vertices

---
 src/function.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/function.py b/src/function.py
index 903ca93..fa0847d 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2356,17 +2356,18 @@ class Nodal(Map):
         # 
         dofhandler = DofHandler(mesh, element)
         dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        basis = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
-        #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
+        # Evaluate function at dof vertices, cell by cell (the derivative may 
+        # jump across cells)
         #
-        # Evaluate function at dof vertices
-        #
-        fv = self.eval(x, derivative=derivative)
+        fv = np.zeros((basis.n_dofs(), self.n_samples()))
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            dofs = dofhandler.get_cell_dofs(cell)
+            x = cell.reference_map(convert_to_array(element.reference_nodes()))
+            fv[basis.d2i(dofs),:] = \
+                self.eval(convert_to_array(x), cell=cell, derivative=derivative)
         #
         # Define new function
         #
-- 
2.43.0


From 2e3c3d6823e850c39d8d9a4de9e2505870fdb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 45/87] fix: Nodal.modify_data without dofs failed on a submesh

---
 src/function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.py b/src/function.py
index fa0847d..0e2f596 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1737,6 +1737,8 @@ class Nodal(Map):
             # Turn into 1d array
             data = data.ravel()
             
+        if dofs is None:
+            dofs = self.basis().dofs()
         idx = self.basis().d2i(dofs)
         self.__data[idx,i_sample] = data
 
-- 
2.43.0


From 05283a78110cec589a357cc4d1bcd63f0ed1f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 46/87] fix: Nodal.add_samples appended bivariate samples along
 the second variable

---
 src/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function.py b/src/function.py
index 0e2f596..19f0354 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1770,11 +1770,11 @@ class Nodal(Map):
             assert n_dofs==self.basis().dofhandler().n_dofs(subforest_flag=sf),\
                 'Data size is not consistent'
             
-            # Convert 1D data array to to 2D
-            if len(data.shape)==1:
-                data = data[:,None]
+            # Add a sample dimension, if necessary
+            if len(data.shape)==self.n_variables():
+                data = data[...,None]
             
-            new_data = np.append(self.data(),data,axis=1)
+            new_data = np.append(self.data(),data,axis=-1)
             self.set_data(new_data)
             
     
-- 
2.43.0


From 3b707ff23121f5a22fa91f1cb3468923a6ad27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 47/87] fix: Basis.eval mapped physical points away from the
 reference cell

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 4f6f008..710f40f 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1169,7 +1169,7 @@ class Basis():
             #
             # Points lie in physical cell -> first map them to the reference
             # 
-            x = cell.reference_map(x)
+            x = e_cell.reference_map(x, mapsto='reference')
         #
         # Evaluate the Basis function at the given reference points
         #
-- 
2.43.0


From d374f8fd14c82e318bc46c99a115184bb7f82b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 48/87] fix: Basis.set_subforest_flag left the numbering of the
 previous submesh

---
 src/fem.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 710f40f..30202e7 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -921,15 +921,8 @@ class Basis():
         'Input "dofhandler" should be of type "DofHandler".'
 
         self.__dofhandler = dofhandler
-        self.__subforest_flag = subforest_flag
         self.__derivative = parse_derivative_info(derivative)
-
-        dofs = self.dofs()
-        d2i = -np.ones(dofs[-1]+1, dtype=int)
-        d2i[dofs] = np.arange(len(dofs))
-
-        self.__i2d = np.array(dofs)
-        self.__d2i = d2i
+        self.set_subforest_flag(subforest_flag)
 
     '''
     def __eq__(self, other):
@@ -981,6 +974,13 @@ class Basis():
         """
         self.__subforest_flag = flag
 
+        dofs = self.dofs()
+        d2i = -np.ones(dofs[-1]+1, dtype=int)
+        d2i[dofs] = np.arange(len(dofs))
+
+        self.__i2d = np.array(dofs)
+        self.__d2i = d2i
+
 
     def derivative(self):
         """
-- 
2.43.0


From 6fcd5726db3d60729c4c9f3dc154285b50a0e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 49/87] fix: vertices of the dofs of a second, smaller submesh
 were never set

---
 src/fem.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 30202e7..0a7ba82 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2190,10 +2190,6 @@ class DofHandler(object):
         """
         Construct a list of all vertices in the mesh
         """
-        # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
-            return
-
         # Reference nodes
         x_ref = self.element.reference_nodes()
 
-- 
2.43.0


From c8f9e57b0036fd18cf634f6cab80f4ccfbe65626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 50/87] fix: Nodal.modify_data changed the array the function
 was built from

---
 src/function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.py b/src/function.py
index 19f0354..f8d374d 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1665,6 +1665,8 @@ class Nodal(Map):
             n_dofs = self.basis().n_dofs()
             assert data.shape[0]==n_dofs, \
             'Shape of input "data" inconsistent with dofhandler.'
+            # Copy, so that modify_data does not affect the input
+            data = np.array(data)
             if len(data.shape)<2:
                 # Data passed as a 1D array, convert to matrix 
                 data = data[:,None]
-- 
2.43.0


From 15b328ab5196e8df745a6eade019c0eed6c6aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 51/87] fix: LinearSystem forgot that its matrix was already
 constrained

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..53dfe50 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -542,7 +542,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From 9e2e95bacea003414dbd501f7a06c908e2787186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 52/87] fix: load at all but the first hanging node was
 dropped, not distributed

---
 src/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 53dfe50..b4ddf37 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -740,10 +740,10 @@ class LinearSystem(object):
             b += ck.T.dot(bk)
             
             #
-            # Set b=0 at the constraints
+            # Set b=0 at the constraint
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From 20469a95f09e7f1f9b6965ce4dbe0d813724145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 53/87] fix: affine terms of constraints were stored by dof
 instead of equation

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index b4ddf37..465042d 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -342,7 +342,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
-- 
2.43.0


From 52a762e7c5d8b6821313b38bb5dbf25a4e5a7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 54/87] fix: get_hanging_nodes raised KeyError for elements
 without hanging nodes

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 0a7ba82..7807508 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2581,7 +2581,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes()
-            return self.__hanging_nodes['default']
+            return self.__hanging_nodes.get('default', {})
         else:
             #
             # With Subforest flag
@@ -2591,7 +2591,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes(subforest_flag=subforest_flag)
-            return self.__hanging_nodes[subforest_flag]
+            return self.__hanging_nodes.get(subforest_flag, {})
 
 
     def has_hanging_nodes(self, subforest_flag=None):
-- 
2.43.0


From 66ed9e16518d959aa76ce4273c9b33de7ec5731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 55/87] fix: linear systems sharing a dofhandler shared their
 boundary conditions

---
 src/solver.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 465042d..a0193da 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -105,7 +105,18 @@ class LinearSystem(object):
         # Determine Hanging nodes 
         # 
         subforest_flag = self.get_basis().subforest_flag()
-        self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
+        dofhandler = self.get_dofhandler()
+        dofhandler.set_hanging_nodes(subforest_flag=subforest_flag)
+        hanging_nodes = dofhandler.get_hanging_nodes(subforest_flag)
+        
+        #
+        # Constraints of this system
+        # 
+        self.__constraints = \
+            {'constrained_dofs': list(hanging_nodes.keys()),
+             'supporting_dofs': [hn[0] for hn in hanging_nodes.values()],
+             'coefficients': [hn[1] for hn in hanging_nodes.values()],
+             'affine_terms': [0 for dummy in hanging_nodes]}
         
         # 
         # Store Bilinear Form
@@ -284,7 +295,7 @@ class LinearSystem(object):
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-        constraints = dh.constraints
+        constraints = self.__constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
@@ -307,7 +318,7 @@ class LinearSystem(object):
         #    
         # Define constraint matrix
         #
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = np.array(constraints['constrained_dofs'], dtype=int)
         c_rows = []
         c_cols = []
@@ -417,7 +428,7 @@ class LinearSystem(object):
         #
         self.column_records = []
         
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         
         #
@@ -715,7 +726,7 @@ class LinearSystem(object):
         b = self.get_rhs()
         n_dofs = len(self.get_dofs())
             
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         C = self.get_C()
         d = self.get_d()
-- 
2.43.0


From 8444527e70ca16416da9bf746d6cc962ead61e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 56/87] fix: resolve_constraints changed the vector passed by
 the caller

---
 src/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index a0193da..9eff8fd 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -798,6 +798,11 @@ class LinearSystem(object):
             # Convert to ndarray if necessary
             # 
             u = u.toarray()
+        else:
+            #
+            # Don't modify the input
+            #
+            u = u.copy()
         u[ec_dofs,:] = drep[ec_dofs,:]
         u = C.dot(u) + drep
               
-- 
2.43.0


From a3fb980b55b30b656fcd9cc0b12d1d943a6ee027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 57/87] fix: degrees of freedom constrained twice spoiled the
 scaling of their equations

---
 src/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 9eff8fd..4dd5f73 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -512,12 +512,12 @@ class LinearSystem(object):
         # 
         a_diag = A.diagonal()
         ave_vec = np.ones(n_dofs)
-        n_cdofs = len(c_dofs)
-        if n_dofs > n_cdofs:
+        c_eqns = np.unique([self.dof2eqn(c_dof) for c_dof in c_dofs])
+        n_cdofs = len(c_eqns)
+        if n_dofs > n_cdofs and n_cdofs > 0:
             #
             # If there are unconstrained dofs, use average diagonal to scale 
             # 
-            c_eqns = self.dof2eqn(c_dofs)
             ave_vec[c_eqns] = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
         I_ave = sparse.dia_matrix((ave_vec,0), shape=(n_dofs,n_dofs))
         A = A.dot(I_ave)
-- 
2.43.0


From fe5609391254fd8d9da1d9f85d35bfbaa5bd8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 58/87] fix: permute and solve the modified Cholesky factors
 consistently

---
 src/spd.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..e041637 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -245,18 +245,18 @@ class CholeskyDecomposition(SPDMatrix):
         where
 
             P is a permutation matrix,
-            L is the cholesky factor (P*L is lower triangular)
+            L is the (unit lower triangular) cholesky factor
             E is a perturbation matrix so that C+E is positive definite
-            D is diagonal
-            D0 block diagonal matrix so that C = L*D0*L'
+            D is block diagonal
+            D0 block diagonal matrix so that P*C*P' = L*D0*L'
 
     Attributes:
 
         __C: Symmetric positive definite matrix
         __L: Cholesky factor
-        __D: Diagonal matrix
+        __D: Block diagonal matrix
         __P: Permutation matrix
-        __D0: Diagonal matrix so that C = L*D0*L'
+        __D0: Block diagonal matrix so that P*C*P' = L*D0*L'
 
     Methods:
         
@@ -458,8 +458,11 @@ class CholeskyDecomposition(SPDMatrix):
                 temp = np.dot(U,np.dot(T,U.T))
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
-        P = np.eye(n)
-        P = P[:,p]
+        #
+        # Permute the factor, so that L is unit lower triangular
+        #
+        P = np.eye(n)[p,:]
+        L = P.dot(L)
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
@@ -496,7 +499,7 @@ class CholeskyDecomposition(SPDMatrix):
             if verbose: 
                 print('Modified Cholesky decomposition')
                 print('Returning L, D, P, D0, where')
-                print('C = P*(C+E)*P\' = L*D*L\' and P*C*P\' = L*D0*L\'')
+                print('P*(C+E)*P\' = L*D*L\' and P*C*P\' = L*D0*L\'')
 
             return self.__L
         
@@ -620,11 +623,9 @@ class CholeskyDecomposition(SPDMatrix):
             # Use Modified Cholesky
             # 
             L, D, P, dummy = self.get_factors()
-            PL = P.dot(L)
-            y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
-            Dinv = sp.diags(1./np.diagonal(D))
-            z = Dinv.dot(y)
-            x = linalg.solve_triangular(PL.T,z,lower=False,unit_diagonal=True)
+            y = linalg.solve_triangular(L,P.dot(b),lower=True, unit_diagonal=True)
+            z = linalg.solve(D,y)
+            x = linalg.solve_triangular(L.T,z,lower=False,unit_diagonal=True)
             return P.T.dot(x)
 
     def sqrt_dot(self,b,transpose=False):
@@ -686,12 +687,12 @@ class CholeskyDecomposition(SPDMatrix):
             # Degenerate matrix: 0 < C+E = P'*L*D*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = linalg.cholesky(D,lower=True)  # D is block diagonal
             if transpose:
                 #
                 # W'*b
                 # 
-                return sqrtD.dot(L.T.dot(P.dot(b)))
+                return sqrtD.T.dot(L.T.dot(P.dot(b)))
             else:
                 #
                 # W*b
@@ -757,21 +758,21 @@ class CholeskyDecomposition(SPDMatrix):
             #
             # Degenerate matrix
             #
-            #  C+E = P'*L*sqrtD*sqrtD*L'*P = W*W'
+            #  C+E = P'*L*sqrtD*sqrtD'*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = linalg.cholesky(D,lower=True)  # D is block diagonal
             if transpose:
                 #
                 # Solve W' x = b
                 # 
-                return P.T.dot(linalg.solve_triangular(sqrtD.dot(L.T),b,lower=False))
+                return P.T.dot(linalg.solve_triangular(L.dot(sqrtD).T,b,lower=False))
                 #return sqrtD.dot(linalg.solve_triangular(L.T,P.dot(b),lower=False))
             else:
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
+                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b),lower=True) 
                 #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
         
         """
-- 
2.43.0


From c6f75a155c76ef2884494cba10ed752af4fc6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 59/87] fix: SPDMatrix rank queries call methods that do not
 exist

---
 src/spd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index e041637..291026f 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -113,7 +113,7 @@ class SPDMatrix(object):
         """
         assert isinstance(rank, int), 'Input "rank" should be an integer.'
         assert rank >= 0, 'Input "rank" should be non-negative.'
-        assert rank <= self.size(), 'Input "rank" should be less than or equal to the size of the matrix.'
+        assert rank <= self.get_size(), 'Input "rank" should be less than or equal to the size of the matrix.'
         self.__rank = rank
 
 
@@ -163,7 +163,7 @@ class SPDMatrix(object):
         - bool
             True if the matrix is degenerate, False otherwise.
         """
-        return self.rank() < self.size()
+        return self.get_rank() < self.get_size()
 
 
     def decompose(self):
-- 
2.43.0


From 28d54634dc59f242c9985016e4070478869f6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 60/87] fix: EigenDecomposition of a sparse matrix raises an
 exception

---
 src/spd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index 291026f..e4c53c4 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -897,6 +897,8 @@ class EigenDecomposition(SPDMatrix):
             # Default lower bound
             # 
             C = self.get_matrix()
+            if self.is_sparse():
+                C = C.toarray()
             eps = np.finfo(float).eps
             delta = np.sqrt(eps)*linalg.norm(C, 'fro')
 
@@ -930,6 +932,11 @@ class EigenDecomposition(SPDMatrix):
             # 
             is_generalized = True
             M = self.get_mass_matrix()
+            if sp.issparse(M):
+                #
+                # Convert to full matrix
+                # 
+                M = M.toarray()
         else:
             #
             # Standard eigendecomposition
-- 
2.43.0


From 12fdb1f45f05a9df19d2f899f813f45c85ff469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 61/87] fix: EigenDecomposition.sqrt_solve ignores the mass
 matrix

---
 src/spd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index e4c53c4..6ff177b 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1119,11 +1119,18 @@ class EigenDecomposition(SPDMatrix):
             #
             # Solve sqrtD*V'x = b
             # 
-            return V.dot(sqrtD_inv.dot(b))
+            x = V.dot(sqrtD_inv.dot(b))
+            if self.has_mass_matrix():
+                # The inverse of V' is M*V
+                x = self.get_mass_matrix().dot(x)
+            return x
         else:
             #
             # Solve V*sqrtD x = b
             #
+            if self.has_mass_matrix():
+                # The inverse of V is V'*M
+                b = self.get_mass_matrix().dot(b)
             return sqrtD_inv.dot(np.dot(V.T, b))
 
 
-- 
2.43.0


From b97a321d4a136e5ba79833e40d5b49c39ee2a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 62/87] fix: distance drops the sign of displacements weighted
 by a full tensor

---
 src/gmrf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..3a93a90 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -223,14 +223,18 @@ def distance(x, y, M=None, periodic=False, box=None):
         #
         # 2D
         #   
-        dx = np.abs(x[:,0]-y[:,0])
-        dy = np.abs(x[:,1]-y[:,1])
+        dx = x[:,0]-y[:,0]
+        dy = x[:,1]-y[:,1]
         if periodic:
             assert box is not None, \
             'If periodic, bounding box must be specified.'
             x_min, x_max, y_min, y_max = box
-            dx = np.min(np.array([dx,(x_max-x_min)-dx]),axis=0)
-            dy = np.min(np.array([dy,(y_max-y_min)-dy]),axis=0)
+            #
+            # Shortest (signed) displacement, modulo the period
+            # 
+            wx, wy = x_max-x_min, y_max-y_min
+            dx = np.where(2*np.abs(dx)<=wx, dx, dx-np.sign(dx)*wx)
+            dy = np.where(2*np.abs(dy)<=wy, dy, dy-np.sign(dy)*wy)
         
         if M is None:
             return np.sqrt(dx**2 + dy**2)
-- 
2.43.0


From 5f3fee6137a99fbecb6f65b856a8204a9e61e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 63/87] fix: linear covariance drops its constant in 1D when M
 is given

---
 src/gmrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 3a93a90..bf65e3e 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -295,7 +295,7 @@ def linear(x,y,sgm=1, M=None):
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
-- 
2.43.0


From 95ca30cf540297edaf291a95a703b876c0fce867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 64/87] fix: matern covariance is 1 at distance zero whatever
 sgm is

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index bf65e3e..5bf60a4 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -358,9 +358,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From 649cbf6bec8274ef468c4913de2f7f8e34bdee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 65/87] fix: Covariance accepts an unknown kernel name

---
 src/gmrf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gmrf.py b/src/gmrf.py
index 5bf60a4..e82517d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -590,6 +590,8 @@ class Covariance(EigenDecomposition):
                 # k(x,y) = 1/(1 + |x-y|^2)^a
                 # 
                 cov_fn = rational
+            else:
+                raise Exception('Covariance kernel "%s" not recognized.'%name)
  
         # Store results
         dim = self.dofhandler().mesh.dim()
-- 
2.43.0


From 90bb4191b48dfd848c574bd8bd2b3e3dc3d72393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 66/87] fix: GaussianField.sample ignores m_col and the
 canonical mean

---
 src/gmrf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index e82517d..55f9306 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1354,14 +1354,14 @@ class GaussianField(object):
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
+            return  Lz + np.tile(self.mean(m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
+            return Lz + np.tile(self.mean(m_col),(1,n_samples))
                                    
         elif mode=='canonical':
             #
@@ -1369,10 +1369,9 @@ class GaussianField(object):
             #
 
             # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
+            if self.get_canonical_mean() is not None:
                 self.compute_mean()
-                mean = self.get_mean()
+            mean = self.mean(m_col)
             Lz = C.sqrt_solve(z,transpose=True)
             return Lz + np.tile(mean,(1,n_samples))
 
-- 
2.43.0


From 370a7343939dcadf642e8aed099c77cfc402b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 67/87] fix: KL_sample misreads the given coefficients z

---
 src/gmrf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 55f9306..03fe006 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1221,13 +1221,14 @@ class GaussianField(object):
         
         # Sample 
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(i_max-i_min+1, n_samples))
         else:
             assert z.shape[0] == i_max-i_min+1, \
-                'Input "z" should have the same number of rows as the random vector.'
+                'Input "z" should have one row for each index in the range.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From 2615c910ea60bb1029adb73378cee7c529647bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 68/87] fix: samples of a GaussianField with support are not
 restricted to it

---
 src/gmrf.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 03fe006..4bba241 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -785,15 +785,15 @@ class GaussianField(object):
         # Store canonical mean
         self.set_canonical_mean(canonical_mean)
 
+        # Store support
+        self.set_support(support)
+
         # Store covariance
         self.set_covariance(covariance)
 
         # Store precision
         self.set_precision(precision)
 
-        # Store support
-        self.set_support(support)
-
 
     def set_mean(self, mean):
         """
@@ -862,6 +862,17 @@ class GaussianField(object):
         self.__canonical_mean = b
 
 
+    def restrict(self, K):
+        """
+        Restrict a covariance/precision matrix to the support (if specified) 
+        """
+        V = self.support()
+        if K is None or V is None:
+            return K
+        n = K.get_size() if isinstance(K, SPDMatrix) else K.shape[0]
+        return V.T.dot(K.dot(V)) if n==self.size() else K
+
+
     def set_covariance(self, covariance, decomposition='eig'):
         """
         Store the covariance matrix of the random field
@@ -874,6 +885,7 @@ class GaussianField(object):
                 Eigenvalue decomposition ('eig') is the or Cholesky 
                 decompoositon ('chol').
         """
+        covariance = self.restrict(covariance)
         if isinstance(covariance, EigenDecomposition) or isinstance(covariance, CholeskyDecomposition):
             # Store as SPDMatrix
             self.__covariance = covariance
@@ -910,6 +922,7 @@ class GaussianField(object):
                 Eigenvalue decomposition ('eig') is the or Cholesky 
                 decompoositon ('chol').
         """
+        precision = self.restrict(precision)
         if isinstance(precision, SPDMatrix):
             # Store as SPDMatrix
             self.__precision = precision
@@ -1213,10 +1226,10 @@ class GaussianField(object):
 
         # Determine eigenvalue range
         if i_max is None:
-            i_max = self.size()-1
+            i_max = len(d)-1
         assert i_max >= i_min, 'Index range should be non-empty.'
         
-        assert i_min >= 0 and i_max < self.size(), \
+        assert i_min >= 0 and i_max < len(d), \
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
@@ -1227,6 +1240,11 @@ class GaussianField(object):
                 'Input "z" should have one row for each index in the range.'
             n_samples = z.shape[1]
 
+        # Express the eigenvectors in terms of the field's support
+        W = self.support()
+        if W is not None:
+            V = W.dot(V)
+
         # Compute samples
         return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
@@ -1350,11 +1368,13 @@ class GaussianField(object):
         #
         #  Compute sample   
         # 
+        V = self.support()
         if mode=='covariance':
             #
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
+            Lz = Lz if V is None else V.dot(Lz)
             return  Lz + np.tile(self.mean(m_col),(1,n_samples))
     
         elif mode=='precision':
@@ -1362,6 +1382,7 @@ class GaussianField(object):
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
+            Lz = Lz if V is None else V.dot(Lz)
             return Lz + np.tile(self.mean(m_col),(1,n_samples))
                                    
         elif mode=='canonical':
@@ -1374,6 +1395,7 @@ class GaussianField(object):
                 self.compute_mean()
             mean = self.mean(m_col)
             Lz = C.sqrt_solve(z,transpose=True)
+            Lz = Lz if V is None else V.dot(Lz)
             return Lz + np.tile(mean,(1,n_samples))
 
         else:
-- 
2.43.0


From c366a931356943ac10a04908cfeba703b39ec501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 69/87] fix: GaussianField.update_support stores a matrix
 without factors

---
 src/gmrf.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 4bba241..36e5271 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1055,33 +1055,33 @@ class GaussianField(object):
             # 
             cov = self.covariance()
             assert cov is not None, 'No covariance specified.'
-            #if not cov.has_eig_decomp():
-            #    cov.compute_eig_decomp(delta=0)
-            d, V = cov.get_factors()
+            matrix = cov
         elif mode=='precision':
             #
             # Use (reduced) precision matrix
             # 
             prec = self.precision()
             assert prec is not None, 'No precision specified'
-            if not prec.has_eig_decomp():
-                prec.compute_eig_decomp(delta=0)
-            d, V = prec.compute_eig_decomp()
+            matrix = prec
         else:
             raise Exception('Input "mode" should be "covariance" or "precision"')
         
+        # Eigendecomposition (without lower bound on the eigenvalues)
+        M = matrix.get_mass_matrix() \
+            if isinstance(matrix, EigenDecomposition) else None
+        d, V = EigenDecomposition(matrix.get_matrix(), M, delta=0).get_factors() 
+        
         # Determine non-zero eigenvalues 
         i_support = np.abs(d)>tol  
-        m = np.sum(i_support)
         
         # Compute new (diagonal) covariance/precision on reduced subspace
-        D = sp.spdiags(d[i_support], 0, m, m) 
+        D = EigenDecomposition(np.diag(d[i_support]), delta=0)
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = D
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = D
         
         # Define new set of support vectors
         W = self.support()
-- 
2.43.0


From 4bef9bc4d18e3042f1da6b1f3b1be9955abb9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 70/87] fix: conditioned GaussianField ignores precision mode,
 mass matrix and constraint

---
 src/gmrf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 36e5271..bc6a298 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1532,13 +1532,14 @@ class GaussianField(object):
                 
                 # Conditional covariance
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                I = np.identity(Vk.shape[1])
+                K_cnd = (K.dot(I) if mode=='covariance' else Q.solve(I)) \
+                    - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
-                print('K_cnd', K_cnd.shape)
-                print('K_cnd', K_cnd[0:10,0:10])
                 # Define random field 
-                X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
+                X = GaussianField(self.size(), mean=mu_cnd, 
+                                  covariance=EigenDecomposition(K_cnd, delta=0))
                 X.update_support()
                 
                 return X
-- 
2.43.0


From 69852cab44d5140bc90664f1c8495a130a2e1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 71/87] fix: conditioning a GaussianField on noisy data raises
 an exception

---
 src/gmrf.py | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index bc6a298..9d04115 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1551,16 +1551,23 @@ class GaussianField(object):
             #
             # Soft constraint
             # 
+            if sp.issparse(A):
+                A = A.toarray()
+            if isinstance(Ko, Real):
+                Ko = Ko*np.identity(A.shape[0])
+            if Vk is None:
+                Vk = np.identity(n)
+            I = np.identity(Vk.shape[1])
             
             #
             # Compute K*A.T and A*K*A.T
             #   
+            Ak = A.dot(Vk)
             if mode=='covariance':    
-                KAT  = K.dot(A.T)
-                AKAT = A.dot(KAT)
+                KAT = Vk.dot(K.dot(Ak.T))
             elif mode=='precision':
-                KAT = Q.solve(A.T)
-                AKAT = A.dot(KAT)
+                KAT = Vk.dot(Q.solve(Ak.T))
+            AKAT = A.dot(KAT)
                 
             if output=='sample':
                 #
@@ -1568,12 +1575,11 @@ class GaussianField(object):
                 #
 
                 # Sample unconditioned field 
-                Xs = self.sample(z=z, n_samples=n_samples, mode=mode, 
-                                 decomposition=decomposition)
+                Xs = self.sample(z=z, n_samples=n_samples, mode=mode)
                 
                 # Sample e|Ax
-                eps = GaussianField(A.shape[0], mean=e, K=Ko, mode='covariance')
-                e = eps.sample(z=z, n_samples=n_samples)
+                eps = GaussianField(A.shape[0], mean=e, covariance=Ko)
+                e = eps.sample(n_samples=Xs.shape[1])
                 
                 # Compute residual
                 r = A.dot(Xs)-e
@@ -1588,16 +1594,23 @@ class GaussianField(object):
             
             elif output=='field':
                 # Conditional mean
-                mu_cnd = mu - A.T.dot(linalg.solve(Ko,e))
-                
-                # Conditional precision
-                Q_cnd = Q + A.T.dot(linalg.solve(Ko,A))
-                
-                # Random field
-                X = GaussianField(self.size(), mean=mu_cnd, K=Q_cnd, 
-                                  mode='precision')
-                
+                mu_cnd = mu - KAT.dot(linalg.solve(Ko+AKAT, A.dot(mu)-e))
+                
+                # Conditional covariance/precision
+                if mode=='covariance':
+                    K_cnd = Vk.dot(K.dot(I)).dot(Vk.T) \
+                        - KAT.dot(linalg.solve(Ko+AKAT, KAT.T))
+                    X = GaussianField(n, mean=mu_cnd, covariance=K_cnd,
+                                      support=self.support())
+                elif mode=='precision':
+                    Q_cnd = Q.dot(I) + Ak.T.dot(linalg.solve(Ko, Ak))
+                    X = GaussianField(n, mean=mu_cnd, 
+                                      precision=Vk.dot(Q_cnd).dot(Vk.T),
+                                      support=self.support())
                 return X
+            
+            else:
+                raise Exception('Input "mode" should be "sample" or "field".')
         """    
         #    
         # For hard constraints, check whether constraint is possible, reduce 
-- 
2.43.0


From 0a114366ad076510a504c00b98c83fd6d8100ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 72/87] fix: GaussianField.truncate calls methods that do not
 exist

---
 src/gmrf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 9d04115..3e145cb 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1278,17 +1278,19 @@ class GaussianField(object):
         mean = self.mean()
         
         # Truncate the eigen-decomposition
-        d, V = self.covariance().get_eig_decomp()
+        d, V = self.covariance().get_factors()
+        W = self.support()
+        if W is not None:
+            V = W.dot(V)
         dk = d[:level]
         Vk = V[:,:level]
         
         # Define truncated Covariance matrix
-        K = SPDMatrix(Vk.dot(np.diag(dk)).dot(Vk.T))
-        K.set_eig_decomp(dk, Vk)
+        K = EigenDecomposition(Vk.dot(np.diag(dk)).dot(Vk.T), delta=0)
         
         # Return Gaussian field with truncated covariance
-        tht = GaussianField(self.size(), mean=mean, K=K)
-        tht.set_support(Vk)
+        tht = GaussianField(self.size(), mean=mean, covariance=K)
+        tht.update_support()
         
         return tht
         
-- 
2.43.0


From dd29f1e3f0afe62c14b1bbf21d29b1efce82db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 73/87] fix: GaussianField.b reads an attribute that does not
 exist

---
 src/gmrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 3e145cb..d8a96c5 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1147,9 +1147,9 @@ class GaussianField(object):
         """
         Returns the vector of central tendency in canonical form
         """
-        if self.__b is None:
-            self.set_b()
-        return self.__b
+        if self.get_canonical_mean() is None:
+            self.compute_canonical_mean()
+        return self.get_canonical_mean()
 
 
     def covariance(self):
-- 
2.43.0


From ae001055dd61064081bbdd8b42d585221c2da906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 74/87] fix: scaling a quadrilateral quadrature rule calls a
 function that does not exist

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index ea6af4b..a381050 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -395,7 +395,7 @@ class GaussRule():
                 assert position.shape == (1,2), \
                     'Position must have dimensions (1,2).'
                     
-                assert np.dim(scale)==0, \
+                assert np.ndim(scale)==0, \
                     'Input "scalar" should have dimension 0.'
                 
                 # Scale the weights 
-- 
2.43.0


From 56386ba72d14032d87f64ae3d78a0a311860c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 75/87] fix: triangular elements could not be constructed or
 evaluated

---
 src/fem.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 7807508..47adbc7 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -733,7 +733,12 @@ class TriFE(Element):
             element_type: str, type of triangular element
                 ('P1','P2','P3',or 'Bubble')
         """
-        Element.__init__(self,dim,element_type)
+        if dim==1:
+            cell_type = 'interval'
+        elif dim==2:
+            cell_type = 'triangle'
+
+        Element.__init__(self, dim, element_type, cell_type)
 
         #
         # One dimensional
@@ -845,7 +850,13 @@ class TriFE(Element):
                      lambda x,y:  4.0 - 16*x - 8*y + 24*x*y + 12*(x**2),
                      lambda x,y:        27*x       - 54*x*y - 27*(x**2)]
         self.__n_dof = n_dof
-        self.__cell_type = 'triangle'
+
+
+    def n_dofs(self):
+        """
+        Returns the number of basis functions
+        """
+        return self.__n_dof
 
 
     def phi(self,n,x):
-- 
2.43.0


From cb2711653fc5e86b1c012766997c6ed5a5a2e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 76/87] fix: neighbors around a vertex of a periodic mesh one
 cell wide were searched forever

---
 src/mesh.py | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7460aed..a0941d2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3492,64 +3492,59 @@ class Cell(Tree):
             # Anti-clockwise
             #
             neighbors = []
-            cell = self
+            cell, vertex = self, pivot
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot)
+                half_edge = cell.incident_half_edge(vertex)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
                 #
                 if neighbor is None:
                     break
-                elif neighbor==self:
-                    #
-                    # Full rotation or no neighbors
-                    #
-                    if flag is not None:
-                        return [nb for nb in neighbors if nb.is_marked(flag)]
-                    return neighbors
-                else:
+
+                # The pivot, as seen from the neighbor
+                cell, vertex = neighbor, half_edge.twin().base()
+                if neighbor==self:
+                    if vertex==pivot:
+                        #
+                        # Full rotation or no neighbors
+                        #
+                        if flag is not None:
+                            return [nb for nb in neighbors if nb.is_marked(flag)]
+                        return neighbors
+                elif neighbor not in neighbors:
                     #
                     # Got at neighbor!
                     #
                     neighbors.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
             #
             # Clockwise
             #
             neighbors_clockwise = []
-            cell = self
+            cell, vertex = self, pivot
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
+                half_edge = cell.incident_half_edge(vertex, reverse=True)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
                 #
                 if neighbor is None:
                     break
-                elif neighbor==self:
-                    #
-                    # Full rotation or no neighbors
-                    #
-                    if flag is not None:
-                        return [nb for nb in neighbors if nb.is_marked(flag)]
-                    return neighbors
-                else:
+
+                # The pivot, as seen from the neighbor
+                cell, vertex = neighbor, half_edge.twin().head()
+                if neighbor!=self and neighbor not in neighbors \
+                    and neighbor not in neighbors_clockwise:
                     #
                     # Got a neighbor
                     #
                     neighbors_clockwise.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
             #
             # Combine clockwise and anticlockwise neighbors
             #
-- 
2.43.0


From 45e361229f44f43ab59de590f77750c6585b5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:03 +0000
Subject: [PATCH 77/87] fix: degrees of freedom of a cell that is its own
 neighbor were handed out again to the next cell

---
 src/fem.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 47adbc7..020c2a2 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1459,9 +1459,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     vertex_dofs = self.get_cell_dofs(cell, vertex)
-                    for dof in dofs:
-                        if dof in vertex_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in vertex_dofs]
             if dim==1:
                 #
                 # 1D Mesh: Fill in interior
@@ -1517,9 +1515,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
-                        if dof in cell_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
 
             # Subtract unused dofs from total dof count
             count -= len(dofs)
-- 
2.43.0


From 82829d2f9881a2a4d3b3be01db9da369686d4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 78/87] fix: interior degrees of freedom of a periodic interval
 were handed out again to its children

---
 src/fem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 020c2a2..c34681a 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1426,7 +1426,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
@@ -1475,6 +1475,10 @@ class DofHandler(object):
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
 
+                    # Discard used dofs
+                    cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
+
             elif dim==2:
                 #
                 # Assign dofs to HalfEdges
-- 
2.43.0


From e5bd3171d247e856b7c4856d06df2e8ba1597f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 79/87] fix: boundary regions of periodic interval meshes are
 empty instead of failing

---
 src/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index a0941d2..0a25ae2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6730,10 +6730,10 @@ class Mesh1D(Mesh):
 
     def get_boundary_vertices(self):
         """
-        Returns the mesh endpoint vertices
+        Returns the mesh endpoint vertices (none if the mesh is periodic)
         """
         if self.is_periodic():
-            return None
+            return ()
         else:
             v0 = self.cells.get_child(0).base()
             v1 = self.cells.get_child(-1).head()
@@ -6748,7 +6748,7 @@ class Mesh1D(Mesh):
             #
             # Periodic Mesh: No cells on the boundary
             #
-            return None
+            return ()
         else:
             for cell in self.cells.get_leaves(subforest_flag=subforest_flag):
                 #
-- 
2.43.0


From 7d25512ae16476954d6345dafcf3863d317d3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:58 +0000
Subject: [PATCH 80/87] fix: line plots of explicit and constant functions

---
 src/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plot.py b/src/plot.py
index a4fe630..0157fd6 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -966,7 +966,10 @@ class Plot(object):
             #
             # Evaluate function on local interval
             # 
-            ff = f.eval(x=xx, cell=interval)
+            if isinstance(f, Nodal):
+                ff = f.eval(x=xx, cell=interval)
+            else:
+                ff = f.eval(xx)
             #
             # Add x and y-values to list
             #  
-- 
2.43.0


From aae43ff501a040d2627948f767190e7bd484a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:41 +0000
Subject: [PATCH 81/87] fix: contour plots of constant functions

---
 src/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index 0157fd6..79ffac1 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -643,10 +643,10 @@ class Plot(object):
         nx, ny = resolution 
         x,y = np.meshgrid(np.linspace(x0,x1,nx),np.linspace(y0,y1,ny))
         xy = np.array([x.ravel(), y.ravel()]).T
-        if isinstance(f, Explicit):
-            ff = f.eval(xy)
-        else:
+        if isinstance(f, Nodal):
             ff = f.eval(xy, derivative=derivative)
+        else:
+            ff = f.eval(xy)
         z  = ff[:,n_sample].reshape(x.shape)
         
         cm = axis.contourf(x,y,z,100,cmap=cmap, vmin=vmin, vmax=vmax,alpha=alpha)
-- 
2.43.0


From 2c69713bc1e4f4861c2356b543aed018892113e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 82/87] fix: wire plots draw the chosen sample at its height

---
 src/plot.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/plot.py b/src/plot.py
index 79ffac1..ed88865 100644
--- a/src/plot.py
+++ b/src/plot.py
@@ -836,7 +836,7 @@ class Plot(object):
         # 
         if self.__quickview:
             fig = plt.figure()
-            axis = fig.gca(projection="3d")
+            axis = fig.add_subplot(111, projection='3d')
         else:
             assert axis is not None, 'Axis not specified.'
             assert axis.name=="3d", 'Axis required to be 3D.'
@@ -866,9 +866,11 @@ class Plot(object):
                 xx = x0 + t*(x1-x0)
                 yy = y0 + t*(y1-y0)
                 xy  = np.array([xx,yy]).T
-                # TODO: How do we incorporate cell information into the function? 
-                #zz = f.eval(xy, cell=cell)
-                zz = f.eval(xy)
+                if isinstance(f, Nodal):
+                    zz = f.eval(xy, cell=cell)
+                else:
+                    zz = f.eval(xy)
+                zz = zz[:,n_sample]
                 x.extend(list(xx))
                 y.extend(list(yy))
                 z.extend(list(zz))
@@ -876,7 +878,7 @@ class Plot(object):
             verts = [list(zip(x,y,z))]
             poly = Poly3DCollection(verts, edgecolor="black", linewidth=0.5,
                                     facecolor="white")
-            axis.add_collection3d(poly, zs='z')
+            axis.add_collection3d(poly)
             
             # 
             # Update minimum function value
-- 
2.43.0


From 584dde5d7071e3ba6ae32742dfd6d1d8514c8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 83/87] fix: prescribed values are not added to those of
 hanging nodes (LinearSystem)

---
 src/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index 4dd5f73..f8fb192 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -296,7 +296,11 @@ class LinearSystem(object):
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
         constraints = self.__constraints
+        hanging_nodes = dh.get_hanging_nodes(subforest_flag)
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
+            if dof in hanging_nodes:
+                # Already determined by its supporting dofs
+                continue
             constraints['constrained_dofs'].append(dof)
             constraints['supporting_dofs'].append([])
             constraints['coefficients'].append([])
-- 
2.43.0


From 4e7c576538dbfb7968b64242d3399388285f3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 84/87] fix: prescribed values are not added to those of
 hanging nodes (Assembler.solve)

---
 src/assembler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assembler.py b/src/assembler.py
index a381050..cadc3ea 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3785,6 +3785,7 @@ class Assembler(object):
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
+        u[phi_lin.d2i(self.get_dofs('hanging_nodes', i_problem=i_problem))] = 0
         u += C.dot(u)
 
         return u     
-- 
2.43.0


From 7cf328ba59e3161720b3c6c7a9d9e1a996bafbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:52 +0000
Subject: [PATCH 85/87] fix: neighbors around a vertex on a one-sided tear were
 searched forever

---
 src/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 0a25ae2..1096aee 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3539,6 +3539,11 @@ class Cell(Tree):
 
                 # The pivot, as seen from the neighbor
                 cell, vertex = neighbor, half_edge.twin().head()
+                if neighbor==self and vertex==pivot:
+                    #
+                    # Full rotation (past a half-edge without a twin)
+                    #
+                    break
                 if neighbor!=self and neighbor not in neighbors \
                     and neighbor not in neighbors_clockwise:
                     #
-- 
2.43.0


From 0149c1696db4d48051fa56bf14e9387450fb3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:39 +0000
Subject: [PATCH 86/87] fix: Mesh2D.tear_region failed at the second of two
 twin half-edges

---
 src/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 1096aee..81a9fcd 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7497,6 +7497,11 @@ class Mesh2D(Mesh):
         #
         for he in self.get_region(flag=flag, entity_type='half_edge',
                                   subforest_flag=subforest_flag):
+            if he.twin() is None:
+                #
+                # Already torn (from the other side), or on the boundary
+                #
+                continue
             #
             # Assign New Vertices to half-edge
             #
-- 
2.43.0


From 959d1e98e1ccb7f148f0b9a6c4d420401b257e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:18 +0000
Subject: [PATCH 87/87] fix: modifying nodal data of integers truncated the new
 values

---
 src/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/function.py b/src/function.py
index f8d374d..68e5da9 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1742,6 +1742,10 @@ class Nodal(Map):
         if dofs is None:
             dofs = self.basis().dofs()
         idx = self.basis().d2i(dofs)
+
+        # Convert the data type if necessary (integer data would be truncated)
+        dtype = np.result_type(self.__data, data)
+        self.__data = self.__data.astype(dtype, copy=False)
         self.__data[idx,i_sample] = data
 
 
-- 
2.43.0

