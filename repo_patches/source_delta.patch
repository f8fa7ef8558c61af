From 33e7b47998c59332bd05c7af0f97da00f76e4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 01/59] fix: edges/faces: interior and nonmanifold indices must
 refer to the returned, boundary-first list

---
 src/gpytoolbox/edges.py | 4 ++--
 src/gpytoolbox/faces.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/edges.py b/src/gpytoolbox/edges.py
index 73df634..004548b 100644
--- a/src/gpytoolbox/edges.py
+++ b/src/gpytoolbox/edges.py
@@ -68,10 +68,10 @@ def edges(F,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_edges.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_edges.shape[0], E.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold edges have three or more halfedges.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_edges.shape[0] + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return E
diff --git a/src/gpytoolbox/faces.py b/src/gpytoolbox/faces.py
index 66433a2..0138e72 100644
--- a/src/gpytoolbox/faces.py
+++ b/src/gpytoolbox/faces.py
@@ -68,10 +68,10 @@ def faces(T,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_faces.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_faces.shape[0], F.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold faces have three or more halffaces.
-            retval.append(np.where(unique_count>2)[0])
+            retval.append(bdry_faces.shape[0] + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return F
-- 
2.43.0


From 053227bc96174de382cd030bd681b7bbe9c1e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 02/59] fix: cut_edges: an empty edge list returns the
 unchanged mesh instead of raising TypeError

---
 src/gpytoolbox/cut_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/cut_edges.py b/src/gpytoolbox/cut_edges.py
index 286240f..4f63d54 100644
--- a/src/gpytoolbox/cut_edges.py
+++ b/src/gpytoolbox/cut_edges.py
@@ -46,7 +46,7 @@ def cut_edges(F,E):
     assert F.shape[1]==3, "Only works for triangle meshes."
     n = np.max(F)+1
     if E.size==0:
-        return np.arange(F.size[0]), np.arange(n)
+        return F.copy(), np.arange(n)
     assert E.shape[1]==2, "E is a (k,2) matrix."
 
     # This code is a translation of https://github.com/alecjacobson/gptoolbox/blob/master/mesh/cut_edges.m by Alec Jacobson
-- 
2.43.0


From 277aa798127b4ff7c590652a5eda73c199eecd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 03/59] fix: array_correspondence: an empty B means no match
 (-1), not an IndexError

---
 src/gpytoolbox/array_correspondence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/array_correspondence.py b/src/gpytoolbox/array_correspondence.py
index 7f27941..74d18a5 100644
--- a/src/gpytoolbox/array_correspondence.py
+++ b/src/gpytoolbox/array_correspondence.py
@@ -68,7 +68,8 @@ def array_correspondence(A,B,axis=None):
     # grill out the hits from A.
     imap = idx[inv[uB.shape[0]:]]
     imap[imap>=uB.shape[0]] = -1
-    f = np.where(imap<0, -1, mapB[imap])
+    f = np.full(imap.shape, -1, dtype=mapB.dtype)
+    f[imap>=0] = mapB[imap[imap>=0]]
 
     return f
 
-- 
2.43.0


From a8e1765f7aeb20a523fd25f220c4b99400c2f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 04/59] fix: remove_unreferenced: an empty index list no longer
 raises ValueError

---
 src/gpytoolbox/remove_unreferenced.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/gpytoolbox/remove_unreferenced.py b/src/gpytoolbox/remove_unreferenced.py
index 4b640b8..93cdabe 100644
--- a/src/gpytoolbox/remove_unreferenced.py
+++ b/src/gpytoolbox/remove_unreferenced.py
@@ -67,20 +67,13 @@ def remove_unreferenced(V, F,
 
     assert (F>=-1).all(), "The only allowed negative value is -1."
     if V is None:
-        n = np.max(F)+1
+        n = np.max(F)+1 if F.size>0 else 0
     else:
         n = V.shape[0]
-        assert np.max(F)<n, "V is too small for F."
+        assert F.size==0 or np.max(F)<n, "V is too small for F."
 
     J,idx,newF = np.unique(F, return_index=True, return_inverse=True)
-    if len(J)<1:
-        emptyV = None if V is None else np.array([],dtype=V.dtype)
-        emptyF = np.array([],dtype=F.dtype)
-        if return_maps:
-            return emptyV, emptyF, emptyF.copy(), emptyF.copy()
-        else:
-            return emptyV, emptyF
-    if J[0] == -1:
+    if len(J)>0 and J[0] == -1:
         J = J[1:]
         newF -= 1
         I = np.full((n+1,), -1)
-- 
2.43.0


From 4f5fb3127e8e3e50c71f25c7cf40b9dcf90dfb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 05/59] fix: subdivide: upsampling a polyline without positions
 (V=None) no longer raises

---
 src/gpytoolbox/subdivide.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/subdivide.py b/src/gpytoolbox/subdivide.py
index 9a087f1..3eb04bc 100644
--- a/src/gpytoolbox/subdivide.py
+++ b/src/gpytoolbox/subdivide.py
@@ -92,7 +92,6 @@ def _one_subdivision(V,F,method,return_matrix):
 def _upsample_polyline(V,F,return_matrix):
     # Upsampling of every polyline by inserting a vertex in the middle of each
     # segment.
-    assert V.shape[0]>1
     assert F.shape[1]==2
     assert F.shape[0]>0
 
@@ -107,6 +106,7 @@ def _upsample_polyline(V,F,return_matrix):
     if V is None:
         Vu = None
     else:
+        assert V.shape[0]>1
         Vnew = 0.5*(V[F[:,0],:] + V[F[:,1],])
         Vu = np.concatenate((V,Vnew), axis=0)
 
-- 
2.43.0


From 52efff264139d3a45409303c355481ab5d4bd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 06/59] fix: dec_h0inv: invert the summed vertex area, not each
 incident face's share

---
 src/gpytoolbox/dec_h0inv_intrinsic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/dec_h0inv_intrinsic.py b/src/gpytoolbox/dec_h0inv_intrinsic.py
index 5452628..8318e37 100644
--- a/src/gpytoolbox/dec_h0inv_intrinsic.py
+++ b/src/gpytoolbox/dec_h0inv_intrinsic.py
@@ -37,10 +37,13 @@ def dec_h0inv_intrinsic(l_sq,F,n=None):
     if n is None:
         n = np.max(F)+1
 
+    # Sum the areas of all faces incident on a vertex before inverting them.
     A3 = 0.5/3. * doublearea_intrinsic(l_sq,F)
     i = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    j = np.concatenate((F[:,0],F[:,1],F[:,2]), axis=0)
-    k = np.nan_to_num(1. / np.concatenate((A3,A3,A3), axis=0))
-    h0inv = sp.sparse.csr_matrix((k, (i,j)), shape=(n,n))
+    A = np.bincount(i, weights=np.concatenate((A3,A3,A3), axis=0), minlength=n)
+    k = np.zeros(n)
+    k[A!=0] = 1. / A[A!=0]
+
+    h0inv = sp.sparse.diags(k, shape=(n,n), format='csr')
 
     return h0inv
-- 
2.43.0


From 2ef0ade95470960c994f46782306f358cdd0cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 07/59] fix: tip_angles: small-angle series only for small
 angles, not for every small triangle

---
 src/gpytoolbox/tip_angles_intrinsic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/tip_angles_intrinsic.py b/src/gpytoolbox/tip_angles_intrinsic.py
index 7d563f8..65f8d52 100644
--- a/src/gpytoolbox/tip_angles_intrinsic.py
+++ b/src/gpytoolbox/tip_angles_intrinsic.py
@@ -46,7 +46,8 @@ def tip_angles_intrinsic(l_sq, F,
         if use_small_angle_approx:
             #If c is very small, expect numerical error and use a series approx.
             small = np.sqrt(np.finfo(c.dtype).eps) #This is quite aggressive, can also try without sqrt
-            i = c<small
+            #Small is relative to the other two edges, not to the unit length.
+            i = c<small*np.maximum(a,b)
             if np.any(i):
                 # https://www.nayuki.io/page/numerically-stable-law-of-cosines
                 sqrt_ai, sqrt_bi = np.sqrt(a[i]), np.sqrt(b[i])
-- 
2.43.0


From b423515666b3145249b446b48572a5b4fb4d90f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 08/59] fix: linear_elasticity_stiffness: keep every vertex
 column when there are more vertices than 2x faces

---
 src/gpytoolbox/linear_elasticity_stiffness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity_stiffness.py b/src/gpytoolbox/linear_elasticity_stiffness.py
index 6b34546..ea56467 100644
--- a/src/gpytoolbox/linear_elasticity_stiffness.py
+++ b/src/gpytoolbox/linear_elasticity_stiffness.py
@@ -65,7 +65,7 @@ def linear_elasticity_stiffness(V,F,K=1.75,mu=0.0115,volumes=None,mass=None):
 
     if dim==2:
         G = grad(np.concatenate((V, np.zeros((V.shape[0],1))), axis=1),F)
-        G = G[0:(2*F.shape[0]),0:(2*F.shape[0])]
+        G = G[0:(2*F.shape[0]),:]
         G0 = G[0:F.shape[0],:]
         G1 = G[F.shape[0]:(2*F.shape[0])]
         strain0 = hstack((G0, Z))
-- 
2.43.0


From b042cc2439194f07c5c34cc578671a1b0282f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 09/59] fix: linear_elasticity: von Mises stress was too small
 by a factor sqrt(1/2)

---
 src/gpytoolbox/linear_elasticity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity.py b/src/gpytoolbox/linear_elasticity.py
index 5773322..2fbf6f3 100644
--- a/src/gpytoolbox/linear_elasticity.py
+++ b/src/gpytoolbox/linear_elasticity.py
@@ -93,7 +93,7 @@ def linear_elasticity(V,F,U0,dt=0.1,bb=None,bc = None
         sigma_11 = face_stress_vec[0:F.shape[0]]
         sigma_22 = face_stress_vec[F.shape[0]:(2*F.shape[0])]
         sigma_12 = face_stress_vec[(2*F.shape[0]):(3*F.shape[0])]
-        sigma_v = np.sqrt(0.5*(sigma_11*sigma_11 - sigma_11*sigma_22 + sigma_22*sigma_22 + 3*sigma_12*sigma_12))
+        sigma_v = np.sqrt(sigma_11*sigma_11 - sigma_11*sigma_22 + sigma_22*sigma_22 + 3*sigma_12*sigma_12)
     elif V.shape[1]==3:
         print("TET MESHES UNSUPPORTED")
     return U, sigma_v
\ No newline at end of file
-- 
2.43.0


From c5e93d84a7be4fe1350774ec1c11ba392aba40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 10/59] fix: quadtree_boundary: look in all six directions of
 an octree

---
 src/gpytoolbox/quadtree_boundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/quadtree_boundary.py b/src/gpytoolbox/quadtree_boundary.py
index 6e712f2..8f7944e 100644
--- a/src/gpytoolbox/quadtree_boundary.py
+++ b/src/gpytoolbox/quadtree_boundary.py
@@ -55,9 +55,11 @@ def quadtree_boundary(CH,A):
 
     children_boundary = []
     other_boundary = []
+    # quadtrees have four directions, octrees six
+    dim = 3 if CH.shape[1]==8 else 2
     for i in range(A.shape[0]):
         # go over possible direction
-        for j in range(1,5):
+        for j in range(1,2*dim+1):
             # is there a neighbor in this direction?
             j_neighbors = (A[i,:]==j).sum(axis=1).squeeze()
             #print(j_neighbors)
-- 
2.43.0


From 9ab9637edfb97e689f59a4b9d175afe0a0ae1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 11/59] fix: bad_quad_mesh_from_quadtree: H is empty for a
 quadtree, as documented

---
 src/gpytoolbox/bad_quad_mesh_from_quadtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/bad_quad_mesh_from_quadtree.py b/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
index b7258fa..8091e3b 100644
--- a/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
+++ b/src/gpytoolbox/bad_quad_mesh_from_quadtree.py
@@ -53,7 +53,7 @@ def bad_quad_mesh_from_quadtree(C,W,CH):
     is_child = (CH[:,1]==-1)
     W = W[is_child][:,None]
     C = C[is_child,:]
-    H = None
+    H = np.zeros((0,8),dtype=int) # empty unless this is an octree
     # translate this
     Q = np.linspace(0,W.shape[0]-1,W.shape[0],dtype=int)[:,None]
     if dim==2:
-- 
2.43.0


From 3c9ecbace3497835a37e58abb8ceac5abfa1e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 12/59] fix: traverse_aabbtree: default queueing strategy
 called itself with too few arguments

---
 src/gpytoolbox/traverse_aabbtree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gpytoolbox/traverse_aabbtree.py b/src/gpytoolbox/traverse_aabbtree.py
index 050f65b..0795607 100644
--- a/src/gpytoolbox/traverse_aabbtree.py
+++ b/src/gpytoolbox/traverse_aabbtree.py
@@ -94,8 +94,7 @@ def traverse_aabbtree(C,W,CH,tri_indices,split_dim,traversal_bool_fun,add_to_que
         # By default breadth first
         def add_to_queue(curr_queue,CHH,parent_ind):
             for i in range(CHH.shape[1]):
-                    add_to_queue(curr_queue,CHH[parent_ind,i])
-            # curr_queue.append(new_ind)
+                curr_queue.append(CHH[parent_ind,i])
 
 
     queue = [0]
-- 
2.43.0


From 3f631404a47a3bcdec557363c83f429f3bf476a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 13/59] fix: initialize_aabbtree: element boxes were wrong for
 coordinates beyond 10000

---
 src/gpytoolbox/initialize_aabbtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/initialize_aabbtree.py b/src/gpytoolbox/initialize_aabbtree.py
index f410113..e938c2b 100644
--- a/src/gpytoolbox/initialize_aabbtree.py
+++ b/src/gpytoolbox/initialize_aabbtree.py
@@ -63,8 +63,8 @@ def initialize_aabbtree(V,F=None,vmin=None,vmax=None):
     #print(C)
 
     # We need to compute this once, we'll need it for the subdivision:
-    vmin_big = 10000*np.ones((num_s,dim))
-    vmax_big = -10000*np.ones((num_s,dim))
+    vmin_big = np.inf*np.ones((num_s,dim))
+    vmax_big = -np.inf*np.ones((num_s,dim))
     for j in range(dim):
         for i in range(simplex_size):
             vmax_big[:,j] = np.amax(np.hstack((V[F[:,i],j][:,None],vmax_big[:,j][:,None])),axis=1)[:]
-- 
2.43.0


From fd2b03537bcb82b407ba7220ac9d71aa394f6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 14/59] fix: squared_distance_to_element: degenerate triangles
 gave NaN distances

---
 src/gpytoolbox/squared_distance_to_element.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/squared_distance_to_element.py b/src/gpytoolbox/squared_distance_to_element.py
index 9867b10..1634433 100644
--- a/src/gpytoolbox/squared_distance_to_element.py
+++ b/src/gpytoolbox/squared_distance_to_element.py
@@ -84,8 +84,20 @@ def squared_distance_to_element(point,V,element):
             V[element[2],:]
         ))
         # print(tri)
-        sqrD,nearest_point = pointTriangleDistance(tri,point)
-        lmb = barycentric_coordinates(nearest_point,V[element[0],:],V[element[1],:],V[element[2],:])
+        normal = np.cross(tri[1,:]-tri[0,:],tri[2,:]-tri[0,:])
+        if np.dot(normal,normal) <= 1e-28*np.max(np.sum((tri-np.roll(tri,1,axis=0))**2.0,axis=1))**2.0:
+            # Degenerate triangle: it is the union of its three edges
+            sqrD = np.inf
+            for i in range(3):
+                edge = [i,(i+1)%3]
+                edge_sqrD,edge_lmb = squared_distance_to_element(point,tri,np.array(edge))
+                if edge_sqrD<sqrD:
+                    sqrD = edge_sqrD
+                    lmb = np.zeros(3)
+                    lmb[edge] = edge_lmb
+        else:
+            sqrD,nearest_point = pointTriangleDistance(tri,point)
+            lmb = barycentric_coordinates(nearest_point,V[element[0],:],V[element[1],:],V[element[2],:])
     return sqrD,lmb
 
 
-- 
2.43.0


From 6f6ae3e63d397ec2c2f47fc245f8562c81a516e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 15/59] fix: triangle_triangle_distance: small triangles were
 treated as degenerate

---
 src/gpytoolbox/triangle_triangle_distance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/triangle_triangle_distance.py b/src/gpytoolbox/triangle_triangle_distance.py
index 7d3f2be..ba22113 100644
--- a/src/gpytoolbox/triangle_triangle_distance.py
+++ b/src/gpytoolbox/triangle_triangle_distance.py
@@ -94,7 +94,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     # # print("Sn : ", Sn)
     Snl = np.dot(Sn,Sn)
 
-    if (Snl > 1e-15):
+    if (Snl > 1e-15*np.dot(Sv[0],Sv[0])*np.dot(Sv[1],Sv[1])):
         # V = S[0] - T[0]
         Tp = [np.dot(Sn,S[0] - T[0]), np.dot(Sn,S[0] - T[1]), np.dot(Sn,S[0] - T[2])]
         point = -1
@@ -136,7 +136,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     Tn = np.cross(Tv[0],Tv[1])
     Tnl = np.dot(Tn,Tn)
 
-    if (Tnl > 1e-15):
+    if (Tnl > 1e-15*np.dot(Tv[0],Tv[0])*np.dot(Tv[1],Tv[1])):
         # V = T[0] - S[0]
         # Sp = [T[0] - S[0], T[0] - S[1], T[0] - S[2]]
         Sp = [np.dot(Tn,T[0] - S[0]), np.dot(Tn,T[0] - S[1]), np.dot(Tn,T[0] - S[2])]
-- 
2.43.0


From a58c08f404402fc3b43a5ca25255e78cb48b0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 16/59] fix: ray_box_intersect: a miss returned finite
 coordinates; an inside hit returned the input array itself

---
 src/gpytoolbox/ray_box_intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/ray_box_intersect.py b/src/gpytoolbox/ray_box_intersect.py
index 5954672..cea1e93 100644
--- a/src/gpytoolbox/ray_box_intersect.py
+++ b/src/gpytoolbox/ray_box_intersect.py
@@ -65,7 +65,7 @@ def ray_box_intersect(origin,dir,center,width):
 
     
     if inside:
-        hit_coord = origin
+        hit_coord = origin.copy()
         return True, hit_coord
 
     for i in range(dim):
@@ -86,7 +86,7 @@ def ray_box_intersect(origin,dir,center,width):
         if (whichPlane != i):
             hit_coord[i] = origin[i] + maxT[whichPlane]*dir[i]
             if ( (hit_coord[i] < minB[i]) or (hit_coord[i] > maxB[i])):
-                return False, hit_coord
+                return False, np.inf*np.ones(dim)
         else:
             hit_coord[i] = candidatePlane[i]
     
-- 
2.43.0


From bce6ceaf312da2ce3379e10a4d8a00aa19dd313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 17/59] fix: ray_triangle_intersect: small triangles were
 always missed

---
 src/gpytoolbox/ray_triangle_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_triangle_intersect.py b/src/gpytoolbox/ray_triangle_intersect.py
index 5e2ce59..2547749 100644
--- a/src/gpytoolbox/ray_triangle_intersect.py
+++ b/src/gpytoolbox/ray_triangle_intersect.py
@@ -59,7 +59,7 @@ def ray_triangle_intersect(origin,dir, v0, v1, v2, return_negative=False):
     pvec = np.cross(dir,v0v2)
     det = np.dot(v0v1,pvec)
 
-    if (np.abs(det) < 1e-6):
+    if (np.abs(det) <= 1e-12*np.linalg.norm(dir)*np.linalg.norm(np.cross(v0v1,v0v2))):
         t =  np.inf
         hit = np.inf*np.ones(3)
         is_hit = False
-- 
2.43.0


From a65401227ddc1ae709c17f4f40b18d929817ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 18/59] fix: ray_polyline_intersect: a collinear edge replaced
 nearer hits, ignored max_distance and was hit at its far end

---
 src/gpytoolbox/ray_polyline_intersect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index bdd2fb7..ba216ab 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -72,7 +72,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 sign1 = np.dot(a1 - position,direction)
                 # How far are they?
                 t0 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
-                t1 = np.linalg.norm(a0 - position)/np.linalg.norm(direction)
+                t1 = np.linalg.norm(a1 - position)/np.linalg.norm(direction)
                 hit = -1
                 if sign0>0 and sign1>0:
                     if t0<t1:
@@ -84,14 +84,14 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
                 elif sign1>0:
                     hit = 1
                 # Assign
-                if hit==0:
+                if hit==0 and t0<distance_to_hit:
                     distance_to_hit = t0
                     x = position + t0*direction
                     ind = i
                     n = np.array([-(a1[1] - a0[1]),a1[0] - a0[0]])
                     # This isn't robust but honestly just don't repeat points in the polyline!
                     n = n/np.linalg.norm(n)
-                elif hit==1:
+                elif hit==1 and t1<distance_to_hit:
                     distance_to_hit = t1
                     x = position + t1*direction
                     ind = i
-- 
2.43.0


From 0169197cfd92c0d82122f0c1164b15b0cfe2a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 19/59] fix: ray_polyline_intersect: a ray through a vertex
 slipped between its two edges

---
 src/gpytoolbox/ray_polyline_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index ba216ab..8e31d98 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -102,7 +102,7 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
             A = np.array( [ [ direction[0] , a1[0] - a0[0] ] , [direction[1] , a1[1]- a0[1] ] ])
             b = np.reshape(a1 - position,(2,1))
             t = solve(A,b)
-            if t[1]>0.0 and t[1]<1.0 and t[0]>0 and t[0]<distance_to_hit:
+            if t[1]>-1e-12 and t[1]<1.0+1e-12 and t[0]>0 and t[0]<distance_to_hit:
                 distance_to_hit = t[0]
                 x = position + t[0]*direction
                 ind = i
-- 
2.43.0


From b361596eb77779fe096a3833a7405dbc16b94c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 20/59] fix: signed_distance_polygon: wrong sign for points at
 the height of a vertex

---
 src/gpytoolbox/signed_distance_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/signed_distance_polygon.py b/src/gpytoolbox/signed_distance_polygon.py
index 7d33985..60cc1b2 100644
--- a/src/gpytoolbox/signed_distance_polygon.py
+++ b/src/gpytoolbox/signed_distance_polygon.py
@@ -52,7 +52,7 @@ def signed_distance_polygon(P,V):
         dotee = np.tile((e[0]**2) + (e[1]**2),(P.shape[0]))
         b = w - np.tile(e,(P.shape[0],1))*np.tile(np.array([np.clip( dotwe/dotee ,0.0,1.0)]).T,(1,2))
         d = np.minimum(d,np.sum( b*b ,axis=1))    
-        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<=V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
+        cond = np.array([ P[:,1]>=V[i,1], P[:,1]<V[j,1], (e[0]*w[:,1])>(e[1]*w[:,0]) ])
         all_true = cond.all(axis=0)
         all_false = (~cond).all(axis=0)
         change_sign = all_true + all_false
-- 
2.43.0


From 0312be6cb0b894898c0d008b94a66fe91465680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 21/59] fix: regular_circle_polyline: the last vertex repeated
 the first one

---
 src/gpytoolbox/regular_circle_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/regular_circle_polyline.py b/src/gpytoolbox/regular_circle_polyline.py
index 600b961..7cab4db 100644
--- a/src/gpytoolbox/regular_circle_polyline.py
+++ b/src/gpytoolbox/regular_circle_polyline.py
@@ -32,7 +32,7 @@ def regular_circle_polyline(n):
 
     assert n>=3, "At least 3 vertices on the boundary."
 
-    φ = np.linspace(0., 2.*np.pi, n)
+    φ = np.linspace(0., 2.*np.pi, n, endpoint=False)
     x = np.cos(φ)
     y = np.sin(φ)
     V = np.stack((x,y), axis=-1)
-- 
2.43.0


From 1704846e05b3868a1b25b7d91722e297e77b35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 22/59] fix: grid_laplacian_eigenfunctions: in 3D, too few
 modes were considered, so the lowest ones could be missing

---
 .../grid_laplacian_eigenfunctions.py          | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/gpytoolbox/grid_laplacian_eigenfunctions.py b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
index 2401fc0..30679bf 100644
--- a/src/gpytoolbox/grid_laplacian_eigenfunctions.py
+++ b/src/gpytoolbox/grid_laplacian_eigenfunctions.py
@@ -58,20 +58,17 @@ def grid_laplacian_eigenfunctions(num_modes,gs,l):
     if dim==3:
         gx, gy, gz = np.meshgrid(np.linspace(0,l[0],gs[0]),np.linspace(0,l[1],gs[1]),np.linspace(0,l[2],gs[2]),indexing='ij')
         v = np.concatenate((np.reshape(gx,(-1, 1),order='F'),np.reshape(gy,(-1, 1),order='F'),np.reshape(gz,(-1, 1),order='F')),axis=1)
-        # This is ad-hoc so it's faster... We should come up with a smarter way of doing this.
-        num_in_each_dim = round(np.sqrt(num_modes//8))
-        # num_in_each_dim = num_modes
-        vals_debug = np.zeros(num_in_each_dim*num_in_each_dim*num_in_each_dim)
-        K_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) % num_in_each_dim
-        J_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // num_in_each_dim % num_in_each_dim
-        I_vector = np.arange(num_in_each_dim*num_in_each_dim*num_in_each_dim) // (num_in_each_dim*num_in_each_dim)
-
-        ind_vectors = []
-        ind_vectors.append(I_vector)
-        ind_vectors.append(J_vector)
-        ind_vectors.append(K_vector)
-        for dd in range(dim):
-            vals_debug = vals_debug + (np.pi**2.0)*((ind_vectors[dd]/l[dd])**2.0)
+        # Consider all modes whose eigenvalue is at most (pi*radius)^2, growing the radius until there are enough of them
+        radius = 1.0/np.max(l)
+        while True:
+            num_in_each_dim = [int(np.floor(radius*l[dd]))+1 for dd in range(dim)]
+            I_vector, J_vector, K_vector = np.reshape(np.indices(num_in_each_dim),(dim,-1))
+            vals_debug = np.zeros(I_vector.shape[0])
+            for dd,ind_vector in enumerate([I_vector,J_vector,K_vector]):
+                vals_debug = vals_debug + (np.pi**2.0)*((ind_vector/l[dd])**2.0)
+            if np.sum(vals_debug<=(np.pi*radius)**2.0)>=num_modes:
+                break
+            radius = 1.5*radius
         # assert((vals_debug==vals).all())
         order = np.argsort(vals_debug)
         relevant_indices = order[0:num_modes]
-- 
2.43.0


From a3f281ed0f4ecce60056ba10941afa73ae83e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 23/59] fix: grid_neighbors: orders beyond two went too far,
 small grids lost neighbours, boundary cells lost themselves

---
 src/gpytoolbox/grid_neighbors.py | 49 ++++++++++++--------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index c1db6ff..c5c1739 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -49,10 +49,8 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
             neigh_idx = np.vstack((idx,neigh_idx))
             neigh_idy = np.vstack((idy,neigh_idy))
 
-        out_of_bounds = np.logical_or(neigh_idx<0, neigh_idx>=gs[1]) | np.logical_or(neigh_idy<0, neigh_idy>=gs[0])
-        
-        # print(out_of_bounds[:,0])
-        neighbor_rows = np.ravel_multi_index((neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
+        # Cell 0 has index zero in every dimension, so its neighbors are the offsets
+        first_order = np.stack((neigh_idy[:,0],neigh_idx[:,0]),axis=-1)
     elif dim==3:
         idz, idy, idx = np.unravel_index(cells, gs, order='F')
         neigh_idx = np.vstack((idx-1, idx+1, idx, idx, idx, idx))
@@ -77,37 +75,26 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
             neigh_idy = np.vstack((idy,neigh_idy))
             neigh_idz = np.vstack((idz,neigh_idz))
         
-        out_of_bounds = np.logical_or(neigh_idx<0, neigh_idx>=gs[2]) | np.logical_or(neigh_idy<0, neigh_idy>=gs[1]) | np.logical_or(neigh_idz<0, neigh_idz>=gs[0])
-        neighbor_rows = np.ravel_multi_index((neigh_idz, neigh_idy, neigh_idx), dims=gs,mode='wrap',order='F')
+        first_order = np.stack((neigh_idz[:,0],neigh_idy[:,0],neigh_idx[:,0]),axis=-1)
 
+    # Higher orders: one more first-order step at a time
+    offsets = first_order
+    for _ in range(order-1):
+        offsets = np.vstack([offsets] + [offset+first_order for offset in offsets])
+        if output_unique:
+            offsets = np.unique(offsets,axis=0)
 
-    current_order = 1
-    while current_order < order:
-        # Switching to a list made this 10x faster in 3D because of the memory allocation magic!
-        neighbor_rows_list = [neighbor_rows]
-        out_of_bounds_list = [out_of_bounds]
-        # neighbor_rows_bigger = neighbor_rows
-        # out_of_bounds_bigger = out_of_bounds
-        for i in range(neighbor_rows.shape[0]):
-            new_out_of_bounds = np.zeros(neighbor_rows.shape,dtype=bool)
-            new_out_of_bounds[:,out_of_bounds[i,:]] = True
-            new_out_of_bounds = new_out_of_bounds | out_of_bounds[:,neighbor_rows[i,:]]
-            new_neighbor_rows = neighbor_rows[:,neighbor_rows[i,:]]
-            # neighbor_rows_bigger = np.vstack((neighbor_rows_bigger,new_neighbor_rows))
-            neighbor_rows_list.append(new_neighbor_rows)
-            # out_of_bounds_bigger = np.vstack((out_of_bounds_bigger,new_out_of_bounds))
-            out_of_bounds_list.append(new_out_of_bounds)
-        neighbor_rows = np.vstack(neighbor_rows_list)
-        out_of_bounds = np.vstack(out_of_bounds_list)
-        # neighbor_rows = neighbor_rows_bigger
-        # out_of_bounds = out_of_bounds_bigger
-        current_order += 1
+    neigh_ids = [ids[None,:] + offsets[:,dd][:,None] for dd,ids in enumerate(np.unravel_index(cells, gs, order='F'))]
+    out_of_bounds = np.zeros(neigh_ids[0].shape,dtype=bool)
+    for dd in range(dim):
+        out_of_bounds = out_of_bounds | (neigh_ids[dd]<0) | (neigh_ids[dd]>=gs[dd])
+    neighbor_rows = np.ravel_multi_index(tuple(neigh_ids), dims=gs,mode='wrap',order='F')
 
     if output_unique:
-        unique_ind = np.unique(neighbor_rows[:,0],return_index=True)[1]
-        neighbor_rows = neighbor_rows[unique_ind,:]
-        out_of_bounds = out_of_bounds[unique_ind,:]
-
+        # Order the neighbors by the (wrapped) index of the first cell's neighbors
+        sort_ind = np.lexsort((np.sum(np.abs(offsets),axis=1),neighbor_rows[:,0]))
+        neighbor_rows = neighbor_rows[sort_ind,:]
+        out_of_bounds = out_of_bounds[sort_ind,:]
 
     neighbor_rows[out_of_bounds] = -1
     # neighbor_rows = neighbor_rows[unique_ind,:]
-- 
2.43.0


From a249f33bf636d1a2f785168e52311592d7680f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 24/59] fix: min_quad_with_fixed and fixed_dof_solve: an empty
 index array raised an error

---
 src/gpytoolbox/fixed_dof_solve.py     | 2 +-
 src/gpytoolbox/min_quad_with_fixed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/fixed_dof_solve.py b/src/gpytoolbox/fixed_dof_solve.py
index 132f5a6..8cd9e5f 100644
--- a/src/gpytoolbox/fixed_dof_solve.py
+++ b/src/gpytoolbox/fixed_dof_solve.py
@@ -134,7 +134,7 @@ class fixed_dof_solve_precompute:
         else:
             self.o = k.shape[0]
             assert k.shape == (self.o,)
-            assert np.min(k)>=0 and np.max(k)<self.n
+            assert self.o==0 or (np.min(k)>=0 and np.max(k)<self.n)
             assert np.unique(k).shape == k.shape, "No duplicate indices"
             self.k = k.copy()
 
diff --git a/src/gpytoolbox/min_quad_with_fixed.py b/src/gpytoolbox/min_quad_with_fixed.py
index b086096..80ebf99 100644
--- a/src/gpytoolbox/min_quad_with_fixed.py
+++ b/src/gpytoolbox/min_quad_with_fixed.py
@@ -183,7 +183,7 @@ class min_quad_with_fixed_precompute:
         else:
             self.o = k.shape[0]
             assert k.shape == (self.o,)
-            assert np.min(k)>=0 and np.max(k)<self.n
+            assert self.o==0 or (np.min(k)>=0 and np.max(k)<self.n)
             assert np.unique(k).shape == k.shape, "No duplicate indices"
             self.k = k.copy()
 
-- 
2.43.0


From a4f1c7368d0dae136fc76e391f8e7c9667e991db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 25/59] fix: read_mesh and write_mesh: the documented explicit
 formats ('obj', 'stl') were rejected

---
 src/gpytoolbox/read_mesh.py  | 4 +++-
 src/gpytoolbox/write_mesh.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index a2a1757..bbc195c 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -82,7 +82,9 @@ def read_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower()
+    if fmt.startswith('.'):
+        fmt = fmt[1:]
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
diff --git a/src/gpytoolbox/write_mesh.py b/src/gpytoolbox/write_mesh.py
index a9c8624..53a4610 100644
--- a/src/gpytoolbox/write_mesh.py
+++ b/src/gpytoolbox/write_mesh.py
@@ -69,7 +69,9 @@ def write_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+    fmt = fmt.lower()
+    if fmt.startswith('.'):
+        fmt = fmt[1:]
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
-- 
2.43.0


From 44f3e12e8c62b8925a859c0befa111c6227b6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 26/59] fix: read_mesh: the OBJ reader ignored tab-separated
 lines, and a quote in a comment swallowed the lines after it

---
 src/gpytoolbox/read_mesh.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index bbc195c..bb7e1c7 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -1,6 +1,5 @@
 import os
 import numpy as np
-import csv
 from gpytoolbox.per_face_normals import per_face_normals 
 from gpytoolbox.remove_duplicate_vertices import remove_duplicate_vertices
 
@@ -161,10 +160,9 @@ def _read_obj_python(file,return_UV,return_N):
     Fn = None
 
     with open(file, newline='') as handle:
-        reader = csv.reader(handle, delimiter=' ')
-        for row in reader:
-            # Remove empty strings
-            row = [s for s in row if s]
+        for line in handle:
+            # Split into whitespace-separated tokens
+            row = line.split()
             if len(row)==0:
                 continue
 
-- 
2.43.0


From d3375cb96ef94f6ce65934427072f01f623a270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 27/59] fix: read_dmat: coefficients separated by spaces
 instead of newlines were rejected

---
 src/gpytoolbox/read_dmat.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/gpytoolbox/read_dmat.py b/src/gpytoolbox/read_dmat.py
index 0e59fe4..c11e6f2 100644
--- a/src/gpytoolbox/read_dmat.py
+++ b/src/gpytoolbox/read_dmat.py
@@ -47,17 +47,11 @@ def read_dmat(file_path):
                     data[i, j] = float_value
 
         else:  # ASCII file
-            # Read ASCII data
+            # Read ASCII data: coefficients separated by any whitespace
             data = np.empty((rows, cols))
+            coefficients = f.read().decode('ascii').split()
             for j in range(cols):
                 for i in range(rows):
-                    while True:
-                        # Read the next coefficient
-                        c = f.read(0)
-                        if c == b'' or c == b'\n':
-                            break
-                    # Read the next float value
-                    float_value = float(f.readline().decode('ascii').strip())
-                    data[i, j] = float_value
+                    data[i, j] = float(coefficients[i + j*rows])
 
     return data
-- 
2.43.0


From 06422fbf9a44aa0fee0cd96fd1a4b2be41a07ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 28/59] fix: metropolis_hastings: the value of the initial
 sample was returned as zero

---
 src/gpytoolbox/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index e45cffc..0c27018 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -55,6 +55,7 @@ def metropolis_hastings(unnorm_distr,
     S[0,:] = x0 # Hopefully this works!
     
     f0 = unnorm_distr(x0)
+    F[0] = f0
     sample_num = 2
     while sample_num<(num_samples+1):
         # Compute next candidate sample
-- 
2.43.0


From a71b1465f880bef3d3af190e17f7e8733cddabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 29/59] fix: metropolis_hastings: rejected candidates must
 repeat the current sample, or the samples do not follow the distribution

---
 src/gpytoolbox/metropolis_hastings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index 0c27018..11e9df0 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -69,10 +69,10 @@ def metropolis_hastings(unnorm_distr,
         #print(f1/f0)
         if r<(f1/f0):
             # If accepted, update current sample with candidate sample
-            # and add to S and F
             x0 = x1
             f0 = f1
-            S[sample_num-1,:] = x1
-            F[sample_num-1] = f1
-            sample_num = sample_num + 1
+        # Add to S and F; if rejected, the current sample counts once more
+        S[sample_num-1,:] = x0
+        F[sample_num-1] = f0
+        sample_num = sample_num + 1
     return S,F
\ No newline at end of file
-- 
2.43.0


From 653b109ae676654ac823f371dca58da63ea04b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 30/59] fix: particle_swarm: an objective returning a plain
 float raised AttributeError, and a 1-element array made the best value an
 array

---
 src/gpytoolbox/particle_swarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 03084c2..dc5f5c1 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -71,7 +71,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
         # This x
         xi = x[i,:]
         # print(xi)
-        f = fun(xi)
+        f = np.float64(np.squeeze(fun(xi)))
         # print(xi)
         best_xi[i,:] = xi.copy()
         best_fi[i] = np.squeeze(f.copy())
@@ -108,7 +108,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
             x[i,:] = np.maximum(x[i,:],lb)
             x[i,:] = np.minimum(x[i,:],ub)
             # Evaluate objective
-            f = fun(x[i,:])
+            f = np.float64(np.squeeze(fun(x[i,:])))
             # Update best position
             if f < best_fi[i]:
                 best_xi[i,:] = x[i,:].copy()
-- 
2.43.0


From 587be254f67879d8c56a8ebdee76a6531fa6434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 31/59] fix: compactly_supported_normal counts every piece
 exactly once at the breakpoints

---
 src/gpytoolbox/compactly_supported_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/compactly_supported_normal.py b/src/gpytoolbox/compactly_supported_normal.py
index 504ef07..71b8157 100644
--- a/src/gpytoolbox/compactly_supported_normal.py
+++ b/src/gpytoolbox/compactly_supported_normal.py
@@ -60,22 +60,22 @@ def compactly_supported_normal(x,n=2,sigma=1.,center=None,second_derivative=-1):
             xx = x[:,i]
             if second_derivative==i:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(1.0)    
+                    xx_val = (np.abs(xx)<0.5)*(-2.0) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(1.0)    
                 elif n==1:
                     xx_val = 0.0*np.abs(xx)
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*3*2*(np.abs(xx)) - 12)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -3*2*(np.abs(xx)) + 12)*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<=0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*4*3*(np.abs(xx)**2.0) - 160*3*2*(np.abs(xx)) + 600*2)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*4*3*(np.abs(xx)**2.0) + 80*3*2*(np.abs(xx)) - 120*2)*(1/96) + (np.abs(xx)<0.5)*( 48*4*3*(np.abs(xx)**2.0) - 120*2)*(1/192)
             else:
                 if n==2:
-                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
+                    xx_val = (np.abs(xx)<0.5)*(-(xx**2.0)+0.75) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*(0.5*(xx**2.0) - 1.5*np.abs(xx) + 1.125)
                 elif n==1:
                     xx_val = (np.abs(xx)<1.0)*(1 - np.abs(xx))
                 elif n==3:
                     xx_val = (np.abs(xx)<1)*(3*(np.abs(xx)**3.0) - 6*(np.abs(xx)**2.0) + 4)*(1/6)  +  (np.abs(xx)<=2)*(np.abs(xx)>=1)*( -(np.abs(xx)**3.0) + 6*(np.abs(xx)**2.0) - 12*np.abs(xx) + 8 )*(1/6.)
                 elif n==4:
-                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<=1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<=0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
+                    xx_val = (np.abs(xx)<=2.5)*(np.abs(xx)>=1.5)*( 16*(np.abs(xx)**4.0) - 160*(np.abs(xx)**3.0) + 600*(np.abs(xx)**2.0) - 1000*(np.abs(xx)) + 625)*(1/384) + (np.abs(xx)<1.5)*(np.abs(xx)>=0.5)*( -16*(np.abs(xx)**4.0) + 80*(np.abs(xx)**3.0) - 120*(np.abs(xx)**2.0) + 20*(np.abs(xx)) + 55)*(1/96) + (np.abs(xx)<0.5)*( 48*(np.abs(xx)**4.0) - 120*(np.abs(xx)**2.0) + 115)*(1/192)
 
             vals = vals * xx_val
         return vals
-- 
2.43.0


From d76a6293acfab4b01ac5efe08bb9b2ae465bc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 32/59] fix: gaussian_process lump_K3 with a single training
 point

---
 src/gpytoolbox/gaussian_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 0f3ae38..6da438d 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -203,7 +203,7 @@ class gaussian_process_precompute:
                 print("--------- Training Gaussian Process with", X_train.shape[0],"data points. ---------")
             K3 = cov_matrix_from_function(self.kernel,X_train,X_train,sparse=True,use_gradients=self.use_gradients,compact_support=self.compact_support)        
             if lump_K3:
-                K3 = diags(np.squeeze(np.asarray(K3.sum(axis=1))))
+                K3 = diags(np.asarray(K3.sum(axis=1)).ravel())
             self.inducing_points = False
             self.LU = splu(csc_matrix(K3 + (self.sigma_n**2.0)*eye(K3.shape[0])))
             # plt.spy(K3)
-- 
2.43.0


From 7f5534c627c8535ea72e3253be011080e6a12216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 33/59] fix: gaussian_process compact_kernel finds supports
 beyond the unit cube and uses the right radius

---
 src/gpytoolbox/gaussian_process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 6da438d..08b0336 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -159,6 +159,10 @@ class gaussian_process_precompute:
             x2 = np.ones((1,X_train.shape[1]))
             k1 = self.kernel(xzero,x1)
             k2 = self.kernel(xzero,x2)
+            # Grow the bracket until the kernel vanishes at x2
+            while k2>1e-10 and x2[0,0]<1e10:
+                x2 = 2.*x2
+                k2 = self.kernel(xzero,x2)
             for i in range(10):
                 mid = 0.5*(x1+x2)
                 kmid = self.kernel(xzero,mid)
@@ -170,7 +174,8 @@ class gaussian_process_precompute:
                     x2 = mid
                     k2 = self.kernel(xzero,x2)
 
-            self.compact_support = x2[0,0]
+            # x2 = (r,...,r) lies at distance r*sqrt(dim) from the origin
+            self.compact_support = np.linalg.norm(x2)
             
             # print("Compact support found: ", self.compact_support)
 
-- 
2.43.0


From 735b98918b09f8bcff5e8430202894d077cbee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 34/59] fix: rotation_matrix_from_vectors returns NaN for
 parallel 2D vectors of different length

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index 50c212e..3a9692e 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -44,10 +44,8 @@ def rotation_matrix_from_vectors(vec1, vec2):
     v = np.cross(a, b).flatten()
     if any(v): #if not all zeros then 
         if dim==2:
-            theta = np.arccos(np.dot(a, b))
-            # with correct sign
-            if np.cross(a, b) < 0:
-                theta = -theta
+            # signed angle, accurate (and defined) for nearly parallel vectors
+            theta = np.arctan2(v[0], np.dot(a, b))
             R = np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])
             return R
         else:
-- 
2.43.0


From e1e323fc9e43a8fa5a58a69491ab564ac85224c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 35/59] fix: rotation_matrix_from_vectors returned a reflection
 or garbage for opposite 3D vectors

---
 src/gpytoolbox/rotation_matrix_from_vectors.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/rotation_matrix_from_vectors.py b/src/gpytoolbox/rotation_matrix_from_vectors.py
index 3a9692e..48224d2 100644
--- a/src/gpytoolbox/rotation_matrix_from_vectors.py
+++ b/src/gpytoolbox/rotation_matrix_from_vectors.py
@@ -52,11 +52,20 @@ def rotation_matrix_from_vectors(vec1, vec2):
             assert dim == 3
             c = np.dot(a, b)
             s = np.linalg.norm(v)
+            if c < 0 and s < 1e-8:
+                return half_turn(a)
             kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
             return np.eye(3) + kmat + kmat.dot(kmat) * ((1 - c) / (s ** 2))
     else:
-        # is it a reflection?
+        # are they opposite?
         R = np.eye(dim)
         if np.dot(a, b) < 0:
-            R = -R
-        return R
\ No newline at end of file
+            R = half_turn(a) if dim==3 else -R
+        return R
+
+
+def half_turn(a):
+    # 180 degree rotation around an axis perpendicular to the unit vector a
+    axis = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+    axis = axis / np.linalg.norm(axis)
+    return 2*np.outer(axis, axis) - np.eye(3)
\ No newline at end of file
-- 
2.43.0


From c0e3f64e4a552478614bba3c2ab832ae369f3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 36/59] fix: normalize_points overwrote its input

---
 src/gpytoolbox/normalize_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/normalize_points.py b/src/gpytoolbox/normalize_points.py
index 367c8bf..83364be 100644
--- a/src/gpytoolbox/normalize_points.py
+++ b/src/gpytoolbox/normalize_points.py
@@ -32,7 +32,8 @@ def normalize_points(v,center=None):
     dim = v.shape[1]
     
 
-    # First, move it to the first quadrant:
+    # First, move it to the first quadrant (without touching the input):
+    v = v.copy()
     for dd in range(dim):
         v[:,dd] = v[:,dd] - np.amin(v[:,dd])
     # Normalize for max length one    
-- 
2.43.0


From dfae451f99c0ffe118ac5f0412d3febca00c421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 37/59] fix: colormap returned interpolated colors outside of
 [0,255]

---
 src/gpytoolbox/colormap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index 69e0b5e..bc26afc 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -43,7 +43,8 @@ def colormap(name, n, interpolate=True):
         raw_C = colormap(name, n=0, interpolate=False)
         f = sp.interpolate.interp1d(np.linspace(0., 1., raw_C.shape[0]),
             raw_C, axis=0, kind='cubic')
-        return f(np.linspace(0., 1., n))
+        # The cubic interpolant can overshoot the range of valid colors
+        return np.clip(f(np.linspace(0., 1., n)), 0., 255.)
     else:
         assert name in _all_cbrewer_colormaps, "This color map does not exist."
         if n==0:
-- 
2.43.0


From c4d494f437b46ef66909df588a499202ce0c7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 38/59] fix: colormap handed out its own table, so that
 changing a result changed all later results

---
 src/gpytoolbox/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index bc26afc..09bf2b3 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -51,10 +51,10 @@ def colormap(name, n, interpolate=True):
             i = 1
             while i in _all_cbrewer_colormaps[name]:
                 i += 1
-            return _all_cbrewer_colormaps[name][i-1]
+            return _all_cbrewer_colormaps[name][i-1].copy()
         else:
             assert n in _all_cbrewer_colormaps[name]
-            return _all_cbrewer_colormaps[name][n]
+            return _all_cbrewer_colormaps[name][n].copy()
 
 
 _all_cbrewer_colormaps = {
-- 
2.43.0


From 25d95a61372a349e9dbb612d2c9393c5deb1bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 39/59] fix: apply_colormap with log failed when no value is
 larger than machine epsilon

---
 src/gpytoolbox/apply_colormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index ada85e1..00658f7 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -68,6 +68,8 @@ def apply_colormap(C, f,
     if log and minimum < np.finfo(np.float64).eps:
         minimum = np.finfo(np.float64).eps
     maximum = np.amax(f) if max is None else max
+    if log and maximum < np.finfo(np.float64).eps:
+        maximum = np.finfo(np.float64).eps
     assert maximum >= minimum
     if maximum < minimum + np.finfo(np.float64).eps:
         maximum = minimum + np.finfo(np.float64).eps
-- 
2.43.0


From 9af983357f9ee88a83cd557403a539cf2a5e7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 40/59] fix: apply_colormap returned garbage for (almost)
 constant values

---
 src/gpytoolbox/apply_colormap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index 00658f7..c80b973 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -71,8 +71,10 @@ def apply_colormap(C, f,
     if log and maximum < np.finfo(np.float64).eps:
         maximum = np.finfo(np.float64).eps
     assert maximum >= minimum
-    if maximum < minimum + np.finfo(np.float64).eps:
-        maximum = minimum + np.finfo(np.float64).eps
+    # Leave enough room for all colors between minimum and maximum
+    gap = 4. * C.shape[0] * np.finfo(np.float64).eps * np.maximum(1., np.abs(minimum))
+    if maximum < minimum + gap:
+        maximum = minimum + gap
 
     f = np.minimum(np.maximum(f, minimum), maximum)
 
-- 
2.43.0


From c53c8b39f77eb3f113faa51e378b269d8d2db57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 41/59] fix: apply_colormap with log failed when rounding moved
 the ends of the color axis

---
 src/gpytoolbox/apply_colormap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/apply_colormap.py b/src/gpytoolbox/apply_colormap.py
index c80b973..04d430f 100644
--- a/src/gpytoolbox/apply_colormap.py
+++ b/src/gpytoolbox/apply_colormap.py
@@ -81,6 +81,8 @@ def apply_colormap(C, f,
     if log:
         xaxis = np.logspace(np.log2(minimum), np.log2(maximum), C.shape[0],
               base=2.)
+        # Rounding must not move the ends of the axis
+        xaxis[0], xaxis[-1] = minimum, maximum
     else:
         xaxis = np.linspace(minimum, maximum, C.shape[0])
 
-- 
2.43.0


From d39b863ec6215a88739421fee221cfb43d502add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 42/59] fix: subdivide: Loop faces pointed at the wrong
 vertices when V ends in unreferenced vertices

---
 src/gpytoolbox/subdivide.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/subdivide.py b/src/gpytoolbox/subdivide.py
index 3eb04bc..cfbf957 100644
--- a/src/gpytoolbox/subdivide.py
+++ b/src/gpytoolbox/subdivide.py
@@ -198,7 +198,7 @@ def _loop_triangle_mesh(V,F,return_matrix):
     n = _n(V,F)
     m = F.shape[0]
     _,Fu,_,he,E,he_to_E,E_to_he = \
-    _upsample_triangle_mesh(None,F,False,return_halfedge_edge_map=True)
+    _upsample_triangle_mesh(V,F,False,return_halfedge_edge_map=True)
     e = E.shape[0]
 
     # Group halfedges
-- 
2.43.0


From 6b00c0737080b8d654c5045eeceadec83fb12ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 43/59] fix: random_points_on_mesh: no samples must still have
 the shapes (0,d), (0,) and (0,k)

---
 src/gpytoolbox/random_points_on_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/random_points_on_mesh.py b/src/gpytoolbox/random_points_on_mesh.py
index 75dba6b..ae049c8 100644
--- a/src/gpytoolbox/random_points_on_mesh.py
+++ b/src/gpytoolbox/random_points_on_mesh.py
@@ -65,11 +65,11 @@ def random_points_on_mesh(V,F,
 
     if n==0:
         if return_indices:
-            return np.zeros((0,), dtype=V.dtype), \
+            return np.zeros((0,V.shape[1]), dtype=V.dtype), \
             np.zeros((0,), dtype=F.dtype), \
-            np.zeros((0,), dtype=V.dtype)
+            np.zeros((0,F.shape[1]), dtype=V.dtype)
         else:
-            return np.zeros((0,), dtype=V.dtype)
+            return np.zeros((0,V.shape[1]), dtype=V.dtype)
 
     k = F.shape[1]
     if k==2:
-- 
2.43.0


From b489d84d85d13b567e29a580d5a1e371ff8951bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 44/59] fix: adjacency_matrix: an empty face or edge list must
 give an empty matrix instead of raising

---
 src/gpytoolbox/adjacency_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/adjacency_matrix.py b/src/gpytoolbox/adjacency_matrix.py
index 5cae333..eecd5c6 100644
--- a/src/gpytoolbox/adjacency_matrix.py
+++ b/src/gpytoolbox/adjacency_matrix.py
@@ -26,7 +26,7 @@ def adjacency_matrix(F):
     """
 
     if F.size==0:
-        return sp.sparse.csr_matrix()
+        return sp.sparse.csr_matrix((0,0), dtype=int)
     if F.shape[1]==2:
         E = F
     elif F.shape[1]==3:
-- 
2.43.0


From 6b5162a01f3a9ee8675e9de76ca98983e33aed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 45/59] fix: swept_volume: transformations must supersede
 translations as documented

---
 src/gpytoolbox/swept_volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/swept_volume.py b/src/gpytoolbox/swept_volume.py
index 6c0d820..930cd24 100644
--- a/src/gpytoolbox/swept_volume.py
+++ b/src/gpytoolbox/swept_volume.py
@@ -72,7 +72,7 @@ def swept_volume(V,F,transformations=None,rotations=None,translations=None,scale
 
 
 
-    if(translations is not None):
+    if(transformations is None and translations is not None):
         transformations = []
         num_transformations = len(translations)
         translations = [np.asarray(t, dtype=np.float64) for t in translations]
-- 
2.43.0


From 469dbd8f64e961d7a5f709334a9c6cb1301dba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 46/59] fix: swept_volume: keyframes with zero velocity must
 not give NaN rotations

---
 src/gpytoolbox/swept_volume.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/swept_volume.py b/src/gpytoolbox/swept_volume.py
index 930cd24..0406978 100644
--- a/src/gpytoolbox/swept_volume.py
+++ b/src/gpytoolbox/swept_volume.py
@@ -114,7 +114,17 @@ def velocity_alignment_rotations(translations):
             vel = translations[-1] - translations[-2]
         else:
             vel = translations[i + 1] - translations[i - 1]
-        velocities.append(vel / np.linalg.norm(vel))
+        velocities.append(vel)
+
+    # Where the finite-difference velocity vanishes (a pause or a turning point),
+    # keep the last known direction of motion (or the first one that follows).
+    moving = [vel / np.linalg.norm(vel) for vel in velocities if np.linalg.norm(vel) > 0]
+    last = moving[0] if moving else np.array([1.0, 0.0, 0.0])
+    for i in range(num):
+        speed = np.linalg.norm(velocities[i])
+        if speed > 0:
+            last = velocities[i] / speed
+        velocities[i] = last
 
     reference = np.array([1.0, 0.0, 0.0])
     rotations = [rotation_matrix_from_vectors(reference, velocities[0])]
-- 
2.43.0


From c32872b7aaff52b5333e85e974b1a796ad69e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 47/59] fix: mesh_boolean: accept the documented alias
 'subtraction'

---
 src/gpytoolbox/copyleft/mesh_boolean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/copyleft/mesh_boolean.py b/src/gpytoolbox/copyleft/mesh_boolean.py
index 1da8496..e47a2d1 100644
--- a/src/gpytoolbox/copyleft/mesh_boolean.py
+++ b/src/gpytoolbox/copyleft/mesh_boolean.py
@@ -54,7 +54,8 @@ def mesh_boolean(V1,F1,V2,F2,boolean_type='union'):
     'union' : 0,
     'intersection' : 1,
     'difference' : 2,
-    'minus' : 2
+    'minus' : 2,
+    'subtraction' : 2
     }
     btype = dictionary.get(boolean_type,-1)
     if btype==0:
-- 
2.43.0


From 933f195c083d0160d2cf722049a34093f9e00ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 48/59] fix: squared_distance: a segment of zero length must
 not give NaN barycentric coordinates with use_cpp

---
 src/gpytoolbox/squared_distance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gpytoolbox/squared_distance.py b/src/gpytoolbox/squared_distance.py
index 30b9890..6fabae5 100644
--- a/src/gpytoolbox/squared_distance.py
+++ b/src/gpytoolbox/squared_distance.py
@@ -166,6 +166,7 @@ def squared_distance(P,V,F=None,use_cpp=False,use_aabb=False,C=None,W=None,CH=No
             lmbs = np.zeros((P.shape[0],2))
             lmbs[:,0] = np.linalg.norm(V[F[indices,0],:]-closest_points,axis=1)
             lmbs[:,1] = np.linalg.norm(V[F[indices,1],:]-closest_points,axis=1)
+            lmbs[np.sum(lmbs,axis=1)==0,1] = 1 # element of zero length: both ends coincide
             lmbs = lmbs/np.sum(lmbs,axis=1)[:,None]
             lmbs = np.fliplr(lmbs)
         elif(F.shape[1] == 3):
-- 
2.43.0


From 2d0916ab5adcfc974fa314ae03de8eae3e82dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 49/59] fix: stochastic_poisson_surface_reconstruction: a
 single sample must not crash

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 4ea20d7..dac29f8 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -161,7 +161,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
     image = (W_weights.T @ np.ones((N.shape[0],1)))/(np.prod(h))
     image_blurred = gaussian_filter(np.reshape(image,gs+1,order='F'),sigma=3)
     image_blurred_vectorized = np.reshape(image_blurred,(np.prod(gs+1),1),order='F')
-    sampling_density = W_weights @ image_blurred_vectorized
+    sampling_density = np.ravel(W_weights @ image_blurred_vectorized)
         
     # Step 1: Gaussian process interpolation from N to a regular grid
     if verbose:
@@ -258,7 +258,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         # In reality, we approximate K3 with a lumped covariance matrix:
         # K3 = diags(np.squeeze(sampling_density)) + sigma_n*sigma_n*eye(P.shape[0])
         # But we really only need its inverse:
-        K3_inv = diags(1/(np.squeeze(sampling_density) + sigma_n*sigma_n))
+        K3_inv = diags(1/(sampling_density + sigma_n*sigma_n))
         
 
         ### Step 1.4: Solve for the mean and covariance of the vector field:
-- 
2.43.0


From 97b42102f235ed3e81242f57af6641d12e5028af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 50/59] fix: stochastic_poisson_surface_reconstruction: small
 grids must not count kernel entries twice

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index dac29f8..1bec1e9 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -246,6 +246,9 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         valid_indices = (J>=0)*(J<np.prod(gs_dd))
         J = J[valid_indices]
         I = I[valid_indices]
+        if np.any(gs_dd[:-1] < 2*order_neighbors+1):
+            # Neighborhoods wrap around the rows of such a small grid: do not list any pair twice
+            I, J = np.unique(np.stack((I,J)), axis=1)
 
         # We evaluate the kernel function to get k2, but we do it with a known sparsity pattern, so this is O(P.shape[0]) instead of O(P.shape[0]*prod(gs_dd)).
         k2_fast = matrix_from_function(kernel_fun, P, staggered_grid_vertices,sparsity_pattern=[I,J])
-- 
2.43.0


From a1b2dcb12270cb5cc38fa712988bff42c98ce861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 51/59] fix: stochastic_poisson_surface_reconstruction: the
 default grid must enclose the points wherever they are

---
 .../stochastic_poisson_surface_reconstruction.py     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 1bec1e9..21cc667 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -134,15 +134,21 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         gs = 100*np.ones(dim,dtype=int)
 
     envelope_mult = 1.5 # how tightly we want to envelope the data
+    # Scale the data about the origin or, where it does not lie around the origin, about its center
+    P_min, P_max = np.min(P,axis=0), np.max(P,axis=0)
+    envelope_center = 0.5*(P_max + P_min)
+    envelope_center[np.minimum(-P_min,P_max) > 0.25*(P_max - P_min)] = 0
+    envelope_min = envelope_center + envelope_mult*(P_min - envelope_center)
+    envelope_max = envelope_center + envelope_mult*(P_max - envelope_center)
     if (gs is None):
         assert(h is not None)
         assert(corner is not None)
-        gs = np.floor((np.max(envelope_mult*P,axis=0) - corner)/h).astype(int)
+        gs = np.floor((envelope_max - corner)/h).astype(int)
         # print(gs)
         # print(gs)
     elif ((h is None) or (corner is None)):
-        h = (np.max(envelope_mult*P,axis=0) - np.min(envelope_mult*P,axis=0))/gs
-        corner = np.min(envelope_mult*P,axis=0)
+        h = (envelope_max - envelope_min)/gs
+        corner = envelope_min
     assert(gs.shape[0] == dim)
 
     grid_length = gs*h
-- 
2.43.0


From a52515faa3938611b805028086f4cd24f5ba9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 52/59] fix: random_points_on_mesh: no samples from an empty
 mesh must not raise

---
 src/gpytoolbox/random_points_on_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/random_points_on_mesh.py b/src/gpytoolbox/random_points_on_mesh.py
index ae049c8..9336679 100644
--- a/src/gpytoolbox/random_points_on_mesh.py
+++ b/src/gpytoolbox/random_points_on_mesh.py
@@ -65,11 +65,11 @@ def random_points_on_mesh(V,F,
 
     if n==0:
         if return_indices:
-            return np.zeros((0,V.shape[1]), dtype=V.dtype), \
+            return np.zeros((0,*V.shape[1:]), dtype=V.dtype), \
             np.zeros((0,), dtype=F.dtype), \
-            np.zeros((0,F.shape[1]), dtype=V.dtype)
+            np.zeros((0,*F.shape[1:]), dtype=V.dtype)
         else:
-            return np.zeros((0,V.shape[1]), dtype=V.dtype)
+            return np.zeros((0,*V.shape[1:]), dtype=V.dtype)
 
     k = F.shape[1]
     if k==2:
-- 
2.43.0


From 71050bbaff3b8235939134a73657a37e23dae237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 53/59] fix: reach_for_the_spheres: fix_boundary must not crash
 for curves

---
 src/gpytoolbox/reach_for_the_spheres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index f866d58..9815ce4 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -657,7 +657,7 @@ def reach_for_the_spheres_iteration(state,
     Q = M + t*(A.transpose()*R*A)
     b = M*state.V + t*A.transpose()*(R*c)
     if fix_boundary:
-        bd = boundary_vertices(state.F)
+        bd = boundary_vertices(state.F) if dim==3 else _line_bdry(state.F)
         precomp = fixed_dof_solve_precompute(Q, k=bd)
         state.V = precomp.solve(b=b, y=state.V[bd,:])
     else:
-- 
2.43.0


From 8c74af0c8bd88a20907502fd7c46933b0104e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 54/59] fix: reach_for_the_spheres: merging the remeshed part
 of a curve must not join its interior vertices

---
 src/gpytoolbox/reach_for_the_spheres.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index 9815ce4..0ce9d03 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -1068,5 +1068,10 @@ def _merge_meshes(V_active, F_active, V_inactive, F_inactive):
     elif dim==2:
         V = np.vstack((V_inactive, V_active))
         F = np.vstack((F_inactive, F_active + V_inactive.shape[0]))
-        V, _, _, F = remove_duplicate_vertices(V, faces=F, epsilon=np.sqrt(np.finfo(V.dtype).eps))
+        # only the end points of the two parts may be merged with each other
+        bd = np.concatenate((_line_bdry(F_inactive), _line_bdry(F_active) + V_inactive.shape[0]))
+        _, I, J = np.unique(np.round(V[bd,:]/np.sqrt(np.finfo(V.dtype).eps)),return_index=True,return_inverse=True,axis=0)
+        merged = np.arange(V.shape[0])
+        merged[bd] = bd[I[J.ravel()]]
+        V, F = remove_unreferenced(V, merged[F])
     return V,F
\ No newline at end of file
-- 
2.43.0


From 1f06d41d54ce0b71b57df3e38f4f73f6a441f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 55/59] fix: reach_for_the_spheres: leaving out U must sample
 the distance function instead of raising

---
 src/gpytoolbox/reach_for_the_spheres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index 0ce9d03..7dbc7a5 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -1007,7 +1007,7 @@ def _sample_sdf(sdf,
 
     dim = V.shape[1]
     assert dim==F.shape[1]
-    assert remove_samples or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
+    assert remove_samples or U0 is None or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
 
     if U0 is None:
         #Randomly sample twice as many points as initial mesh vertices.
-- 
2.43.0


From 7794f09d203e93578c1ffdfc55c237565fb7a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 56/59] fix: reach_for_the_spheres: pseudosdf_interior must
 relax the negative samples, not the positive ones

---
 src/gpytoolbox/reach_for_the_spheres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index 7dbc7a5..78d507a 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -628,7 +628,7 @@ def reach_for_the_spheres_iteration(state,
     wu = np.ones(state.U_batch.shape[0])
     clamped_g = np.where((np.abs(state.S_batch)==clamp)*(g<0.))
     if pseudosdf_interior:
-        clamped_g = np.where((state.S_batch>0)*(g<0.))
+        clamped_g = np.where(((np.abs(state.S_batch)==clamp)+(state.S_batch<0))*(g<0.))
     wu[clamped_g] = 0.0
     A = sp.sparse.csc_matrix(((wu[:,None]*b).ravel(),
         (np.tile(np.arange(state.U_batch.shape[0])[:,None],
-- 
2.43.0


From 6e1e93f9ebb9a17e1bb4b0530789268174c26573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 57/59] fix: png2poly: grayscale images with an alpha channel
 must not raise

---
 src/gpytoolbox/png2poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/png2poly.py b/src/gpytoolbox/png2poly.py
index e6be49a..920a3bf 100644
--- a/src/gpytoolbox/png2poly.py
+++ b/src/gpytoolbox/png2poly.py
@@ -42,6 +42,9 @@ def png2poly(filename):
             polypic = rgb2gray(rgba2rgb(polypic))
         elif polypic.shape[2]==3:
             polypic = rgb2gray(polypic)
+        elif polypic.shape[2]==2:
+            # greyscale with alpha, blended with white just like rgba2rgb does
+            polypic = polypic[:,:,0]*polypic[:,:,1] + (1. - polypic[:,:,1])
     # find contours
     polypic = polypic/np.max(polypic)
     poly = measure.find_contours(polypic, 0.5)
-- 
2.43.0


From dca53faa1053d9706f4b190e0a7c679142461952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 58/59] fix: docstrings: state the default values the functions
 actually use

---
 src/gpytoolbox/grid_neighbors.py              |  2 +-
 src/gpytoolbox/particle_swarm.py              |  2 +-
 src/gpytoolbox/point_cloud_to_mesh.py         |  4 +--
 src/gpytoolbox/reach_for_the_arcs.py          | 30 +++++++++----------
 src/gpytoolbox/read_mesh.py                   |  6 ++--
 src/gpytoolbox/remesh_botsch.py               |  2 +-
 src/gpytoolbox/signed_distance.py             |  2 +-
 ...ochastic_poisson_surface_reconstruction.py |  2 +-
 src/gpytoolbox/unsigned_distance.py           |  2 +-
 9 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index c5c1739..6e7450d 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -15,7 +15,7 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         whether diagonal cells are considered to be neighbors
     include_self: bool, optional (default False)
         whether a cell is considered to be its own neighbor
-    output_unique: bool, optional (default False)
+    output_unique: bool, optional (default True)
         whether to output only unique neighbors (i.e., remove duplicates). This should only matter for order>=2 (for order=1, the output is always unique but this flag will change the ordering)
     
     Returns
diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index dc5f5c1..1d51c18 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -13,7 +13,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
         Vector of upper bounds
     n_particles : int, optional (default: 100)
         Number of particles
-    max_iter : int, optional (default: 1000)
+    max_iter : int, optional (default: 100)
         Maximum number of iterations
     topology : str, optional (default: 'full')
         Connectivity of the swarm. Either 'full' or 'ring'.
diff --git a/src/gpytoolbox/point_cloud_to_mesh.py b/src/gpytoolbox/point_cloud_to_mesh.py
index 529f263..fd98b72 100644
--- a/src/gpytoolbox/point_cloud_to_mesh.py
+++ b/src/gpytoolbox/point_cloud_to_mesh.py
@@ -19,9 +19,9 @@ def point_cloud_to_mesh(P, N,
         which reconstruction method to use.
         Currently, only 'PSR' is supported, which is the official implementation
         of "Screened Poisson Surface Reconstruction" [Kazhdan and Hoppe 2013].
-    psr_screening_weight : float, optional (default 1.)
+    psr_screening_weight : float, optional (default 10.)
         PSR screening weight
-    psr_depth : int, optional (default 8)
+    psr_depth : int, optional (default 10)
         PSR tree depth
     psr_outer_boundary_type : string, optional (default "Neumann")
         The boundary condition to use for the outer boundary in PSR.
diff --git a/src/gpytoolbox/reach_for_the_arcs.py b/src/gpytoolbox/reach_for_the_arcs.py
index 69a8aed..347329f 100644
--- a/src/gpytoolbox/reach_for_the_arcs.py
+++ b/src/gpytoolbox/reach_for_the_arcs.py
@@ -39,16 +39,16 @@ def reach_for_the_arcs(U, S,
         rng seed where random data is needed
     return_point_cloud : bool, optional (default False)
         return the reconstructed point cloud normals or not
-    fine_tune_iters : int, optional (default 5)
+    fine_tune_iters : int, optional (default 3)
         how may iterations to do in the fine tuning step
-    batch_size : int, optional (default 1000)
+    batch_size : int, optional (default 10000)
         how many points in one batch. Set to 0 to disable batching.
     num_rasterization_spheres : int, optional (default 0)
         how many spheres to use at most in the rasterization step.
         Set to zero to use all spheres.
-    screening_weight : float, optional (default 0.1)
+    screening_weight : float, optional (default 10.)
         PSR screening weight
-    rasterization_resolution : int, optional (default 8*n_sdf**(1/d))
+    rasterization_resolution : int, optional (default 64*ceil(n_sdf**(1/d)/16))
         the resolution of the rasterization grid
     max_points_per_sphere : int, optional (default 3)
         How many points should there be at most per sphere.
@@ -57,13 +57,13 @@ def reach_for_the_arcs(U, S,
         Has to be at least 1 (this is a theoretical minimum).
         If set to larger than 1, spheres that the reconstructed surface
         intersects will have at most max_points_per_sphere added.
-    n_local_searches : int, optional (default 2*n_sdf**(1/d))
+    n_local_searches : int, optional (default ceil(2*n_sdf**(1/d)))
         how many local searches to perform for each sphere in the locally make
         feasible step
     local_search_iters : int, optional (default 20)
         how many iterations to try for in the local search for each sphere in
         the locally make feasible step
-    local_search_t : double, optional (default 5e-3)
+    local_search_t : double, optional (default 0.01)
         how far to move each point in the local search for each point in the
         locally make feasible step
     tol : float, optional (default 1e-4)
@@ -306,9 +306,9 @@ def _sdf_to_point_cloud(U, S,
         sdf(U)
     rng_seed : int, optional (default 3452)
         rng seed where random data is needed
-    rasterization_resolution : int, optional (default 8*n_sdf**(1/d))
+    rasterization_resolution : int, optional (default 64*ceil(n_sdf**(1/d)/16))
         the resolution of the rasterization grid
-    n_local_searches : int, optional (default 2*n_sdf**(1/d))
+    n_local_searches : int, optional (default ceil(2*n_sdf**(1/d)))
         how many local searches to perform for each sphere in the locally make
         feasible step
     local_search_iters : int, optional (default 20)
@@ -417,7 +417,7 @@ def _outside_points_from_rasterization(U, S,
         sdf(U)
     rng_seed : int, optional (default 3452)
         rng seed where random data is needed
-    res : int, optional (default 8*n_sdf**(1/d))
+    res : int, optional (default 64*ceil(n_sdf**(1/d)/16))
         the resolution of the rasterization grid
     num_spheres : int, optional (default 0)
         how many spheres to use at most in the rasterization step.
@@ -509,12 +509,12 @@ def _locally_make_feasible(U, S, P,
         sampled points outside the spheres
     rng_seed : int, optional (default 3452)
         rng seed where random data is needed
-    n_local_searches : int, optional (default 2*n_sdf**(1/d))
+    n_local_searches : int, optional (default ceil(2*n_sdf**(1/d)))
         how many local searches to perform for each sphere in the locally make
         feasible step
     local_search_iters : int, optional (default 20)
         how many iterations to try for in the local search for each sphere
-    batch_size : int, optional (default 1000)
+    batch_size : int, optional (default 10000)
         how many points in one batch. Set to 0 to disable batching.
     tol : float, optional (default 1e-4)
         tolerance for determining whether a point is inside a sphere
@@ -611,9 +611,9 @@ def _fine_tune_point_cloud(U, S, P, N, f,
         rng seed where random data is needed
     fine_tune_iters : int, optional (default False)
         how may iterations to fine tune for
-    batch_size : int, optional (default 1000)
+    batch_size : int, optional (default 10000)
         how many points in one batch. Set to 0 to disable batching.
-    screening_weight : float, optional (default 0.1)
+    screening_weight : float, optional (default 10.)
         PSR screening weight
     max_points_per_sphere : int, optional (default 3)
         How many points should there be at most per sphere.
@@ -621,13 +621,13 @@ def _fine_tune_point_cloud(U, S, P, N, f,
         Has to be at least 1 (this is a theoretical minimum).
         If set to larger than 1, spheres that the reconstructed surface
         intersects will have at most max_points_per_sphere added.
-    n_local_searches : int, optional (default 2*n_sdf**(1/d))
+    n_local_searches : int, optional (default ceil(2*n_sdf**(1/d)))
         how many local searches to perform for each sphere in the locally make
         feasible step
     local_search_iters : int, optional (default 20)
         how many iterations to try for in the local search for each sphere in
         the locally make feasible step
-    local_search_t : double, optional (default 5e-3)
+    local_search_t : double, optional (default 0.01)
         how far to move each point in the local search for each point in the
         locally make feasible step
     tol : float, optional (default 1e-4)
diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index bb7e1c7..73d01b8 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -26,13 +26,13 @@ def read_mesh(file,
         The file format of the mesh to open.
         If None, try to guess the format from the file extension.
         Supported formats: obj, stl
-    return_UV : bool, optional (default: None)
+    return_UV : bool, optional (default: False)
         Try reading texture coordinates, if they are present and the file
         format supports it. Only supported for OBJ files.
-    return_N : bool, optional (default: None)
+    return_N : bool, optional (default: False)
         Try reading normal coordinates, if they are present and the file format
         supports it. Only supported for OBJ and PLY files.
-    return_C : bool, optional (default: None)
+    return_C : bool, optional (default: False)
         Try reading color RGBA values, if they are present and the file format
         supports it. Only supported for PLY files.
     reader : string, optional (default: None)
diff --git a/src/gpytoolbox/remesh_botsch.py b/src/gpytoolbox/remesh_botsch.py
index 2c3df61..1079b62 100644
--- a/src/gpytoolbox/remesh_botsch.py
+++ b/src/gpytoolbox/remesh_botsch.py
@@ -18,7 +18,7 @@ def remesh_botsch(V, F, i=10, h=None, project=True, feature=np.array([], dtype=i
         Matrix of triangle mesh indices into V
     i : int, optional (default 10)
         Number of algorithm iterations
-    h : double, optional (default 0.1)
+    h : double, optional (default None)
         Desired edge length (if None, will pick average edge length)
     feature : numpy int array, optional (default np.array([], dtype=int))
         List of indices of feature vertices that should not change (i.e., they will also be in the output). They will be placed at the beginning of the output array in the same order (as long as they were unique).
diff --git a/src/gpytoolbox/signed_distance.py b/src/gpytoolbox/signed_distance.py
index 9cd00eb..6e3055f 100644
--- a/src/gpytoolbox/signed_distance.py
+++ b/src/gpytoolbox/signed_distance.py
@@ -16,7 +16,7 @@ def signed_distance(Q,V,F=None,use_cpp=True,cpp_aabb=None,fwn_bvh=None):
         Matrix of mesh/polyline/pointcloud coordinates
     F : (f,s) numpy int array (optional, default None)
         Matrix of mesh/polyline/pointcloud indices into V. If None, input is assumed to be an ordered *closed* polyline in 2D.
-    use_cpp : bool, optional (default False)
+    use_cpp : bool, optional (default True)
         If True, uses a C++ implementation to compute the squared distances. This is much faster but requires compilation of the C++ code.
     cpp_aabb : gpytoolbox.squared_distance_precompute, optional (default None)
         Precomputed C++ AABB tree built via `gpytoolbox.squared_distance_precompute(V, F)`.
diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 21cc667..becc054 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -33,7 +33,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         Scalar global variance parameter
     solve_subspace_dim : int, optional (default 0)
         If > 0, use a subspace solver to solve the linear system. This is useful for large problems and essential in 3D.
-    verbose : bool, optional (default True)
+    verbose : bool, optional (default False)
         Whether to print progress
     prior_fun : function, optional (default None)
         Function that takes a (m,dim) numpy array and returns a (m,dim) numpy array. This is used to specify a prior on the gradient of the scalar field (see Sec. 5 in "Stochastic Poisson Surface Reconstruction").
diff --git a/src/gpytoolbox/unsigned_distance.py b/src/gpytoolbox/unsigned_distance.py
index 66a5758..6899972 100644
--- a/src/gpytoolbox/unsigned_distance.py
+++ b/src/gpytoolbox/unsigned_distance.py
@@ -15,7 +15,7 @@ def unsigned_distance(Q,V,F=None,use_cpp=True,cpp_aabb=None):
         Matrix of mesh/polyline/pointcloud coordinates
     F : (f,s) numpy int array (optional, default None)
         Matrix of mesh/polyline/pointcloud indices into V. If None, input is assumed to be an ordered *closed* polyline in 2D.
-    use_cpp : bool, optional (default False)
+    use_cpp : bool, optional (default True)
         If True, uses a C++ implementation to compute the squared distances. This is much faster but requires compilation of the C++ code.
     cpp_aabb : gpytoolbox.squared_distance_precompute, optional (default None)
         Precomputed AABB tree built via `gpytoolbox.squared_distance_precompute(V, F)`.
-- 
2.43.0


From ce2f0fee2e68f0d430d1c18248d12af2d36e68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 59/59] fix: rng: metropolis_hastings and random_points_on_mesh
 must draw from a new generator when none is given

---
 src/gpytoolbox/metropolis_hastings.py   | 7 ++++++-
 src/gpytoolbox/random_points_on_mesh.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/metropolis_hastings.py b/src/gpytoolbox/metropolis_hastings.py
index 11e9df0..4df3809 100644
--- a/src/gpytoolbox/metropolis_hastings.py
+++ b/src/gpytoolbox/metropolis_hastings.py
@@ -4,7 +4,7 @@ def metropolis_hastings(unnorm_distr,
     next_sample,
     x0,
     num_samples=100,
-    rng=np.random.default_rng()):
+    rng=None):
     """Randomly sample according to an unnormalized distribution.
 
     Given a function which is proportional to a probabilistic density and a strategy for generating candidate points, returns a set of samples which will asymptotically tend to being a sample a random sample of the unknown distribution.
@@ -49,6 +49,11 @@ def metropolis_hastings(unnorm_distr,
     ```
     """
     
+    # A fresh generator per call: one made when the module is loaded would be
+    # shared by all calls, and forked processes would all draw the same numbers.
+    if rng is None:
+        rng = np.random.default_rng()
+
     S = np.zeros((num_samples,x0.shape[0]))
     F = np.zeros((num_samples))
     
diff --git a/src/gpytoolbox/random_points_on_mesh.py b/src/gpytoolbox/random_points_on_mesh.py
index 9336679..aa597d9 100644
--- a/src/gpytoolbox/random_points_on_mesh.py
+++ b/src/gpytoolbox/random_points_on_mesh.py
@@ -3,7 +3,7 @@ from .doublearea import doublearea
 
 def random_points_on_mesh(V,F,
     n,
-    rng=np.random.default_rng(),
+    rng=None,
     color='white',
     per_element_likelihood=None,
     return_indices=False):
@@ -57,6 +57,11 @@ def random_points_on_mesh(V,F,
     """
 
 
+    # A fresh generator per call: one made when the module is loaded would be
+    # shared by all calls, and forked processes would all draw the same numbers.
+    if rng is None:
+        rng = np.random.default_rng()
+
     if per_element_likelihood is None:
         per_element_likelihood = np.ones(F.shape[0])
 
-- 
2.43.0

