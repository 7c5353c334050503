From d0e4bc25379892969f355bdf4927d6d86794b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:08 +0000
Subject: [PATCH 01/80] fix: check_chain skipped the last pair of topology
 matrices, and checked nothing in 2d

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..32d6f54 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -199,7 +199,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From 4e5d1a30f1ecf6a48af4b7cad9b743a82355d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:05 +0000
Subject: [PATCH 02/80] fix: relative parity of topologies with loose cells has
 an entry for every cell

---
 pycomplex/topology/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 32d6f54..f40c8dc 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -178,9 +178,7 @@ class BaseTopology(object):
         # into clauses constraining the relative orientation of n-elements
         clauses = ((inc.indices + 1) * inc.data).reshape(-1, 2)
         if not len(clauses):
-            # FIXME: this is needed for loose n-elements;
-            # but what about loose disjoint n-element plus other connection component?
-            # would prob fail; need to handle remapping back from n-elements lost in interior filtering
+            # this is needed for loose n-elements
             return self.chain(-1)
         orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
         if orientation == 'UNSAT':
@@ -188,7 +186,10 @@ class BaseTopology(object):
 
         # convert to parity description
         from pycomplex.topology.util import orientation_to_parity
-        return orientation_to_parity(orientation)
+        # trailing loose n-elements do not appear in any clause; their parity is arbitrary
+        parity = np.ones(self.n_elements[-1], dtype=bool)
+        parity[:len(orientation)] = orientation_to_parity(orientation)
+        return parity
 
     @cached_property
     def is_oriented(self):
-- 
2.43.0


From 08011de63920da21f6aeda35bdd5399047a60152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:05 +0000
Subject: [PATCH 03/80] fix: degree of elements with more than 127 incident
 cells overflowed

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index f40c8dc..64dffd8 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -271,7 +271,7 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From 0426ce5b3ba6fda643016299fd458c5608a8ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:49 +0000
Subject: [PATCH 04/80] fix: zero-dimensional simplicial topologies, such as
 the boundary of a curve, can be constructed

---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..9296d41 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From d246054218b5f5ac8c4674555a84a496b16f99dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 05/80] fix: the dual of a bounded topology is a closed chain
 in 1d and 3d, where boundary elements may be oriented differently than their
 parents

---
 pycomplex/topology/dual.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..c10423f 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -146,6 +146,29 @@ class Dual(BaseTopology):
             return scipy.sparse.eye(nd, dtype=sign_dtype).tocsr()[np:, :]
         return [s(np, nd) for np, nd in zip(self.primal.n_elements, self.n_elements[::-1])]
 
+    @cached_property
+    def boundary_orientation(self):
+        """Orientation of the boundary elements relative to the primal elements they coincide with
+
+        Returns
+        -------
+        orientation : list of len self.n_dim
+            n-th element is an n-chain on the boundary, with entries +1 or -1
+        """
+        boundary = self.primal.boundary
+        T = self.primal.matrices
+        S = self.primal.selector_boundary
+        if self.n_dim == 1:
+            # vertices do not encode an orientation of their own; the end of an edge faces outward, and its start inward
+            return [-np.asarray((S[0] * T[0]).sum(axis=1)).flatten().astype(sign_dtype)]
+        orientation = [boundary.chain(0, fill=1)]
+        for i, b in enumerate(boundary.matrices):
+            # compare each element to its parent, through a boundary that is known to match
+            t = scipy.sparse.diags(orientation[i], dtype=sign_dtype) * S[i] * T[i] * S[i + 1].T
+            o = np.asarray(t.multiply(b).sum(axis=0)).flatten()
+            orientation.append(np.sign(o).astype(sign_dtype))
+        return orientation
+
     @cached_property
     def matrices(self):
         """Construct dual topology matrices, including the topology of the boundary, and its connection to the interior
@@ -165,7 +188,8 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = [scipy.sparse.diags(o, dtype=sign_dtype) * s
+             for o, s in zip(self.boundary_orientation, self.primal.selector_boundary)]
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From 083a2dcb813d40c44212e2013f692971eb6935e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 06/80] fix: direct loop subdivision used the edges of the
 first triangles for the corners of all triangles

---
 pycomplex/topology/simplicial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 9296d41..406d5a4 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -494,10 +494,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From e297775170ce751edf48acf139ad5a697f7cf93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/80] fix: direct loop subdivision gave middle edges the
 opposite sign of inherited edges, so that boundaries were not closed

---
 pycomplex/topology/simplicial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 406d5a4..c4fa43f 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -476,7 +476,7 @@ class TopologyTriangular(TopologySimplicial):
         # add middle (zero) tri
         # add middle connectivity; three new edges for each face
         fE21[:,0,:] = np.arange(3*N2, dtype=index_dtype).reshape((N2, 3)) + N1*2
-        fO21[:,0,:] = 1                                  # orientation of middle tri is given by convention
+        fO21[:,0,:] = -1                                 # as per from_simplices, edges along the direction of the triangle have negative sign
 
         # first edge of each outer tri is connected to the middle; copy index, invert sign
         fE21[:,1:,0] =  fE21[:,0,:]
-- 
2.43.0


From e0dc6b0ba39d31e653f918cc2c61cd027832c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 08/80] fix: the loop subdivision operator has a row for each
 vertex of the subdivided complex

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..95db544 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -319,7 +319,8 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        # only vertices and edges insert a new vertex
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 0c272001ee10b7531ad4ff998b538930329ce38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 09/80] fix: smoothing averages over the centroids of elements,
 as the smoothing operator does, rather than over circumcenters

---
 pycomplex/complex/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..651b3ca 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -167,11 +167,13 @@ class BaseComplex(object):
         # accumulate new vertex positions
         vertices = self.vertices.copy()
         # start with n-elements, working backwards to vertices
-        for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
+        for corners, cr in reversed(list(zip(self.topology.corners, C))):
             if cr is not None:
                 n_pts = corners.shape[1]
+                # note that the circumcenters of simplices, as in self.primal_position, do not qualify as centroids
+                centroids = self.vertices[corners[cr]].mean(axis=1)
                 corners = corners[cr].flatten()
-                centroids = np.repeat(centroids[cr], n_pts, axis=0)
+                centroids = np.repeat(centroids, n_pts, axis=0)
                 vertex_i, vertex_p = npi.group_by(corners).mean(centroids)
                 vertices[vertex_i] = vertex_p
 
-- 
2.43.0


From b686e67bf0cb71b30356d7005b6c6192f9118dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 10/80] fix: barycentric coordinates of circumcenters were
 wrong for simplices far from the origin or of extreme size

---
 pycomplex/geometry/euclidian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..bcc7025 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -149,6 +149,14 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     gu = pts.shape[:-2]
     N = n_pts + 1
 
+    # barycentric coords do not depend on position or scale; but the eigenvalue ratio does
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    scale = np.linalg.norm(pts, axis=-1).max(axis=-1)
+    scale = np.where(scale > 0, scale, 1)
+    pts = pts / scale[..., None, None]
+    if weights is not None:
+        weights = weights / scale[..., None] ** 2
+
     A = np.ones(gu + (N, N))
     A[..., -1, -1] = 0
     A[..., :-1, :-1] = np.einsum('...ij,...kj->...ik', pts, pts) * 2
-- 
2.43.0


From cd48e627284968813d54b5f78827f76bbc3168e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 11/80] fix: rows of the boundary selectors follow the order of
 boundary elements, which may differ from that of their parents

---
 pycomplex/topology/primal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..60f092e 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -1,6 +1,7 @@
 
 import numpy as np
 import numpy_indexed as npi
+import scipy.sparse
 from cached_property import cached_property
 
 from pycomplex.topology import index_dtype, sign_dtype
@@ -272,11 +273,13 @@ class PrimalTopology(BaseTopology):
             last element of this list is trivial; no N-elements are part of the boundary
         """
         def s(i):
-            d = self.chain(n=i, fill=0, dtype=sign_dtype)
+            # n-th row selects the n-th boundary element; the order of these may differ from that of their parents
             try:
-                d[self.boundary.parent_idx[i]] = 1
+                cols = self.boundary.parent_idx[i]
             except:
-                pass
-            return selection_matrix(d)
+                cols = np.empty(0, dtype=index_dtype)
+            rows = np.arange(len(cols), dtype=index_dtype)
+            data = np.ones(len(cols), dtype=sign_dtype)
+            return scipy.sparse.csr_matrix((data, (rows, cols)), shape=(len(rows), self.n_elements[i]))
 
         return [s(i) for i in range(self.n_dim + 1)]
-- 
2.43.0


From 3fe1f4652d2f64b2e8cf396152276c00993629f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 12/80] fix: the boundary of a weighted complex keeps its
 weights

---
 pycomplex/complex/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 651b3ca..bf7bb9e 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -84,8 +84,12 @@ class BaseComplex(object):
         if boundary is None:
             return None
         else:
+            weights = getattr(self, 'weights', None)
+            kwargs = {}
+            if weights is not None:
+                kwargs['weights'] = weights[boundary.parent_idx[0]]
             # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary, **kwargs)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
-- 
2.43.0


From d0c8171778eae16e19ab221a966276be02721be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:35 +0000
Subject: [PATCH 13/80] fix: the metric of a weighted complex used the signs of
 the unweighted circumcenters

---
 pycomplex/complex/simplicial/euclidian.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 95db544..cf59d68 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,11 +158,8 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        corners = self.vertices[self.topology.corners[-1]]
-        mean = corners.mean(axis=-2, keepdims=True)  # centering
-        corners = corners - mean
-        bary = euclidian.circumcenter_barycentric(corners)
-        signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
+        bary = self.primal_barycentric[-1]
+        signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the (weighted) circumcenter
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
         domains = domains.reshape(-1, domains.shape[-1])
-- 
2.43.0


From d822bdc993f5811a0e73db9c04e6f1d6472e462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:30 +0000
Subject: [PATCH 14/80] fix: zero-dimensional topologies have fundamental
 domains, so that the dual metric of a bounded curve can be closed

---
 pycomplex/topology/simplicial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index c4fa43f..dffa73b 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -224,7 +224,7 @@ class TopologySimplicial(PrimalTopology):
             s[i:] = 1
             IN0 = generate_simplex_boundary(IN0.reshape(-1, IN0.shape[-1])).reshape(IN0.shape + (-1, ))
             domains[..., -i] = element_indices(self.elements[-i], IN0).reshape(s)
-        domains[..., 0] = IN0
+        domains[..., 0] = IN0.reshape(domains.shape[:-1])
 
         return domains
 
-- 
2.43.0


From 155cecda12728ab2c8177e90b55d327f2c718413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:51 +0000
Subject: [PATCH 15/80] fix: center of mass of surfaces that do not enclose the
 origin, or are not star-shaped with respect to it

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index cf59d68..6dc6d76 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -594,7 +594,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        tet_volumes = euclidian.signed_volume(tets)  # tets that face the origin need to be subtracted
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 8becb9ea6a3231af9038ca62ad4a9db7d8eea343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:51 +0000
Subject: [PATCH 16/80] fix: vertex areas added up to twice the area of the
 surface

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 6dc6d76..91e62a2 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -551,7 +551,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         """Compute circumcentric area here"""
         # FIXME: this is not a circumcentric area! wil do for now... we have the circumcentric area now but not happy with it yet..
         I20 = self.topology.incidence[2, 0]
-        t_a = np.linalg.norm(self.triangle_normals(), axis=1)
+        t_a = np.linalg.norm(self.triangle_normals(), axis=1) / 2
         vertex_idx, v_a = npi.group_by(I20.flatten()).sum(np.repeat(t_a, 3, axis=0))
         return v_a / 3
 
-- 
2.43.0


From 584f2c44ece05c163d8b0ed4c8dbfb66f71a5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:26 +0000
Subject: [PATCH 17/80] fix: dual metric of the boundary of a regular complex
 mixed up dimensions

---
 pycomplex/complex/regular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..5d08aa8 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -332,12 +332,12 @@ class ComplexRegularMixin(object):
             g, sums = groups[i].sum(hypervolume)
             PM[n][g] += sums
         # now we divide by the number of primal N-cubes contributing to each primal n-cube
-        for n in range(1, self.n_dim):
+        for n in range(1, topology.n_dim):
             PM[n] /= self.topology.degree[n]
 
         # do summation of dual terms
         for i, c in list(enumerate(corners))[1:-1]:
-            n = self.n_dim - c.sum()
+            n = topology.n_dim - c.sum()    # note that the boundary of a complex is embedded in a space of higher dimension
             hypervolume = regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)
             g, sums = groups[i].sum(hypervolume)
             DM[n][g] += sums / (2 ** c.sum())
-- 
2.43.0


From 262eae907a5fa89c115c1a5527e2c1d90365a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:26 +0000
Subject: [PATCH 18/80] fix: picking in a regular complex given a guess kept
 cubes that the point had left at the far side, and failed if all guesses were
 right

---
 pycomplex/complex/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 5d08aa8..ecf803f 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any(np.logical_or(baries < 0, baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
@@ -173,9 +173,9 @@ class ComplexRegularMixin(object):
             domain, baries = query(points)
         else:
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            domain = domains[domain_idx]
+            update = np.any(np.logical_or(baries < 0, baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From bfbcc0017b1671f7d23cc78f99380c99191f86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:10 +0000
Subject: [PATCH 19/80] fix: metric of zero-dimensional cubical complexes, so
 that the dual metric of a bounded line can be closed

---
 pycomplex/geometry/regular.py | 2 +-
 pycomplex/topology/cubical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/geometry/regular.py b/pycomplex/geometry/regular.py
index 77b05d2..3835b68 100755
--- a/pycomplex/geometry/regular.py
+++ b/pycomplex/geometry/regular.py
@@ -26,7 +26,7 @@ def hypervolume(a, b, n=None):
     d = a - b
     if n is not None:
         d = np.sort(np.abs(d), axis=1)
-        d = d[:, -n:]
+        d = d[:, d.shape[1] - n:]   # note that -0 would select all
     return np.abs(np.prod(d, axis=-1))
 
 
diff --git a/pycomplex/topology/cubical.py b/pycomplex/topology/cubical.py
index 83fd296..f5090cc 100755
--- a/pycomplex/topology/cubical.py
+++ b/pycomplex/topology/cubical.py
@@ -154,7 +154,7 @@ class TopologyCubical(PrimalTopology):
     @cached_property
     def cube_corners(self):
         """Ndarray, [n_corners, n_dim], int"""
-        return np.indices(self.cube_shape).reshape(self.n_dim, -1).T.astype(sign_dtype)
+        return np.indices(self.cube_shape).reshape(self.n_dim, 2 ** self.n_dim).T.astype(sign_dtype)
 
     @classmethod
     def from_elements(cls, elements, mirror=True):
-- 
2.43.0


From 217c04dab978755b33b0f6985969e8e8e5ebedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 20/80] fix: sampling primal 0-forms of one-dimensional regular
 complexes

---
 pycomplex/complex/regular.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index ecf803f..85e8123 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -265,8 +265,7 @@ class ComplexRegularMixin(object):
         """
         element, bary = self.pick_primal(points)
         bary = np.clip(bary, 0, 1)
-        IN0 = self.topology.incidence[-1, 0]
-        verts = IN0[element]
+        verts = self.topology.elements[-1][element]
         # do interpolation over cube
         total = 0
         for c in self.topology.cube_corners:
-- 
2.43.0


From 17342371eebacc5c535f119897895a5b4a834882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 21/80] fix: pseudoinverse of matrices with more columns than
 rows

---
 pycomplex/math/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..b224903 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -223,4 +223,4 @@ def pinv(A, r=1e-9):
     inv = 1 / s
     inv[np.abs(s / s[..., :1]) < r] = 0
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v[..., :s.shape[-1], :])
-- 
2.43.0


From 5d46d7e2f1b548fc63741eb377a06f858925c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 22/80] fix: angles of collinear triangles could be nan

---
 pycomplex/geometry/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index bcc7025..3eaa1f9 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -336,7 +336,8 @@ def triangle_angles(vertices):
     """
     edges = np.roll(vertices, -1, axis=-2) - np.roll(vertices, +1, axis=-2)
     edges = linalg.normalized(edges, ignore_zeros=True)
-    return np.arccos(-linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2)))
+    cosines = -linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2))
+    return np.arccos(np.clip(cosines, -1, 1))
 
 
 def segment_normals(corners):
-- 
2.43.0


From 3eae6273fed7e6a7f319d21dfc46b597429dd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:04 +0000
Subject: [PATCH 23/80] fix: construction of the circumcenters of more than one
 simplex

---
 pycomplex/geometry/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 3eaa1f9..0b7616c 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -44,13 +44,13 @@ def circumcenter_construction(pts, weights=None):
         weights = np.asarray(weights)
 
     first = pts[..., 0, :]
-    moved = pts[..., 1:, :] - first
+    moved = pts[..., 1:, :] - first[..., None, :]
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = linalg.dot(pinv, e2[..., None, :]) / 2 + first
     return centroid
 
 
-- 
2.43.0


From 99da78685b011d24555dff5c34685901b7e066b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 24/80] fix: spherical length of edges between (nearly)
 coincident or opposite points could be nan

---
 pycomplex/geometry/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 189a864..9a8a5e8 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -18,7 +18,7 @@ def edge_length(*edge):
     lengths: ndarray, [n], float
         length along the unit sphere of each segment
     """
-    return np.arccos(linalg.dot(*edge))
+    return np.arccos(np.clip(linalg.dot(*edge), -1, 1))
 
 
 def triangle_area_from_normals(*edge_planes):
-- 
2.43.0


From 832b17e9b509e6813cb10348ece2de8df8b83709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 25/80] fix: spherical areas around a center, and circumcenters
 of points, for any number of leading axes

---
 pycomplex/geometry/spherical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 9a8a5e8..387a709 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -72,9 +72,9 @@ def triangle_areas_around_center(center, corners):
     """
     areas = np.empty(corners.shape[:-1])
     for i in range(3):
-        areas[:,:,i] = triangle_area_from_corners(center, corners[:,:,i-2], corners[:,:,i-1])
+        areas[..., i] = triangle_area_from_corners(center, corners[..., i-2, :], corners[..., i-1, :])
     #swivel equilaterals to vonoroi parts
-    return (areas.sum(axis=2)[:,:,None]-areas) / 2
+    return (areas.sum(axis=-1)[..., None]-areas) / 2
 
 
 def unsigned_volume(pts):
@@ -156,7 +156,7 @@ def circumcenter(pts):
     if n_pts == 2:
         return edge_circumcenter(pts)
     if n_pts == 1:
-        return pts[:, 0, :]
+        return pts[..., 0, :]
     from pycomplex.geometry import euclidian
     return linalg.normalized(euclidian.circumcenter(pts))
 
-- 
2.43.0


From fb20e26ecb8c8442951f32e28d2da54607d61df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 26/80] fix: subdivisions of a spherical complex keep its
 radius, and do not keep weights that belong to other vertices

---
 pycomplex/complex/simplicial/base.py      | 6 ++++--
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..2d5a66f 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -17,9 +17,10 @@ class BaseComplexSimplicial(BaseComplex):
     """
 
     def subdivide_fundamental(self, oriented=True):
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate(self.primal_position, axis=0),
             topology=self.topology.subdivide_fundamental(oriented),
+            weights=None,
         )
 
     def subdivide_fundamental_transfer(self):
@@ -27,9 +28,10 @@ class BaseComplexSimplicial(BaseComplex):
 
     def subdivide_simplicial(self):
         PP = self.primal_position
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate([PP[0], PP[-1]], axis=0),
             topology=self.topology.subdivide_simplicial(),
+            weights=None,
         )
 
     def subdivide_cubical(self):
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..4a93f15 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -234,7 +234,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None,
         )
 
     def subdivide_loop_direct(self):
@@ -245,7 +246,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None,
         )
 
     def as_euclidian(self):
-- 
2.43.0


From 019be815e1d97da730135629328b480d0281e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 27/80] fix: the boundary of a spherical complex keeps its
 radius, and exists for complexes on the 2-sphere

---
 pycomplex/complex/simplicial/spherical.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 4a93f15..c8b56af 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -34,6 +34,20 @@ class ComplexSpherical(BaseComplexSimplicial):
         self.topology = topology
         self.radius = radius
 
+    @cached_property
+    def boundary(self):
+        """Boundary is of lower dimension, but lies on the same sphere"""
+        boundary = self.topology.boundary
+        if boundary is None:
+            return None
+        idx = boundary.parent_idx[0]
+        return ComplexSpherical(
+            vertices=self.vertices[idx],
+            topology=boundary,
+            radius=self.radius,
+            weights=None if self.weights is None else self.weights[idx]
+        )
+
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
         return ComplexSimplicialEuclidian(vertices=self.vertices, topology=self.topology, weights=self.weights)
-- 
2.43.0


From 6699d1766e12553a784bd38247b1b1df30e11db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 28/80] fix: casting a complex on the 2-sphere to a euclidian
 one keeps its weights

---
 pycomplex/complex/simplicial/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index c8b56af..1b4c866 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -266,7 +266,7 @@ class ComplexSpherical2(ComplexSpherical):
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From 328a42688d74c71473bf7e44f64be89584c718cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:55 +0000
Subject: [PATCH 29/80] fix: area of spherical triangles whose corners (nearly)
 coincide, as occur in transfers between symmetric complexes

---
 pycomplex/geometry/spherical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 387a709..ac01388 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -53,7 +53,10 @@ def triangle_area_from_corners(*tri):
     areas : ndarray, [n], float
         spherical area enclosed by the input corners
     """
-    return triangle_area_from_normals(*[np.cross(tri[v-2], tri[v-1]) for v in range(3)])
+    # unlike the sum of angles, this is accurate for tiny triangles, and well-defined for degenerate ones
+    a, b, c = [linalg.normalized(t) for t in tri]
+    triple = np.abs(linalg.dot(a, np.cross(b, c)))
+    return 2 * np.arctan2(triple, 1 + linalg.dot(a, b) + linalg.dot(b, c) + linalg.dot(c, a))
 
 
 def triangle_areas_around_center(center, corners):
-- 
2.43.0


From 595325e1cd55fb335fca6e9889c6f3fe76922aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:55 +0000
Subject: [PATCH 30/80] fix: dual transfers between spherical complexes
 oriented inwards

---
 pycomplex/complex/simplicial/spherical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 1b4c866..4d80179 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -349,8 +349,11 @@ class ComplexSpherical2(ComplexSpherical):
         L = r = m - 2
 
         # compute the two intersection points
-        pl = +intersect_edges(p0[a, l], P2, p1[a, L], p2)   # right fine edge is left coarse edge / left fine vertex
-        pr = -intersect_edges(p0[a, r], P2, p1[a, R], p2)   # left fine edge if right coarse edge / right fine vertex
+        pl = intersect_edges(p0[a, l], P2, p1[a, L], p2)   # right fine edge is left coarse edge / left fine vertex
+        pr = intersect_edges(p0[a, r], P2, p1[a, R], p2)   # left fine edge if right coarse edge / right fine vertex
+        # of the two points where great circles intersect, the one inside the triangle is meant
+        pl = pl * np.sign(linalg.dot(pl, P2))[:, None]
+        pr = pr * np.sign(linalg.dot(pr, P2))[:, None]
 
         if False:
             import matplotlib.pyplot as plt
-- 
2.43.0


From cad420b7bccbc3e311ee619c7e709e19c8710b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 31/80] fix: fundamental domain picking in three dimensions;
 weights of n-element vertices so the dual vertex is strictly inside each
 domain

---
 pycomplex/complex/simplicial/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 2d5a66f..174e7c6 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -208,6 +208,13 @@ class BaseComplexSimplicial(BaseComplex):
 
         # best to only push away along primal edges, since dual edge lengths are much more variable
         weights[:parent.n_elements[0]] = scale[:parent.n_elements[0]] / 4
+        if self.topology.n_dim > 2:
+            # with more than two dimensions, the dual vertex still touches the boundary of the domain,
+            # unless it is pushed away from the parent n-elements as well; by no more than their nearest face allows
+            shortest = np.full(len(weights), np.inf)
+            for i in (0, 1):
+                np.minimum.at(shortest, self.topology.elements[1][:, i], edge_length ** 2)
+            weights[-parent.n_elements[-1]:] = shortest[-parent.n_elements[-1]:] / 4
         # weights[-parent.n_elements[-1]:] = scale
         # weights[parent.n_elements[0]:-parent.n_elements[-1]] = -scale / 2
 
-- 
2.43.0


From 10ede13611afc2ab314671cbef2fc620fcc60863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 32/80] fix: dual flux to velocity on regular complexes has the
 direction of the flux, like it has on simplicial ones

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index bf7bb9e..9ca309f 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -385,7 +385,7 @@ class BaseComplex(object):
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-            gradients = pp[-2][B] - pp[-1][:, None, :]
+            gradients = pp[-1][:, None, :] - pp[-2][B]
             # gradients -= gradients.mean(axis=1, keepdims=True)
 
             gradients = linalg.normalized(gradients)
-- 
2.43.0


From 6435e0f6785f3fcacedfa3f54b8661aa24310007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 33/80] fix: orthonormalize mirrored, singular and non-square
 input

---
 pycomplex/math/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index b224903..7288e35 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -85,9 +85,10 @@ def orthonormalize(axes, demirror=True):
     """
     axes = np.asarray(axes)
     u, _, v = np.linalg.svd(axes)
-    if demirror:
-        det = np.linalg.det(axes)
-        v[0] *= np.sign(det)
+    if demirror and len(u) == len(v):
+        # flip the axis along which the least resemblance is lost
+        if np.linalg.det(u) * np.linalg.det(v) < 0:
+            v[-1] *= -1
     return u.dot(np.eye(*axes.shape)).dot(v)
 
 
-- 
2.43.0


From 83d808501434f01e640481b65320b40ad6b40525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 34/80] fix: angle of rotations that are the identity or a half
 turn up to rounding

---
 pycomplex/math/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 7288e35..7e7dd45 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -127,7 +127,7 @@ def angle_from_rotation(R):
     """Extract rotation angle in radians from n-dimensional rotation matrix"""
     n, m = R.shape[-2:]
     assert n == m
-    return np.arccos(1 - (n - np.einsum('...ii->...', R)) / 2)
+    return np.arccos(np.clip(1 - (n - np.einsum('...ii->...', R)) / 2, -1, 1))
 
 
 def adjoint(A):
-- 
2.43.0


From d0745c8eafb5c150c744112350ed7c030b76a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 35/80] fix: pseudoinverse of zero matrices

---
 pycomplex/math/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 7e7dd45..6549fef 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -221,7 +221,8 @@ def pinv(A, r=1e-9):
 
     """
     u, s, v = np.linalg.svd(A)
-    inv = 1 / s
-    inv[np.abs(s / s[..., :1]) < r] = 0
+    drop = s <= r * s[..., :1]
+    inv = 1 / np.where(drop, 1, s)
+    inv[drop] = 0
     # s[:, self.complex.topology.n_dim:] = 0
     return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v[..., :s.shape[-1], :])
-- 
2.43.0


From 8a919b58453ba0b6389df6c6148c97ca0d85bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 36/80] fix: pairs ends with its iterator, rather than by a
 RuntimeError

---
 pycomplex/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomplex/util.py b/pycomplex/util.py
index fff17cb..df06727 100755
--- a/pycomplex/util.py
+++ b/pycomplex/util.py
@@ -4,11 +4,13 @@ import operator
 def pairs(iterable):
     """Yield pairs of an iterator"""
     it = iter(iterable)
-    x = next(it)
-    while True:
-        p = x
-        x = next(it)
+    try:
+        p = next(it)
+    except StopIteration:
+        return
+    for x in it:
         yield p, x
+        p = x
 
 
 def accumulate(iterable, func=operator.add):
-- 
2.43.0


From de64d2b91780a08655079f85d99fe07b9cb5608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:53 +0000
Subject: [PATCH 37/80] fix: solve_minres without an initial guess, or with a
 zero right hand side

---
 pycomplex/solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index d0d34fe..f905fc8 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -97,7 +97,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rnorm = 0
     ynorm = 0
 
-    xtype = x0.dtype
+    xtype = np.result_type(A, b, float) if x0 is None else x0.dtype
 
     eps = np.finfo(xtype).eps
 
@@ -118,7 +118,8 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
         raise ValueError('indefinite preconditioner')
 
     beta1 = np.sqrt(beta1)
-
+    if beta1 == 0:
+        return x
 
     # Initialize other quantities
     oldb = 0
-- 
2.43.0


From 8e41e6df94589cba4ba17d886b9ca874bf90c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 38/80] fix: block arrays whose blocks are of equal size are
 not merged into one

---
 pycomplex/block.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..0a44975 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -25,11 +25,29 @@ from cached_property import cached_property
 from pycomplex.sparse import sparse_zeros
 
 
+def object_array(blocks, shape):
+    """Array of the given shape, filled with the given list of blocks, which are never merged themselves"""
+    output = np.empty(len(blocks), dtype=object)
+    for i, b in enumerate(blocks):
+        output[i] = b
+    return output.reshape(shape)
+
+
+def nested_to_array(block):
+    """Convert nested lists of blocks to an object array, without merging in leaf level arrays"""
+    if not isinstance(block, (list, tuple)):
+        return np.asarray(block, dtype=object)
+    rows = [nested_to_array(b) if isinstance(b, (list, tuple)) else object_array([b], ()) for b in block]
+    shape = rows[0].shape if rows else ()
+    if any(r.shape != shape for r in rows):
+        raise ValueError('blocks do not form a regular grid')
+    return object_array([b for r in rows for b in r.flatten()], (len(rows),) + shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
     def __init__(self, block):
-        # FIXME: we wish to convertnested lists but not merge in leaf level arrays. how to enforce this?
-        self.block = np.asarray(block, dtype=object)
+        self.block = nested_to_array(block)
         # assert self.compatible
 
     @cached_property
@@ -78,7 +96,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -90,7 +108,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def __getitem__(self, slc):
         """Slicing simply passes on to the block"""
@@ -109,8 +127,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
-        return type(self)(block)
+        return type(self)(object_array(block, A.shape))
 
     def __add__(self, other):
         """Add two block matrices"""
@@ -297,9 +314,7 @@ class DenseBlockArray(BlockArray):
 
         coords = np.indices(self.block.shape)
         blocks = [x[slices(c)] for c in coords.reshape(self.ndim, -1).T]
-        blockss = np.empty(len(blocks), object)
-        blockss[...] = blocks
-        blocks = blockss.reshape(self.block.shape)
+        blocks = object_array(blocks, self.block.shape)
         if self.nested:
             # split each subblock
             # FIXME
-- 
2.43.0


From 4a3070a4194c1b4720fe2350abeb9b79a978e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 39/80] fix: shape of block arrays of more than one dimension

---
 pycomplex/block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 0a44975..584be50 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -69,7 +69,8 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [[self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
+                for n in range(self.ndim)]
 
     @cached_property
     def nested(self):
@@ -208,8 +209,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
-- 
2.43.0


From de570c09c378a05b50de46c8517523fed8df7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 40/80] fix: diagonal block matrices have matrices off their
 diagonal, so they can be merged

---
 pycomplex/block.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 584be50..f02d9f9 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -291,12 +291,7 @@ class SparseBlockMatrix(BlockMatrix):
     @staticmethod
     def diags(diag):
         """Turn dense block vector into diagonal block structure"""
-        assert diag.ndim == 1
-        output_shape = diag.block.shape * 2
-        output = np.zeros(output_shape, dtype=object)
-        for i, b in enumerate(diag.block):
-            output[i, i] = scipy.sparse.diags(b)
-        return SparseBlockMatrix(output)
+        return BlockMatrix.as_diagonal(diag)
 
 
 
-- 
2.43.0


From 5a2d7e8ba8a674f9d1dee78799d4c6b977a30062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 41/80] fix: merging a sparse block matrix does not change its
 blocks

---
 pycomplex/block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index f02d9f9..dafcc9e 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -286,7 +286,8 @@ class SparseBlockMatrix(BlockMatrix):
     def merge(self):
         if self.nested:
             raise NotImplementedError
-        return scipy.sparse.bmat(self.block)
+        # pass a copy; bmat converts the blocks it is given in place
+        return scipy.sparse.bmat(self.block.copy())
 
     @staticmethod
     def diags(diag):
-- 
2.43.0


From 68db1c086ff85c01c73d377ed379964fb8b75d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 42/80] fix: transfer of stencil forms that are not contiguous
 in memory

---
 pycomplex/stencil/topology.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 74398c8..c8f8df1 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -167,7 +167,7 @@ class StencilTopology(object):
                 for c, s in enumerate(self.symbols[n]):
                     bins = [2 if i in s else 1 for i in range(self.n_dim)]
                     skips = [slice(None, None, 1 if i in s else 2) for i in range(self.n_dim)]
-                    coarse[c] = binning(fine[c][skips], bins)
+                    coarse[c] = binning(fine[c][tuple(skips)], bins)
                 return coarse
             return inner
 
@@ -178,15 +178,10 @@ class StencilTopology(object):
                 for c, s in enumerate(self.symbols[n]):
                     repeats = [2 if i in s else 1 for i in range(self.n_dim)]
                     view = coarse[c]
-                    view = np.ndarray(
-                        buffer=view.data,
-                        dtype=view.dtype,
-                        strides=[q for p in view.strides for q in (p, 0)],
-                        shape=[q for p in zip(view.shape, repeats) for q in p],
-                    )
-                    view = view.reshape([s*r for s, r in zip(coarse[c].shape, repeats)])
+                    for axis, r in enumerate(repeats):
+                        view = np.repeat(view, r, axis=axis)
                     skips = [slice(None, None, 1 if i in s else 2) for i in range(self.n_dim)]
-                    fine[c][skips] = view
+                    fine[c][tuple(skips)] = view
                 return fine
             return inner
 
-- 
2.43.0


From e2bb14c9c22034acb2b78cb1e34d0b38797d32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 43/80] fix: sampling of stencil 0-forms at interior points

---
 pycomplex/stencil/complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5ffa01b..8fd971c 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -196,8 +196,9 @@ class StencilComplex(object):
         assert self.topology.boundary == 'periodic'
         points = np.asarray(points) / self.scale
 
+        f0 = f0[0]
         if not assume_interior:
-            f0 = np.pad(f0[0], [(0, 1)] * self.n_dim, mode='wrap')
+            f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
 
         return ndimage.map_coordinates(f0, points.T, order=1)
-- 
2.43.0


From 65e4b1140fc38cf72aab2100e9ac86b0d07a3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 44/80] fix: stencil operators as linear operators act on
 flattened forms

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..bcce105 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).flatten(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).flatten(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From f2926b79de1a234d56ae8d994973b2f7e5dd60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 45/80] fix: simplification of diagonal operators does not drop
 terms that are merely small, or close to one

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index bcce105..af4b4dd 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -156,9 +156,9 @@ class DiagonalOperator(SymmetricOperator):
             )
 
     def simplify(self):
-        if np.allclose(self.diagonal, 0):
+        if np.all(self.diagonal == 0):
             return ZeroOperator(self.shape)
-        if np.allclose(self.diagonal, 1):
+        if np.all(self.diagonal == 1):
             return IdentityOperator(self.shape[0])
         return self
 
-- 
2.43.0


From b5c80dd74dc00f6620f83fb4119a0464407f8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 46/80] fix: stencil block arrays whose blocks are of equal
 shape are not merged into one

---
 pycomplex/stencil/block.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..5858b93 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -2,10 +2,10 @@ from cached_property import cached_property
 
 import numpy as np
 
+from pycomplex.block import object_array, nested_to_array
 from pycomplex.stencil.operator import ZeroOperator
 
 
-
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -13,19 +13,8 @@ class BlockArray(object):
         if isinstance(block, np.ndarray) and block.dtype == object:
             self.block = block
         else:
-            if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
-            elif ndim == 2:
-                b = np.empty((len(block), len(block[0])), object)
-                for i in range(b.shape[0]):
-                    for j in range(b.shape[1]):
-                        b[i, j] = block[i][j]
-                self.block = b
-            else:
-                # NOTE: this has some annoying failure cases, like singleton lists freaking out
-                self.block = np.asarray(block, dtype=object)
+            self.block = nested_to_array(block)
+            assert ndim is None or self.block.ndim == ndim
         # assert self.is_compatible
 
     @cached_property
@@ -52,7 +41,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +53,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,8 +67,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
-        return type(self)(block)
+        return type(self)(object_array(block, A.shape))
 
     def __add__(self, other):
         """Add two block operators"""
-- 
2.43.0


From 8d9670a8a66eccaa25401ee19cfb81929e51ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 47/80] fix: block arrays from dense vectors of more than two
 blocks, and block operators that are not square as linear operators

---
 pycomplex/stencil/block.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 5858b93..6f11e8a 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -146,7 +146,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x.flatten(), np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
@@ -286,10 +286,9 @@ class BlockOperator(BlockArray):
         T = self.transpose()
         R = BlockArray([np.zeros(self.block[0, i].shape[1]) for i in range(self.cols)], ndim=1)
         L = BlockArray([np.zeros(self.block[i, 0].shape[0]) for i in range(self.rows)], ndim=1)
-        # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From 8cd077d05eccaf101d8ca0f2ac3029c74c139f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 48/80] fix: shape of stencil block operators

---
 pycomplex/stencil/block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 6f11e8a..4b9bf0d 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -34,7 +34,8 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [self.block.swapaxes(0, n)[i].flat[0].shape[n] if self.ndim > 1 else self.block[i].shape[n]
+             for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
@@ -186,8 +187,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From f3720c02e57567ef62162e88e2fcaf6b9de2c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 49/80] fix: assigning forms of a single zero or one to a block
 array keeps them forms

---
 pycomplex/stencil/block.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 4b9bf0d..ae83254 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -106,32 +106,32 @@ class BlockArray(object):
 
     def __setitem__(self, key, value):
         try:
-            if value == 0:
-                from pycomplex.stencil.operator import ZeroOperator
-                self.block[key] = ZeroOperator(shape=self.block[key].shape)
+            from pycomplex.stencil.operator import StencilOperator
+            if isinstance(value, StencilOperator):
+                assert self.block[key].shape == value.shape
+                self.block[key] = value
                 return
         except:
             pass
         try:
-            if value == 1:
-                from pycomplex.stencil.operator import IdentityOperator
-                assert self.block[key].shape[0] == self.block[key].shape[1]
-                self.block[key] = IdentityOperator(shape=self.block[key].shape[0])
+            if isinstance(value, np.ndarray):
+                assert self.block[key].shape == value.shape
+                self.block[key] = value
                 return
         except:
             pass
         try:
-            from pycomplex.stencil.operator import StencilOperator
-            if isinstance(value, StencilOperator):
-                assert self.block[key].shape == value.shape
-                self.block[key] = value
+            if value == 0:
+                from pycomplex.stencil.operator import ZeroOperator
+                self.block[key] = ZeroOperator(shape=self.block[key].shape)
                 return
         except:
             pass
         try:
-            if isinstance(value, np.ndarray):
-                assert self.block[key].shape == value.shape
-                self.block[key] = value
+            if value == 1:
+                from pycomplex.stencil.operator import IdentityOperator
+                assert self.block[key].shape[0] == self.block[key].shape[1]
+                self.block[key] = IdentityOperator(shape=self.block[key].shape[0])
                 return
         except:
             pass
-- 
2.43.0


From 5db223943875f74209680d65383a2fd5b632705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 50/80] fix: diagonal of block operators on periodic grids of
 odd length

---
 pycomplex/stencil/block.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index ae83254..c7b60df 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -217,14 +217,24 @@ class BlockOperator(BlockArray):
         # and needs to know about seperate components
         from pycomplex.stencil.util import checkerboard
 
-        def pattern(shape, c, sign):
+        def colors(shape):
+            """assign a color to each element, such that neighbors never share one"""
+            if all(s % 2 == 0 for s in shape):
+                return checkerboard(shape)
+            # a periodic axis of odd length needs a third color
+            idx = np.indices(shape)
+            for axis, s in enumerate(shape):
+                idx[axis] = np.where((s % 2 == 1) & (idx[axis] == s - 1), 2, idx[axis] % 2)
+            return idx.sum(axis=0) % 3
+
+        def pattern(shape, c, color):
             pattern = np.zeros(shape)
-            pattern[c] = checkerboard(shape[1:]) if sign else 1 - checkerboard(shape[1:])
+            pattern[c] = colors(shape[1:]) == color
             return pattern
 
         def do(db, shape, c):
-            p, a = pattern(shape, c, 0), pattern(shape, c, 1)
-            return db(p) * p + db(a) * a
+            patterns = [pattern(shape, c, color) for color in np.unique(colors(shape[1:]))]
+            return sum(db(p) * p for p in patterns)
         # assert self.is_square
         def block(i):
             db = self.block[i, i]
-- 
2.43.0


From b355f9a28ce0d57acfadb710a88a14936c07bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 51/80] fix: allocation of the unknowns and right hand side of
 stencil systems

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..29a1376 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R], ndim=1)
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L], ndim=1)
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From a327d91dc0757303047645bc5bc3c5190132ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 52/80] fix: subsystems of stencil systems selected by lists of
 blocks

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 29a1376..e7a9de5 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -145,8 +145,8 @@ class System(object):
     def __getitem__(self, item):
         """Slice a subsystem of full cochain complex"""
         return self.copy(
-            A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            A=self.A.__getslice__(item[0]).__getslice__((slice(None), item[1])).copy(),
+            B=self.B.__getslice__(item[0]).__getslice__((slice(None), item[0])).copy(),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From ea6f5a1c0302a40b0c526b498ecaddaae1b49a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 53/80] fix: default initial guess of stencil equations is in
 the space of unknowns

---
 pycomplex/stencil/equation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..9253309 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -37,13 +37,13 @@ class Equation(object):
     def solve_minres(self, y, x0=None, **kwargs):
         A = self.system.A.aslinearoperator()
         b = (self.system.B * y).to_dense()
+        if x0 is None:
+            x0 = self.system.allocate_x()
         x, _ = scipy.sparse.linalg.minres(A=A, b=b, x0=x0.to_dense(), **kwargs)
         return x0.from_dense(x)
 
     def solve_minres_normal(self, y, x0=None, **kwargs):
         """Works both for zero-conduction and zero-resistance zero-order problems"""
-        if x0 is None:
-            x0 = y * 0
         return self.normal.solve_minres(y, x0, **kwargs)
 
     def solve_qmr(self, y, x0, **kwargs):
@@ -174,6 +174,4 @@ class NormalSmoothEquation(Equation):
 
 class NormalEquation(Equation):
     def solve(self, y, x0=None, **kwargs):
-        if x0 is None:
-            x0 = y * 0
         return self.solve_minres(y=y, x0=x0, **kwargs)
-- 
2.43.0


From 8a4027caa49a1364b7b05fa1693686322ea7f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 54/80] fix: diffusion without a 'foo' field, as documented

---
 pycomplex/stencil/diffusion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycomplex/stencil/diffusion.py b/pycomplex/stencil/diffusion.py
index 6122572..ab25dd5 100644
--- a/pycomplex/stencil/diffusion.py
+++ b/pycomplex/stencil/diffusion.py
@@ -66,7 +66,8 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
         # field effect can be driven to zero in either equation
         system.A[0, 1] = system.A[0, 1] * DO(fields['conductance'])     # div
         system.A[1, 1] = system.A[1, 1] * DO(fields['resistance'])      # grad
-        system.A[1, 0] = DO(fields['foo']) * system.A[1, 0]
+        if 'foo' in fields:
+            system.A[1, 0] = DO(fields['foo']) * system.A[1, 0]
         return cls(system, fine, fields)
 
     @classmethod
@@ -123,11 +124,10 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
         return type(self).formulate(
             complex=self.complex.coarse,
             fine=self,
+            # the constraint is a 0-form; all other fields are 1-forms
             fields={
-                'constraint': self.complex.coarsen[0] * self.fields['constraint'],
-                'conductance': self.complex.coarsen[1] * self.fields['conductance'],
-                'resistance': self.complex.coarsen[1] * self.fields['resistance'],
-                'foo': self.complex.coarsen[1] * self.fields['foo'],
+                key: self.complex.coarsen[0 if key == 'constraint' else 1] * field
+                for key, field in self.fields.items()
             }
         )
 
-- 
2.43.0


From 3ec9f205fa7f7d1697ae834c695ea013ec23f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 55/80] fix: block relaxation on normal equations of the second
 kind reduces the residual

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 9253309..6a424d0 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -141,7 +141,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From ef6f8057ba6c0cc7caf36e73d9e2093c2861e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 56/80] fix: affine_transform of complexes, in any dimension

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9ca309f..8f6b03e 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -114,9 +114,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From 7ac1f5ca457e27ad75c407b7e87fa6b5476f5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 57/80] fix: cast of a weighted triangular complex to a
 spherical one keeps its weights

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 91e62a2..1d1e18f 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -720,7 +720,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
-- 
2.43.0


From f228be432fe34c0b291d65d18952176f146baf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 58/80] fix: conversion of lines to a simplicial complex

---
 pycomplex/complex/cubical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..c8b466f 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -304,10 +304,10 @@ class ComplexCubical1(ComplexCubical):
 
     def to_simplicial(self):
         """Convert the cubical complex into a simplicial complex; trivial"""
-        from pycomplex.complex.simplicial.euclidian import ComplexSimplicial1
-        return ComplexSimplicial1(
+        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
+        return ComplexSimplicialEuclidian(
             vertices=self.vertices,
-            topology=self.topology.as_1().subdivide_simplicial()
+            simplices=self.topology.elements[1]
         )
 
 
-- 
2.43.0


From 243a92fa3936f1d1fe3ecd37fac06677e776a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 59/80] fix: fundamental domains of unevenly refined complexes
 are well-centered after optimization of their weights

---
 pycomplex/complex/simplicial/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 174e7c6..7db3fc9 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -206,14 +206,17 @@ class BaseComplexSimplicial(BaseComplex):
         A = self.topology.averaging_operators_0[1].T
         scale = (A * edge_length ** 2) / (A * np.ones_like(edge_length))
 
+        # vertices cannot be pushed by more than their shortest edge allows
+        shortest = np.full(len(weights), np.inf)
+        for i in (0, 1):
+            np.minimum.at(shortest, self.topology.elements[1][:, i], edge_length ** 2)
+        scale = np.minimum(scale, shortest * 2)
+
         # best to only push away along primal edges, since dual edge lengths are much more variable
         weights[:parent.n_elements[0]] = scale[:parent.n_elements[0]] / 4
         if self.topology.n_dim > 2:
             # with more than two dimensions, the dual vertex still touches the boundary of the domain,
             # unless it is pushed away from the parent n-elements as well; by no more than their nearest face allows
-            shortest = np.full(len(weights), np.inf)
-            for i in (0, 1):
-                np.minimum.at(shortest, self.topology.elements[1][:, i], edge_length ** 2)
             weights[-parent.n_elements[-1]:] = shortest[-parent.n_elements[-1]:] / 4
         # weights[-parent.n_elements[-1]:] = scale
         # weights[parent.n_elements[0]:-parent.n_elements[-1]] = -scale / 2
-- 
2.43.0


From c70b118c4347100d920c2568de5ed8f3b771f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 60/80] fix: circle without subdivisions is on the unit circle

---
 pycomplex/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index 4b3090e..1120eea 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -70,6 +70,7 @@ def n_cube(n_dim, centering=False, mirror=True):
 def circle(subdivisions: int) -> ComplexCubical1Euclidian2:
     """Construct a circle as a 1-cube grid embedded in euclidian 2-space"""
     complex = n_cube(2, centering=True).boundary
+    complex = complex.copy(vertices=linalg.normalized(complex.vertices))
     for i in range(subdivisions):
         complex = complex.subdivide_cubical(smooth=True)
         complex = complex.copy(vertices=linalg.normalized(complex.vertices))
-- 
2.43.0


From 50707aff394cb646f0a23a0640dfc96245081dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 61/80] fix: multi_indices of items that occur in one of both
 only, or unequally often

---
 pycomplex/sparse.py | 61 ++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index 5f5f2f5..d254127 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -116,54 +116,19 @@ def multi_indices(this, that):
         indices into that
 
     """
-    i_this = npi.as_index(this)
-    i_that = npi.as_index(that)
-
-    # FIXME: both counts need to be versus the same range
-    _, c_this = npi.count(i_this)
-    _, c_that = npi.count(i_that)
-    ok = _
-
-    # total number of entries in the broadcasting pattern
-    nnz = (c_this * c_that).sum()
-
-    cg = np.vstack((c_this, c_that)).T
-    shapes, participants = npi.group_by(cg, ok)
-
-    out_this = []
-    out_that = []
-    for shape, participant in zip(shapes, participants):
-        this_idx, that_idx = np.indices(shape, np.int)
-
-        if True:
-            ti = npi.contains(participant, i_this)
-            q = npi.group_by(this[ti]).split_array_as_array(np.flatnonzero(ti))
-            f = q[:, this_idx.reshape(1, -1)]
-            out_this.append(f.flatten())
-
-            ti = npi.contains(participant, i_that)
-            q = npi.group_by(that[ti]).split_array_as_array(np.flatnonzero(ti))
-            f = q[:, that_idx.reshape(1, -1)]
-            out_that.append(f.flatten())
-
-        if False:
-            for p in participant:
-                a, = np.where(this==p)
-                o = a[this_idx.flatten()]
-                out_this.append(o)
-                b, = np.where(that==p)
-                o = b[that_idx.flatten()]
-                out_that.append(o)
-
-    out_this = np.concatenate(tuple(out_this))
-    out_that = np.concatenate(tuple(out_that))
-
-    if not len(out_this) == nnz:
-        raise ValueError
-
-    if not np.array_equiv(this[out_this], that[out_that]):
-        # add a little sanity check; this should be true by construction
-        raise ValueError
+    this, that = np.asarray(this), np.asarray(that)
+    # label the items of both by the same range
+    label = npi.as_index(np.concatenate((this, that))).inverse
+    l_this, l_that = label[:len(this)], label[len(this):]
+
+    # matches of each item of this form a contiguous range in sorted that
+    order = np.argsort(l_that, kind='mergesort')
+    start = np.searchsorted(l_that[order], l_this, side='left')
+    count = np.searchsorted(l_that[order], l_this, side='right') - start
+
+    out_this = np.repeat(np.arange(len(this)), count)
+    offset = np.arange(count.sum()) - np.repeat(np.cumsum(count) - count, count)
+    out_that = order[np.repeat(start, count) + offset]
 
     return out_this, out_that
 
-- 
2.43.0


From c7af03ef362c103edf2c8b9fd10435642296360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 62/80] fix: dot products of sparse arrays without common
 entries

---
 pycomplex/sparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index d254127..0d3fead 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -98,9 +98,6 @@ def multi_indices(this, that):
     Should the items in both this and that be unique, npi.indices is a more efficient alternative
     with identical results
 
-    Note that this function only has vectorized efficiency if the number of 'combinatorial patterns' is small
-    relative to the overall size of the problem.
-
     Parameters
     ----------
     this : indexable object
@@ -210,8 +207,11 @@ class Sparse(object):
                 free.append(other.axes[-1][oi])
 
             # sum over j
+            data = self.data[si] * other.data[oi]
+            if len(data) == 0:
+                return Sparse(free, data)
             g = npi.group_by(tuple(free))
-            k, v = g.sum(self.data[si] * other.data[oi])
+            k, v = g.sum(data)
             return Sparse(k, v)
         else:
             raise NotImplementedError
-- 
2.43.0


From 034f1a6a6753c66f893372208d76add75763773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:40 +0000
Subject: [PATCH 63/80] fix: weights of extruded weighted surfaces, one per
 vertex of the solid

---
 pycomplex/complex/simplicial/euclidian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 1d1e18f..051806f 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -795,7 +795,11 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         solid_points = np.concatenate((self.vertices, other.vertices))
         solid_tris   = np.concatenate((self_tris, other_tris, boundary_tris))
 
-        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None)
+        # weights belong to vertices; keep them if both surfaces have them
+        weighted = self.weights is not None and other.weights is not None
+        weights = np.concatenate((self.weights, other.weights)) if weighted else None
+
+        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None, weights=weights)
         assert solid.topology.is_oriented
         return solid
 
-- 
2.43.0


From d5cf612a27cc9694e7a502c3f14b2cae3cde9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:08 +0000
Subject: [PATCH 64/80] fix: averaging operators in dimension six, where the
 count of paths between elements does not fit in a byte

---
 pycomplex/topology/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 64dffd8..bebc57b 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -218,7 +218,7 @@ class BaseTopology(object):
         Primal could override this implementation with a more efficient implementation based on elements/corners arrays
 
         """
-        A = list(accumulate([np.abs(m) for m in self.matrices], func=operator.mul))
+        A = list(accumulate([np.abs(m).astype(index_dtype) for m in self.matrices], func=operator.mul))
         return [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
 
     def accumulated_operators_N(self):
@@ -230,7 +230,7 @@ class BaseTopology(object):
             n-th element of the list maps n-elements to N-elements
 
         """
-        A = list(accumulate([np.abs(m.T) for m in self.matrices[::-1]], func=operator.mul))
+        A = list(accumulate([np.abs(m.T).astype(index_dtype) for m in self.matrices[::-1]], func=operator.mul))
         A = [scipy.sparse.identity(A[0].shape[0], dtype=sign_dtype)] + A
         return A[::-1]
 
-- 
2.43.0


From 312691c854ec62045d18b66b6d04308ac6585b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:16 +0000
Subject: [PATCH 65/80] fix: picking of primal simplices in complexes with
 large coordinates

---
 pycomplex/complex/simplicial/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 7db3fc9..86c7396 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -370,7 +370,9 @@ class BaseComplexSimplicial(BaseComplex):
             rhs = T.T * q
             rhs = rhs - rhs.mean()  # this might aid numerical stability of minres
             # FIXME: could we use amg here?
-            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12)[0]
+            # minres is not invariant under scaling of its right hand side, and stops early if it is large
+            scale = np.abs(rhs).max() or 1
+            weight = scipy.sparse.linalg.minres(L, rhs / scale, tol=1e-12)[0] * scale
             points = self.augment(dual_vertex, weight)
         else:
             points = dual_vertex
-- 
2.43.0


From c3879cbb4083afc92d7cc25440f461dfd846bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 66/80] fix: vertices inserted in edges that lie in the
 clipping plane are on these edges

---
 pycomplex/complex/simplicial/euclidian.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 051806f..1ed6359 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -388,7 +388,8 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
         TV = self.topology.incidence[2, 0]
         EV = self.topology.incidence[1, 0]
 
-        vert_side = (self.vertices - support).dot(direction) > 0
+        height = (self.vertices - support).dot(direction)
+        vert_side = height > 0
         edge_cut = vert_side[EV].sum(axis=1) % 2 > 0
         tri_side = vert_side[TV]
         tri_cut = vert_side[TV].sum(axis=1) % 3 > 0  # true if mixed sidedness
@@ -396,9 +397,10 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
 
         # location of inserted vertices, one per cut edge; [E, 2, 3]
         edge_vert = self.vertices[EV]
-        bary_insert = (edge_vert - support).dot(direction)
-        edge_length = (edge_vert[:, 1] - edge_vert[:, 0]).dot(direction)
-        with np.errstate(divide='ignore'):
+        # the same heights decide which edges are cut; others may disagree for edges that lie in the plane
+        bary_insert = height[EV]
+        edge_length = bary_insert[:, 1] - bary_insert[:, 0]
+        with np.errstate(divide='ignore', invalid='ignore'):
             bary_insert = np.abs(bary_insert[:, ::-1] / edge_length[:, None])
         v_insert = np.einsum('vec,ve->vc', edge_vert, bary_insert)
         new_vertices = v_insert[edge_cut]
-- 
2.43.0


From e7bca69c45d483636ba22e7fdf589b8dab4ddb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:05 +0000
Subject: [PATCH 67/80] fix: segment normals of integer coordinates are not
 truncated

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 0b7616c..3deac7d 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -356,7 +356,7 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = np.empty(corners.shape[:-2] + (n_dim,))
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
-- 
2.43.0


From 90c047feff14371b4eb079a6c60d7c2bab3aaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 68/80] fix: smoothing does not truncate integer vertex
 positions

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 8f6b03e..103f0d3 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -169,7 +169,7 @@ class BaseComplex(object):
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
         # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        vertices = self.vertices * 1.0      # averages of integer positions need not be integer
         # start with n-elements, working backwards to vertices
         for corners, cr in reversed(list(zip(self.topology.corners, C))):
             if cr is not None:
-- 
2.43.0


From 171de0bd53e03ef18505847a4b4eb3667d4076a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:56 +0000
Subject: [PATCH 69/80] fix: cells that share several facets are connected

The incidence matrix is signed, so the product of the matrix with its transpose has a zero where the
signs of two shared facets differ; as in a Moebius strip of two quads. Such cells were labelled as
separate components and regions.
---
 pycomplex/topology/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index bebc57b..d191d5c 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -30,7 +30,7 @@ class BaseTopology(object):
         ndarray, [n_vertices], index_dtype
         """
         # convert to column format for fast slicing from the right
-        TnN = self.matrix(-1).tocsc()
+        TnN = abs(self.matrix(-1)).tocsc()     # without signs, for those of several shared facets may cancel
         # iterate over the N-elements of each 0-element
         T0N = self.accumulated_operators_N()[0].T.tocoo()
         I0, IN = T0N.row, T0N.col
@@ -101,7 +101,7 @@ class BaseTopology(object):
         n_components : int
         labels : ndarray, [n_elements[-1]], int
         """
-        TnN = self.matrix(-1)
+        TnN = abs(self.matrix(-1))  # without signs, for those of several shared facets may cancel
         graph = TnN.T * TnN     # graph where N-elements are nodes and n-elements are edges
         n_components, labels = scipy.sparse.csgraph.connected_components(graph)
         return n_components, labels
-- 
2.43.0


From 0e9755b2e67fd534789a2760f0f34134a253d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:17 +0000
Subject: [PATCH 70/80] fix: parent_idx of a subset refers to the selected
 cells

Cells are not determined by their corners, when they are glued along their whole boundary; so that
looking them up by their corners gave the same parent for each of them.
---
 pycomplex/topology/primal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 60f092e..9fc6dde 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -186,6 +186,8 @@ class PrimalTopology(BaseTopology):
         subset = type(self).from_elements(elements)
         subset.parent = self
         subset.parent_idx = self.find_correspondence(subset, mapping)
+        # cells need not be determined by their corners
+        subset.parent_idx[-1] = np.flatnonzero(n_chain)
         return subset
 
     @cached_property
-- 
2.43.0


From 3ecb28e97dc322554beda0f568d0f3ff0df655d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:55 +0000
Subject: [PATCH 71/80] fix: simplicial subdivision of edges

The facets of an edge are single vertices, which cannot be given a parity by swapping two vertices;
subdividing a one-dimensional topology raised an IndexError.
---
 pycomplex/topology/simplicial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index dffa73b..c5a0e06 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -34,7 +34,7 @@ def generate_simplex_boundary(simplices):
     b = np.empty((n_simplices, n_corners, n_dim), dtype=simplices.dtype)
     for c in range(n_corners):
         b[:, c] = np.roll(simplices, -c, axis=-1)[:, 1:]
-        if c % 2 and n_dim % 2:
+        if c % 2 and n_dim % 2 and n_dim > 1:   # a single vertex has no parity
             b[:, c, [0, 1]] = b[:, c, [1, 0]]   # change the parity by swapping two vertices
     return b
 
@@ -342,6 +342,9 @@ class TopologySimplicial(PrimalTopology):
         boundary = generate_simplex_boundary(self.elements[-1])
         tips = np.repeat(self.range(-1)[:, None, None], self.n_dim + 1, axis=1) + self.n_elements[0]
         simplices = np.concatenate([boundary, tips], axis=2)
+        if self.n_dim == 1:
+            # the boundary vertices of an edge do not have an orientation to pass on
+            simplices[:, 1] = simplices[:, 1, ::-1]
         return type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))
 
 
-- 
2.43.0


From d6be607054ac167961f1aa1c3bf12606c009c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 72/80] fix: regions of a vertex are told apart by the facets
 at that vertex

Two cells at a vertex were taken to be in one region there if they share any facet at all, also one
that the vertex is not part of; so that a ring of two quads closed at a single corner only counted as
manifold.
---
 pycomplex/topology/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index d191d5c..6fb9fb5 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -34,10 +34,12 @@ class BaseTopology(object):
         # iterate over the N-elements of each 0-element
         T0N = self.accumulated_operators_N()[0].T.tocoo()
         I0, IN = T0N.row, T0N.col
+        T0n = self.accumulated_operators_0()[-2].tocsr()
         regions = self.chain(n=0, fill=0, dtype=index_dtype)
         for i0, iN in zip(*npi.group_by(I0, IN)):
             # n-1-n incidence matrix of n-element incident to this 0-element
-            subset = TnN[:, iN]
+            # limited to the n-elements incident to this 0-element; the N-elements may meet elsewhere too
+            subset = TnN[:, iN][T0n[i0].indices]
             # n-element adjacency matrix of the n-elements incident to this 0-element
             g = subset.T * subset
             n_components = scipy.sparse.csgraph.connected_components(g, return_labels=False)
-- 
2.43.0


From 3925d52964e6d3dad93c5526a21d7476e582f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:11 +0000
Subject: [PATCH 73/80] fix: fractional powers of matrices with coinciding
 eigenvalues

The power of a matrix was taken from its eigenvectors, which are close to dependent for matrices with
eigenvalues that coincide up to rounding; as those of a rotation around more than one direction do.
The outcome was off by many orders of magnitude for a small part of all rotations.
---
 pycomplex/math/linalg.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 6549fef..8f966ce 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -107,12 +107,18 @@ def power(m, p):
 
     References
     ----------
-    [1] https://en.wikipedia.org/wiki/Eigendecomposition_of_a_matrix#Functional_calculus
+    [1] N. Higham, L. Lin (2011), A Schur-Pade Algorithm for Fractional Powers of a Matrix
 
+    Notes
+    -----
+    Eigenvectors are not an option; those of a matrix with (almost) coinciding eigenvalues need not be independent,
+    and those of a rotation coincide for all directions that it leaves alone
     """
-    p = np.expand_dims(np.asarray(p), -1)
-    w, v = np.linalg.eig(m)
-    return np.einsum('...ij,...j,...jk->...ik', v, w ** p, np.linalg.inv(v)).real
+    from scipy.linalg import fractional_matrix_power
+
+    def single(m, p):
+        return np.real(fractional_matrix_power(np.array(m), p))
+    return np.vectorize(single, otypes=[float], signature='(n,n),()->(n,n)')(m, p)
 
 
 def rotation_from_plane(u, v):
-- 
2.43.0


From 2185247b7b5caddf8149c1fe940148bd905aa2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 74/80] fix: multigrid transfers around vertices and edges of
 high degree

The Laplacian was formed in the type of a sign, where more than 127 edges at a vertex wrap around.
---
 pycomplex/complex/cubical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index c8b466f..caf22cc 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -148,7 +148,8 @@ class ComplexCubical(BaseComplex):
 
         def laplacian(self, k):
             """Construct laplace-beltrami of order k on primal k-forms"""
-            M = [0] + self.topology.matrices + [0]
+            # counts do not fit the type of a sign, around vertices or edges of high degree
+            M = [0] + [m.astype(float) for m in self.topology.matrices] + [0]
             L, R = M[k:k + 2]
             LT, RT = np.transpose(L), np.transpose(R)
             return LT * L + R * RT
-- 
2.43.0


From a095413b79fccb7a46bdb794dd6c607a89cee2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:46 +0000
Subject: [PATCH 75/80] fix: null vectors of matrices whose rows have crosses
 that cancel

The crosses of the pairs of rows of a matrix of rank two are parallel, but not always in the same
direction; their sum could be zero.
---
 pycomplex/math/linalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 8f966ce..741dbbc 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -171,7 +171,11 @@ def null(A):
         (array of) null space vectors
 
     """
-    return adjoint(A).sum(axis=-2)
+    N = adjoint(A)
+    # these are all parallel, but may point in opposite directions and cancel; so have them agree with the longest one
+    longest = np.argmax(dot(N, N), axis=-1)
+    sign = np.sign(dot(N, np.take_along_axis(N, longest[..., None, None], axis=-2)))
+    return (N * sign[..., None]).sum(axis=-2)
 
 
 def inverse_transpose(A):
-- 
2.43.0


From d7836330c796f35b7327edbd4e8c22ac2e6e1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:48 +0000
Subject: [PATCH 76/80] fix: dual edge excess of curves is taken at the vertex
 opposite to each corner

---
 pycomplex/complex/simplicial/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 86c7396..9b55300 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -42,6 +42,14 @@ class BaseComplexSimplicial(BaseComplex):
             topology=self.topology.subdivide_cubical(),
         )
 
+    def _opposite_facets(self):
+        """Indices and orientations of the facets of each n-simplex, in the order of the corners they are opposite to"""
+        INn, ONn = self.topology._boundary[-1], self.topology._orientation[-1]
+        if self.topology.n_dim == 1:
+            # the topology lists the vertices of an edge in the order of its corners
+            INn, ONn = INn[:, ::-1], ONn[:, ::-1]
+        return INn, ONn
+
     def dual_edge_excess(self, signed=True):
         """Compute the 'dual edge excess'
 
@@ -59,7 +67,7 @@ class BaseComplexSimplicial(BaseComplex):
         euclidian metric is used here; also usefull in spherical applications
         """
         PP = self.primal_position
-        B = self.topology._boundary[-1]
+        B, _ = self._opposite_facets()
         delta = PP[-1][:, None, :] - PP[-2][B]
         d = linalg.dot(delta, delta)  #* sign
         if signed:
@@ -236,9 +244,8 @@ class BaseComplexSimplicial(BaseComplex):
         field : ndarray, [n_n-simplices], float
             quantity defined on all boundaries
         """
-        INn = self.topology._boundary[-1]
+        INn, ONn = self._opposite_facets()
         if oriented:
-            ONn = self.topology._orientation[-1]
             field = field * ONn
         _, field = npi.group_by(INn.flatten()).sum((field).flatten())
         return field
-- 
2.43.0


From 049a72cf1b9e5875b7790c7acf708c4856c6e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:51 +0000
Subject: [PATCH 77/80] fix: signs of the metric of weighted curves

---
 pycomplex/complex/simplicial/euclidian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 1ed6359..140257d 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -160,6 +160,8 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
 
         bary = self.primal_barycentric[-1]
         signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the (weighted) circumcenter
+        if topology.n_dim == 1:
+            signs = signs[:, ::-1]  # domains of an edge are listed by their own vertex, not by the opposing one
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
         domains = domains.reshape(-1, domains.shape[-1])
-- 
2.43.0


From 7b96f66f9100b4666a8988cd65cf3bfbf2ec5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:01 +0000
Subject: [PATCH 78/80] fix: velocity of fluxes along curves

---
 pycomplex/complex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 103f0d3..f4bb1c2 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -382,6 +382,7 @@ class BaseComplex(object):
             from pycomplex.geometry import euclidian
             # NOTE: analogous computation would be normal of cube faces multiplied with their area
             gradients = euclidian.simplex_gradients(self.vertices[self.topology.elements[-1]])
+            B, O = self._opposite_facets()
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-- 
2.43.0


From 19de038a48a3ed2f2aec36274a98888939d8e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:30 +0000
Subject: [PATCH 79/80] fix: velocity of fluxes on complexes of any codimension

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index f4bb1c2..72631a6 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -399,7 +399,7 @@ class BaseComplex(object):
         # only retain components in the plane of the element
         s[:, self.topology.n_dim:] = np.inf
         s = 1 / s
-        pinv = np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], s, v)
+        pinv = np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], s, v[..., :s.shape[-1], :])
         # gradients.dot(velocity) = normal_flux
 
         # for incompressible flows on simplicial topologies, there exists a 3-vector at the dual vertex,
-- 
2.43.0


From d204bb2113f0fbb19051bcce8f2459bdb3d7f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 80/80] fix: picking in spherical complexes of large cells

---
 pycomplex/complex/simplicial/spherical.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 4d80179..096045b 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -55,6 +55,26 @@ class ComplexSpherical(BaseComplexSimplicial):
     def homogenize(self, points):
         return points
 
+    def pick_primal_precomp(self, weight):
+        """Precomputations for primal picking
+
+        Notes
+        -----
+        The differences in squared distance to the dual vertices do not vanish along the great circles between simplices.
+        Instead, note that a ray from the origin leaves the convex hull of a delaunay complex through the simplex
+        for which its homogeneous coordinates have the largest sum; which makes for an exact power diagram,
+        with the poles of the facets of the convex hull as sites
+        """
+        if not weight or self.weights is not None:
+            return super(ComplexSpherical, self).pick_primal_precomp(weight)
+        assert self.is_pairwise_delaunay
+
+        corners = self.vertices[self.topology.elements[-1]]
+        basis = np.linalg.inv(self.homogenize(corners))
+        poles = basis.sum(axis=-1)
+        points = self.augment(poles, linalg.dot(poles, poles))
+        return scipy.spatial.cKDTree(points), basis
+
     def plot(self, plot_dual=True, backface_culling=False, plot_vertices=True, ax=None, primal_color='b', dual_color='r'):
         """Visualize a complex on a 2-sphere; a little more involved than the other 2d cases"""
         import matplotlib.pyplot as plt
-- 
2.43.0

