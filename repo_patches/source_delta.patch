From 5332a53304c8e715d8a293429de948bfcce4e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 01/87] fix: drop surface integrals when scaling a mesh even if
 faces properties are not computed

---
 meshmagick/mesh.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..1479d6a 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1396,8 +1396,7 @@ class Mesh(object):
         vertices *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1415,8 +1414,7 @@ class Mesh(object):
         vertices[:, 0] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1434,8 +1432,7 @@ class Mesh(object):
         vertices[:, 1] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1453,8 +1450,7 @@ class Mesh(object):
         vertices[:, 2] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
-- 
2.43.0


From 190719d7de78018e007c7114da19a5c72eecd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 02/87] fix: drop every derived quantity when merging duplicate
 vertices

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 1479d6a..e418fa3 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1545,8 +1545,8 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
-        if self._has_connectivity():
-            self._remove_connectivity()
+        # Faces may have been modified (a quadrangle with two merged vertices becomes a triangle)
+        self.__internals__.clear()
 
         if return_index:
             return new_id
-- 
2.43.0


From e3691224d0a4ba55e52f8f41aaa454ca28298518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 03/87] fix: drop every derived quantity when healing the
 description of triangles

---
 meshmagick/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index e418fa3..18dfb27 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1714,8 +1714,7 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self.__internals__.clear()
 
         faces = self._faces
 
-- 
2.43.0


From ecc702332b2b751598d8891aaef9d18d769c18f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 04/87] fix: drop every derived quantity when removing
 degenerated faces

---
 meshmagick/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 18dfb27..8382a81 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1773,8 +1773,7 @@ class Mesh(object):
 
         self._faces = faces
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self.__internals__.clear()
 
         return
 
-- 
2.43.0


From 19cb327695dd79cade9cfa6c2b5da66ee3945712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 05/87] fix: drop the oriented boundaries when flipping normals

---
 meshmagick/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 8382a81..b7e5871 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1466,6 +1466,9 @@ class Mesh(object):
         if self.has_surface_integrals():
             self._remove_surface_integrals()
 
+        # Boundaries are oriented with respect to faces
+        self._remove_connectivity()
+
         return
 
     def __add__(self, mesh_to_add):
-- 
2.43.0


From 49536537f3ebac36ffac043b8fde7e79b03eef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 06/87] fix: heal_normals neither uses nor leaves stale faces
 properties and connectivities

---
 meshmagick/mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index b7e5871..1482c24 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1602,8 +1602,6 @@ class Mesh(object):
                 if f_vis[iadj_f]:
                     continue
                 f_vis[iadj_f] = True
-                # Removing the other pointer
-                f_f[iadj_f].remove(iface)  # So as it won't go from iadj_f to iface in the future
 
                 # Shared vertices
                 adjface = faces[iadj_f]
@@ -1642,6 +1640,10 @@ class Mesh(object):
 
         self._faces = faces
 
+        # Properties that depend on the faces orientation are not valid anymore
+        self._remove_faces_properties()
+        self._remove_connectivity()
+
         # Checking if the normals are outward
         if mesh_closed:
             zmax = np.max(self._vertices[:, 2])
-- 
2.43.0


From 5cef534efe7fd79a482eeb54fdd94ca7eebbd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 07/87] fix: transport rigid body inertia with respect to the
 mass center, with the right sign

---
 meshmagick/inertia.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..cb6f9db 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -45,6 +45,10 @@ class RigidBodyInertia(object):
         assert len(cog) == 3
         self._cog = np.asarray(cog, dtype=float)
 
+        # Center of the mass distribution described by the inertia matrix. It is the reference of the parallel axis
+        # theorem whatever the reduction point is.
+        self._mass_center = self._cog.copy()
+
         if point is None:
             self._point = self._cog
         else:
@@ -83,10 +87,8 @@ class RigidBodyInertia(object):
     @reduction_point.setter
     def reduction_point(self, point):
         """Set the reduction point"""
-        mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
-        self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
+        self._transport(np.array(point, dtype=float))
 
     @property
     def at_cog(self):
@@ -119,8 +121,7 @@ class RigidBodyInertia(object):
 
         The reduction point is then cog.
         """
-        self._3d_rotational_inertia += self._huygens_transport()
-        self._point = self._cog
+        self._transport(self._cog)
 
     def is_at_cog(self):
         """Returns whether the object is expressed at cog
@@ -131,8 +132,14 @@ class RigidBodyInertia(object):
         """
         return np.all(self._point == self._cog)
 
-    def _huygens_transport(self):
-        p_g = self._cog - self._point
+    def _transport(self, point):
+        """Moves the reduction point by mean of the parallel axis theorem"""
+        self._3d_rotational_inertia = self._3d_rotational_inertia \
+            - self._huygens_transport(self._point) + self._huygens_transport(point)
+        self._point = point
+
+    def _huygens_transport(self, point):
+        p_g = self._mass_center - point
         return self._mass * (np.dot(p_g, p_g) * np.eye(3) - np.outer(p_g, p_g))
 
     @property
-- 
2.43.0


From a192f5c577965bcd6fe893a4d6f78560c155f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 08/87] fix: moment of inertia of the hemisphere around its
 revolution axis

---
 meshmagick/inertia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index cb6f9db..ac73052 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -333,7 +333,8 @@ def hemisphere(radius, density=1.):
     vol = 2 * pi * radius ** 3 / 3.
     mass = density * vol
 
-    Ixx = Iyy = Izz = 0.26 * mass * radius ** 2
+    Ixx = Iyy = 83. * mass * radius ** 2 / 320.
+    Izz = 2. * mass * radius ** 2 / 5.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
 
-- 
2.43.0


From 76ca59484f1130141c09949b9c2ec835cd29a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 09/87] fix: transverse moment of inertia of the total
 cylindrical shell

---
 meshmagick/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index ac73052..3551261 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -576,7 +576,7 @@ def total_cylindrical_shell(R, H, density=densities.get_density('STEEL'), thickn
     sigma = density * thickness
     mass = sigma * surface
 
-    Ixx = Iyy = mass * (2 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
+    Ixx = Iyy = mass * (3 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
     Izz = mass * R ** 2 * ((R + 2 * H) / (R + H)) / 2.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
-- 
2.43.0


From ad032b1d24c466100c40989bd190af42bdd934f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 10/87] fix: surface integrals of the products of coordinates
 on triangles

---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 1482c24..e099e42 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2086,9 +2086,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        s_int[3] = delta * (point_0.y*point_0.z + point_1.y*point_1.z + point_2.y*point_2.z + f1[:, 1]*f1[:, 2]) / 24.
+        s_int[4] = delta * (point_0.x*point_0.z + point_1.x*point_1.z + point_2.x*point_2.z + f1[:, 0]*f1[:, 2]) / 24.
+        s_int[5] = delta * (point_0.x*point_0.y + point_1.x*point_1.y + point_2.x*point_2.y + f1[:, 0]*f1[:, 1]) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From f0e110a67030e399edb166fd6b63bb7b967dbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 11/87] fix: do not take the repeated index of triangles as an
 edge of null length

---
 meshmagick/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index e099e42..10cb8d6 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2032,6 +2032,11 @@ class Mesh(object):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
 
+        # The first index of triangles is repeated so that they have only 3 edges
+        is_edge = np.ones((self.nb_faces, 4), dtype=bool)
+        is_edge[self.triangles_ids, 0] = False
+        edge_length = edge_length[is_edge]
+
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
     @property
-- 
2.43.0


From 487077294699b070b336e6beeeedd09bc246da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 12/87] fix: a mesh having boundary edges is never reported as
 closed and none of these edges is lost

---
 meshmagick/mesh.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 10cb8d6..800052f 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -978,24 +978,39 @@ class Mesh(object):
                     else:
                         i_v_target, i_v_orig = boundary_face[ids]
 
-                    boundary_edges[i_v_orig] = i_v_target
+                    # Every boundary edge is met twice (from each of its vertices) and several of them may leave the
+                    # same vertex
+                    targets = boundary_edges.setdefault(i_v_orig, list())
+                    if i_v_target not in targets:
+                        targets.append(i_v_target)
                 else:
                     raise RuntimeError('Unexpected error while computing mesh connectivities')
 
+        # The mesh is closed if it has no boundary edge at all
+        is_closed = len(boundary_edges) == 0
+
+        def pop_target(i_v_orig):
+            targets = boundary_edges[i_v_orig]
+            i_v_target = targets.pop()
+            if len(targets) == 0:
+                del boundary_edges[i_v_orig]
+            return i_v_target
+
         # Computing boundaries
         boundaries = list()
         # TODO: calculer des boundaries fermees et ouvertes (closed_boundaries et open_boundaries) et mettre dans dict
         while True:
             try:
                 boundary = list()
-                i_v0_init, i_v1 = boundary_edges.popitem()
+                i_v0_init = next(reversed(boundary_edges))
+                i_v1 = pop_target(i_v0_init)
                 boundary.append(i_v0_init)
                 boundary.append(i_v1)
                 i_v0 = i_v1
 
                 while True:
                     try:
-                        i_v1 = boundary_edges.pop(i_v0)
+                        i_v1 = pop_target(i_v0)
                         boundary.append(i_v1)
                         i_v0 = i_v1
                     except KeyError:
@@ -1004,7 +1019,7 @@ class Mesh(object):
                         else:
                             boundaries.append(boundary)
                         break
-            except KeyError:
+            except StopIteration:
                 break
 
         if not mesh_closed:
@@ -1013,7 +1028,8 @@ class Mesh(object):
         connectivity = {'v_v': v_v,
                         'v_f': v_f,
                         'f_f': f_f,
-                        'boundaries': boundaries}
+                        'boundaries': boundaries,
+                        'is_closed': is_closed}
         self.__internals__.update(connectivity)
 
         return
@@ -1027,6 +1043,7 @@ class Mesh(object):
             del self.__internals__['v_f']
             del self.__internals__['f_f']
             del self.__internals__['boundaries']
+            del self.__internals__['is_closed']
         return
 
     @property
@@ -1142,7 +1159,7 @@ class Mesh(object):
         """
         if 'boundaries' not in self.__internals__:
             self._connectivity()
-        return len(self.__internals__['boundaries']) == 0
+        return self.__internals__['is_closed']
 
     def is_mesh_conformal(self):
         """Returns if the mesh is conformal.
@@ -1571,10 +1588,7 @@ class Mesh(object):
         f_f = self.ff
         boundaries = self.boundaries
 
-        if len(boundaries) > 0:
-            mesh_closed = False
-        else:
-            mesh_closed = True
+        mesh_closed = self.is_mesh_closed()
 
         # Flooding the mesh to find inconsistent normals
         type_cell = np.zeros(nf, dtype=int)
-- 
2.43.0


From 94c0f7119865f47a7d18d776f430f16703820af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 13/87] fix: do not share the default clipping plane between
 mesh clippers

---
 meshmagick/mesh_clipper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..0f62724 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,10 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        # A new plane is needed as planes are mutable and as a default argument would be shared between clippers
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From cf566ce4e9b28f4366db6759a028c47620b83feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 14/87] fix: clipping of meshes that only touch the plane from
 above or that have no face crossing it

---
 meshmagick/mesh_clipper.py | 5 +++--
 meshmagick/tools.py        | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 0f62724..b6f8f60 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -127,7 +127,8 @@ class MeshClipper(object):
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-        if np.all(vertices_positions['vertices_above_mask']):
+        if not np.any(vertices_positions['vertices_below_mask']):
+            # The mesh may touch the plane but it has nothing to keep
             # Cannot clip as this mesh is totally above or below the clipping plane. Throwing an error
             raise RuntimeError("Mesh does not crosses the clipping plane", "above")
 
@@ -670,7 +671,7 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
-        clipped_crown_mesh = Mesh(vertices, crown_faces)
+        clipped_crown_mesh = Mesh(vertices, np.array(crown_faces, dtype=int).reshape((-1, 4)))
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..d4ad314 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -37,6 +37,9 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     
     nv, nbdim = arr.shape
 
+    if nv == 0:
+        return (arr, np.arange(nv)) if return_index else arr
+
     levels = [0, nv]
     iperm = np.arange(nv)
 
-- 
2.43.0


From 597c86a1e276a3f8362b6b16cd9275c2398a7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 15/87] fix: clipping of quadrangles that are nearly parallel
 to the plane in its vicinity

---
 meshmagick/mesh_clipper.py | 45 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index b6f8f60..cfe7c00 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -358,8 +358,7 @@ class MeshClipper(object):
 
         # Init
         crown_faces = list()
-        direct_boundary_edges = dict()
-        inv_boundary_edges = dict()
+        boundary_edges = list()
         intersections = list()
 
         index = crown_mesh.nb_vertices
@@ -618,8 +617,33 @@ class MeshClipper(object):
                 #      \ /
                 #       *2
                 face = np.roll(face, -v_above_face[0])
-                boundary_edge = [face[1], face[3]]
-                crown_faces.append([face[1], face[2], face[3], face[1]])
+                if vertices_below_mask[face[2]]:
+                    boundary_edge = [face[1], face[3]]
+                    crown_faces.append([face[1], face[2], face[3], face[1]])
+                else:
+                    # Both vertices that are in the vicinity of the plane are adjacent (face nearly parallel to the
+                    # plane)
+                    p0, p1, p3 = vertices[face[[0, 1, 3]]]
+                    if vertices_below_mask[face[1]]:
+                        intersections.append(self._plane.get_edge_intersection(p0, p1))
+                        boundary_edge = [index, face[2]]
+                        crown_faces.append([index, face[1], face[2], index])
+                    else:
+                        intersections.append(self._plane.get_edge_intersection(p3, p0))
+                        boundary_edge = [face[2], index]
+                        crown_faces.append([face[2], face[3], index, face[2]])
+                    index += 1
+
+            elif face_type == '130':
+                # Face above the plane and nearly parallel to it
+                boundary_edge = None
+
+            elif face_type == '031':
+                # Face under the plane and nearly parallel to it, two of its edges are on the plane
+                face = np.roll(face, -v_below_face[0])
+                boundary_edges.append([face[3], face[2]])
+                boundary_edge = [face[2], face[1]]
+                crown_faces.append(list(face))
 
             elif face_type == '300' or face_type == '400':
                 #       *               *-----*
@@ -665,8 +689,7 @@ class MeshClipper(object):
 
             # Building boundary connectivity
             if boundary_edge is not None:
-                direct_boundary_edges[boundary_edge[0]] = boundary_edge[1]
-                inv_boundary_edges[boundary_edge[1]] = boundary_edge[0]
+                boundary_edges.append(boundary_edge)
 
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
@@ -677,10 +700,12 @@ class MeshClipper(object):
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
         new_id = clipped_crown_mesh.merge_duplicates(return_index=True, atol=1e-5)  # Warning: choosing a lower value
 
-        # Updating dictionaries
-        direct_boundary_edges = dict(
-            list(zip(new_id[list(direct_boundary_edges.keys())], new_id[list(direct_boundary_edges.values())])))
-        inv_boundary_edges = dict(list(zip(new_id[list(inv_boundary_edges.keys())], new_id[list(inv_boundary_edges.values())])))
+        direct_boundary_edges = dict()
+        inv_boundary_edges = dict()
+        for boundary_edge in boundary_edges:
+            v0, v1 = new_id[boundary_edge]
+            direct_boundary_edges[v0] = v1
+            inv_boundary_edges[v1] = v0
 
         # Ordering boundary edges in continuous lines
         closed_polygons = list()
-- 
2.43.0


From 3138a7d07ac91489ad1a5e5efce8f602daf61724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 16/87] fix: boundary lines of clipped meshes that go through
 the same vertex are not lost

---
 meshmagick/mesh_clipper.py | 110 ++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 64 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index cfe7c00..72588c3 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -700,77 +700,59 @@ class MeshClipper(object):
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
         new_id = clipped_crown_mesh.merge_duplicates(return_index=True, atol=1e-5)  # Warning: choosing a lower value
 
+        # Several boundary lines may go through the same vertex
         direct_boundary_edges = dict()
-        inv_boundary_edges = dict()
+        excess = dict()  # Number of boundary edges starting from the vertex minus number of those arriving to it
         for boundary_edge in boundary_edges:
-            v0, v1 = new_id[boundary_edge]
-            direct_boundary_edges[v0] = v1
-            inv_boundary_edges[v1] = v0
+            v0, v1 = (int(v) for v in new_id[boundary_edge])
+            if v0 == v1:
+                # The edge has collapsed while merging vertices
+                continue
+            direct_boundary_edges.setdefault(v0, []).append(v1)
+            excess[v0] = excess.get(v0, 0) + 1
+            excess[v1] = excess.get(v1, 0) - 1
 
         # Ordering boundary edges in continuous lines
         closed_polygons = list()
         open_lines = list()
-        while True:
+
+        # Open lines start from the vertices having more outgoing than incoming edges. The remaining edges are forming
+        # closed lines
+        starts = [v for v in excess for _ in range(excess[v])] + list(direct_boundary_edges)
+        for v0 in starts:
+            line = [v0]
+            positions = {v0: 0}
+            while direct_boundary_edges.get(line[-1]):
+                v1 = direct_boundary_edges[line[-1]].pop()
+                if v1 in positions:
+                    # A polygon has been closed
+                    start = positions[v1]
+                    closed_polygons.append(line[start:] + [v1])
+                    for v in line[start + 1:]:
+                        del positions[v]
+                    del line[start + 1:]
+                else:
+                    positions[v1] = len(line)
+                    line.append(v1)
+            if len(line) > 1:
+                open_lines.append(line)
+
+        if self._verbose:
+            print(("%u closed polygon\n%u open curve" % (len(closed_polygons), len(open_lines))))
+
+        if self._assert_closed_boundaries and len(open_lines) > 0:
             try:
-                line = list()
-                v0_init, v1 = direct_boundary_edges.popitem()
-                line.append(v0_init)
-                line.append(v1)
-                v0 = v1
-
-                while True:
-                    try:
-                        v1 = direct_boundary_edges.pop(v0)
-                        line.append(v1)
-                        v0 = v1
-                    except KeyError:
-                        if line[0] != line[-1]:
-                            # Trying to find an other queue
-                            queue = list()
-                            v0 = v0_init
-                            while True:
-                                try:
-                                    v1 = inv_boundary_edges[v0]
-                                    direct_boundary_edges.pop(v1)
-                                    queue.append(v1)
-                                    v0 = v1
-                                except:
-                                    queue.reverse()
-                                    line = queue + line
-                                    
-                                    # Trying to see if both end of line are not connected
-                                    pstart = clipped_crown_mesh.vertices[line[0]]
-                                    pend = clipped_crown_mesh.vertices[line[-1]]
-                                    
-                                    d = np.linalg.norm(pstart-pend)
-
-                                    open_lines.append(line)
-                                    break
-                        else:
-                            closed_polygons.append(line)
-                        break
-
-            except: # FIXME: specifier quelle exception est attendue ici !
-                # TODO: retirer les deux lines suivantes
-                if self._verbose:
-                    print(("%u closed polygon\n%u open curve" % (len(closed_polygons), len(open_lines))))
-
-                if self._assert_closed_boundaries:
-                    if len(open_lines) > 0:
-                        try:
-                            from . import mmio
-                            mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
-                            mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
-                            mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
-                        except:
-                            pass
-                        
-                        for line in open_lines:
-                            print(line)
-                            
-                        raise RuntimeError('Open intersection curve found with assert_closed_boundaries option enabled. Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.')
-
-                break
+                from . import mmio
+                mmio.write_VTP('full_debug.vtp', self.source_mesh.vertices, self.source_mesh.faces)
+                mmio.write_VTP('clipped_crown_debug.vtp', clipped_crown_mesh.vertices, clipped_crown_mesh.faces)
+                mmio.write_VTP('crown_debug.vtp', crown_mesh.vertices, crown_mesh.faces)
+            except:
+                pass
+
+            for line in open_lines:
+                print(line)
+
+            raise RuntimeError('Open intersection curve found with assert_closed_boundaries option enabled. Files full_debug.vtp, crown_debug.vtp and clipped_crown_debug.vtp written.')
 
         output = {'clipped_crown_mesh': clipped_crown_mesh,
                   'closed_polygons': closed_polygons,
-- 
2.43.0


From 3bd64523d53bc737becd82270bd6ed2873b151a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 17/87] fix: no vertex above the plane is left in clipped
 meshes

---
 meshmagick/mesh_clipper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 72588c3..21fac64 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -764,7 +764,9 @@ class MeshClipper(object):
         """Performs clipping and assemble the clipped mesh."""
         
         self._clip_crown_by_plane()
-        clipped_mesh = self.lower_mesh + self.clipped_crown_mesh
+        clipped_crown_mesh = self.clipped_crown_mesh
+        # The vertices of the crown that are above the plane must not be part of the clipped mesh
+        clipped_mesh = self.lower_mesh + clipped_crown_mesh.extract_faces(np.arange(clipped_crown_mesh.nb_faces))
         clipped_mesh.name = '_'.join((self._source_mesh.name, 'clipped'))
         self.__internals__['clipped_mesh'] = clipped_mesh
         return
-- 
2.43.0


From 01a3396ca69a73420bd2c475b3da6508dd4e1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 18/87] fix: vertices being exactly at the vicinity tolerance
 of the clipping plane, as for a null tolerance

---
 meshmagick/mesh_clipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index 21fac64..cfeb9f1 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -123,7 +123,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
-- 
2.43.0


From 6a4d3ade75c52dd390c7f5637d7e48ef70b1ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 19/87] fix: forward perpendicular of hydrostatics that are not
 expressed at cog

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..d5e0737 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -180,7 +180,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + xb if at_cog else maxx
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
-- 
2.43.0


From 370d43e357487f7b6fd4f71cb3c72030aa67a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 20/87] fix: equilibrium in displacement of meshes that are
 initially under the free surface

---
 meshmagick/hydrostatics.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index d5e0737..5f5b6b8 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -4,6 +4,7 @@
 
 import numpy as np
 import math
+import warnings
 
 from .mesh_clipper import MeshClipper
 from .rotations import cardan_to_rotmat, rotmat_to_cardan
@@ -234,14 +235,16 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            position = err.args[2]
+            position = err.args[-1]
             if position == 'below':
-                z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
+                # The top of the mesh has to be out of the vicinity of the plane for the intersection to exist
+                z_corr = -zmax + max((zmax - zmin) * 1e-4, 2e-3)  # FIXME: is this choice robust ?
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
-                warnings.warn(
-                    "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
-                    (disp_tons, hs_data['disp_mass'] * 0.001))
-                return z_corr
+                if hs_data['disp_mass'] < disp_kg:
+                    warnings.warn(
+                        "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons"
+                        % (disp_tons, hs_data['disp_mass'] * 0.001))
+                    return z_corr
             else:
                 raise err
 
-- 
2.43.0


From 279be13ab6e3106939a30c1c6b384faf182c8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 21/87] fix: roll-pitch coupling coefficient of the hydrostatic
 stiffness matrix

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 5f5b6b8..7a7f00e 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -84,7 +84,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2. * (yi * xi * xi + yii * xii * xii))
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From 0aae9208cd7fc02e030723cdfce137cfc233395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 22/87] fix: take --lpp and --orig-at-ap options into account
 in hydrostatics

---
 meshmagick/cli.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..43561b7 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -927,7 +927,8 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -938,14 +939,16 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True,
+                                              lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
+                                              at_cog=True, lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -957,7 +960,7 @@ def main():
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, lpp=args.lpp, orig_at_ap=args.orig_at_ap)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From 70303a6c5a82b44076d397c2ca5c2152d81c1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 23/87] fix: the Oxy plane is the default one of the --mirror
 option

---
 meshmagick/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 43561b7..37c70f5 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -297,7 +297,7 @@ parser.add_argument('-sym', '--symmetrize', nargs='*', action='append', metavar=
                     Be careful that symmetry is applied before any rotation so as the plane
                     equation is defined in the initial frame of reference.""")
 
-parser.add_argument('--mirror', nargs='+', metavar='Arg',
+parser.add_argument('--mirror', nargs='*', metavar='Arg',
                     help="""Mirror the mesh through the specified plane. Plane may be specified
                     with reference planes keys (see --plane option), or by 4 scalars, or by the
                     id of a plane defined with the --plane option. By default, the Oxy plane
@@ -528,6 +528,8 @@ def main():
     # Mirroring the mesh
     if args.mirror is not None:
         sym_plane = Plane()
+        if len(args.mirror) == 0:
+            args.mirror = ['Oxy']
         print((args.mirror))
 
         if len(args.mirror) == 1:
-- 
2.43.0


From f1fe028fd97a1f60bceab8029cdd1355cd0bc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 24/87] fix: the medium may be given by its name for the
 --rho-medium option

---
 meshmagick/cli.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 37c70f5..bf6aeb5 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -61,6 +61,19 @@ __all__ = ['main']
 def list_medium():
     return ', '.join(densities.list_medium())
 
+
+def medium_density(value):
+    """Density given by a number or by the name of a medium"""
+    try:
+        return float(value)
+    except ValueError:
+        pass
+    try:
+        return densities.get_density(value)
+    except KeyError:
+        raise argparse.ArgumentTypeError('%s is neither a density nor a known medium' % value)
+
+
 # =======================================================================
 #                         COMMAND LINE USAGE
 # =======================================================================
@@ -315,7 +328,7 @@ parser.add_argument('-si', '--shell-inertia', action='store_true',
                     uniformly plain of a medium of density rho_medium in kg/m**3. Default
                     is 1023 kg/m**3.""")
 
-parser.add_argument('--rho-medium', type=float,
+parser.add_argument('--rho-medium', type=medium_density,
                     help="""The density (in kg/m**3) of the medium used for evaluation of
                     inertia parameters of the mesh. For the hypothesis of plain homogeneous
                     mesh, the default is that of salt water (1023 kg/m**3) . For the
-- 
2.43.0


From 0b29635f52e628b2ea2056d45875bc06dd4cb66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 25/87] fix: writing a STL file does not modify the faces of
 the caller

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..6fbf483 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1718,6 +1718,7 @@ def write_STL(filename, vertices, faces):
     t1 = (0, 1, 2)
     t2 = (0, 2, 3)
 
+    faces = faces.copy()  # The array of the caller must not be modified
     quads_ids = np.where(faces[:, 0] != faces[:, -1])[0]
 
     new_faces = faces[quads_ids].copy()
-- 
2.43.0


From 69a0873ad31a4dc3d1d254bca6cb8cda13bad5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 26/87] fix: numbers of vertices and faces written for meshes
 of less than 4 faces or 3 vertices

---
 meshmagick/mmio.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 6fbf483..bab05ef 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1500,8 +1500,8 @@ def _build_vtkUnstructuredGrid(vertices, faces):
     
     import vtk
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = vertices.shape[0]
+    nf = faces.shape[0]
 
     vtk_mesh = vtk.vtkUnstructuredGrid()
     vtk_mesh.Allocate(nf, nf)
@@ -1584,8 +1584,8 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = vertices.shape[0]
+    nf = faces.shape[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
     ofile.write('%6u%6u\n' % (nv, nf))
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = faces.shape[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From 003fc1ef72eba11488c62766ddf016096cc64712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 27/87] fix: no symmetry is declared in GDF files, as whole
 meshes are written

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index bab05ef..dee7ab5 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1647,7 +1647,7 @@ def write_GDF(filename, vertices, faces):
     ofile.write('GDF file generated by meshmagick on %s\n' % time.strftime('%c'))
 
     ofile.write('%16.6f%16.6f\n' % (100.0, 9.81))
-    ofile.write('%12u%12u\n' % (0, 1))  # TODO : mettre les symetries en argument
+    ofile.write('%12u%12u\n' % (0, 0))  # TODO : mettre les symetries en argument
     ofile.write('%12u\n' % nf)
 
     for cell in faces:
-- 
2.43.0


From 56ed173b89a219a1ec4de52f5d7ea59e878fd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 28/87] fix: no infinite loop on GDF files that have less faces
 than declared

---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index dee7ab5..96e15c4 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -785,7 +785,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if line == '':
+                raise IOError('file %s ends before the %u faces it declares' % (filename, nf))
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From b4872d4a6eb1e0db627eb2c1880b7e48efd95094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 29/87] fix: numbers of vertices and faces are always separated
 in natural files

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 96e15c4..b4f8aed 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1591,7 +1591,7 @@ def write_NAT(filename, vertices, faces):
     nf = faces.shape[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %6u\n' % (nv, nf))
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
-- 
2.43.0


From db1dd07da31ea5df48a6f74e55af7625dd70e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 30/87] fix: triangles of HAMS files repeat their first vertex
 as everywhere else in meshmagick

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b4f8aed..1df37a9 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1132,7 +1132,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1811,7 +1811,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From 9b9a1357b2db20fffecd01baaf44bbcb24ee304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 31/87] fix: loading of HST files having several sections of
 coordinates or panels

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 1df37a9..7c21e5e 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -142,10 +142,10 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
-    vertices_tmp = []
     vertices = []
     nv = 0
     for node_section in pattern_node_section.findall(data):
+        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
@@ -157,10 +157,10 @@ def load_HST(filename):
             vertices = np.concatenate((vertices, vertices_tmp))
             nv += nv_tmp
 
-    faces_tmp = []
     faces = []
     nf = 0
     for elem_section in pattern_elem_section.findall(data):
+        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
             faces_tmp.append(list(map(int, elem.split())))
         nf_tmp = len(faces_tmp)
-- 
2.43.0


From 5c86256aad90587409a304da4245a69df864d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 32/87] fix: loading of INP files whose comments are not
 encoded in utf-8

---
 meshmagick/mmio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7c21e5e..af478dc 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -268,7 +268,8 @@ def load_INP(filename):
     _check_file(filename)
     import re
     
-    with open(filename, 'r') as f:
+    # Comments are not always encoded in utf-8
+    with open(filename, 'r', errors='replace') as f:
         text = f.read()
 
     # Retrieving frames into a dictionary frames
-- 
2.43.0


From 6e91f4d89d257a6aa731105b925114135b5de9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 33/87] fix: last element of DAT files that do not end by a new
 line

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index af478dc..fead11d 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -312,7 +312,7 @@ def load_INP(filename):
         # patterns for recognition of sections
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
-    elem_line = r'^ +\d+(?: +\d+){3,4}[\r\n]+'  # 3 -> triangle, 4 -> quadrangle
+    elem_line = r'^ +\d+(?: +\d+){3,4} *(?:[\r\n]+|\Z)'  # 3 -> triangle, 4 -> quadrangle
     elem_section = r'((?:' + elem_line + ')+)'
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     pattern_elem_line = re.compile(elem_line, re.MULTILINE)
-- 
2.43.0


From 9a427d53f95ec2e6a671c6454284b759564129d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 34/87] fix: elements of INP files refer to the nodes of their
 own body

---
 meshmagick/mmio.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index fead11d..93abb67 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -380,16 +380,17 @@ def load_INP(filename):
             if nb_nodes == 0:
                 vertices = nodes.copy()
                 nb_nodes = vertices.shape[0]
-                increment = False
+                mesh_files[file]['OFFSET'] = 0
                 continue
 
             if field['INCREMENT'] == 'NO':
                 vertices[idx, :] = nodes.copy()
-                increment = False
+                mesh_files[file]['OFFSET'] = 0
             else:
+                # The elements of this file that follow refer to the nodes that are being added
+                mesh_files[file]['OFFSET'] = nb_nodes
                 vertices = np.concatenate((vertices, nodes))
                 nb_nodes = vertices.shape[0]
-                increment = True
         else:  # this is an ELEMENT section
             elem_section = np.asarray(mesh_files[file]['ELEM_SECTIONS'][mesh_files[file]['nb_elem_sections_used']],
                                       dtype=int)
@@ -399,9 +400,7 @@ def load_INP(filename):
                 mesh_files[file]['nb_elem_sections_used'] = 0
 
             # Updating to new id of nodes
-            elems = elem_section
-            if increment:
-                elems += nb_nodes
+            elems = elem_section + mesh_files[file]['OFFSET']
 
             if nb_elems == 0:
                 faces = elems.copy()
-- 
2.43.0


From 9c37bea65be2f9989aa32bc0431f77b9a9ed06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 35/87] fix: node numbers of MSH files are neither necessarily
 contiguous nor ordered

---
 meshmagick/mmio.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 93abb67..47d10fb 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -861,8 +861,10 @@ def load_MSH22(filename):
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
     nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
 
-    vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
-    vertices = np.ascontiguousarray(vertices)
+    nodes = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))
+    vertices = np.ascontiguousarray(nodes[:, 1:])
+    # Node numbers are neither necessarily contiguous nor ordered
+    node_ids = {int(tag): i for (i, tag) in enumerate(nodes[:, 0])}
     faces = []
 
     # Triangles
@@ -870,14 +872,14 @@ def load_MSH22(filename):
         tri_elt = list(map(int, tri_elt.split()))
         triangle = tri_elt[-3:]
         triangle.append(triangle[0])
-        faces.append(triangle)
+        faces.append([node_ids[tag] for tag in triangle])
 
     for quad_elt in re.findall(r'(^\d+\s3(?:\s\d+)+?$)', elts_data, re.MULTILINE):
         quad_elt = list(map(int, quad_elt.split()))
         quadrangle = quad_elt[-4:]
-        faces.append(quadrangle)
+        faces.append([node_ids[tag] for tag in quadrangle])
 
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
@@ -888,8 +890,10 @@ def load_MSH41(filename):
     mesh = gmshparser.parse(filename)
 
     vertices = list()
+    node_ids = dict()  # Node numbers are neither necessarily contiguous nor ordered
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
+            node_ids[node.get_tag()] = len(vertices)
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
@@ -904,12 +908,12 @@ def load_MSH41(filename):
             # Triangle
             for element in entity.get_elements():
                 elid = element.get_tag()
-                face = element.get_connectivity()
+                face = [node_ids[tag] for tag in element.get_connectivity()]
                 if eltype == 2:
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
+    faces = np.asarray(faces)
 
     return vertices, faces
 
-- 
2.43.0


From f9f42ad40de6f7d34a8b87a9fc2a33e1f45e383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 36/87] fix: vertices of MSH 4.1 files are given as an array

---
 meshmagick/mmio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 47d10fb..8a372bc 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -897,8 +897,7 @@ def load_MSH41(filename):
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.asarray(vertices, dtype=float)
 
     faces = list()
     for entity in mesh.get_element_entities():
@@ -913,7 +912,7 @@ def load_MSH41(filename):
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces)
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
-- 
2.43.0


From a1bf9d23200d97e8a5817601b32b7f5bf7d48e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 37/87] fix: points and lines of VTK files are not faces

---
 meshmagick/mmio.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8a372bc..9712377 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -606,17 +606,21 @@ def _dump_vtk(vtk_mesh):
     for k in range(nv):
         vertices[k] = np.array(vtk_mesh.GetPoint(k))
 
-    nf = vtk_mesh.GetNumberOfCells()
-    faces = np.zeros((nf, 4), dtype=int)
-    for k in range(nf):
+    nb_cells = vtk_mesh.GetNumberOfCells()
+    faces = np.zeros((nb_cells, 4), dtype=int)
+    nf = 0
+    for k in range(nb_cells):
         cell = vtk_mesh.GetCell(k)
         nv_facet = cell.GetNumberOfPoints()
+        if nv_facet < 3:  # Isolated points and lines are not faces
+            continue
         for l in range(nv_facet):
-            faces[k][l] = cell.GetPointId(l)
+            faces[nf][l] = cell.GetPointId(l)
         if nv_facet == 3:
-            faces[k][3] = faces[k][0]
+            faces[nf][3] = faces[nf][0]
+        nf += 1
 
-    return vertices, faces
+    return vertices, faces[:nf]
 
 
 def load_STL(filename):
-- 
2.43.0


From a7724a3275d95bd36934a3874218820ac1a429a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 38/87] fix: refuse mesh files without any face or whose faces
 refer to vertices that do not exist

---
 meshmagick/mmio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 9712377..7596b59 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -47,6 +47,11 @@ def load_mesh(filename, file_format):
 
     vertices, faces = loader(filename)
 
+    if len(faces) == 0:
+        raise IOError('No face has been found in file %s' % filename)
+    if np.min(faces) < 0 or np.max(faces) >= len(vertices):
+        raise IOError('Some faces of file %s refer to vertices that do not exist' % filename)
+
     return vertices, faces
 
 
-- 
2.43.0


From 09a613789084f243e39c10d5b17cf15c48d753bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 39/87] fix: every shape of VRML files is loaded, at its place

---
 meshmagick/mmio.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7596b59..d396e75 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1060,9 +1060,20 @@ def load_WRL(filename):
 
     actors = importer.GetRenderer().GetActors()
     actors.InitTraversal()
-    dataset = actors.GetNextActor().GetMapper().GetInput()
 
-    return _dump_vtk(dataset)
+    # Every shape of the scene is loaded, at the place given by the transforms it belongs to
+    vertices = np.zeros((0, 3), dtype=float)
+    faces = np.zeros((0, 4), dtype=int)
+    for _ in range(actors.GetNumberOfItems()):
+        actor = actors.GetNextActor()
+        shape_vertices, shape_faces = _dump_vtk(actor.GetMapper().GetInput())
+        matrix = actor.GetMatrix()
+        rotation = np.array([[matrix.GetElement(i, j) for j in range(3)] for i in range(3)])
+        translation = np.array([matrix.GetElement(i, 3) for i in range(3)])
+        faces = np.concatenate((faces, shape_faces + len(vertices)))
+        vertices = np.concatenate((vertices, np.dot(shape_vertices, rotation.T) + translation))
+
+    return vertices, faces
 
 
 def load_NEM(filename):
-- 
2.43.0


From dd8cc4426811daa4433253f3b8fc3eb02ee5561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 40/87] fix: lines of three points of VTK files are not faces
 either

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index d396e75..880d9fd 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -617,7 +617,7 @@ def _dump_vtk(vtk_mesh):
     for k in range(nb_cells):
         cell = vtk_mesh.GetCell(k)
         nv_facet = cell.GetNumberOfPoints()
-        if nv_facet < 3:  # Isolated points and lines are not faces
+        if cell.GetCellDimension() != 2:  # Isolated points and lines are not faces
             continue
         for l in range(nv_facet):
             faces[nf][l] = cell.GetPointId(l)
-- 
2.43.0


From a1e559f20c9b460881d0b75e31056bb0848494d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 41/87] fix: coordinates of HAMS files that are not numbers are
 refused instead of giving nan

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 880d9fd..f570a72 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1143,7 +1143,7 @@ def load_PNL(filename, name=None):
         # Skip 2 more lines
         f.readline()
         f.readline()
-        vertices = np.genfromtxt((f.readline() for _ in range(nb_vertices)), usecols=(1, 2, 3))
+        vertices = np.array([f.readline().split()[1:4] for _ in range(nb_vertices)], dtype=float)
         # Skip 3 more lines
         f.readline()
         f.readline()
-- 
2.43.0


From 106dea6a5c3ca81027222faf8fefebfd362375ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 42/87] fix: the frame of a plane follows its normal

---
 meshmagick/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 800052f..cbf9756 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -189,6 +189,10 @@ class Plane(object):
         value = np.asarray(value, dtype=float)
         self._normal = value / np.linalg.norm(value)
 
+        # updating self._rot
+        theta_x, theta_y = self.get_normal_orientation_wrt_z()
+        self._rot = _get_rotation_matrix(theta_x, theta_y)
+
     @property
     def c(self):
         """Get the plane's scalar parameter"""
@@ -211,10 +215,11 @@ class Plane(object):
             Angle of rotation around Oy (rad)
         """
         rot_matrix = _get_rotation_matrix(theta_x, theta_y)
+        rot = np.dot(rot_matrix, self._rot)
         self.normal = np.dot(rot_matrix, self.normal)
 
         # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
+        self._rot = rot
 
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
-- 
2.43.0


From db79f79c009803646f109b7d31906e10f4e7fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 43/87] fix: coordinates in the frame of a plane, null along
 its normal for the points of the plane

---
 meshmagick/mesh.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index cbf9756..a823bf2 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -328,9 +328,8 @@ class Plane(object):
             Array of points coordinates in the frame of the plane
         """
 
-        # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
-        #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        # The columns of self._rot are the axes of the plane, the third one being its normal
+        return np.dot(points, self._rot) - np.array([0., 0., self._scalar])
 
     def get_edge_intersection(self, p0, p1):
         """
-- 
2.43.0


From ace4ea087e8b5144c69476c39b342df2db1d2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 44/87] fix: projections on a plane of points having integer
 coordinates

---
 meshmagick/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index a823bf2..7e2afd1 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -371,7 +371,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
-        projected_points = np.zeros_like(points)
+        projected_points = np.zeros_like(points, dtype=float)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
 
-- 
2.43.0


From 96bc2dca14e93c9f27736949cb9f757c3d44ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 45/87] fix: cardan angles of rotations being close to the
 gimbal lock

---
 meshmagick/rotations.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index a0f503d..1b48bcc 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -189,20 +189,19 @@ def cardan_to_quat(phi, theta, psi):
 def rotmat_to_cardan(rotmat):
 
     r00 = rotmat[0, 0]
-    # r01 = rotmat[0, 1]
-    # r02 = rotmat[0, 2]
+    r01 = rotmat[0, 1]
+    r02 = rotmat[0, 2]
     r10 = rotmat[1, 0]
     r11 = rotmat[1, 1]
     r12 = rotmat[1, 2]
     r20 = rotmat[2, 0]
-    r21 = rotmat[2, 1]
-    r22 = rotmat[2, 2]
 
     if r20 < 1.:
         if r20 > -1.:
-            theta = asin(-r20)
+            theta = atan2(-r20, sqrt(r00*r00 + r10*r10))
             psi = atan2(r10, r00)
-            phi = atan2(r21, r22)
+            # phi goes with psi, r21 and r22 are not accurate enough next to the gimbal lock
+            phi = atan2(r02*sin(psi) - r12*cos(psi), r11*cos(psi) - r01*sin(psi))
 
         else:  # r20 = -1
             # Not a unique solution: phi -psi = atan2(-r12, r11)
-- 
2.43.0


From 1fafab185bc855710ff21f3ebdf3e3e7c31c2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 46/87] fix: quaternions may be any iterable

---
 meshmagick/rotations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index 1b48bcc..b601f9d 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -48,9 +48,9 @@ def is_unit_vector(vector):
     return np.isclose(norm(vector), 1.)
 
 def quat_to_axis_angle(quat):
+    quat = np.asarray(quat, dtype=float)
     assert is_unit_vector(quat)
     assert quat.size == 4
-    quat = np.asarray(quat, dtype=float)
     q0 = quat[0]
     d = 1. - q0*q0
 
@@ -74,9 +74,9 @@ def axis_angle_to_quat(axis, angle):
     return np.array((c, s*axis[0], s*axis[1], s*axis[2]), dtype=float)
 
 def quat_to_rotmat(quat):
+    quat = np.asarray(quat, dtype=float)
     assert is_unit_vector(quat)
     assert quat.size == 4
-    quat = np.asarray(quat, dtype=float)
 
     q0q0 = quat[0] * quat[0]
     q1q1 = quat[1] * quat[1]
-- 
2.43.0


From 31e505b563c41dc98a5f2679f1e9d9b7845b62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 47/87] fix: axis and angle of rotations by less than 2e-4 rad

---
 meshmagick/rotations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index b601f9d..af083a8 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -52,15 +52,15 @@ def quat_to_axis_angle(quat):
     assert is_unit_vector(quat)
     assert quat.size == 4
     q0 = quat[0]
-    d = 1. - q0*q0
+    d = norm(quat[1:])
 
-    if np.isclose(d, 0.):
+    if d == 0.:
         angle = 0.
         axis = np.array((0, 0, 1), dtype=float)
 
     else:
-        angle = 2. * acos(q0)
-        axis = quat[1:] / sqrt(d)
+        angle = 2. * atan2(d, q0)
+        axis = quat[1:] / d
 
     return axis, angle
 
-- 
2.43.0


From de9aaebd1a68de3f95238b110b06f6015f1f4369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 48/87] fix: rigid body inertias do not depend on later changes
 of the arrays they have been given

---
 meshmagick/inertia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 3551261..ffd6f57 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,7 +43,7 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
         # Center of the mass distribution described by the inertia matrix. It is the reference of the parallel axis
         # theorem whatever the reduction point is.
@@ -53,7 +53,7 @@ class RigidBodyInertia(object):
             self._point = self._cog
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -114,7 +114,7 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
-- 
2.43.0


From 59e39c69482786824f316ca6f3931f27a5f072fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 49/87] fix: TEC files whose vertices have less than three
 coordinates are refused

---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f570a72..472df6b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -457,6 +457,8 @@ def load_TEC(filename):
     nf = int(nf)
 
     vertices = np.asarray(list(map(float, vertices.split())), dtype=float).reshape((nv, -1))[:, :3]
+    if vertices.shape[1] != 3:
+        raise IOError('Vertices of file %s do not have three coordinates' % filename)
     faces = np.asarray(list(map(int, faces.split())), dtype=int).reshape((nf, 4))-1
 
     return vertices, faces
-- 
2.43.0


From 891c8747d40d8c8ac18d12555beb86fb302d9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 50/87] fix: mesh files having coordinates that are not finite
 are refused

---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 472df6b..16ef1a1 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -51,6 +51,8 @@ def load_mesh(filename, file_format):
         raise IOError('No face has been found in file %s' % filename)
     if np.min(faces) < 0 or np.max(faces) >= len(vertices):
         raise IOError('Some faces of file %s refer to vertices that do not exist' % filename)
+    if not np.all(np.isfinite(vertices)):
+        raise IOError('Some coordinates of file %s are not finite' % filename)
 
     return vertices, faces
 
-- 
2.43.0


From 22935854bf6a2a78fec73c3cfee2b981fce9fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 51/87] fix: quadrangles having two merged vertices are
 described as triangles

---
 meshmagick/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 7e2afd1..ec437fa 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1572,6 +1572,10 @@ class Mesh(object):
         # Faces may have been modified (a quadrangle with two merged vertices becomes a triangle)
         self.__internals__.clear()
 
+        faces = self._faces
+        if np.any((faces[:, 0] != faces[:, -1]) & np.any(faces[:, :-1] == faces[:, 1:], axis=1)):
+            self.heal_triangles()
+
         if return_index:
             return new_id
         else:
-- 
2.43.0


From d46e2e9266e9aeddefb7c8ceae5899bd05d8c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 52/87] fix: close vertices are always merged, whatever the
 coordinates of other vertices

---
 meshmagick/tools.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index d4ad314..bca61cb 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -40,14 +40,23 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     if nv == 0:
         return (arr, np.arange(nv)) if return_index else arr
 
-    levels = [0, nv]
-    iperm = np.arange(nv)
+    # Gathering the nodes that may be close in groups, so that close nodes are never separated hereafter because of
+    # another node having a similar coordinate
+    groups = np.zeros(nv, dtype=int)
+    nb_groups = 0
+    while groups.max() + 1 > nb_groups:
+        nb_groups = groups.max() + 1
+        for dim in range(nbdim):
+            iperm = np.lexsort((arr[:, dim], groups))
+            is_new = np.logical_or(np.diff(groups[iperm]) > 0, np.diff(arr[iperm, dim]) > atol)
+            groups[iperm] = np.concatenate(([0], np.cumsum(is_new)))
+
+    iperm = groups.argsort(kind='stable')
+    levels = [0] + list(np.flatnonzero(np.diff(groups[iperm])) + 1) + [nv]
 
     for dim in range(nbdim):
         # Sorting the first dimension
-        values = arr[:, dim].copy()
-        if dim > 0:
-            values = values[iperm]
+        values = arr[iperm, dim]
         levels_tmp = []
         for (ilevel, istart) in enumerate(levels[:-1]):
             istop = levels[ilevel+1]
-- 
2.43.0


From 8b67337df497d47712cbd3bc09b2fb75b8102e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 53/87] fix: heave-pitch-roll coefficient S45 of the
 Hydrostatics class (moment of inertia product of the waterplane)

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 16c97bf..9a88530 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -615,7 +615,7 @@ class Hydrostatics(object):
                 sigma1 += dy * (px * px - xi * xii)
                 sigma2 += dx * (py * py - yi * yii)
                 # sigma3 += dy * (py * a + 2 * px * (xi * yi + xii * yii))
-                sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+                sigma3 += dy * (py * px * px + 2. * (yi * xi * xi + yii * xii * xii))
                 sigma4 += dy * (xi * xi + xii * xii) * px
                 sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From b809678d18093e04174a4e21cbfe80612326e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 54/87] fix: properties of the Hydrostatics class are up to
 date after equilibrate has moved the body horizontally

---
 meshmagick/hydrostatics_old.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 9a88530..cdc287f 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -1173,13 +1173,15 @@ class Hydrostatics(object):
 
         # Zeroing xcog and ycog
         self.mesh.translate([-self._gravity_center[0], -self._gravity_center[1], 0.])
-        self.hs_data['buoy_center'][:2] -= self._gravity_center[:2]
 
         for force in self.additional_forces:
             force.update_xy(-self._gravity_center[0], -self._gravity_center[1])
 
         self._gravity_center[:2] = 0.
 
+        self._reinit_clipper()
+        self._update_hydrostatic_properties()
+
         if self.verbose:
             if code == 0:
                 print("\t-> Maximum number of restart reached. Failed to find an equilibrium position.")
-- 
2.43.0


From a67769ab1a7a19b49ed7f8f35099302a5111be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 55/87] fix: the mass given to the Hydrostatics class is in
 tons

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index cdc287f..80ec058 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -166,7 +166,7 @@ class Hydrostatics(object):
         self._update_hydrostatic_properties()
 
         if mass:
-            self.mass = mass * 1000.  # conversion in kg
+            self.mass = mass
         else:
             self._mass = self.hs_data['disp_mass']
 
-- 
2.43.0


From b08473d18c7310370d0f6aceb87b80a52b2a0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 56/87] fix: the gravity center given to the Hydrostatics class
 is neither modified nor lost by reset

---
 meshmagick/hydrostatics_old.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 80ec058..9241f59 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -260,9 +260,9 @@ class Hydrostatics(object):
     @gravity_center.setter
     def gravity_center(self, value):
         """Set the gravity center position"""
-        value = np.asarray(value, dtype=float)
-        self.backup['gravity_center'] = value
+        value = np.array(value, dtype=float)
         assert value.shape[0] == 3
+        self.backup['gravity_center'] = value.copy()
         self._gravity_center = value
         self._update_hydrostatic_properties()
 
-- 
2.43.0


From dccc764c997d9d6ba07947de1957c7dc151231e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 57/87] fix: stability of the equilibrium found by
 Hydrostatics.equilibrate is evaluated at the vertical of the gravity center

---
 meshmagick/hydrostatics_old.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 9241f59..96e3f0b 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -1125,6 +1125,13 @@ class Hydrostatics(object):
             for force in self.additional_forces:
                 force.update(dz=dz, rot=rot_matrix)
 
+            # Zeroing xcog and ycog, as metacentric heights are evaluated with respect to the origin
+            xg, yg = self._gravity_center[:2]
+            self.mesh.translate([-xg, -yg, 0.])
+            for force in self.additional_forces:
+                force.update_xy(-xg, -yg)
+            self._gravity_center[:2] = 0.
+
             self._reinit_clipper()
             self._update_hydrostatic_properties()
 
@@ -1171,17 +1178,6 @@ class Hydrostatics(object):
 
             iter += 1
 
-        # Zeroing xcog and ycog
-        self.mesh.translate([-self._gravity_center[0], -self._gravity_center[1], 0.])
-
-        for force in self.additional_forces:
-            force.update_xy(-self._gravity_center[0], -self._gravity_center[1])
-
-        self._gravity_center[:2] = 0.
-
-        self._reinit_clipper()
-        self._update_hydrostatic_properties()
-
         if self.verbose:
             if code == 0:
                 print("\t-> Maximum number of restart reached. Failed to find an equilibrium position.")
-- 
2.43.0


From 8a895d7a9e25c6456e2f79526263bbf3aa18c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 58/87] fix: Force does not modify the arrays it is given

---
 meshmagick/hydrostatics_old.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 96e3f0b..58d6faf 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -46,8 +46,8 @@ class Force(object):
         assert len(value) == 3
         assert mode in ('relative', 'absolute')
 
-        self.point = np.asarray(point, dtype=float)
-        self.value = np.asarray(value, dtype=float)
+        self.point = np.array(point, dtype=float)
+        self.value = np.array(value, dtype=float)
         self.name = str(name)
         self.mode = mode
 
-- 
2.43.0


From 25da1f00024810836e4bfa21bd57a391261d6e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 59/87] fix: arrays obtained from a mesh are not modified by
 its later transformations

---
 meshmagick/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index ec437fa..56c75d4 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1313,13 +1313,13 @@ class Mesh(object):
         tx : float
             Distance
         """
-        vertices = self._vertices
+        vertices = self._vertices.copy()
         vertices[:, 0] += tx
         self._vertices = vertices
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 0] += tx
             self.__internals__['faces_centers'] = centers
 
@@ -1342,7 +1342,7 @@ class Mesh(object):
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 1] += ty
             self.__internals__['faces_centers'] = centers
 
@@ -1365,7 +1365,7 @@ class Mesh(object):
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 2] += tz
             self.__internals__['faces_centers'] = centers
 
@@ -1391,7 +1391,7 @@ class Mesh(object):
 
         # Updating properties if any
         if self._has_faces_properties():
-            centers = self.__internals__['faces_centers']
+            centers = self.__internals__['faces_centers'].copy()
             centers[:, 0] += tx
             centers[:, 1] += ty
             centers[:, 2] += tz
@@ -1482,7 +1482,7 @@ class Mesh(object):
         self._faces = np.fliplr(faces)
 
         if self._has_faces_properties():
-            self.__internals__['faces_normals'] *= -1
+            self.__internals__['faces_normals'] = -self.__internals__['faces_normals']
 
         if self.has_surface_integrals():
             self._remove_surface_integrals()
-- 
2.43.0


From 153fc8a7ec53582622c2d5ab86a56bd706e96776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 60/87] fix: normals obtained from a plane are not modified
 when the plane is changed

---
 meshmagick/mesh.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 56c75d4..f9d3201 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -235,16 +235,16 @@ class Plane(object):
         theta = math.sqrt(theta_x * theta_x + theta_y * theta_y)
 
         if theta == 0.:
-            self.normal[:] = [0., 0., 1.]
+            self._normal = np.array([0., 0., 1.])
 
             # updating self._rot
             self._rot = np.eye(3)
         else:
             stheta_theta = math.sin(theta) / theta
             ctheta = math.cos(theta)
-            self.normal[:] = np.array([stheta_theta * theta_y,
-                                       -stheta_theta * theta_x,
-                                       ctheta])
+            self._normal = np.array([stheta_theta * theta_y,
+                                     -stheta_theta * theta_x,
+                                     ctheta])
             # Updating self._rot
             self._rot = _get_rotation_matrix(theta_x, theta_y)
 
@@ -309,7 +309,7 @@ class Plane(object):
         """
         Flips the Normal of the plane
         """
-        self.normal *= -1
+        self.normal = -self.normal
         theta_x, theta_y = self.get_normal_orientation_wrt_z()
         self._rot = _get_rotation_matrix(theta_x, theta_y)
 
-- 
2.43.0


From 6b6e5fd35f5add3be1fcea4ce6de4639e1f9b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 61/87] fix: faces and vertices obtained from a mesh are not
 modified by mirror, healing and triangulation

---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f9d3201..665c823 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1588,7 +1588,7 @@ class Mesh(object):
 
         nv = self.nb_vertices
         nf = self.nb_faces
-        faces = self._faces
+        faces = self._faces.copy()
 
         # Building connectivities
         v_v = self.vv
@@ -1743,7 +1743,7 @@ class Mesh(object):
         """
         self.__internals__.clear()
 
-        faces = self._faces
+        faces = self._faces.copy()
 
         quads = faces[:, 0] != faces[:, -1]
         nquads_init = sum(quads)
@@ -1839,7 +1839,7 @@ class Mesh(object):
         t1 = (0, 1, 2)
         t2 = (0, 2, 3)
 
-        faces = self._faces
+        faces = self._faces.copy()
 
         # Triangulation
         new_faces = faces[self.quadrangles_ids].copy()
@@ -1894,7 +1894,7 @@ class Mesh(object):
         plane : Plane
             The mirroring plane
         """
-        self._vertices -= 2 * np.outer(np.dot(self._vertices, plane.normal) - plane.c, plane.normal)
+        self._vertices = self._vertices - 2 * np.outer(np.dot(self._vertices, plane.normal) - plane.c, plane.normal)
         self.flip_normals()
         self.__internals__.clear()
         return
-- 
2.43.0


From f4b079bdfba0d67ca88c0d910e0e1e3e60d2b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 62/87] fix: normals_on and normals_off of the viewer show and
 hide the normals

---
 meshmagick/MMviewer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index 18f8f08..b5433a6 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -93,12 +93,15 @@ class MMViewer:
     def normals_on(self):
         """Displays the normals"""
         
-        self.normals = True
+        if not self.normals:
+            self.show_normals()
 
     def normals_off(self):
         """Hide the normals"""
         
-        self.normals = False
+        for actor in self.normals:
+            self.renderer.RemoveActor(actor)
+        self.normals = []
     
     def plane_on(self):
         """Displays the Oxy plane"""
-- 
2.43.0


From b64d7070a7c47c0448868738684a010d629f0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 63/87] fix: color of the Oyz plane of the viewer

---
 meshmagick/MMviewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index b5433a6..e118489 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -194,7 +194,7 @@ class MMViewer:
 
         actor_oyz = vtk.vtkActor()
         actor_oyz.SetMapper(mapper_oyz)
-        actor_oxz.GetProperty().SetColor(255, 0, 0)
+        actor_oyz.GetProperty().SetColor(255, 0, 0)
         actor_oyz.GetProperty().SetEdgeColor(0, 0, 0)
         actor_oyz.GetProperty().SetLineWidth(1)
 
-- 
2.43.0


From 0939ab1bd1b060abd056e6d64c4cfe278a5a061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 64/87] fix: the viewer saves the main object

---
 meshmagick/MMviewer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index e118489..aaca044 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -492,11 +492,10 @@ class MMViewer:
         writer.SetDataModeToAscii()
         writer.SetFileName('mmviewer_save.vtp')
 
-        for polydata in self.polydatas:
-            if vtk.VTK_MAJOR_VERSION <= 5:
-                writer.SetInput(polydata)
-            else:
-                writer.SetInputData(polydata)
+        if vtk.VTK_MAJOR_VERSION <= 5:
+            writer.SetInput(self.polydatas[0])
+        else:
+            writer.SetInputData(self.polydatas[0])
         writer.Write()
 
         print(("File 'mmviewer_save.vtp' written in %s" % getcwd()))
-- 
2.43.0


From 42a95e11606c0c279a870b1735656bbba36135a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 65/87] fix: is_mesh_conformal looked at the first boundary
 only and projected it badly

---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 665c823..f04174e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1206,18 +1206,18 @@ class Mesh(object):
             y = proj0[:, 1]
             a0 = ((np.roll(y, -1)-y) * (np.roll(x, -1)+x)).sum()
 
-            y = proj1[:, 0]
-            z = proj1[:, 1]
+            y = proj1[:, 1]
+            z = proj1[:, 2]
             a1 = ((np.roll(y, -1)-y) * (np.roll(z, -1)+z)).sum()
 
             x = proj2[:, 0]
-            z = proj2[:, 1]
+            z = proj2[:, 2]
             a2 = ((np.roll(x, -1)-x) * (np.roll(z, -1)+z)).sum()
 
             if math.fabs(a0) < tol and math.fabs(a1) < tol and math.fabs(a2) < tol:
                 conformal = False
 
-            return conformal
+        return conformal
 
     def rotate_x(self, thetax):
         """Rotates the mesh around Ox axis.
-- 
2.43.0


From a8431cdd8a21b268f3e259864471d61160741610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 66/87] fix: heal_mesh left the vertices of the degenerated
 faces that it removes

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f04174e..4f6812f 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1809,16 +1809,16 @@ class Mesh(object):
 
         It applies:
 
-        * Unused vertices removal
         * Degenerate faces removal
+        * Unused vertices removal
         * Duplicate vertices merging
         * Triangles healing
         * Normal healing
         """
         if self._has_faces_properties():
             self._remove_faces_properties()
-        self.remove_unused_vertices()
         self.remove_degenerated_faces()
+        self.remove_unused_vertices()
         self.merge_duplicates()
         self.heal_triangles()
         self.heal_normals()
-- 
2.43.0


From 6fd9f36888616d8e69b71c6ac09353762f145e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 67/87] fix: quadrangles whose opposite vertices are on the
 same side of the clipping plane

---
 meshmagick/mesh_clipper.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index cfeb9f1..a454812 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -363,9 +363,21 @@ class MeshClipper(object):
 
         index = crown_mesh.nb_vertices
 
+        faces = list()
         for face_id in range(crown_mesh.nb_faces):
-
             face = crown_mesh.get_face(face_id)
+            if len(face) == 4:
+                # The plane may separate each vertex of a warped quadrangle from both of its neighbours. Such a
+                # quadrangle is clipped as two triangles
+                side = vertices_above_mask[face].astype(int) - vertices_below_mask[face]
+                if min(side[[0, 2]]) > max(side[[1, 3]]) or max(side[[0, 2]]) < min(side[[1, 3]]):
+                    if np.any(vertices_on_mask[face[[0, 2]]]):
+                        face = np.roll(face, -1)
+                    faces += [face[[0, 1, 2]], face[[0, 2, 3]]]
+                    continue
+            faces.append(face)
+
+        for face_id, face in enumerate(faces):
 
             # # Determining the type of face clipping
             v_above_face = np.where(vertices_above_mask[face])[0]
-- 
2.43.0


From 0fb44bbcadc08ca6b8f8ee4134f35bea19c7abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 68/87] fix: a mesh that has been shown can be copied

---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 4f6812f..a83218b 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -922,10 +922,10 @@ class Mesh(object):
         """Shows the mesh in the meshmagick viewer"""
 
         vtk_polydata = self._vtk_polydata()
-        self.viewer = MMviewer.MMViewer()
-        self.viewer.add_polydata(vtk_polydata)
-        self.viewer.show()
-        self.viewer.finalize()
+        viewer = MMviewer.MMViewer()  # Must not be kept by the mesh as it cannot be copied
+        viewer.add_polydata(vtk_polydata)
+        viewer.show()
+        viewer.finalize()
 
     def _connectivity(self):
         """Updates the connectivities of the mesh.
-- 
2.43.0


From e8c4a25296a451c18cfbfebb48f48d798ef2e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 69/87] fix: faces may have vertices in common that are not
 those of the edge they share

---
 meshmagick/mesh.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index a83218b..8e60573 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -947,6 +947,7 @@ class Mesh(object):
         # Establishing v_v and v_f connectivities
         v_v = dict([(i, set()) for i in range(nv)])
         v_f = dict([(i, set()) for i in range(nv)])
+        e_f = dict()  # Faces sharing each edge
         for (iface, face) in enumerate(self._faces):
             if face[0] == face[-1]:
                 face_w = face[:3]
@@ -956,16 +957,20 @@ class Mesh(object):
                 v_f[iV].add(iface)
                 v_v[face_w[index - 1]].add(iV)
                 v_v[iV].add(face_w[index - 1])
+                e_f.setdefault(frozenset((face_w[index - 1], iV)), set()).add(iface)
 
         # Connectivity f_f
         boundary_edges = dict()
 
         f_f = dict([(i, set()) for i in range(nf)])
         for ivertex in range(nv):
-            set1 = v_f[ivertex]
             for iadj_v in v_v[ivertex]:
-                set2 = v_f[iadj_v]
-                intersection = list(set1 & set2)
+                if iadj_v == ivertex:
+                    # Vertex that is repeated in a face
+                    continue
+
+                # Faces may have both vertices without having the edge between them
+                intersection = list(e_f[frozenset((ivertex, iadj_v))])
                 if len(intersection) == 2:
                     f_f[intersection[0]].add(intersection[1])
                     f_f[intersection[1]].add(intersection[0])
@@ -1618,34 +1623,18 @@ class Mesh(object):
 
             iface = stack.pop()
             face = faces[iface]
-            s1 = set(face)
+            edges = set(zip(face[:type_cell[iface]], np.roll(face[:type_cell[iface]], -1)))
 
             for iadj_f in f_f[iface]:
                 if f_vis[iadj_f]:
                     continue
                 f_vis[iadj_f] = True
 
-                # Shared vertices
-                adjface = faces[iadj_f]
-                s2 = set(adjface)
-                # try:
-                common_vertices = list(s1 & s2)
-                if len(common_vertices) == 2:
-                    i_v1, i_v2 = common_vertices
-                else:
-                    print(('WARNING: faces %u and %u have more than 2 vertices in common !' % (iface, iadj_f)))
-                    continue
-
-                # Checking normal consistency
-                face_ref = np.roll(face[:type_cell[iface]], -np.where(face == i_v1)[0][0])
-                adj_face_ref = np.roll(adjface[:type_cell[iadj_f]], -np.where(adjface == i_v1)[0][0])
-
-                if face_ref[1] == i_v2:
-                    i = 1
-                else:
-                    i = -1
+                # Checking normal consistency: both faces must go along the edges they share in opposite directions
+                adjface = faces[iadj_f][:type_cell[iadj_f]]
+                adj_edges = set(zip(adjface, np.roll(adjface, -1)))
 
-                if adj_face_ref[i] == i_v2:
+                if edges & adj_edges:
                     # Reversing normal
                     nb_reversed += 1
                     faces[iadj_f] = np.flipud(faces[iadj_f])
-- 
2.43.0


From ed4765bd216283c50c62e1f7fa09f20b031860b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 70/87] fix: vertices that are close to each other are merged
 whatever the other vertices of the mesh

---
 meshmagick/tools.py | 80 +++++++++++----------------------------------
 1 file changed, 19 insertions(+), 61 deletions(-)

diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index bca61cb..7e9710b 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -2,6 +2,7 @@
 #  -*- coding: utf-8 -*-
 
 import numpy as np
+from scipy.spatial import cKDTree
 
 def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     """Returns a new node array where close nodes have been merged into one node (following atol).
@@ -40,68 +41,25 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     if nv == 0:
         return (arr, np.arange(nv)) if return_index else arr
 
-    # Gathering the nodes that may be close in groups, so that close nodes are never separated hereafter because of
-    # another node having a similar coordinate
-    groups = np.zeros(nv, dtype=int)
-    nb_groups = 0
-    while groups.max() + 1 > nb_groups:
-        nb_groups = groups.max() + 1
-        for dim in range(nbdim):
-            iperm = np.lexsort((arr[:, dim], groups))
-            is_new = np.logical_or(np.diff(groups[iperm]) > 0, np.diff(arr[iperm, dim]) > atol)
-            groups[iperm] = np.concatenate(([0], np.cumsum(is_new)))
-
-    iperm = groups.argsort(kind='stable')
-    levels = [0] + list(np.flatnonzero(np.diff(groups[iperm])) + 1) + [nv]
-
-    for dim in range(nbdim):
-        # Sorting the first dimension
-        values = arr[iperm, dim]
-        levels_tmp = []
-        for (ilevel, istart) in enumerate(levels[:-1]):
-            istop = levels[ilevel+1]
-
-            if istop-istart > 1:
-                level_values = values[istart:istop]
-                iperm_view = iperm[istart:istop]
-
-                iperm_tmp = level_values.argsort()
-
-                level_values[:] = level_values[iperm_tmp]
-                iperm_view[:] = iperm_view[iperm_tmp]
-
-                levels_tmp.append(istart)
-                vref = values[istart]
-
-                for idx in range(istart, istop):
-                    cur_val = values[idx]
-                    if np.abs(cur_val - vref) > atol:
-                        levels_tmp.append(idx)
-                        vref = cur_val
-
-            else:
-                levels_tmp.append(levels[ilevel])
-        if len(levels_tmp) == nv:
-            # No duplicate rows
-            # if verbose:
-            # print "\t -> No duplicate _vertices detected :)"
-            if return_index:
-                newID = np.arange(nv)
-            break
-
-        levels_tmp.append(nv)
-        levels = levels_tmp
-
-    else:
+    # Nodes that have another node in their vicinity (the distance being the greatest difference of coordinates)
+    tree = cKDTree(arr)
+    distances, _ = tree.query(arr, k=2, p=np.inf)
+    candidates = np.flatnonzero(distances[:, 1] <= atol)
+
+    # Each of them is merged with the first retained node that is close to it, if any
+    newID = np.arange(nv)
+    is_free = np.ones(nv, dtype=bool)
+    for inode in candidates:
+        if is_free[inode]:
+            close_nodes = np.asarray(tree.query_ball_point(arr[inode], atol, p=np.inf), dtype=int)
+            close_nodes = close_nodes[is_free[close_nodes]]
+            newID[close_nodes] = inode
+            is_free[close_nodes] = False
+
+    retained, newID = np.unique(newID, return_inverse=True)
+    if len(retained) < nv:
         # Building the new merged node list
-        arr_tmp = []
-        newID = np.arange(nv)
-        for (ilevel, istart) in enumerate(levels[:-1]):
-            istop = levels[ilevel+1]
-
-            arr_tmp.append(arr[iperm[istart]])
-            newID[iperm[list(range(istart, istop))]] = ilevel
-        arr = np.array(arr_tmp, dtype=float)
+        arr = np.array(arr[retained], dtype=float)
         # Applying renumbering to cells
         # if F is not None:
         #     for cell in F:
-- 
2.43.0


From 75a0b0e9c3116922348286eb4d139db96f8e46ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 71/87] fix: every element section of a Diodore DAT file is
 loaded

Only the first section of triangles and the first section of quadrangles were
loaded, and a section having a wrong element was skipped, so that the mesh was
silently incomplete.
---
 meshmagick/mmio.py | 52 +++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 16ef1a1..5258fe6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -211,39 +211,25 @@ def load_DAT(filename):
 
     faces = []
 
-    # TRIANGLE FACES SECTION
-    triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
-    triangle_sections = triangle_section_pattern.findall(data)
-
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
-            triangle_split = triangle.split()
-
-            triangle = [
-                node_dict[triangle_split[1]],
-                node_dict[triangle_split[2]],
-                node_dict[triangle_split[3]],
-                node_dict[triangle_split[1]],
-            ]
-
-            faces.append(triangle)
-    
-    # QUADRANGLE FACES SECTION
-    quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
-    quadrangle_sections = quadrangle_section_pattern.findall(data)
-
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
-            quadrangle_split = quadrangle.split()
-
-            quadrangle = [
-                node_dict[quadrangle_split[1]],
-                node_dict[quadrangle_split[2]],
-                node_dict[quadrangle_split[3]],
-                node_dict[quadrangle_split[4]],
-            ]
-
-            faces.append(quadrangle)
+    # TRIANGLE THEN QUADRANGLE FACES SECTIONS
+    for element_type, nb_corners in (('T3C000', 3), ('Q4C000', 4)):
+        header = r'ELEMENT\b.*' + element_type + r'.*\n'
+        sections = re.findall(header + r'([^*]*)\*RETURN', data)
+        if len(sections) != len(re.findall(header, data)):
+            raise IOError('Some %s sections of file %s have no end' % (element_type, filename))
+
+        for section in sections:
+            for element in section.splitlines():
+                element = element.split()
+                if len(element) == 0 or element[0].startswith('$'):
+                    continue
+                if len(element) != nb_corners + 1:
+                    raise IOError('Some %s elements of file %s do not have %u nodes'
+                                  % (element_type, filename, nb_corners))
+                face = [node_dict[node] for node in element[1:]]
+                if nb_corners == 3:
+                    face.append(face[0])
+                faces.append(face)
 
     faces = np.array(faces, dtype=int)
     
-- 
2.43.0


From 69c0194885f978d8797f39db2d2e30b0b39e992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 72/87] fix: every zone of a Tecplot file is loaded

Only the first one was, so that the mesh was silently incomplete.
---
 meshmagick/mmio.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 5258fe6..7e3bbbf 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -440,14 +440,23 @@ def load_TEC(filename):
     with open(filename, 'r') as f:
         data = f.read()
 
-    nv, nf, vertices, faces = data_pattern.search(data).groups()
-    nv = int(nv)
-    nf = int(nf)
-
-    vertices = np.asarray(list(map(float, vertices.split())), dtype=float).reshape((nv, -1))[:, :3]
-    if vertices.shape[1] != 3:
-        raise IOError('Vertices of file %s do not have three coordinates' % filename)
-    faces = np.asarray(list(map(int, faces.split())), dtype=int).reshape((nf, 4))-1
+    zones = data_pattern.findall(data)
+    if len(zones) != len(re.findall(r'^\s*ZONE\b', data, re.MULTILINE)):
+        raise IOError('Some zones of file %s are not made of quadrilaterals given by points' % filename)
+
+    vertices = np.zeros((0, 3), dtype=float)
+    faces = np.zeros((0, 4), dtype=int)
+    for nv, nf, zone_vertices, zone_faces in zones:
+        zone_vertices = np.asarray(list(map(float, zone_vertices.split())), dtype=float).reshape((int(nv), -1))[:, :3]
+        if zone_vertices.shape[1] != 3:
+            raise IOError('Vertices of file %s do not have three coordinates' % filename)
+        zone_faces = np.asarray(list(map(int, zone_faces.split())), dtype=int).reshape((int(nf), 4))-1
+        if len(zone_faces) > 0 and (np.min(zone_faces) < 0 or np.max(zone_faces) >= len(zone_vertices)):
+            raise IOError('Some faces of file %s refer to vertices that do not exist' % filename)
+
+        # Every zone has its own numbering of vertices
+        faces = np.concatenate((faces, zone_faces + len(vertices)))
+        vertices = np.concatenate((vertices, zone_vertices))
 
     return vertices, faces
 
-- 
2.43.0


From 48aa1e0b0642c9d5c983b6202ee08ddcfcaed051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 73/87] fix: faces of Hydrostar and Radioss files refer to the
 numbers of nodes

The numbers given to the nodes were ignored, so that faces were silently wrong as
soon as nodes were not numbered from 1, without any gap and in ascending order.
---
 meshmagick/mmio.py | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7e3bbbf..a1e78cf 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -84,7 +84,7 @@ def load_RAD(filename):
     ifile.close()
 
     # node_line = r'\s*\d+(?:\s*' + real_str + '){3}'
-    node_line = r'\s*\d+\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
+    node_line = r'\s*(\d+)\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
     node_section = r'((?:' + node_line + ')+)'
 
     elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
@@ -97,16 +97,18 @@ def load_RAD(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
+    node_ids = dict()  # Node numbers are neither necessarily contiguous nor ordered
     node_section = pattern_node_section.search(data).group(1)
     for node in pattern_node_line.finditer(node_section):
-        vertices.append(list(map(float, list(node.groups()))))
+        node_ids[int(node.group(1))] = len(vertices)
+        vertices.append(list(map(float, list(node.groups()[1:]))))
     vertices = np.asarray(vertices, dtype=float)
 
     faces = []
     elem_section = pattern_elem_section.search(data).group(1)
     for elem in pattern_elem_line.findall(elem_section):
-        faces.append(list(map(int, elem.strip().split()[3:])))
-    faces = np.asarray(faces, dtype=int) - 1
+        faces.append([node_ids[int(node)] for node in elem.split()[3:]])
+    faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
 
@@ -150,36 +152,23 @@ def load_HST(filename):
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
     vertices = []
-    nv = 0
+    node_ids = dict()  # Node numbers are neither necessarily contiguous nor ordered
     for node_section in pattern_node_section.findall(data):
-        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
-            vertices_tmp.append(list(map(float, node.split()[1:])))
-        nv_tmp = len(vertices_tmp)
-        vertices_tmp = np.asarray(vertices_tmp, dtype=float)
-        if nv == 0:
-            vertices = vertices_tmp.copy()
-            nv = nv_tmp
-        else:
-            vertices = np.concatenate((vertices, vertices_tmp))
-            nv += nv_tmp
+            node = node.split()
+            if int(node[0]) in node_ids:
+                raise IOError('Node %s is given several times in file %s' % (node[0], filename))
+            node_ids[int(node[0])] = len(vertices)
+            vertices.append(list(map(float, node[1:])))
+    vertices = np.asarray(vertices, dtype=float)
 
     faces = []
-    nf = 0
     for elem_section in pattern_elem_section.findall(data):
-        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
-            faces_tmp.append(list(map(int, elem.split())))
-        nf_tmp = len(faces_tmp)
-        faces_tmp = np.asarray(faces_tmp, dtype=int)
-        if nf == 0:
-            faces = faces_tmp.copy()
-            nf = nf_tmp
-        else:
-            faces = np.concatenate((faces, faces_tmp))
-            nf += nf_tmp
+            faces.append([node_ids[int(node)] for node in elem.split()])
+    faces = np.asarray(faces, dtype=int)
 
-    return vertices, faces-1
+    return vertices, faces
 
 
 def load_DAT(filename):
-- 
2.43.0


From 4e94cf297593b71007d03a2e204174169daa5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 74/87] fix: panels of Hydrostar files that are not read are
 not ignored silently

Lines of panels that do not have four nodes were skipped, as well as the last line
of a file that does not end by a new line.
---
 meshmagick/mmio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index a1e78cf..8bff16a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -143,7 +143,7 @@ def load_HST(filename):
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
 
-    elem_line = r'^\s*(?:\d+\s+){3}\d+\s*[\r\n]+'
+    elem_line = r'^\s*(?:\d+\s+){3}\d+\s*(?:[\r\n]+|\Z)'
     elem_section = r'((?:' + elem_line + ')+)'
 
     pattern_node_line = re.compile(node_line, re.MULTILINE)
@@ -168,6 +168,11 @@ def load_HST(filename):
             faces.append([node_ids[int(node)] for node in elem.split()])
     faces = np.asarray(faces, dtype=int)
 
+    # No line of the panels sections should have been skipped
+    panels = re.findall(r'^\s*PANEL\b.*\n((?:.*\n)*?)\s*ENDPANEL', data, re.MULTILINE)
+    if len(panels) > 0 and len(re.findall(r'^\s*\d', ''.join(panels), re.MULTILINE)) != len(faces):
+        raise IOError('Some panels of file %s are not defined by four nodes' % filename)
+
     return vertices, faces
 
 
-- 
2.43.0


From 1e3335b87c1f4027c4e93e76f6583302e7dc6ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 75/87] fix: elements of Gmsh 2.2 files are read whatever the
 blanks between their numbers

Elements whose numbers were separated by several blanks or tabs, or followed by a
blank, were silently ignored. The numbers of nodes and of elements that the file
declares, and the number of nodes of its elements, are checked.
---
 meshmagick/mmio.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8bff16a..9bca8f8 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -860,26 +860,31 @@ def load_MSH22(filename):
     with open(filename, 'r') as file:
         data = file.read()
 
-    nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
-    nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
+    nb_nodes, nodes_data = re.search(r'\$Nodes\s+(\d+)\s+(.+)\$EndNodes', data, re.DOTALL).groups()
+    nb_elts, elts_data = re.search(r'\$Elements\s+(\d+)\s+(.+)\$EndElements', data, re.DOTALL).groups()
 
     nodes = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))
     vertices = np.ascontiguousarray(nodes[:, 1:])
     # Node numbers are neither necessarily contiguous nor ordered
     node_ids = {int(tag): i for (i, tag) in enumerate(nodes[:, 0])}
-    faces = []
 
-    # Triangles
-    for tri_elt in re.findall(r'(^\d+\s2(?:\s\d+)+?$)', elts_data, re.MULTILINE):
-        tri_elt = list(map(int, tri_elt.split()))
-        triangle = tri_elt[-3:]
-        triangle.append(triangle[0])
-        faces.append([node_ids[tag] for tag in triangle])
-
-    for quad_elt in re.findall(r'(^\d+\s3(?:\s\d+)+?$)', elts_data, re.MULTILINE):
-        quad_elt = list(map(int, quad_elt.split()))
-        quadrangle = quad_elt[-4:]
-        faces.append([node_ids[tag] for tag in quadrangle])
+    elements = [list(map(int, line.split())) for line in elts_data.splitlines() if line.strip()]
+    if len(nodes) != int(nb_nodes) or len(elements) != int(nb_elts):
+        raise IOError('File %s does not hold the %s nodes and the %s elements that it declares'
+                      % (filename, nb_nodes, nb_elts))
+
+    # Triangles then quadrangles
+    faces = []
+    for elt_type, nb_corners in ((2, 3), (3, 4)):
+        for elt in elements:
+            if elt[1] != elt_type:
+                continue
+            face = [node_ids[tag] for tag in elt[3+elt[2]:]]  # Tags of the element are before its nodes
+            if len(face) != nb_corners:
+                raise IOError('Element %u of file %s does not have %u nodes' % (elt[0], filename, nb_corners))
+            if nb_corners == 3:
+                face.append(face[0])
+            faces.append(face)
 
     faces = np.asarray(faces, dtype=int)
 
-- 
2.43.0


From 1952618dcb6949928bae53409a5665a5836656a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 76/87] fix: commas of frames of Diodore files may be followed
 by blanks

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 9bca8f8..529ac65 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -266,7 +266,7 @@ def load_INP(filename):
     frames = {}
     for match in pattern_frame.finditer(text):
         frame_name = match.group(1).strip()
-        frame_vector = re.split(r'[, ]', match.group(2).strip())
+        frame_vector = re.split(r'\s*,\s*|\s+', match.group(2).strip())
         frames[frame_name] = np.asarray(list(map(float, frame_vector)))
 
     # Storing the inp layout into a list of dictionary
-- 
2.43.0


From a31d1d6e8d56c9229b1b779db285d91e02fe0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 77/87] fix: pixels and strips of triangles of VTK files are
 not crossed quadrangles

Pixels have the same four vertices as quadrangles, in another order. Strips are
loaded as triangles, and polygons of two vertices are refused as are those of more
than four.
---
 meshmagick/mmio.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 529ac65..df5f681 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -599,26 +599,33 @@ def _dump_vtk(vtk_mesh):
         numpy array of the faces' nodes connectivities
     """
 
+    from vtk import VTK_PIXEL, VTK_TRIANGLE_STRIP
+
     nv = vtk_mesh.GetNumberOfPoints()
     vertices = np.zeros((nv, 3), dtype=float)
     for k in range(nv):
         vertices[k] = np.array(vtk_mesh.GetPoint(k))
 
     nb_cells = vtk_mesh.GetNumberOfCells()
-    faces = np.zeros((nb_cells, 4), dtype=int)
-    nf = 0
+    faces = []
     for k in range(nb_cells):
         cell = vtk_mesh.GetCell(k)
-        nv_facet = cell.GetNumberOfPoints()
         if cell.GetCellDimension() != 2:  # Isolated points and lines are not faces
             continue
-        for l in range(nv_facet):
-            faces[nf][l] = cell.GetPointId(l)
-        if nv_facet == 3:
-            faces[nf][3] = faces[nf][0]
-        nf += 1
+        cell_faces = [[cell.GetPointId(l) for l in range(cell.GetNumberOfPoints())]]
+        if cell.GetCellType() == VTK_PIXEL:  # Points of pixels do not turn around them
+            cell_faces = [[cell_faces[0][l] for l in (0, 1, 3, 2)]]
+        elif cell.GetCellType() == VTK_TRIANGLE_STRIP:  # Every other triangle is given clockwise
+            strip = cell_faces[0]
+            cell_faces = [[strip[l + l % 2], strip[l + 1 - l % 2], strip[l + 2]] for l in range(len(strip) - 2)]
+        for face in cell_faces:
+            if len(face) == 3:
+                face.append(face[0])
+            if len(face) != 4:
+                raise IOError('Only triangles and quadrangles are supported (%u vertices given)' % len(face))
+            faces.append(face)
 
-    return vertices, faces[:nf]
+    return vertices, np.array(faces, dtype=int).reshape((-1, 4))
 
 
 def load_STL(filename):
-- 
2.43.0


From 2faf92d7dbfb52b34bec56232702e871bb9d73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 78/87] fix: MED files that hold several meshes are refused

The vertices of the last one were loaded with faces of any of them.
---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index df5f681..ea4f0ce 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1005,6 +1005,10 @@ def load_MED(filename):
 
     nb_quadrangles = nb_triangles = 0
 
+    if len([item for item in list_of_names if '/NOE/COO' in item]) > 1:
+        file.close()
+        raise IOError('File %s holds several meshes' % filename)
+
     for item in list_of_names:
         if '/NOE/COO' in item:
             vertices = file[item][:].reshape((3, -1)).T
-- 
2.43.0


From d9c980e54f6043bc267c62c4ec8149b0de2ca8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 79/87] fix: elements of Diodore files do not refer to nodes of
 the body before theirs

An element that refers to a node that does not exist was given the last node but
one of what had been loaded before.
---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ea4f0ce..97f3ae5 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -333,7 +333,7 @@ def load_INP(filename):
         # Detecting renumberings to do
         real_idx = 0
         # renumberings = []
-        id_new = - np.ones(max(idx_array) + 1, dtype=int)
+        id_new = dict()
         # FIXME: cette partie est tres buggee !!!
         for i, idx in enumerate(idx_array):
             id_new[idx] = i+1
@@ -345,7 +345,7 @@ def load_INP(filename):
             for elem in pattern_elem_line.findall(elem_section):
                 elem = list(map(int, elem.split()))
                 # for node in elem[1:]:
-                elem = id_new[elem[1:]].tolist()
+                elem = [id_new[node] for node in elem[1:]]
                 if len(elem) == 3:  # Case of a triangle, we repeat the first node at the last position
                     elem.append(elem[0])
 
-- 
2.43.0


From d810957f853e711242b02700aad4b05b73535e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 80/87] fix: elements of Diodore files may begin at the first
 column

They were silently ignored, as were those whose numbers are separated by tabs.
---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 97f3ae5..2a44ad6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -299,7 +299,7 @@ def load_INP(filename):
         # patterns for recognition of sections
     node_line = r'\s*\d+(?:\s+' + real_str + '){3}'
     node_section = r'((?:' + node_line + ')+)'
-    elem_line = r'^ +\d+(?: +\d+){3,4} *(?:[\r\n]+|\Z)'  # 3 -> triangle, 4 -> quadrangle
+    elem_line = r'^[ \t]*\d+(?:[ \t]+\d+){3,4}[ \t]*(?:[\r\n]+|\Z)'  # 3 -> triangle, 4 -> quadrangle
     elem_section = r'((?:' + elem_line + ')+)'
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     pattern_elem_line = re.compile(elem_line, re.MULTILINE)
-- 
2.43.0


From 536b7a5257fd80f9e4291d7b46674c50786966dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 81/87] fix: files whose faces do not have four vertices are
 refused

Every face of a natural or Nemoh file having three numbers was accepted and gave
a mesh that fails in an obscure way afterwards.
---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2a44ad6..fa47985 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -49,6 +49,8 @@ def load_mesh(filename, file_format):
 
     if len(faces) == 0:
         raise IOError('No face has been found in file %s' % filename)
+    if np.shape(vertices)[1:] != (3,) or np.shape(faces)[1:] != (4,):
+        raise IOError('Vertices of file %s should have 3 coordinates and its faces 4 vertices' % filename)
     if np.min(faces) < 0 or np.max(faces) >= len(vertices):
         raise IOError('Some faces of file %s refer to vertices that do not exist' % filename)
     if not np.all(np.isfinite(vertices)):
-- 
2.43.0


From f0e5abac26cd4fc0f15c7aa4a3ca2e14d26058c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 82/87] fix: files that give the same number to several nodes
 are refused

The faces silently referred to the last one of them.
---
 meshmagick/mmio.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index fa47985..acdd05c 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -20,6 +20,11 @@ def _check_file(filename):
     return
 
 
+def _check_node_numbers(node_ids, vertices, filename):
+    if len(node_ids) != len(vertices):
+        raise IOError('Several nodes of file %s have the same number' % filename)
+
+
 def load_mesh(filename, file_format):
     """Driver function that loads every mesh file format known by meshmagick and returns the node list and the
     connectivity array
@@ -105,6 +110,7 @@ def load_RAD(filename):
         node_ids[int(node.group(1))] = len(vertices)
         vertices.append(list(map(float, list(node.groups()[1:]))))
     vertices = np.asarray(vertices, dtype=float)
+    _check_node_numbers(node_ids, vertices, filename)
 
     faces = []
     elem_section = pattern_elem_section.search(data).group(1)
@@ -158,11 +164,10 @@ def load_HST(filename):
     for node_section in pattern_node_section.findall(data):
         for node in pattern_node_line.findall(node_section):
             node = node.split()
-            if int(node[0]) in node_ids:
-                raise IOError('Node %s is given several times in file %s' % (node[0], filename))
             node_ids[int(node[0])] = len(vertices)
             vertices.append(list(map(float, node[1:])))
     vertices = np.asarray(vertices, dtype=float)
+    _check_node_numbers(node_ids, vertices, filename)
 
     faces = []
     for elem_section in pattern_elem_section.findall(data):
@@ -204,6 +209,7 @@ def load_DAT(filename):
         node_dict[node_split[0]] = inode
         
     vertices = np.array(nodes, dtype=float)
+    _check_node_numbers(node_dict, vertices, filename)
 
     faces = []
 
@@ -339,6 +345,7 @@ def load_INP(filename):
         # FIXME: cette partie est tres buggee !!!
         for i, idx in enumerate(idx_array):
             id_new[idx] = i+1
+        _check_node_numbers(id_new, node_array, file + '.DAT')
 
         mesh_files[file]['ELEM_SECTIONS'] = []
         for elem_section in pattern_elem_section.findall(data):
@@ -876,6 +883,7 @@ def load_MSH22(filename):
     vertices = np.ascontiguousarray(nodes[:, 1:])
     # Node numbers are neither necessarily contiguous nor ordered
     node_ids = {int(tag): i for (i, tag) in enumerate(nodes[:, 0])}
+    _check_node_numbers(node_ids, vertices, filename)
 
     elements = [list(map(int, line.split())) for line in elts_data.splitlines() if line.strip()]
     if len(nodes) != int(nb_nodes) or len(elements) != int(nb_elts):
-- 
2.43.0


From 14ad323c453cb67a9b162a1ce9c2041b6b636b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 83/87] fix: files of VTK that cannot be written are told

write_VTP, write_VTU and MMViewer.save returned as if the file had been
written when the directory does not exist or the disk is full, and VTK
may even crash in the latter case.
---
 meshmagick/MMviewer.py |  8 +++++++-
 meshmagick/mmio.py     | 12 ++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index aaca044..ba0832f 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -490,7 +490,7 @@ class MMViewer:
 
         writer = vtkXMLPolyDataWriter()
         writer.SetDataModeToAscii()
-        writer.SetFileName('mmviewer_save.vtp')
+        writer.WriteToOutputStringOn()
 
         if vtk.VTK_MAJOR_VERSION <= 5:
             writer.SetInput(self.polydatas[0])
@@ -498,6 +498,10 @@ class MMViewer:
             writer.SetInputData(self.polydatas[0])
         writer.Write()
 
+        # The writer itself does not raise any exception when it cannot write the file
+        with open('mmviewer_save.vtp', 'w') as f:
+            f.write(writer.GetOutputString())
+
         print(("File 'mmviewer_save.vtp' written in %s" % getcwd()))
         return
 
@@ -514,6 +518,8 @@ class MMViewer:
         else:
             writer.SetInputData(w2if.GetOutput())
         writer.Write()
+        if writer.GetErrorCode() != 0:
+            raise IOError("File 'screenshot.png' could not be written")
 
         print(("File 'screenshot.png' written in %s" % getcwd()))
         return
diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index acdd05c..bfab164 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1422,7 +1422,7 @@ def write_VTU(filename, vertices, faces):
     from vtk import vtkXMLUnstructuredGridWriter, VTK_MAJOR_VERSION
     writer = vtkXMLUnstructuredGridWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
+    writer.WriteToOutputStringOn()
 
     unstructured_grid = _build_vtkUnstructuredGrid(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
@@ -1431,6 +1431,10 @@ def write_VTU(filename, vertices, faces):
         writer.SetInputData(unstructured_grid)
     writer.Write()
 
+    # The writer itself does not raise any exception when it cannot write the file
+    with open(filename, 'w') as f:
+        f.write(writer.GetOutputString())
+
 
 def write_VTP(filename, vertices, faces):
     """Writes .vtp file format for the Paraview (Kitware (c)) visualisation software.
@@ -1451,7 +1455,7 @@ def write_VTP(filename, vertices, faces):
     from vtk import vtkXMLPolyDataWriter, VTK_MAJOR_VERSION
     writer = vtkXMLPolyDataWriter()
     writer.SetDataModeToAscii()
-    writer.SetFileName(filename)
+    writer.WriteToOutputStringOn()
 
     polydata = _build_vtkPolyData(vertices, faces)
     if VTK_MAJOR_VERSION <= 5:
@@ -1460,6 +1464,10 @@ def write_VTP(filename, vertices, faces):
         writer.SetInputData(polydata)
     writer.Write()
 
+    # The writer itself does not raise any exception when it cannot write the file
+    with open(filename, 'w') as f:
+        f.write(writer.GetOutputString())
+
 
 def write_VTK(filename, vertices, faces):
     """Writes .vtk file format for the Paraview (Kitware (c)) visualisation software.
-- 
2.43.0


From dd089bdd2cb0e356e1fa6985e7afd241c068a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 84/87] fix: load every shell of radioss files (one section by
 part, comments, last line without end)

---
 meshmagick/mmio.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index bfab164..ea82730 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -90,12 +90,15 @@ def load_RAD(filename):
     data = ifile.read()
     ifile.close()
 
+    data = re.sub(r'^[#$].*[\r\n]*', '', data, flags=re.MULTILINE)  # Comments
+
     # node_line = r'\s*\d+(?:\s*' + real_str + '){3}'
     node_line = r'\s*(\d+)\s*(' + real_str + r')\s*(' + real_str + r')\s*(' + real_str + ')'
     node_section = r'((?:' + node_line + ')+)'
 
-    elem_line = r'^\s*(?:\d+\s+){6}\d+\s*[\r\n]+'
-    elem_section = r'((?:' + elem_line + '){3,})'
+    elem_line = r'^\s*(?:\d+\s+){6}\d+\s*(?:[\r\n]+|\Z)'
+    # Every part of the model has its own section
+    elem_section = r'((?:^\s*/SHELL.*[\r\n]+)(?:' + elem_line + ')+|(?:' + elem_line + '){3,})'
 
     pattern_node_line = re.compile(node_line, re.MULTILINE)
     # pattern_node_line_group = re.compile(node_line, re.MULTILINE)
@@ -113,9 +116,12 @@ def load_RAD(filename):
     _check_node_numbers(node_ids, vertices, filename)
 
     faces = []
-    elem_section = pattern_elem_section.search(data).group(1)
-    for elem in pattern_elem_line.findall(elem_section):
-        faces.append([node_ids[int(node)] for node in elem.split()[3:]])
+    elem_sections = pattern_elem_section.findall(data)
+    if len(elem_sections) == 0:
+        raise IOError('No shell element found in file %s' % filename)
+    for elem_section in elem_sections:
+        for elem in pattern_elem_line.findall(elem_section):
+            faces.append([node_ids[int(node)] for node in elem.split()[3:]])
     faces = np.asarray(faces, dtype=int)
 
     return vertices, faces
-- 
2.43.0


From c487aaa39677455bdceb7ee6206c9f9a2982ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 85/87] fix: accept comments in tecplot files

---
 meshmagick/mmio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index ea82730..8299c34 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -449,6 +449,8 @@ def load_TEC(filename):
     with open(filename, 'r') as f:
         data = f.read()
 
+    data = re.sub(r'^[ \t]*#.*[\r\n]*', '', data, flags=re.MULTILINE)  # Comments
+
     zones = data_pattern.findall(data)
     if len(zones) != len(re.findall(r'^\s*ZONE\b', data, re.MULTILINE)):
         raise IOError('Some zones of file %s are not made of quadrilaterals given by points' % filename)
-- 
2.43.0


From ade27e63ddb51123a46b943123dc482c661d9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 86/87] fix: equilibrium of bodies that touch the free surface
 from below

---
 meshmagick/hydrostatics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 7a7f00e..33bc3a1 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -62,6 +62,10 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     ymax = []
 
     polygons = clipper.closed_polygons
+    if len(polygons) == 0:
+        # The mesh touches the free surface but it is entirely under it
+        raise RuntimeError("Mesh does not crosses the free surface", "below")
+
     for polygon in polygons:
         polyverts = clipper.clipped_crown_mesh.vertices[polygon]
 
-- 
2.43.0


From 7a675b930ff85a6082bedef96e61247e90b117ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:12 +0000
Subject: [PATCH 87/87] fix: flipped meshes kept the areas and centers of
 warped quadrangles

---
 meshmagick/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 8e60573..20c8b6f 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1486,8 +1486,8 @@ class Mesh(object):
         faces = self._faces.copy()
         self._faces = np.fliplr(faces)
 
-        if self._has_faces_properties():
-            self.__internals__['faces_normals'] = -self.__internals__['faces_normals']
+        # The areas and centers of warped quadrangles depend on the vertex their description begins with
+        self._remove_faces_properties()
 
         if self.has_surface_integrals():
             self._remove_surface_integrals()
-- 
2.43.0

