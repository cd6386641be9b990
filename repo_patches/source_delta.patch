From d36a94e0957d2703b95862bf82ed137fcf1ebde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 01/27] fix: limits of a mesh with a single element

---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..e17341e 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From dd003c7495d5b4ca476177375b5d36de81b3bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 02/27] fix: smallest_edge measured face diagonals instead of
 two of the edges

---
 src/pymech/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index e17341e..5c00634 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -152,8 +152,8 @@ class Elem:
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
         x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x3, y3, z3 = self.pos[:, 0, 1, 1]
+        x4, y4, z4 = self.pos[:, 0, 1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -169,8 +169,8 @@ class Elem:
             # in 3D, do the same for the upper face, and also the side edges
             x5, y5, z5 = self.pos[:, 1, 0, 0]
             x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x7, y7, z7 = self.pos[:, 1, 1, 1]
+            x8, y8, z8 = self.pos[:, 1, 1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 0732751d833ca88fefa9de9df45d3e04de19a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 03/27] fix: rotate_2d ignored the centre of rotation

---
 src/pymech/meshtools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..93bf70f 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1337,17 +1337,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
         # rotate 'm' curvature
         for edge in range(12):
             if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From 0a510b82c634d4fbc9f7fa23c33a1d9ea8e76f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 04/27] fix: edge_mid and edge_circle overwrote the curvature
 of their argument

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93bf70f..b59071c 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -895,7 +895,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1054,7 +1054,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From cca27741119a655cd16a12fa02ea3b583c7d763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 05/27] fix: gen_circle and map2D left the number of curved
 sides out of date

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b59071c..b373a2e 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1778,6 +1778,7 @@ def gen_circle(
         edge = 1  # right edge
         el.ccurv[edge] = "C"
         el.curv[edge, 0] = r
+    box_o.update_ncurv()
 
     # copy the O box, rotate it to the other sides and merge it into the mesh
     # right box
@@ -1853,4 +1854,5 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From dd4d23e1e589df0a1e816551c3d61466cc759c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 06/27] fix: extrude and keep_elements left the element map at
 its old size

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b373a2e..92bb52b 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -1231,6 +1232,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From 462cf6bf0256be422d7a4a528877152e27bf458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 07/27] fix: writerea changed the boundary conditions of the
 mesh being written

---
 src/pymech/neksuite/mesh.py | 56 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..a3f44d7 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -512,46 +512,48 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                # Work on a copy, writing the mesh should not change it.
+                bc = data.elem[iel].bcs[ibc, iface].copy()
+                if bc[0] == "":
+                    bc[0] = "E"
+                    bc[1] = iel + 1
+                    bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From a3403e2706311a9e8038f4f7814f2876369c7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 08/27] fix: boundary condition names of three characters in
 .rea files

---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index a3f44d7..727e1c7 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -520,7 +520,7 @@ def writerea(fname, data):
                     bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
@@ -533,7 +533,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bc[0],
                             bc[1],
                             bc[3],
@@ -545,7 +545,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             bc[0],
                             bc[1],
                             bc[2],
-- 
2.43.0


From 53259d57c3f6ffa28690d51c2f8fafc334dbd98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 09/27] fix: curvature and boundary conditions of big-endian
 .re2 files

---
 src/pymech/neksuite/mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 727e1c7..6d7b13a 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -683,7 +683,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -701,7 +701,8 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        # Note that the characters are not affected by the endianness of the numbers.
+        ctype = curv[7:].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -718,7 +719,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -734,7 +735,7 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            bctype = bc[7:].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From 0651dd6c22f7bf4173d0fdd12dd5e25a0b0be3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 10/27] fix: write single precision data to double precision
 field files

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..8625f9d 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -454,7 +454,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             correct_endianness(a.astype(np.float32)).tofile(outfile)
         else:
-            correct_endianness(a).tofile(outfile)
+            correct_endianness(a.astype(np.float64)).tofile(outfile)
 
     #
     # write geometry
-- 
2.43.0


From 54c26d5a865a30b72892b0a255b3dc14dca46959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 11/27] fix: skip variables in field files that contain part of
 the elements

---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 8625f9d..9441f35 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -253,7 +253,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -286,7 +286,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -307,7 +307,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -325,7 +325,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -345,14 +345,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From 161e03396ae8e570b4d179cbddf694748be6fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 12/27] fix: default values of fun and funpar in extrude_refine

---
 src/pymech/meshtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 92bb52b..cc04a68 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -227,9 +227,17 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None or len(fun) == 0:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
@@ -245,12 +253,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From 13d19969b1850563b482e8879d488b46e53ecd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 13/27] fix: extrude kept internal conditions in all layers but
 the first with internal_bcs=False

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index cc04a68..8ddef89 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -69,6 +69,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From 425c5773f2863f63089f7c037f9c72901fc28425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 14/27] fix: check_connectivity on connections to nonexistent
 faces

---
 src/pymech/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 5c00634..ee5a745 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -303,6 +303,13 @@ class HexaData:
                         f"{connected_face} of the nonexistent element {connected_iel}"
                     )
                     logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
+                elif connected_face < 0 or connected_face >= 2 * dim:
+                    err = True
+                    logger.error(
+                        f"face {iface} of element {iel} is connected ('{cbc}') to the "
+                        f"nonexistent face {connected_face} of element {connected_iel}"
+                    )
+                    logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
                 else:
                     cbc1 = self.elem[connected_iel].bcs[ibc, connected_face][0]
                     iel1 = int(self.elem[connected_iel].bcs[ibc, connected_face][3]) - 1
-- 
2.43.0


From 98a142160a91ff6bd05cb28658d67d9b51916a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 15/27] fix: only recognise the extension of Nek field files at
 the end of the name

---
 src/pymech/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..890642a 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,6 +20,7 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   \Z          # nothing else
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From 93a2128fb4c9146b6503d38e1daf2225d4c6cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 16/27] fix: read SIMSON velocity files with passive scalars

---
 src/pymech/simsonsuite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..8218788 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,10 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        dum = infile.read(wdsz)
+        pr[i] = struct.unpack(emode + realtype, dum)[0]
+        dum = infile.read(wdsz)
+        m[i] = struct.unpack(emode + realtype, dum)[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From bc2d00fb0c9066bc8d5195b789f05b324c3843b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 17/27] fix: read 1D and 3D SIMSON plane files

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index 8218788..044e785 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -315,7 +315,7 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
         x = struct.unpack(emode + nt1 * realtype, dum)
         #
@@ -335,7 +335,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From f03324cd5af76ce0086f163c372dc0a0515daa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 18/27] fix: .rea files of meshes without boundary condition
 fields could not be read back

---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 6d7b13a..c3527c7 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,7 +498,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc > 0:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From a2eb46f37154ce48e02e861cdc0ccce67204b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 19/27] fix: map2D on meshes without boundary condition fields

---
 src/pymech/meshtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 8ddef89..f29c55c 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1854,7 +1854,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and mesh.nbc > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From dbe9d742351eff52b32e8c1c4ce94d2d4bfc3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 20/27] fix: readdns lost the spanwise mode -1 (two stored
 planes were read into the same mode)

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index 044e785..3c69386 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -193,7 +193,7 @@ def readdns(fname):
     # read velocity and transform in physical space
     for idim in range(3):
         for iz in range(lr1[2]):
-            if iz <= lr1[2] / 2:
+            if iz < lr1[2] / 2:
                 izf = iz
             else:
                 izf = lr1[2] // 2 * 3 - (iz + 1)
@@ -213,7 +213,7 @@ def readdns(fname):
     # read scalars and transform in physical space
     for ivar in range(var[4]):
         for iz in range(lr1[2]):
-            if iz <= lr1[2] / 2:
+            if iz < lr1[2] / 2:
                 izf = iz
             else:
                 izf = lr1[2] // 2 * 3 - (iz + 1)
-- 
2.43.0


From 34c0470a5b5e143e0c7aeff9aab05252028deab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 21/27] fix: readdns transformed the wrong direction as the
 half-complex one

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index 3c69386..2bb6321 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -208,7 +208,7 @@ def readdns(fname):
                 eol = infile.read(8)
         #
         # back to physical space
-        data.elem[0].vel[idim, :, :, :] = np.fft.irfft2(fou, (lr1[0], lr1[2]), (2, 0))
+        data.elem[0].vel[idim, :, :, :] = np.fft.irfft2(fou, (lr1[2], lr1[0]), (0, 2))
     #
     # read scalars and transform in physical space
     for ivar in range(var[4]):
@@ -228,7 +228,7 @@ def readdns(fname):
                 eol = infile.read(8)  # noqa: F841  # required for reading
         #
         # back to physical space
-        data.elem[0].scal[ivar, :, :, :] = np.fft.irfft2(fou, (lr1[0], lr1[2]), (2, 0))
+        data.elem[0].scal[ivar, :, :, :] = np.fft.irfft2(fou, (lr1[2], lr1[0]), (0, 2))
     #
     # ---------------------------------------------------------------------------
     # CLOSE FILE
-- 
2.43.0


From 9e8cadd6bbcf32202cca162253790bc264ecde2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 22/27] fix: gen_circle with a single element in the radial
 direction (division by zero)

---
 src/pymech/meshtools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f29c55c..c66667d 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1265,6 +1265,10 @@ def exponential_refinement_parameter(l0, ltot, n, tol=1e-14):
         the mesh refinement parameter
     """
 
+    # with a single element, there is no progression and alpha is arbitrary
+    if n == 1:
+        return 1.0
+
     # interval around 1 where to approximate the functions (see below)
     eps_approx_f = 2.0e-6
     eps_approx_fp = 2.0e-6
-- 
2.43.0


From db9869034ae8bffa74af0c9b7d8b81f263ac7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 23/27] fix: edge lengths and midpoints of elements of higher
 order (ends of the edge, not its first two points)

---
 src/pymech/core.py      | 14 +++----
 src/pymech/meshtools.py | 84 ++++++++++++++++++++---------------------
 2 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index ee5a745..408f208 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -151,9 +151,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 1]
-        x4, y4, z4 = self.pos[:, 0, 1, 0]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,10 +167,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 1]
-            x8, y8, z8 = self.pos[:, 1, 1, 0]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c66667d..20e386d 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -905,40 +905,40 @@ def edge_mid(el, iedge):
     if el.ccurv[iedge] != "m":
         if iedge == 0:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 0, 0, 1]
+            pos2 = el.pos[:, 0, 0, -1]
         elif iedge == 1:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 0, 1, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, 0, -1, -1]
         elif iedge == 2:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, 0, -1, 0]
         elif iedge == 3:
-            pos1 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
             pos2 = el.pos[:, 0, 0, 0]
         elif iedge == 4:
-            pos1 = el.pos[:, 1, 0, 0]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, -1, 0, 0]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 5:
-            pos1 = el.pos[:, 1, 0, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, -1, 0, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 6:
-            pos1 = el.pos[:, 1, 1, 1]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, -1, -1, -1]
+            pos2 = el.pos[:, -1, -1, 0]
         elif iedge == 7:
-            pos1 = el.pos[:, 1, 1, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos1 = el.pos[:, -1, -1, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 8:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 9:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 10:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 11:
-            pos1 = el.pos[:, 0, 1, 0]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
+            pos2 = el.pos[:, -1, -1, 0]
 
         if el.ccurv[iedge] == "":
             midpoint = (pos1 + pos2) / 2.0
@@ -996,40 +996,40 @@ def edge_circle(el, iedge, midpoint):
 
     if iedge == 0:
         pos1 = el.pos[:, 0, 0, 0]
-        pos2 = el.pos[:, 0, 0, 1]
+        pos2 = el.pos[:, 0, 0, -1]
     elif iedge == 1:
-        pos1 = el.pos[:, 0, 0, 1]
-        pos2 = el.pos[:, 0, 1, 1]
+        pos1 = el.pos[:, 0, 0, -1]
+        pos2 = el.pos[:, 0, -1, -1]
     elif iedge == 2:
-        pos1 = el.pos[:, 0, 1, 1]
-        pos2 = el.pos[:, 0, 1, 0]
+        pos1 = el.pos[:, 0, -1, -1]
+        pos2 = el.pos[:, 0, -1, 0]
     elif iedge == 3:
-        pos1 = el.pos[:, 0, 1, 0]
+        pos1 = el.pos[:, 0, -1, 0]
         pos2 = el.pos[:, 0, 0, 0]
     elif iedge == 4:
-        pos1 = el.pos[:, 1, 0, 0]
-        pos2 = el.pos[:, 1, 0, 1]
+        pos1 = el.pos[:, -1, 0, 0]
+        pos2 = el.pos[:, -1, 0, -1]
     elif iedge == 5:
-        pos1 = el.pos[:, 1, 0, 1]
-        pos2 = el.pos[:, 1, 1, 1]
+        pos1 = el.pos[:, -1, 0, -1]
+        pos2 = el.pos[:, -1, -1, -1]
     elif iedge == 6:
-        pos1 = el.pos[:, 1, 1, 1]
-        pos2 = el.pos[:, 1, 1, 0]
+        pos1 = el.pos[:, -1, -1, -1]
+        pos2 = el.pos[:, -1, -1, 0]
     elif iedge == 7:
-        pos1 = el.pos[:, 1, 1, 0]
-        pos2 = el.pos[:, 1, 0, 0]
+        pos1 = el.pos[:, -1, -1, 0]
+        pos2 = el.pos[:, -1, 0, 0]
     elif iedge == 8:
         pos1 = el.pos[:, 0, 0, 0]
-        pos2 = el.pos[:, 1, 0, 0]
+        pos2 = el.pos[:, -1, 0, 0]
     elif iedge == 9:
-        pos1 = el.pos[:, 0, 0, 1]
-        pos2 = el.pos[:, 1, 0, 1]
+        pos1 = el.pos[:, 0, 0, -1]
+        pos2 = el.pos[:, -1, 0, -1]
     elif iedge == 10:
-        pos1 = el.pos[:, 0, 1, 1]
-        pos2 = el.pos[:, 1, 1, 1]
+        pos1 = el.pos[:, 0, -1, -1]
+        pos2 = el.pos[:, -1, -1, -1]
     elif iedge == 11:
-        pos1 = el.pos[:, 0, 1, 0]
-        pos2 = el.pos[:, 1, 1, 0]
+        pos1 = el.pos[:, 0, -1, 0]
+        pos2 = el.pos[:, -1, -1, 0]
 
     side1 = midpoint - pos1
     side2 = pos2 - midpoint
-- 
2.43.0


From b4ecbf35bf56b8945ae6127415018a1b119d2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 24/27] fix: find the default first layer of gen_circle inside
 the annulus, refuse when none fits

---
 src/pymech/meshtools.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 20e386d..5983afd 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1603,19 +1603,22 @@ def gen_circle(
             l1 = len_new / width * ((1 - eta) * width + eta * total_width)
             return l1 - len_ref
 
-        # iterate using the secant method
-        l0 = 1
-        l1 = 0
-        f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
-        max_iters = 10000
-        iters = 0
-        while abs(f0) > eps and iters < max_iters:
-            f1 = err_stretching(l1, square_spacing)
-            # Update l0 and l1
-            l0, l1 = l1, l1 - (l1 - l0) / (f1 - f0) * f1
-            f0 = f1
-            iters += 1
+        # with several elements, the first one needs to leave room for the others
+        if no > 1 and err_stretching(width, square_spacing) <= 0:
+            raise ValueError(
+                f"no exponential spacing of {no} elements around a square of relative size {s} with {ns} elements per side"
+            )
+
+        # find the length by bisection between 0 and width, where the curvature function is defined
+        l0 = 0
+        l1 = width
+        eps = 1e-15 * width
+        while l1 - l0 > eps and l0 < 0.5 * (l0 + l1) < l1:
+            mid = 0.5 * (l0 + l1)
+            if err_stretching(mid, square_spacing) < 0:
+                l0 = mid
+            else:
+                l1 = mid
 
         # geometric spacing progression factor using that first element size
         alpha = exponential_refinement_parameter(l1, width, no)
-- 
2.43.0


From 1cb8be1516c06f72b42fc96f78649d3e9468e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 25/27] fix: recognise field files in paths with line breaks

---
 src/pymech/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 890642a..c68e634 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -22,7 +22,7 @@ nek_ext_pattern = re.compile(
    (\d{5}|ld)  # 5 digits or the characters "ld"
    \Z          # nothing else
 """,
-    re.VERBOSE,
+    re.VERBOSE | re.DOTALL,
 )
 
 
-- 
2.43.0


From 6c3c58f80dcd472e5f4c7402725b4720238e97be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:31 +0000
Subject: [PATCH 26/27] fix: keep the order of the points of descending axes in
 datasets

---
 src/pymech/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index c68e634..6725a75 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -139,7 +139,8 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         """
         u, indices = np.unique(np.round(mesh, 8), return_index=True)
         mesh_1d = np.reshape(mesh, np.size(mesh))
-        dim = mesh_1d[indices]
+        # keep the points in the order of the mesh, which may be descending
+        dim = mesh_1d[np.sort(indices)]
         return dim
 
     def get_dimensions(self):
-- 
2.43.0


From fbf9facc37361a295a35eda8ca0d14bb71cf2395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 27/27] fix: refuse meshes whose elements are turned against
 the axes of the dataset

---
 src/pymech/dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 6725a75..9320b2e 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -160,10 +160,16 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         ax = self.axes
         elem = self.elem
 
+        x, y, z = (self.meshgrid_to_dim(mesh) for mesh in elem.pos)
+        # the coordinates only describe the mesh if the axes of the element are the axes of the box
+        for mesh, meshgrid in zip(elem.pos, np.meshgrid(z, y, x, indexing="ij")[::-1]):
+            if not np.array_equal(np.round(mesh, 8), np.round(meshgrid, 8)):
+                raise ValueError("the axes of the element are not aligned with x, y, z")
+
         data_vars = {
-            ax[2]: self.meshgrid_to_dim(elem.pos[0]),  # x
-            ax[1]: self.meshgrid_to_dim(elem.pos[1]),  # y
-            ax[0]: self.meshgrid_to_dim(elem.pos[2]),  # z
+            ax[2]: x,
+            ax[1]: y,
+            ax[0]: z,
             "xmesh": xr.Variable(ax, elem.pos[0]),
             "ymesh": xr.Variable(ax, elem.pos[1]),
             "zmesh": xr.Variable(ax, elem.pos[2]),
-- 
2.43.0

