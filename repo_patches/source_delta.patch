From 10e28d3643d2179f66a3aa3c303e8339da8a351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/51] fix: halo width of stencils whose largest velocity is
 negative

Stencil.vmax is documented as the maximal velocity in norm but took the
largest signed component, so a scheme like velocities [0, 2] in 1D got an
empty halo and could not be simulated.
---
 pylbm/stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..f5d7d79 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -716,7 +716,7 @@ class Stencil(list):
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
         tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        return np.max(np.abs(tmp[: self.dim]), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 223c277fa5423302bdf2c2cc0742826b9595b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/51] fix: Stencil.is_symmetric only reported the last
 elementary scheme

---
 pylbm/stencil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index f5d7d79..1f73fcc 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -850,6 +850,7 @@ class Stencil(list):
         """
         check if all the velocities have their symmetric.
         """
+        all_sym = True
         for n in range(self.nstencils):
             is_sym = True
             scheme_velocities = np.array(self.num[n])
@@ -868,7 +869,8 @@ class Stencil(list):
                 log.info("The stencil %d is symmetric", n)
             else:
                 log.warning("The stencil %d is not symmetric", n)
-        return is_sym
+                all_sym = False
+        return all_sym
 
     # pylint: disable=too-many-locals, too-many-branches, too-many-statements
     # pylint: disable=too-complex
-- 
2.43.0


From b2793cfc3a62266d089001d08b65ffb9221dfb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 03/51] fix: conserved moments listed out of order were moved
 to the wrong rows

The swaps that bring the conserved moments to the front used the original
positions, although a previous swap may have moved the moment.
---
 pylbm/scheme.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..2ed802f 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,12 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # current position of each moment: the previous swaps may have moved it
+        rows = list(range(len(self.EQ)))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            ip = rows.index(c)
+            self.permutations.append([ic, ip])
+            rows[ic], rows[ip] = rows[ip], rows[ic]
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0


From 7abf333335e727d416b678bc2b329355f3e33449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 04/51] fix: periodic edges hid the walls at the corners of the
 box

A link leaving the box through a corner between a periodic edge and a wall
was given to the edge reached first, so that no boundary condition was
applied on it when this edge is periodic.
---
 pylbm/domain.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..c2b9292 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -9,6 +9,7 @@ Domain definitions for LBM
 import logging
 import sys
 import copy
+import itertools
 import numpy as np
 import mpi4py.MPI as mpi
 
@@ -479,9 +480,14 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, dist_view, periodic):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            where = dist_view[tuple(indices)] > dvik
+            if periodic:
+                # a periodic edge never hides an edge where a condition is imposed
+                flag = flag_view[tuple(indices)]
+                where = where & ((flag == self.valin) | (flag == -1))
+            ind = np.where(where)
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -491,28 +497,35 @@ class Domain:
 
         s = self.stencil
         uvels = [s.uvx, s.uvy, s.uvz]
-        # loop over the dimension
-        for iuvel, uvel in enumerate(uvels[: self.dim]):
+        # loop over the dimension (the periodic edges at the end)
+        for periodic, (iuvel, uvel) in itertools.product(
+            (False, True), enumerate(uvels[: self.dim])
+        ):
+            # the labels of the two edges that must be treated now
+            edges = [
+                lab if lab != -2 and (lab == -1) == periodic else None
+                for lab in label[2 * iuvel : 2 * iuvel + 2]
+            ]
             # uvel is the list of all the velocities
             # in the x-direction, then y-direction and z-direction
             # loop over the velocities
             for k, vk in np.ndenumerate(uvel):
                 indices = [k] + [slice(None)] * self.dim
-                if vk < 0 and label[2 * iuvel] != -2:
+                if vk < 0 and edges[0] is not None:
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(dvik, iuvel, indices, dist_view, periodic)
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
                             norm_view[tuple(nind + [slice(0, iuvel)])] = 0
                             norm_view[tuple(nind + [iuvel])] = -1
-                elif vk > 0 and label[2 * iuvel + 1] != -2:
+                elif vk > 0 and edges[1] is not None:
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(dvik, iuvel, indices, dist_view, periodic)
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From aa81cff792414ee861a1e4e182618515bebd18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 05/51] fix: Bouzidi anti bounce-back must read the values
 before the update

As for BouzidiBounceBack, the second value read may be a distribution
written by another link of the same method.
---
 pylbm/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..69243a8 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -730,13 +730,13 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
             priority=sorder,
         )
         fload0 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[0][idx, k] for k in range(dim + 1)],
             priority=sorder,
         )
         fload1 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[1][idx, k] for k in range(dim + 1)],
             priority=sorder,
-- 
2.43.0


From 45b8944e672a85176d948c682cb76562d9a7fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 06/51] fix: moments read or transformed by the user were stale

Writing one moment, or applying equilibrium, relaxation, source_term or m2f,
after a time step used moments that were not up to date, and reading the
moments afterwards discarded the result. The moments are now refreshed before
they are transformed and explicit transformations are kept.
---
 pylbm/simulation.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..be12b72 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -197,19 +197,24 @@ class Simulation:
         else:
             return self.dt_
 
+    def _refresh_m(self):
+        """
+        recompute the moments if the distribution functions have changed.
+        """
+        if self._update_m:
+            self.f2m()
+
     @utils.itemproperty
     def m_halo(self, i):
         """
         get the moment i on the whole domain with halo points.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
+        self._refresh_m()
         return self.container.m[i]
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        self._refresh_m()
         self.container.m[i] = value
 
     @utils.itemproperty
@@ -217,10 +222,7 @@ class Simulation:
         """
         get the moment i in the interior domain.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
-
+        self._refresh_m()
         return self.container.m._in(i)  # pylint: disable=protected-access
 
     @utils.itemproperty
@@ -312,6 +314,7 @@ class Simulation:
                 array_to_init[k] = v
 
         if self.init_type == "moments":
+            self._update_m = False
             self.equilibrium()
             self.m2f()
         elif self.init_type == "distributions":
@@ -324,6 +327,7 @@ class Simulation:
         compute the transport phase on distribution functions
         (the array _F is modified)
         """
+        self._update_m = True
         self.algo.call_function("transport", self, **kwargs)
 
     def relaxation(self, **kwargs):
@@ -331,6 +335,7 @@ class Simulation:
         compute the relaxation phase on moments
         (the array _m is modified)
         """
+        self._refresh_m()
         self.algo.call_function("relaxation", self, **kwargs)
 
     def source_term(self, fraction_of_time_step=1.0, **kwargs):
@@ -338,6 +343,7 @@ class Simulation:
         compute the source term phase on moments
         (the array _m is modified)
         """
+        self._refresh_m()
         self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
@@ -346,6 +352,7 @@ class Simulation:
         compute the moments from the distribution functions
         (the array _m is modified)
         """
+        self._update_m = False
         self.algo.call_function("f2m", self, **kwargs)
 
     @monitor
@@ -354,6 +361,8 @@ class Simulation:
         compute the distribution functions from the moments
         (the array _F is modified)
         """
+        if m_user is None:
+            self._refresh_m()
         self.algo.call_function("m2f", self, m_user, f_user, **kwargs)
 
     @monitor
@@ -368,6 +377,8 @@ class Simulation:
         Another moments vector can be set to equilibrium values:
         use directly the method of the class Scheme
         """
+        if m_user is None:
+            self._refresh_m()
         self.algo.call_function("equilibrium", self, m_user, **kwargs)
 
     @monitor
-- 
2.43.0


From aedce3c962e5fb8f19eda2e5a24f48efb0f7948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 07/51] fix: Simulation.transport did not modify the
 distribution functions

With the Cython generator the streamed values were written in a second array
that the following phases never read.
---
 pylbm/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index be12b72..ee7d9e8 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -329,6 +329,7 @@ class Simulation:
         """
         self._update_m = True
         self.algo.call_function("transport", self, **kwargs)
+        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
 
     def relaxation(self, **kwargs):
         """
-- 
2.43.0


From 1cef73c1fe24d46130d5e6410c9f07026aefcb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 08/51] fix: the bounds of the cylinders did not contain them

A cylinder spans center - w to center + w (see point_inside), its bounds only
half of this length: the solid part was truncated in the domain.
---
 pylbm/elements/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..b34a72c 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,7 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        lw = [abs(self.w[k]) for k in range(len(self.w))]
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From 6c64c6c7566b0bf557e50eecd432cbd9a066aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 09/51] fix: Cylinder.distance failed without maximal distance
 (the default)

---
 pylbm/elements/cylinder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index b34a72c..ed6d0fb 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -166,6 +166,8 @@ class Cylinder(Element):
         normal_cyl_z[ind] = 0
 
         # considering the two planes
+        if dmax is None:
+            dmax = np.inf
         dummyf = self.base.point_inside
         if v_cyl[2] == 0:  # to avoid vertical velocities
             decal = 1.0e-16
-- 
2.43.0


From 3666500245b502ec65cc9a1e8b12675469ae657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 10/51] fix: normal vectors of the cylinders

They were neither unit, nor orthogonal to the faces of oblique cylinders, nor
opposite to the direction for rays leaving through the top or the bottom.
---
 pylbm/elements/cylinder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index ed6d0fb..0a57119 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -207,13 +207,18 @@ class Cylinder(Element):
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
         # rewritte the normal vector in the initial frame
+        # (normal vectors are transformed by the transposed inverse matrix)
         normal_vect = np.zeros(normal_cyl.shape)
         for k in range(3):
             normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
+                self.iA[0, k] * normal_cyl_x
+                + self.iA[1, k] * normal_cyl_y
+                + self.iA[2, k] * normal_cyl_z
             )
+        # the sense is opposite to v and the norm is 1
+        normal_vect[normal_vect.dot(np.asarray(v)) > 0] *= -1
+        norm = np.linalg.norm(normal_vect, axis=-1)
+        normal_vect[norm > 0] /= norm[norm > 0][..., np.newaxis]
 
         return alpha, border, normal_vect
 
-- 
2.43.0


From 3a4d53e3fc9d74ff777986d420c2435cbbb947da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 11/51] fix: schemes without velocity in one direction of space

---
 pylbm/domain.py  |  2 +-
 pylbm/storage.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index c2b9292..5081ff9 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -435,7 +435,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..278160f 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -147,7 +147,7 @@ class Array:
     def _in(self, key):
         ind = []
         for vmax in self.vmax:
-            ind.append(slice(vmax, -vmax))
+            ind.append(slice(vmax, -vmax if vmax > 0 else None))
         ind = np.asarray(ind)
 
         if self.gpu_support:
@@ -246,6 +246,11 @@ class Array:
         self.recv_type = []
 
         for d in range(dim):  # pylint: disable=invalid-name
+            if vmax[d] == 0:  # no velocity in this direction: no halo
+                self.send_type.extend([None, None])
+                self.recv_type.extend([None, None])
+                continue
+
             subsizes = [nv] + nspace
             subsizes[d + 1] = vmax[d]
             subsizes = swap(subsizes)
@@ -299,8 +304,9 @@ class Array:
             )
 
         for send, recv in zip(self.send_type, self.recv_type):
-            send.Commit()
-            recv.Commit()
+            if send is not None:
+                send.Commit()
+                recv.Commit()
 
     # pylint: disable=possibly-unused-variable
     @monitor
@@ -332,6 +338,9 @@ class Array:
 
         else:
             for d in range(self.dim):  # pylint: disable=invalid-name
+                if self.vmax[d] == 0:
+                    continue
+
                 req = []
 
                 req.append(
-- 
2.43.0


From ccd10789791ce850b2bca11ddd638a82f58067ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 12/51] fix: elements outside of the box

---
 pylbm/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 5081ff9..e889c0c 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -551,6 +551,8 @@ class Domain:
         nmin = np.maximum(vmax, tmp)
         tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
         nmax = np.minimum(vmax + self.shape_in, tmp)
+        if np.any(nmin >= nmax):  # the element is outside of the box
+            return
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
-- 
2.43.0


From af2532711cf516e5257bc60e9a61abec172965e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 13/51] fix: fluid elements hid the edges of the box

---
 pylbm/domain.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index e889c0c..543f87e 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -295,9 +295,16 @@ class Domain:
 
         # compute the distance and the flag for the primary box
         self.__add_init(self.box_label)
+        # the links which cross the edges of the box:
+        # the fluid elements need them to restore the part they discover
+        if any(elem.isfluid for elem in self.geom.list_elem):
+            self.__box_links = (self.distance.copy(), self.flag.copy(), None)
+            if self.compute_normal:
+                self.__box_links = (*self.__box_links[:2], self.normal.copy())
         for elem in self.geom.list_elem:
             # treat each element of the geometry
             self.__add_elem(elem)
+        self.__box_links = None
 
         self.clean()
         log.info(self.__str__())
@@ -634,6 +641,23 @@ class Domain:
                     for i in range(self.dim):
                         norm_view[k][tuple(ind + [i])] = -normvect[tuple(ind + [i])]
 
+                if elem.isfluid:
+                    # the fluid element stops at the edges of the box
+                    box_dist, box_flag, box_norm = (
+                        a if a is None else a[k][tuple(total_slice[1:])]
+                        for a in self.__box_links
+                    )
+                    ind = np.where(
+                        np.logical_and(
+                            np.logical_and(ind_fluid, box_flag != self.valin),
+                            np.logical_or(alpha <= 0, alpha > box_dist + 1e-10),
+                        )
+                    )
+                    dist_view[k][ind] = box_dist[ind]
+                    flag_view[k][ind] = box_flag[ind]
+                    if self.compute_normal:
+                        norm_view[k][ind] = box_norm[ind]
+
     def clean(self):
         """
         clean the domain when multiple elements are added
-- 
2.43.0


From f2770eb291ee8d571ef2337df1db782ad0986976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 14/51] fix: evaluate coupled source terms with the same
 moments

Several source terms were applied one after the other, the later ones using
the moments already modified by the first ones.
---
 pylbm/algorithm/base.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..d401b4a 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -148,6 +148,12 @@ class BaseAlgorithm:
                     else:
                         rhs = recursive_sub(v, to_subs)
                     self.source_eq.append((lhs, rhs))
+        if len(self.source_eq) > 1:
+            self.source_symb = [
+                sp.Symbol(f"source_{i}", real=True) for i in range(len(self.source_eq))
+            ]
+        else:
+            self.source_symb = [None] * len(self.source_eq)
 
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
@@ -481,18 +487,23 @@ class BaseAlgorithm:
             for i, ind in enumerate(indices):
                 local_dict[indices_str[i]] = ind
 
-        for lhs, rhs in self.source_eq:
+        # the increments of several source terms are computed with the same
+        # moments before any of them is modified
+        increments = []
+        for (lhs, rhs), symb in zip(self.source_eq, self.source_symb):
             lhs_m = lhs.subs(list(zip(self.mv, m)))
             if isinstance(rhs, (float, int)):
                 rhs_m = rhs
             else:
                 rhs_m = parse_expr(rhs, local_dict)
-            dummy = euler(lhs_m, rhs_m)
+            dummy = euler(lhs_m, rhs_m).rhs
             if indices:
-                rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
-            else:
-                rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+                dummy = dummy.subs(ind_to_subs)
+            if symb is not None:
+                increments.append(Eq(symb, dummy - rhs_eq[lhs.i]))
+                dummy = rhs_eq[lhs.i] + symb
+            rhs_eq[lhs.i] = dummy
+        return [*increments, Eq(m, sp.Matrix(rhs_eq))]
 
     def source_term(self):
         """
@@ -501,7 +512,10 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {
+            "code": For(space_index, self.source_term_local(m)),
+            "local_vars": [symb for symb in self.source_symb if symb is not None],
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -571,6 +585,7 @@ class BaseAlgorithm:
 
         if self.rel_vel_symb:
             local_vars.extend(self.rel_vel_symb)
+        local_vars.extend(symb for symb in self.source_symb if symb is not None)
 
         f = self._get_indexed_on_velocities("f", space_index, -self.all_velocities)
         fnew = self._get_indexed_on_range("fnew", space_index)
@@ -588,7 +603,13 @@ class BaseAlgorithm:
 
         if split:
             # code = [loop([*self.coords(), i]) for i in internal]
-            code = [loop([i]) for i in internal]
+            # (the increments of the source terms are used in the same loop)
+            code, body = [], []
+            for i in internal:
+                body.append(i)
+                if i.lhs not in self.source_symb:
+                    code.append(loop(body))
+                    body = []
         else:
             # code = loop([*self.coords(), *internal])
             code = loop([*internal])
-- 
2.43.0


From 13b72dd0ddffebfa88858bb937e61b02275150e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 15/51] fix: storage orders which permute the space directions

The indices sorted for the loops were taken for the indices of the directions
and sorted again.
---
 pylbm/algorithm/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index d401b4a..9ffccac 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -194,6 +195,14 @@ class BaseAlgorithm:
             priority=self.sorder[1:],
         )
 
+    def _get_axis_idx(self, space_index):
+        """
+        Return the list of SymPy Idx in the order of the space directions
+        (and not in the order of the loops defined by sorder).
+        """
+        rank = np.argsort(np.argsort(self.sorder[1:]))
+        return [space_index[i] for i in rank]
+
     def _get_indexed_on_range(self, name, space_index):
         """
         Return a SymPy matrix of indexed objects
@@ -218,7 +227,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_axis_idx(space_index),
             velocities_index=range(self.ns),
             priority=self.sorder,
         )
@@ -249,7 +258,7 @@ class BaseAlgorithm:
         return indexed(
             name,
             [self.ns, nx, ny, nz],
-            [nv] + space_index,
+            [nv] + self._get_axis_idx(space_index),
             velocities=velocities,
             priority=self.sorder,
         )
-- 
2.43.0


From 1bff31b4d6c85d1973dc262f7b824f59432b6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 16/51] fix: relative velocity with BaseAlgorithm

The conserved moments were not expressed in the moving frame before m2f (they
are in PullAlgorithm).
---
 pylbm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 9ffccac..9bf7665 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -565,6 +565,9 @@ class BaseAlgorithm:
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
+        if with_rel_velocity:
+            code.append(self.restore_conserved_moments(m, fnew))
+
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-- 
2.43.0


From 4c500e3aa3fd550e404444f2949f8b9efac7b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 17/51] fix: split loops with local moments did not compile

---
 pylbm/algorithm/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 9bf7665..cceaf1d 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -584,13 +584,10 @@ class BaseAlgorithm:
         split = self.settings.get("split", False)
 
         space_index = self._get_space_idx_inner()
-        if m_local:
-            if split:
-                m = self._get_indexed_on_range("m", space_index)
-                local_vars = [m[0]]
-            else:
-                m = sp.MatrixSymbol("m", self.ns, 1)
-                local_vars = [m]
+        # the split loops exchange the moments: they can't be local
+        if m_local and not split:
+            m = sp.MatrixSymbol("m", self.ns, 1)
+            local_vars = [m]
         else:
             m = self._get_indexed_on_range("m", space_index)
             local_vars = []
-- 
2.43.0


From 4b6b38eba31bf6847cec2880441739b203e1aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 18/51] fix: split loops lost the relative velocity

---
 pylbm/algorithm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index cceaf1d..6fde27f 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -159,7 +159,10 @@ class BaseAlgorithm:
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
-        self.settings = settings if settings else {}
+        self.settings = dict(settings) if settings else {}
+        if self.rel_vel_symb:
+            # the relative velocity is only known in the loop which computes it
+            self.settings["split"] = False
 
     def _get_space_idx_full(self):
         """
-- 
2.43.0


From ca72675c31f9b3d9bae13666907183ad3faba1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 19/51] fix: record the links through elements in the halo
 cells at process interfaces

---
 pylbm/domain.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 543f87e..6ef50dc 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -473,8 +473,15 @@ class Domain:
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
-        in_view = self.in_or_out[tuple(phys_domain)]
-        in_view[:] = self.valin
+        # the halo cells beyond an interface belong to the other processes
+        self._known = tuple(
+            slice(
+                0 if label[2 * i] == -2 else h,
+                -h if h > 0 and label[2 * i + 1] != -2 else None,
+            )
+            for i, h in enumerate(halo_size)
+        )
+        self.in_or_out[self._known] = self.valin
 
         # first index: the velocity index
         # following indices: the physical points
@@ -550,6 +557,15 @@ class Domain:
         FIX: this function works only for a 2D problem.
              Need to be improved and implement for the 3D.
         """
+        if -2 in self.box_label:
+            # the cells of the other processes which are in the halo
+            tcoords = (self.coords_halo[d][s] for d, s in enumerate(self._known))
+            grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+            ind = elem.point_inside(grid)
+            self.in_or_out[self._known][ind] = (
+                self.valin if elem.isfluid else self.valout
+            )
+
         # compute the box around the element adding vmax safety points
         vmax = self.stencil.vmax
         elem_bl, elem_ur = elem.get_bounds()
-- 
2.43.0


From 36818fa2b0f4af8cedcd126f86830bc2e73b2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 20/51] fix: print Piecewise, comparisons, Min, Max and
 symbolic exponents as valid generated code

---
 pylbm/generator/printing/cython.py | 64 ++++++++++++------------------
 pylbm/generator/printing/pycode.py | 34 ++++++----------
 2 files changed, 39 insertions(+), 59 deletions(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 984005e..7df5c26 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -74,6 +74,7 @@ class CythonCodePrinter(CodePrinter):
 
     printmethod = "_cythoncode"
     language = "Cython"
+    _operators = {"and": "and", "or": "or", "not": "not "}
 
     _default_settings = {
         "order": None,
@@ -198,7 +199,7 @@ class CythonCodePrinter(CodePrinter):
             return "1.0/%s" % (self.parenthesize(expr.base, PREC))
         elif expr.exp == 0.5:
             return "sqrt(%s)" % self._print(expr.base)
-        elif expr.exp > 0 and expr.exp.is_integer:
+        elif expr.exp.is_Integer and expr.exp > 0:
             line = "%s" % (self.parenthesize(expr.base, PREC))
             for i in range(1, expr.exp):
                 line += "*" + "%s" % (self.parenthesize(expr.base, PREC))
@@ -254,30 +255,29 @@ class CythonCodePrinter(CodePrinter):
                 "expression may not evaluate to anything under "
                 "some condition."
             )
-        lines = []
-        if expr.has(Assignment):
-            for i, (e, c) in enumerate(expr.args):
-                if i == 0:
-                    lines.append("if (%s):" % self._print(c))
-                elif i == len(expr.args) - 1 and c:
-                    lines.append("else:")
-                else:
-                    lines.append("else if (%s):" % self._print(c))
-                code0 = self._print(e)
-                lines.append(code0)
-                lines.append("}")
-            return "\n".join(lines)
-        else:
-            # The piecewise was used in an expression, need to do inline
-            # operators. This has the downside that inline operators will
-            # not work for statements that span multiple lines (Matrix or
-            # Indexed expressions).
-            ecpairs = [
-                "((%s) ? (\n%s\n)\n" % (self._print(c), self._print(e))
-                for e, c in expr.args[:-1]
-            ]
-            last_line = ": (\n%s\n)" % self._print(expr.args[-1].expr)
-            return ": ".join(ecpairs) + last_line + " ".join([")" * len(ecpairs)])
+        result = self._print(expr.args[-1].expr)
+        for e, c in reversed(expr.args[:-1]):
+            result = "(%s) if (%s) else (%s)" % (self._print(e), self._print(c), result)
+        return "(%s)" % result
+
+    def _print_Min(self, expr):
+        result = self._print(expr.args[-1])
+        for e in reversed(expr.args[:-1]):
+            result = "fmin(%s, %s)" % (self._print(e), result)
+        return result
+
+    def _print_Max(self, expr):
+        result = self._print(expr.args[-1])
+        for e in reversed(expr.args[:-1]):
+            result = "fmax(%s, %s)" % (self._print(e), result)
+        return result
+
+    def _print_Relational(self, expr):
+        return "(%s) %s (%s)" % (
+            self._print(expr.lhs),
+            expr.rel_op,
+            self._print(expr.rhs),
+        )
 
     def _print_ITE(self, expr):
         from sympy.functions import Piecewise
@@ -314,25 +314,13 @@ class CythonCodePrinter(CodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
 
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index e3374c1..03bf9b2 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -940,16 +940,20 @@ class NumPyPrinter(PythonCodePrinter):
         return self._hprint_Pow(expr, rational=rational, sqrt="numpy.sqrt")
 
     def _print_Min(self, expr):
-        return "{0}(({1}), axis=0)".format(
-            self._module_format("numpy.amin"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        result = self._print(expr.args[-1])
+        for e in reversed(expr.args[:-1]):
+            result = "{0}({1}, {2})".format(
+                self._module_format("numpy.minimum"), self._print(e), result
+            )
+        return result
 
     def _print_Max(self, expr):
-        return "{0}(({1}), axis=0)".format(
-            self._module_format("numpy.amax"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        result = self._print(expr.args[-1])
+        for e in reversed(expr.args[:-1]):
+            result = "{0}({1}, {2})".format(
+                self._module_format("numpy.maximum"), self._print(e), result
+            )
+        return result
 
     def _print_arg(self, expr):
         return "%s(%s)" % (
@@ -1095,7 +1099,6 @@ class NumPyPrinter(PythonCodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
         from sympy.codegen.ast import Assignment
@@ -1103,18 +1106,7 @@ class NumPyPrinter(PythonCodePrinter):
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
-- 
2.43.0


From 915caecfedd2d080f188e350c73e83b57ce78ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 21/51] fix: relaxation of moments with rates depending on the
 moments

---
 pylbm/algorithm/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 6fde27f..2769180 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -441,7 +441,9 @@ class BaseAlgorithm:
         # Ensure eq is a SymbolicVector for element-wise multiplication with self.s
         if not isinstance(eq, SymbolicVector):
             eq = SymbolicVector(eq)
-        relax = (1 - self.s) * m + self.s * eq
+        # the relaxation parameters can also depend on the moments
+        s = SymbolicVector(self.s.subs(list(zip(self.mv, m))))
+        relax = (1 - s) * m + s * eq
         alltogether(relax)
         return Eq(m, relax)
 
-- 
2.43.0


From b23d2935bc3c184aceb408639b494790b456631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 22/51] fix: source terms with a conserved moment named m

---
 pylbm/algorithm/base.py      | 4 ++--
 pylbm/algorithm/transform.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 2769180..c294199 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -475,7 +475,7 @@ class BaseAlgorithm:
         indices = []
         if m_local and not split:
             local_dict = {
-                "m": m,
+                "_moments": m,
                 "consm": self.consm,
                 "sorder": None,
                 "default_index": [0],
@@ -493,7 +493,7 @@ class BaseAlgorithm:
                     ]
                 )
             local_dict = {
-                "m": m[0].base,
+                "_moments": m[0].base,
                 "consm": self.consm,
                 "sorder": self.sorder,
                 "default_index": indices,
diff --git a/pylbm/algorithm/transform.py b/pylbm/algorithm/transform.py
index c6a101e..980f06e 100644
--- a/pylbm/algorithm/transform.py
+++ b/pylbm/algorithm/transform.py
@@ -33,7 +33,7 @@ def transform_expr(tokens, local_dict, global_dict):
         nextTok = tokens[l + 1]
         if token[0] == NAME and token[1] in local_dict["consm"].keys():
             if nextTok[0] == OP and nextTok[1] == "[":
-                result.append((NAME, "m"))
+                result.append((NAME, "_moments"))
                 result.append(nextTok)
                 stacks = [[(NUMBER, "%s" % local_dict["consm"][token[1]])]]
                 stacks.append([])
@@ -49,7 +49,7 @@ def transform_expr(tokens, local_dict, global_dict):
                 result.extend(reorder(stacks, local_dict, global_dict))
                 result.append(token)
             else:
-                result.append((NAME, "m"))
+                result.append((NAME, "_moments"))
                 result.append((OP, "["))
                 default_index = [local_dict["consm"][token[1]]] + local_dict[
                     "default_index"
-- 
2.43.0


From 7d030b4ce54b8c54d1299a4ccf56235967a742f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 23/51] fix: HDF5 grid of sub-domains with different sizes

---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..12cf5b3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-- 
2.43.0


From 434a66148ec36a81a009bd7c65b6f201f03eb465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 24/51] fix: HDF5 grid of sub-domains with one cell in a
 direction

---
 pylbm/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 12cf5b3..cf2238c 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -77,15 +77,15 @@ class H5File:
             log.warning("h5 grid redefined.")
 
         self.origin = [x[0]]
-        self.dx = [x[1] - x[0]]
+        self.dx = [x[1] - x[0] if len(x) > 1 else 0.0]
         coords = [x]
         if y is not None:
             self.origin.append(y[0])
-            self.dx.append(y[1] - y[0])
+            self.dx.append(y[1] - y[0] if len(y) > 1 else 0.0)
             coords.append(y)
         if z is not None:
             self.origin.append(z[0])
-            self.dx.append(z[1] - z[0])
+            self.dx.append(z[1] - z[0] if len(z) > 1 else 0.0)
             coords.append(z)
 
         self.dim = len(self.origin)
-- 
2.43.0


From 1d50ce131c6d2d27db6ad7d569720f081e28b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 25/51] fix: HDF5 files in the default path and in nested
 directories

---
 pylbm/hdf5.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index cf2238c..96957bc 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
-                os.mkdir(path)
+            if path and not os.path.exists(path):
+                os.makedirs(path)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -254,7 +254,7 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(os.path.join(self.path, self.filename + ".xdmf"), "w")
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From 62ee91b69adcc2ca78b233bc97c1adbe7140f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 26/51] fix: HDF5 vector fields which are not in double
 precision

---
 pylbm/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 96957bc..a524d85 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -245,7 +245,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From 7022d7829279663233b7b43f1c6761aaaabe834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 27/51] fix: shapes of the mesh and of the vectors in the XDMF
 description

---
 pylbm/hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index a524d85..75d7111 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -273,7 +273,7 @@ class H5File:
                     <Topology TopologyType="2DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVY">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             else:
@@ -283,7 +283,7 @@ class H5File:
                     <Topology TopologyType="3DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVYVZ">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             for i in range(self.dim):
@@ -316,12 +316,12 @@ class H5File:
                 self.xdmf_file.write(
                     """
                 <Attribute Name="{0}" AttributeType="Vector" Center="Node">
-                <DataItem Format="HDF" Dimensions="{1} {2}">
-                {3}
+                <DataItem Format="HDF" Dimensions="{1} 3">
+                {2}
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), v
                     )
                 )
 
-- 
2.43.0


From 4ec76b86d31331956f4c04ed9dc6f1c04304271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 28/51] fix: root location of polynomials with roots on the
 unit circle

---
 pylbm/analysis/stability.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..94a6823 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -383,16 +383,23 @@ def operator_deriv(p):
     return [k * p[k] for k in range(1, d + 1)]
 
 
+def normalize(p):
+    """
+    Divide the polynomial by its largest coefficient
+    (the coefficients decrease along the recursions)
+    """
+    pmax = max(abs(pk) for pk in p)
+    return [pk / pmax for pk in p] if pmax > 0 else p
+
+
 def is_S(p):
     """
     recursive algorithm
     is the polynomial p a Schur polynomial
     """
-    if len(p) == 2:
-        return abs(p[0]) < abs(p[1])
-    if abs(p[0]) < abs(p[-1]):
-        pcirc = operator_circ(p)
-        return is_S(pcirc)
+    p = normalize(p)
+    if abs(p[0]) < abs(p[-1]) - TPV:
+        return len(p) == 2 or is_S(operator_circ(p))
     return False
 
 
@@ -401,14 +408,16 @@ def is_svN(p):
     recursive algorithm
     is the polynomial p a simple von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_svN(pcirc)
+    # first: |p_0| and |p_d| are then equal up to the rounding errors
     if all([abs(pcirck) < TPV for pcirck in pcirc]):
         pder = operator_deriv(p)
         return is_S(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_svN(pcirc)
     return False
 
 
@@ -417,14 +426,15 @@ def is_vN(p):
     recursive algorithm
     is the polynomial p a von Neumamn polynomial
     """
+    p = normalize(p)
     if len(p) == 2:
         return abs(p[0]) <= abs(p[1]) + TPV
     pcirc = operator_circ(p)
-    if abs(p[0]) < abs(p[-1]):
-        return is_vN(pcirc)
     if all([abs(pcirck) < TPV for pcirck in pcirc]):
         pder = operator_deriv(p)
         return is_vN(pder)
+    if abs(p[0]) < abs(p[-1]):
+        return is_vN(pcirc)
     return False
 
 
-- 
2.43.0


From 3dcea1eebcc7944f0b8cb1ffb045db61f31932f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 29/51] fix: stability of schemes with a relative velocity and
 several conserved moments

---
 pylbm/analysis/stability.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 94a6823..853655c 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -47,15 +47,17 @@ class Stability:
         self.is_stable_l2 = True
         self.verbose = verbose
 
-        if scheme.rel_vel is None:
-            jacobian = scheme.EQ.jacobian(self.consm)
-        else:
-            jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
-        relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
-        relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
-
+        # linearisation of the equilibrium with respect to all the moments
+        jacobian = sp.zeros(self.nvtot)
+        jacobian[:, : len(self.consm)] = scheme.EQ.jacobian(self.consm)
+        relax_mat_m = sp.diag(*scheme.s)
         if scheme.rel_vel is not None:
             relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
+        relax_mat_m = sp.eye(self.nvtot) + relax_mat_m * (
+            jacobian - sp.eye(self.nvtot)
+        )
+
+        if scheme.rel_vel is not None:
             relax_mat_m = relax_mat_m.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
-- 
2.43.0


From 383a6c7a039de62961bcb0c3d801053409a7c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 30/51] fix: stability analysis of three-dimensional schemes

---
 pylbm/analysis/stability.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 853655c..52fdff0 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -83,11 +83,10 @@ class Stability:
         if self.dim == 1:
             v_xi = np.linspace(0, 2 * np.pi, n_wv, endpoint=False)
             v_xi = v_xi[np.newaxis, :]
-        elif self.dim == 2:
-            n_wv_0 = int(np.sqrt(n_wv))
+        else:
+            n_wv_0 = int(round(n_wv ** (1 / self.dim), 10))
             v_xi_0 = np.linspace(0, 2 * np.pi, n_wv_0, endpoint=False)
-            v_xi_x, v_xi_y = np.meshgrid(v_xi_0, v_xi_0)
-            v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten()])
+            v_xi = np.array([v.flatten() for v in np.meshgrid(*[v_xi_0] * self.dim)])
             n_wv = v_xi.shape[1]  # pylint: disable=unsubscriptable-object
         eigs = np.empty((n_wv, self.nvtot), dtype="complex")
         test_cohn_schur = np.empty((n_wv, 2), dtype=bool)
@@ -167,7 +166,7 @@ class Stability:
         fig = viewer_app.Fig(nrows=1, ncols=2, figsize=(12.8, 6.4))  # , figsize=(12, 6))
         if self.dim == 1:
             color = "orange"
-        elif self.dim == 2:
+        else:
             color = 0.5 + 0.5 / np.pi * np.arctan2(v_xi[0, :], v_xi[1, :])
             color = np.repeat(color[np.newaxis, :], self.nvtot, axis=0).flatten()
 
-- 
2.43.0


From 3776e88ab5e37d3d13a1169678238c491419d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 31/51] fix: second order of the equivalent equations with a
 relative velocity

---
 pylbm/analysis/equivalent_equation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylbm/analysis/equivalent_equation.py b/pylbm/analysis/equivalent_equation.py
index 21fce74..313713b 100644
--- a/pylbm/analysis/equivalent_equation.py
+++ b/pylbm/analysis/equivalent_equation.py
@@ -10,7 +10,7 @@ Symbolic computation of equivalent equations
 
 # pylint: disable=invalid-name
 import sympy as sp
-from ..symbolic import alltogether
+from ..symbolic import alltogether, rel_ux, rel_uy, rel_uz
 
 
 class EquivalentEquation:
@@ -50,7 +50,13 @@ class EquivalentEquation:
 
         phi1 = sp.zeros(s.shape[0], 1)  # pylint: disable=unsubscriptable-object
         inv_s = [1 / v for v in s]
-        sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2
+        inv_relax = sp.diag(*inv_s)
+        if scheme.rel_vel is not None:
+            # the relaxation is diagonal in the frame of the relative velocity
+            inv_relax = (
+                scheme.Tmu[nconsm:, nconsm:] * inv_relax * scheme.Tu[nconsm:, nconsm:]
+            ).subs(list(zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)))
+        sigma = inv_relax - sp.eye(len(s)) / 2
         gamma_1 = sp.zeros(nconsm, 1)
 
         self.coeff_order1 = []
-- 
2.43.0


From 37e219e07186a6e1442fc39340127112bf4e347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:41 +0000
Subject: [PATCH 32/51] fix: refuse boxes without x, boundary conditions
 without method, and report empty lists

---
 pylbm/validator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 4cf2b2e..212bdc4 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -155,7 +155,7 @@ def rec_dict(dico, errors, indent=0):
         s += prompt(indent)
         s += "%s: " % key
         indent += 4
-        if isinstance(value, list) and isinstance(value[0], dict):
+        if isinstance(value, list) and value and isinstance(value[0], dict):
             s += "\n"
             s += rec_list(value, new_errors, indent)
         elif isinstance(value, dict):
@@ -239,6 +239,7 @@ def validate(dico, name):
             "type": "dict",
             "keysrules": {"type": "integer"},
             "valuesrules": {"isboundary": True},
+            "required": True,
         },
         "value": {
             "anyof": [
@@ -261,7 +262,8 @@ def validate(dico, name):
                           'schema': {'x': {'type': 'list',
                                            'items': [{'type': 'number'},
                                                      {'type': 'number'}
-                                                    ]
+                                                    ],
+                                           'required': True
                                           },
                                      'y': {'type': 'list',
                                            'items': [{'type': 'number'},
@@ -271,7 +273,8 @@ def validate(dico, name):
                                      'z': {'type': 'list',
                                            'items': [{'type': 'number'},
                                                      {'type': 'number'}
-                                                    ]
+                                                    ],
+                                           'dependencies': 'y'
                                           },
                                      'label': {'anyof': [{'type': 'integer'},
                                                          {'type' : 'list',
@@ -319,7 +322,8 @@ def validate(dico, name):
                             },
                   'boundary_conditions': {'type': 'dict',
                                           'keysrules': {'type': 'integer'},
-                                          'valuesrules': {'schema': boundary},
+                                          'valuesrules': {'type': 'dict',
+                                                          'schema': boundary},
                                          },
                   'relative_velocity': {'type': 'list',
                                         'schema': {'anyof_type': ['number', 'expr']}
-- 
2.43.0


From c06fef75bc0c247a145dbfbbaf18b5d2ad55ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 33/51] fix: refuse descriptions whose labels, relaxation
 parameters, equilibria or relative velocity have a wrong size

---
 pylbm/geometry.py |  2 ++
 pylbm/scheme.py   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/pylbm/geometry.py b/pylbm/geometry.py
index 7069a08..2fdb8a1 100644
--- a/pylbm/geometry.py
+++ b/pylbm/geometry.py
@@ -9,6 +9,7 @@ Geometry module
 """
 
 import logging
+import sys
 
 # from textwrap import dedent
 # from six import string_types
@@ -125,6 +126,7 @@ class Geometry:
                 err_msg = "The list label of the box has the wrong size "
                 err_msg += "(must be 2*dim)"
                 log.error(err_msg)
+                sys.exit()
             self.box_label = dummylab
         else:
             log.error("The labels of the box must be an integer or a list")
diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 2ed802f..4df803f 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -147,6 +147,9 @@ class Scheme:
 
         # set relative velocity
         self.rel_vel = dico.get("relative_velocity", None)
+        if self.rel_vel is not None and len(self.rel_vel) != self.dim:
+            log.error("the size of the relative velocity is not the dimension of the scheme")
+            sys.exit()
 
         # fix the variables of time and space
         self.symb_t, self.symb_coord = self._get_space_and_time_symbolic()
@@ -212,6 +215,12 @@ class Scheme:
                 )
                 sys.exit()
             if meq:
+                if len(meq) != self.stencil.nv[i]:
+                    log.error(
+                        "the size of the equilibrium in the scheme %d is not the size of the stencil",
+                        i,
+                    )
+                    sys.exit()
                 eq.append(meq)
             if feq:
                 sli = slice(self.stencil.nv_ptr[i], self.stencil.nv_ptr[i + 1])
@@ -258,6 +267,7 @@ class Scheme:
                         )
                     )
                 )
+                sys.exit()
 
     def __str__(self):
         from .utils import header_string
-- 
2.43.0


From 2679ec301c10fb4e48b98229e96c2866a651b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 34/51] fix: take initial and boundary values given as
 [function, arguments]

---
 pylbm/boundary.py   | 4 ++--
 pylbm/simulation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 69243a8..53f97d1 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -280,9 +280,9 @@ class BoundaryMethod:
 
                 args = coords
                 func = value
-                if isinstance(value, tuple):
+                if isinstance(value, (tuple, list)):
                     func = value[0]
-                    args += value[1]
+                    args += tuple(value[1] or ())
 
                 if self.time_bc[key]:
                     func(f, m, 0, *args)
diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index ee7d9e8..5edadaa 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -302,9 +302,9 @@ class Simulation:
             return
 
         for k, v in self.init_data.items():
-            if isinstance(v, tuple):
+            if isinstance(v, (tuple, list)):
                 f = v[0]
-                extraargs = v[1] if len(v) == 2 else ()
+                extraargs = tuple(v[1] or ()) if len(v) == 2 else ()
                 fargs = tuple(coords) + extraargs
                 array_to_init[k] = f(*fargs)
             elif isinstance(v, types.FunctionType):
-- 
2.43.0


From 1a3d4847756eca81a5d221b69665ca50d9e5e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 35/51] fix: monitoring counts calls that raise and recursive
 calls, and records nothing when off

---
 pylbm/monitoring.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pylbm/monitoring.py b/pylbm/monitoring.py
index 4ddc669..e08f572 100644
--- a/pylbm/monitoring.py
+++ b/pylbm/monitoring.py
@@ -31,6 +31,7 @@ class Node:
         self.parent = parent
         self.name = name
         self.sons = []
+        self.start = 0
         self.time = 0
 
     def add_node(self, name):
@@ -39,6 +40,7 @@ class Node:
 
     def del_node(self):
         self.sons.clear()
+        self.parent.sons.remove(self)
         return self.parent
 
     def add_time(self, t):
@@ -71,19 +73,18 @@ class Monitoring:
     def start_timing(self, f):
         info = self.information(f)
         self.tree = self.tree.add_node(info)
-        self.func[info].total_time.append(mpi.Wtime())
-        self.func[info].self_time.append(0)
+        self.tree.start = mpi.Wtime()
 
     def stop_timing(self, f):
         info = self.information(f)
-        t = mpi.Wtime()
-        self.func[info].total_time[-1] = t - self.func[info].total_time[-1]
-        self.tree.add_time(self.func[info].total_time[-1])
-        self.func[info].self_time[-1] = self.func[info].total_time[-1] - self.tree.time
+        t = mpi.Wtime() - self.tree.start
+        self.func[info].total_time.append(t)
+        self.func[info].self_time.append(t - self.tree.time)
+        self.tree.add_time(t)
         self.tree = self.tree.del_node()
 
     def print(self):
-        if mpi.COMM_WORLD.rank == 0:
+        if mpi.COMM_WORLD.rank == 0 and self.func:
             titles = [
                 "%",
                 "module name",
@@ -115,17 +116,22 @@ class Monitoring:
 
 Monitor = Monitoring()  # pylint: disable=invalid-name
 
-if options().monitoring:
+ENABLED = options().monitoring
+
+if ENABLED:
     atexit.register(Monitor.print)
 
 
 def monitor(f):
     @wraps(f)
     def wrapper(*args, **kwds):
+        if not ENABLED:
+            return f(*args, **kwds)
         Monitor.register(f)
         Monitor.start_timing(f)
-        output = f(*args, **kwds)
-        Monitor.stop_timing(f)
-        return output
+        try:
+            return f(*args, **kwds)
+        finally:
+            Monitor.stop_timing(f)
 
     return wrapper
-- 
2.43.0


From 3059517204f52dd3943b83da651ea3f2e71c5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 36/51] fix: import generated code from a copy, so that
 simulations sharing a directory do not share code

---
 pylbm/generator/autowrap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 3b7225d..0cbf012 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -1,6 +1,7 @@
 # FIXME: make pylint happy !
 # pylint: disable=all
 
+import glob
 import sys
 import os
 import shutil
@@ -53,18 +54,24 @@ class CodeWrapper(object):
         if not os.access(self.workdir, os.F_OK):
             os.mkdir(self.workdir)
 
+        # the module is imported from a copy of its file: the same file can be
+        # rewritten for another simulation and python would reuse the loaded one
+        importdir = tempfile.mkdtemp("_sympy_import")
         try:
-            sys.path.append(self.workdir)
+            sys.path.insert(0, importdir)
             if self.generate:
                 self._prepare_files(routines)
                 self._generate_code(routines)
                 self._process_files(routines)
             if self.module_name in sys.modules:
                 sys.modules.pop(self.module_name)
+            for f in glob.glob(glob.escape(self.full_path) + ".*"):
+                shutil.copy2(f, importdir)
             importlib.invalidate_caches()
             mod = importlib.import_module(self.module_name)
         finally:
-            sys.path.remove(self.workdir)
+            sys.path.remove(importdir)
+            shutil.rmtree(importdir, ignore_errors=True)
             self._module_counter += 1
             if not self.filepath:
                 try:
-- 
2.43.0


From 839dc2d48b19dfd7f081f0d0ff58f0e608b7a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 37/51] fix: extra parameters of the generated functions are
 taken whatever their name and their value

---
 pylbm/algorithm/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index c294199..c67dc46 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -696,10 +696,10 @@ class BaseAlgorithm:
 
         local = locals()
         extra = {str(k): v for k, v in simulation.extra_parameters.items()}
-        if extra.get("lambda", None):
+        if "lambda" in extra:
             extra["lambda_"] = extra["lambda"]
         local.update(extra)
-        return locals()
+        return local
 
     def call_function(
         self, function_name, simulation, m_user=None, f_user=None, **kwargs
-- 
2.43.0


From 0909814fa8588eaf27401842ed48c47e2aacf979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 38/51] fix: relative velocities with non-null relaxation
 parameters of the conserved moments

---
 pylbm/algorithm/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index c67dc46..d09a607 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -443,6 +443,11 @@ class BaseAlgorithm:
             eq = SymbolicVector(eq)
         # the relaxation parameters can also depend on the moments
         s = SymbolicVector(self.s.subs(list(zip(self.mv, m))))
+        if with_rel_velocity:
+            # the conserved moments are at equilibrium and they must be kept
+            # in the fixed frame: the other equilibria depend on them
+            for i in range(len(self.consm)):
+                s[i] = 0
         relax = (1 - s) * m + s * eq
         alltogether(relax)
         return Eq(m, relax)
-- 
2.43.0


From 27eac972a471f81a99cbd47e9751d50887881924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 39/51] fix: the drawing of a stencil writes the numbers of the
 velocities drawn

---
 pylbm/stencil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 1f73fcc..50efdac 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -913,8 +913,10 @@ class Stencil(list):
 
         pos = []
         title = []
+        num = []
         if unique_velocities:
             pos.append(populate(self.uvx, self.uvy, self.uvz))
+            num.append(self.unum)
             title.append("Stencil of the unique velocities")
         else:
             if k is None:
@@ -925,6 +927,7 @@ class Stencil(list):
                 schemes2plot = k
             for i in schemes2plot:
                 pos.append(populate(self.vx[i], self.vy[i], self.vz[i]))
+                num.append(self.num[i])
                 title.append("Stencil {0:d}".format(i))
 
         views = viewer_mod.Fig(len(pos), 1, dim=self.dim, figsize=(5, 5 * len(pos)))
@@ -953,7 +956,7 @@ class Stencil(list):
 
             if view_label:
                 view.text(
-                    list(map(str, self.num[i])),
+                    list(map(str, num[i])),
                     posi,
                     fontsize=12,
                     color="navy",
-- 
2.43.0


From ed894107a72ea5c15d8f5e8f8476c04c13d7f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 40/51] fix: the drawing of an ellipse whose first vector is
 the shortest

---
 pylbm/elements/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/ellipse.py b/pylbm/elements/ellipse.py
index 809b0c3..7c549b2 100644
--- a/pylbm/elements/ellipse.py
+++ b/pylbm/elements/ellipse.py
@@ -176,7 +176,7 @@ class Ellipse(Element):
             r1, r2 = nv1, nv2
             v = self.v1
         else:
-            r1, r2 = nv2, nv2
+            r1, r2 = nv2, nv1
             v = self.v2
         if v[0] == 0:
             theta = 0.5 * np.pi
-- 
2.43.0


From 8ecd063d0e460fc021f27bfaaeb6558d115f9767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 41/51] fix: the faces of a cylinder are drawn with the colours
 of their labels

---
 pylbm/elements/base.py     | 4 ++--
 pylbm/elements/cylinder.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/base.py b/pylbm/elements/base.py
index 63dafc0..b9da5da 100644
--- a/pylbm/elements/base.py
+++ b/pylbm/elements/base.py
@@ -468,7 +468,7 @@ class BaseTriangle:
         p = np.asarray([[0, 0], [1, 0], [0, 1], [0, 0], [1, 0]]).T
         lx_b = []
         ly_b = []
-        for k in range(3):
+        for k in (0, 2, 1):  # the sides in the order of the labels
             lx_b.append(p[0, k : k + 2])
             ly_b.append(p[1, k : k + 2])
         lx_b.append(p[0, :4])
@@ -592,7 +592,7 @@ class BaseParallelogram:
         p = np.asarray([[0, 0], [1, 0], [1, 1], [0, 1], [0, 0], [1, 0]]).T
         lx_b = []
         ly_b = []
-        for k in range(4):
+        for k in (0, 3, 1, 2):  # the sides in the order of the labels
             lx_b.append(p[0, k : k + 2])
             ly_b.append(p[1, k : k + 2])
         lx_b.append(p[0, :5])
diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 0a57119..fe03e79 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -269,7 +269,7 @@ class Cylinder(Element):
         X = c[0] + self.A[0, 0] * Xbase + self.A[0, 1] * Ybase + self.A[0, 2] * Zbase
         Y = c[1] + self.A[1, 0] * Xbase + self.A[1, 1] * Ybase + self.A[1, 2] * Zbase
         Z = c[2] + self.A[2, 0] * Xbase + self.A[2, 1] * Ybase + self.A[2, 2] * Zbase
-        viewer.surface(X, Y, Z, color=color[-2], alpha=alpha)
+        viewer.surface(X, Y, Z, color=color[-1], alpha=alpha)
         X = c[0] + self.A[0, 0] * Xbase + self.A[0, 1] * Ybase - self.A[0, 2] * Zbase
         Y = c[1] + self.A[1, 0] * Xbase + self.A[1, 1] * Ybase - self.A[1, 2] * Zbase
         Z = c[2] + self.A[2, 0] * Xbase + self.A[2, 1] * Ybase - self.A[2, 2] * Zbase
-- 
2.43.0


From c45c1fbb245723e0f316022408144b5ed537d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 42/51] fix: the drawing of a geometry with labels greater than
 9

---
 pylbm/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/geometry.py b/pylbm/geometry.py
index 2fdb8a1..3af7cad 100644
--- a/pylbm/geometry.py
+++ b/pylbm/geometry.py
@@ -310,7 +310,8 @@ class Geometry:
                     alpha_ = alpha
                 else:
                     color = [
-                        couleurs[elem.label[k]] for k in range(elem.number_of_bounds)
+                        couleurs[elem.label[k] % 10]
+                        for k in range(elem.number_of_bounds)
                     ]
                     alpha_ = alpha
                 elem.visualize(view, color, viewlabel, alpha=alpha_)
-- 
2.43.0


From 522eccd3583e38330e5f640a107e3ebc21f77810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:58 +0000
Subject: [PATCH 43/51] fix: the number of velocities printed for a vectorial
 scheme

---
 pylbm/templates/scheme.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/templates/scheme.tpl b/pylbm/templates/scheme.tpl
index f99dda9..f95c5b8 100644
--- a/pylbm/templates/scheme.tpl
+++ b/pylbm/templates/scheme.tpl
@@ -2,7 +2,7 @@
 {{ header }}
     - spatial dimension: {{ scheme.dim }}
     - number of schemes: {{ scheme.nschemes }}
-    - number of velocities: {{ scheme.stencil.nv[-1] }}
+    - number of velocities: {{ scheme.stencil.nv_ptr[-1] }}
     - conserved moments: {{ consm }}
     {%- for k in range(scheme.nschemes) %}
     {{ wrap(header_scheme[k]) | indent(4, True)}}
-- 
2.43.0


From 5c809e482646c02180e9ccd76d0e58f7f80864cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 44/51] fix: STL elements on grids of one point in a direction

---
 pylbm/elements/stl_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index 9ecc0d2..eac8a09 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -58,9 +58,9 @@ def intersection(grid, v, tri):
     # right member of the intersection problem
     # it depends on the grid and is a (xsize, ysize, zsize) vector
     x, y, z = grid
-    P = np.asarray([x - tri[0], y - tri[1], z - tri[2]], dtype=object)
+    px, py, pz = x - tri[0], y - tri[1], z - tri[2]
     # solve the problem
-    sol = invA.dot(P)
+    sol = [row[0] * px + row[1] * py + row[2] * pz for row in invA]
     # test if the intersection point is
     # - inside the triangle: s is computed
     # - outside the triangle: s = np.inf
-- 
2.43.0


From 0e3bf62be920688409fdce54b78cec472de38f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 45/51] fix: the distance to a STL element is negative when
 there is no intersection

---
 pylbm/elements/stl_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index eac8a09..1f1b5f6 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -174,6 +174,8 @@ class STLElement(Element):
                     normal_x[indices] = self.mesh.normals[ind_tri][0]
                     normal_y[indices] = self.mesh.normals[ind_tri][1]
                     normal_z[indices] = self.mesh.normals[ind_tri][2]
+        # no intersection
+        alpha[np.isinf(alpha)] = -1.0
         if normal:
             normal = np.zeros(tuple(list(shape) + [3]))
             normal[..., 0] = normal_x
-- 
2.43.0


From 1b53ab5d037a1a9a64f377978490bfb9e25784ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 46/51] fix: the normal vectors of a STL element are unit and
 opposite to the direction

---
 pylbm/elements/stl_element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index 1f1b5f6..6ca51e5 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -181,6 +181,10 @@ class STLElement(Element):
             normal[..., 0] = normal_x
             normal[..., 1] = normal_y
             normal[..., 2] = normal_z
+            # the sense is opposite to v and the norm is 1
+            normal[normal.dot(np.asarray(v)) > 0] *= -1
+            norm = np.linalg.norm(normal, axis=-1)
+            normal[norm > 0] /= norm[norm > 0][..., np.newaxis]
         return alpha, border, normal
 
     def __str__(self):
-- 
2.43.0


From cf46f541ebced09d056f6e621d57c31b16529189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 47/51] fix: the rays do not pass between two adjacent
 triangles of a STL element

---
 pylbm/elements/stl_element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index 6ca51e5..44b7ccd 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -64,9 +64,11 @@ def intersection(grid, v, tri):
     # test if the intersection point is
     # - inside the triangle: s is computed
     # - outside the triangle: s = np.inf
+    # (with a tolerance, so as not to pass between two adjacent triangles)
+    eps = 1.0e-10
     indin = np.logical_and(
-        np.logical_and(sol[0] >= 0, sol[1] >= 0),
-        np.logical_and(sol[0] + sol[1] <= 1, sol[2] >= 0),
+        np.logical_and(sol[0] >= -eps, sol[1] >= -eps),
+        np.logical_and(sol[0] + sol[1] <= 1 + eps, sol[2] >= 0),
     )
     s = np.full((x.size, y.size, z.size), np.inf)
     s[indin] = sol[2][indin]
-- 
2.43.0


From 19609feaa933bfe1c6b4c9188307291f16ad7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 48/51] fix: a point whose ray touches an edge of a STL element
 is not inside

---
 pylbm/elements/stl_element.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index 44b7ccd..ead55d4 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -131,26 +131,33 @@ class STLElement(Element):
     def point_inside(self, grid):
         shape = tuple([gk.size for gk in grid])
         in_or_out = np.full(shape, False, dtype=bool)
+        inside = np.full(shape, False, dtype=bool)
+        tangent = np.full(shape, False, dtype=bool)
         smin = np.full(shape, np.inf)
 
         # for each spatial direction, we plot a line
         # and we compute the distance of the first intersection
         # with the element in that direction.
         # if the normal is in the opposite side, the point is outside
+        # if the line only touches an edge, this direction does not decide
         for direction in range(self.dim):
             smin[:] = np.inf
+            tangent[:] = False
             v = np.zeros((self.dim,))
             v[direction] = 1
             for ind_tri in range(self.nb_tri):
                 tri = self.mesh.points[ind_tri, :]
                 s = intersection(grid, v, tri)
                 if s is not None:
-                    indices = np.asarray(s < smin).nonzero()
+                    outward = np.inner(v, self.mesh.normals[ind_tri]) >= 0
+                    same = np.isfinite(s) & np.isclose(s, smin, rtol=0, atol=1e-10)
+                    tangent[same & (inside != outward)] = True
+                    indices = np.logical_and(s < smin, np.logical_not(same))
                     smin[indices] = s[indices]
-                    if np.inner(v, self.mesh.normals[ind_tri]) >= 0:
-                        in_or_out[indices] = True
-                    else:
-                        in_or_out[indices] = False
+                    inside[indices] = outward
+                    tangent[indices] = False
+            indices = np.logical_and(np.isfinite(smin), np.logical_not(tangent))
+            in_or_out[indices] = inside[indices]
         return in_or_out
 
     def distance(self, grid, v, dmax=None, normal=False):
-- 
2.43.0


From 3b7a72f643911e1995bbb292c5c093d5ac91e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:24 +0000
Subject: [PATCH 49/51] fix: clearing a view of a figure

---
 pylbm/viewer/matplotlib_viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/viewer/matplotlib_viewer.py b/pylbm/viewer/matplotlib_viewer.py
index a01896a..bda826c 100644
--- a/pylbm/viewer/matplotlib_viewer.py
+++ b/pylbm/viewer/matplotlib_viewer.py
@@ -507,7 +507,7 @@ class PlotWidget:
                 )
 
     def clear(self):
-        self.ax.clf()
+        self.ax.clear()
 
     def grid(self, visible=True, which="both", alpha=1.0):
         # ISSUE with MATPLOTLIB
-- 
2.43.0


From 3596a4b84186a20843930363a7053ef1a70d9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:47 +0000
Subject: [PATCH 50/51] fix: a scheme whose moments are all conserved or never
 relaxed did not compile with Cython, nor split

---
 pylbm/algorithm/base.py            | 4 ++--
 pylbm/generator/printing/cython.py | 2 ++
 pylbm/generator/printing/pycode.py | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index d09a607..ef2fad7 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -408,7 +408,7 @@ class BaseAlgorithm:
 
         """
         eq = self.eq.subs(list(zip(self.mv, m)))
-        return Eq(m, eq)
+        return Eq(m, eq, evaluate=False)
 
     def equilibrium(self):
         """
@@ -450,7 +450,7 @@ class BaseAlgorithm:
                 s[i] = 0
         relax = (1 - s) * m + s * eq
         alltogether(relax)
-        return Eq(m, relax)
+        return Eq(m, relax, evaluate=False)
 
     def relaxation(self):
         """
diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 7df5c26..80c5630 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -309,6 +309,8 @@ class CythonCodePrinter(CodePrinter):
                 lines.append(addlines)
             else:
                 lines += addlines
+        if not "".join(lines[len(index) :]).strip():
+            lines.append("pass")
         for i in index:
             lines.append("#end")
         return "\n".join(lines)
diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index 03bf9b2..248d4ed 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -1096,6 +1096,8 @@ class NumPyPrinter(PythonCodePrinter):
                 lines.append(addlines)
             else:
                 lines += addlines
+        if not "".join(lines).strip():
+            lines = ["pass"]
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-- 
2.43.0


From 4668ed1f331ecffcc0e71e921072ce90cd031f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:31 +0000
Subject: [PATCH 51/51] fix: the moments were stale after m2f was given moments
 which are not those of the simulation

---
 pylbm/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 5edadaa..d36f479 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -364,6 +364,8 @@ class Simulation:
         """
         if m_user is None:
             self._refresh_m()
+        elif f_user is None:
+            self._update_m = True  # f is not given by the moments of the simulation
         self.algo.call_function("m2f", self, m_user, f_user, **kwargs)
 
     @monitor
-- 
2.43.0

