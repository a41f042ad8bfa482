From ea593e8c222ea0f4715868e3668b33e34098088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 01/25] fix: use floor for the z base index of the
 interpolation stencil

int() truncates towards zero, so a mapped z in (-1, 0) used the wrong cell and
extrapolated: the stencil was not periodic in z.
---
 zoidberg/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..b5b451b 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -449,7 +449,7 @@ def accumulate_interior_stencil(
             continue
 
         x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        z_base = int(np.floor(mapped_z))
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 7e32ef8088bf5c49d6e147a61c7785115b0c68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 02/25] fix: fractional y index interpolated from the wrong end

getPoloidalGrid(0.25) returned the coordinate of index 0.75.
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 86027182a3d062b990ceb97ba28bc644c9e5286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 03/25] fix: higher derivatives of rectangular grid coordinates
 are zero

dx=2 returned the location itself and dx=dz=1 returned dR.
---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From 1f59332156f73fdf421e8456081948aaf8eb971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 04/25] fix: get_metric must not modify the metric cached in
 the grid

Calling it twice for a Cartesian field multiplied g_yy by (B/By)^2 twice, and
the grid's own metric() returned the modified values.
---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..3b5b31e 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -432,7 +432,8 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Copy, so that the metric cached in the grid is not modified
+    metric = {k: np.array(v) for k, v in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From a307e6e65845a2d72a46ad2356a8098ba60caaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 05/25] fix: reversible tracer must not modify the caller's
 start positions

---
 zoidberg/fieldtracer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..a838cbc 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -241,9 +241,9 @@ class FieldTracerReversible(object):
 
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
-        # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Starting position. Copy, because the positions are updated in place
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From f76c775e9b8e160b52e799bc9e924ec313007b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 06/25] fix: trace_poincare must not sort the caller's y_slices
 in place

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index a838cbc..0b4537a 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -359,7 +359,7 @@ def trace_poincare(
         raise ValueError("nplot and y_slices cannot both be None")
 
     if y_slices is not None:
-        y_slices = np.asarray(y_slices)
+        y_slices = np.array(y_slices)  # Copy, as this is sorted in place
 
         if np.amin(y_slices) < 0.0 or np.amax(y_slices) > yperiod:
             raise ValueError(
-- 
2.43.0


From a12adab69823b9b5e47f887bf33e5c138dedd95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 07/25] fix: pass rtol on in FusionSCTracer

The keyword arguments updated with targetError were dropped.
---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 0b4537a..d866daa 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -959,7 +959,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From a7cfdf587f59d12e8718168450ba924f35154e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 08/25] fix: GEQDSK must not add psi to the attributes of every
 field

The attributes dictionary belongs to the MagneticField class.
---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..e4d6dfd 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,7 +1259,7 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        self.attributes = {"psi": lambda x, z, phi: self.psi_func(x, z, grid=False)}
 
         # Create a normalised psi array
 
-- 
2.43.0


From 30bdad33a49a272ec3d7fbd5171e997ad36663ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 09/25] fix: do not transpose psi of a g-file

freeqdsk returns psi with shape (nr, nz); the transpose exchanged R and Z, so
psi at the magnetic axis was not the value on axis.
---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index e4d6dfd..2a88f21 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1237,7 +1237,7 @@ class GEQDSK(MagneticField):
         print("Height: {0} -> {1} m".format(self.zmin, self.zmax))
 
         # Poloidal flux
-        self.psi = np.transpose(data["psi"])
+        self.psi = np.asarray(data["psi"])
         nr, nz = self.psi.shape
 
         # Normalising factors: psi on axis and boundary
-- 
2.43.0


From 47ce00b77ea9a48038201e433b4f0599ec1e19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 10/25] fix: polygon position is a linear interpolation between
 points

The remainder was an angle, not a fraction of the segment, so positions never
reached the next point, and negative angles used the wrong segment.
---
 zoidberg/rzline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..af583d6 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,8 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        ind = np.floor(theta / dtheta).astype(int) % n
+        rem = np.remainder(theta / dtheta, 1.0)
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 9637f2f73cea3e387f64742e168326299484fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 11/25] fix: line_from_points_poly inserted into the wrong edge
 of a reversed line

RZline may reverse the points, so the index found does not refer to the
order in rvals, zvals.
---
 zoidberg/rzline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index af583d6..2b87b26 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -438,6 +438,10 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
 
+        # The line may have reversed the order of the points
+        rvals[:i] = line.R
+        zvals[:i] = line.Z
+
         # Next point to add
         # Find the closest point on the line
         theta = line.closestPoint(rarray[i], zarray[i])
-- 
2.43.0


From 22cf63f6d8a2d1e93d82fcf7de7a8c2108a50e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 12/25] fix: do not write uninitialised memory as dagp volume
 of the x guard cells

---
 zoidberg/stencil_dagp_fv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..e015ad8 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,7 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From 24fc4f9673b5b2cccb90f7acd39e9728b2ebbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 13/25] fix: second order one-sided differences at the edges of
 c2

(f[2] - f[0]) / 2 is the derivative at index 1, not at the edge.
---
 zoidberg/diff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 9d3bd02..8ece9e4 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -17,14 +17,16 @@ def c2(f, axis, periodic=False):
     out[t(sl2)] -= f[t(sl1)]
 
     sl2[axis] = 0
+    sl1[axis] = 1
+    out[t(sl2)] = 4 * f[t(sl1)] - 3 * f[t(sl2)]
     sl1[axis] = 2
-    out[t(sl2)] = f[t(sl1)]
-    out[t(sl2)] -= f[t(sl2)]
+    out[t(sl2)] -= f[t(sl1)]
 
     sl2[axis] = -1
+    sl1[axis] = -2
+    out[t(sl2)] = 3 * f[t(sl2)] - 4 * f[t(sl1)]
     sl1[axis] = -3
-    out[t(sl2)] = f[t(sl2)]
-    out[t(sl2)] -= f[t(sl1)]
+    out[t(sl2)] += f[t(sl1)]
 
     out /= 2
     return out
-- 
2.43.0


From f69a052add5c7a3e0d936afe11c04b05df10ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 14/25] fix: start sub-samples at the quadrature points of the
 cell

R was taken at (x + xo, z) and Z at (x + zo, z), which is not a point of the
cell at all.
---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 3b5b31e..e3be56a 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -283,8 +283,8 @@ def make_maps(
 
                 for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
                     coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
+                        Rinterp((xinds + xo, zinds + zo)),
+                        Zinterp((xinds + xo, zinds + zo)),
                         [ycoord, y_slice],
                         rtol=rtol,
                     )[1, ...]
-- 
2.43.0


From c9cd6a0d3a92c5f48fc2542a5e79c3154cd607e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 15/25] fix: fill the sub-sampled maps of every parallel slice

With more than one slice only the last offset was filled, so the +-1 maps used
for the operators stayed zero. The boundary was also evaluated at the y of the
last slice for all of them.
---
 zoidberg/zoidberg.py | 108 +++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index e3be56a..23a44d9 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds + zo)),
-                        Zinterp((xinds + xo, zinds + zo)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds + zo)),
+                            Zinterp((xinds + xo, zinds + zo)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From ef3fe60c56a75cccf773a6aada5765a4c054db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 16/25] fix: sub-sample positions of the first and last z of a
 rectangular grid

The coordinates were wrapped around in z, which put the samples of the cells at
the z edges in the middle of the domain.
---
 zoidberg/zoidberg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 23a44d9..fbd434c 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -282,9 +282,15 @@ def make_maps(
                     xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        if isinstance(pol, RectangularPoloidalGrid):
+                            # Z is not periodic, so can't be wrapped around
+                            Rstart, Zstart = pol.getCoordinate(xinds + xo, zinds + zo)
+                        else:
+                            Rstart = Rinterp((xinds + xo, zinds + zo))
+                            Zstart = Zinterp((xinds + xo, zinds + zo))
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds + zo)),
-                            Zinterp((xinds + xo, zinds + zo)),
+                            Rstart,
+                            Zstart,
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From a4a9787db7f2f68ed8b1ec8341ffa996afb63ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 17/25] fix: polygon boundary misclassified points level with a
 vertex

Both segments meeting at a vertex were counted, so a point below a vertex could
be inside or outside at random; steep segments were skipped altogether.
---
 zoidberg/boundary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..656ae48 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -123,17 +123,19 @@ class PolygonBoundaryXZ(object):
             zp_1 = self.zarr[ip]
 
             # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # but check for case where (x'_1 - x'_0) is zero
+            if xp_1 == xp_0:
                 continue  # Skip this segment
 
+            # Each segment includes only one of its end points, so that
+            # a vertex is not counted twice
+            crosses = (xp_0 <= x_0) != (xp_1 <= x_0)
+
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            intersect = np.logical_and(crosses, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From 073e97e0a1fc1740d9f42071e1d28f8654cf1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 18/25] fix: different tracing calls could share a cache entry

The shape, the separation of the arguments and the keyword arguments (e.g. rtol)
were not part of the hash.
---
 zoidberg/fieldtracer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index d866daa..25cbcc0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -424,7 +424,8 @@ class CachingFieldTracer:
 
         m = hashlib.md5()
         for arg in args:
-            s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
+            arg = np.asarray(arg)
+            s = "-".join([str(arg.shape), *[str(x) for x in arg.ravel()], ";"]).encode()
             if self.debug:
                 print(s)
             m.update(s)
@@ -434,7 +435,8 @@ class CachingFieldTracer:
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        options = sorted(kwargs.items())
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, options)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From a06641aeced4c3f6343941c694f4d2dd75dd4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:03 +0000
Subject: [PATCH 19/25] fix: read g-files that have no limiter

freeqdsk returns None for the limiter arrays of such a file
---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 2a88f21..9fb2216 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1293,7 +1293,7 @@ class GEQDSK(MagneticField):
         # Set boundary
         rlim = data["rlim"]
         zlim = data["zlim"]
-        if len(rlim) > 0:
+        if rlim is not None and len(rlim) > 0:
             # Create a boundary in X-Z with a polygon representation
             self.boundary = boundary.PolygonBoundaryXZ(rlim, zlim)
 
-- 
2.43.0


From a702ad6c1393d21d2e1856c031036a807417a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:03 +0000
Subject: [PATCH 20/25] fix: cache traces that start from a scalar or list
 coordinate

The tracers accept these, but the cache guessed the shape from
x_values.shape alone
---
 zoidberg/fieldtracer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 25cbcc0..39482c4 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -431,15 +431,18 @@ class CachingFieldTracer:
             m.update(s)
         return m.hexdigest()
 
-    def _guess_shape(self, x_values, y_values):
-        return len(y_values), *x_values.shape, 2
+    def _guess_shape(self, x_values, z_values, y_values):
+        # A scalar is broadcast against an array, like in the tracer
+        x_values, z_values = np.atleast_1d(x_values), np.atleast_1d(z_values)
+        shape = z_values.shape if x_values.size == 1 else x_values.shape
+        return len(y_values), *shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
         options = sorted(kwargs.items())
         fn = self.cachename % self._myhash(x_values, z_values, y_values, options)
         try:
             dat = np.loadtxt(fn)
-            dat.shape = self._guess_shape(x_values, y_values)
+            dat.shape = self._guess_shape(x_values, z_values, y_values)
             return dat
         except FileNotFoundError:
             if self.debug:
@@ -447,11 +450,11 @@ class CachingFieldTracer:
         ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)
         shape = ret.shape
         if self.debug:
-            print(f"saving {ret.shape}, {x_values.shape}")
+            print(f"saving {ret.shape}, {np.shape(x_values)}")
         ret.shape = -1, shape[-1]
         np.savetxt(fn, ret)
-        assert shape == self._guess_shape(x_values, y_values), (
-            f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
+        assert shape == self._guess_shape(x_values, z_values, y_values), (
+            f"Estimated {self._guess_shape(x_values, z_values, y_values)} but got {shape}"
         )
         ret.shape = shape
         return ret
-- 
2.43.0


From 500036846a02dee9835b9406388be395d7c32568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 21/25] fix: trace Poincare slices at both ends of the period

y = yperiod and the next revolution's y = 0 coincide; rounding in the
over-sampling could make y decrease there, which odeint refuses
---
 zoidberg/fieldtracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 39482c4..841f41f 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -390,6 +390,9 @@ def trace_poincare(
         y_values_over[i::nover] = (float(i) / float(nover)) * y_values[1:] + (
             float(nover - i) / float(nover)
         ) * y_values[:-1]
+    if yperiod > 0:
+        # Rounding must not make y decrease where slices coincide (0 and yperiod)
+        y_values_over = np.maximum.accumulate(y_values_over)
 
     # Starting location
     xpos = np.asarray(xpos)
-- 
2.43.0


From 2de4e72571130584e5eb4b92533607768be2af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:03 +0000
Subject: [PATCH 22/25] fix: y values of the parallel slices of a non-periodic
 grid

The metric of the slices was calculated with wrapped y coordinates, so
forward_dy and backward_dy were negative close to the ends in y
---
 zoidberg/zoidberg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index fbd434c..b4bf16e 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -672,11 +672,10 @@ class MapWriter:
             )
         yperiodic = self.grid.yperiodic if self.grid else True
         for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):
-            pypar = np.roll(ypar, -offset)
+            # Planes beyond the end of the domain are a whole Ly further on
+            yindex = np.arange(ny) + offset
+            pypar = np.asarray(ypar)[yindex % ny] + (yindex // ny) * Ly
             if yperiodic:
-                for i in range(1, ny):
-                    if meandy * (pypar[i] - pypar[i - 1]) < 0:
-                        pypar[i] += np.sign(meandy) * Ly
                 if len(pypar) > 1:
                     assert np.isclose(np.mean(np.diff(pypar)), meandy), (
                         f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
-- 
2.43.0


From b9a3441e8358d3e6345e6163bfe6e4cc34f1b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:20 +0000
Subject: [PATCH 23/25] fix: length of field lines that are traced backward

CubicSpline refuses decreasing y
---
 zoidberg/diff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 8ece9e4..07f775f 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -111,6 +111,10 @@ def field_line_length(RZ_coords, y_coords, refine=100):
     from scipy.interpolate import CubicSpline as interp
 
     assert RZ_coords.shape[-1] == 2
+    if y_coords[0] > y_coords[-1]:
+        # Traced backward, the interpolation needs increasing y
+        RZ_coords = RZ_coords[::-1]
+        y_coords = y_coords[::-1]
     RZ_coords = RZ_coords[..., 0], RZ_coords[..., 1]
 
     y_inter = interp(np.linspace(0, 1, len(y_coords)), y_coords)
-- 
2.43.0


From ebdfe73106555ed7a94c170e39b7fdcb11e9f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:59 +0000
Subject: [PATCH 24/25] fix: derivatives of integer arrays

c2 failed for them and c4 truncated the result to integers
---
 zoidberg/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 07f775f..fab02a8 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -6,7 +6,7 @@ def c2(f, axis, periodic=False):
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
     sl2 = [slice(None) for _ in f.shape]
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, np.float32))
 
     t = tuple
 
@@ -55,7 +55,7 @@ def c4(f, axis, periodic=False):
 
     t = tuple
 
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, np.float32))
     slc = [slice(None) for _ in f.shape]
 
     slc[axis] = slice(2, -2)
-- 
2.43.0


From 0dfca43e0c104a1d01c087abc7051e1dd5122197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:38 +0000
Subject: [PATCH 25/25] fix: y index a rounding error below an integer was one
 period off

getPoloidalGrid takes indices within 1e-6 of an integer as that integer,
but chose the period from the unrounded index: -1e-9 gave y = -Ly.
---
 zoidberg/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..d3a73c9 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -106,7 +106,7 @@ class Grid(object):
             fac = yindex - floor
             return None, ydown + (yup - ydown) * fac
 
-        if (yindex >= 0) and (yindex < ny):
+        if (yindexint >= 0) and (yindexint < ny):
             # Within index range, so just return
             return self.poloidal_grids[yindexint], self.ycoords[yindexint]
 
@@ -119,7 +119,7 @@ class Grid(object):
             y_remap = np.remainder(yindexint, ny)  # 0 <= yremap < ny
 
             # Get number of periods around the domain. Note this can be negative
-            nperiods = np.floor(yindex / float(ny))
+            nperiods = np.floor(yindexint / float(ny))
 
             ycoord = self.ycoords[y_remap] + nperiods * self.Ly
 
@@ -127,7 +127,7 @@ class Grid(object):
 
         # Not periodic
 
-        if yindex < 0:
+        if yindexint < 0:
             return None, 0.0  # Hit the lower end in Y
         return None, self.Ly  # Hit the upper end in Y
 
-- 
2.43.0

