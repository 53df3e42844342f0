From 3d05527a9110f9145eaaaad1c8df010e7759c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 01/21] fix: trace cache: different questions could share an
 entry

The digest ran the arguments together, so moving a digit from one array to the
next gave the same key, and it ignored the tracing options (rtol).
---
 zoidberg/fieldtracer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..ca2acfd 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -428,13 +428,18 @@ class CachingFieldTracer:
             if self.debug:
                 print(s)
             m.update(s)
+            # Separate the arguments, otherwise 1.0 and 12.0 looks like
+            # 1.01 and 2.0
+            m.update(b";")
         return m.hexdigest()
 
     def _guess_shape(self, x_values, y_values):
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        # Options, e.g. rtol, change the result
+        options = [kv for kv in sorted(kwargs.items()) if kv[1] is not None]
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From 393d393d44535c4d2c27ba759d1c03502341bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 02/21] fix: trace cache: a killed process or full disk left a
 truncated entry

The entry was written in place. A truncated entry made all later calls fail, or
returned a truncated last number. Write it to the side and move it into place.
---
 zoidberg/field.py       | 23 +++++++++++++++++++++++
 zoidberg/fieldtracer.py |  7 +++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..d2df21b 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1,3 +1,6 @@
+import os
+import uuid
+from contextlib import contextmanager, suppress
 from math import gamma
 
 import numpy as np
@@ -18,6 +21,26 @@ from sympy import (
 from . import boundary
 
 
+@contextmanager
+def _replace_file(fname):
+    """Write a file such that ``fname`` is either unchanged or complete
+
+    Yields a temporary file name in the same directory, that replaces
+    ``fname`` once the file is fully written.
+    """
+    head, tail = os.path.split(fname)
+    tmp = os.path.join(head, f"tmp-{uuid.uuid4().hex}-{tail}")
+    try:
+        yield tmp
+        with open(tmp, "rb+") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp, fname)
+    except BaseException:
+        with suppress(OSError):
+            os.remove(tmp)
+        raise
+
+
 class MagneticField(object):
     """Represents a magnetic field in either Cartesian or cylindrical
     geometry
diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index ca2acfd..184ce89 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -11,7 +11,7 @@ try:
 except ImportError:
     has_eudist = False
 
-from .field import _set_config
+from .field import _replace_file, _set_config
 
 
 class FieldTracer(object):
@@ -451,12 +451,11 @@ class CachingFieldTracer:
         shape = ret.shape
         if self.debug:
             print(f"saving {ret.shape}, {x_values.shape}")
-        ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
+        with _replace_file(fn) as tmp:
+            np.savetxt(tmp, ret.reshape(-1, shape[-1]))
         assert shape == self._guess_shape(x_values, y_values), (
             f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
         )
-        ret.shape = shape
         return ret
 
 
-- 
2.43.0


From c664dbfe2376fa20650818cde9be079206ad0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 03/21] fix: W7-X field files: a killed process or full disk
 left a truncated file

The saved field was written in place, so that later runs failed on, or loaded, a
partial file.
---
 zoidberg/field.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index d2df21b..746fb49 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1499,7 +1499,8 @@ class W7X_vacuum(MagneticField):
                 ds["Br"] = ("x", "y", "z"), Br
                 ds["Bz"] = ("x", "y", "z"), Bz
                 ds["Bphi"] = ("x", "y", "z"), Bphi
-                ds.to_netcdf(fname)
+                with _replace_file(fname) as tmp:
+                    ds.to_netcdf(tmp)
 
         else:
             print(
@@ -1524,7 +1525,8 @@ class W7X_vacuum(MagneticField):
                 ds["Br"] = ("x", "y", "z"), Br
                 ds["Bz"] = ("x", "y", "z"), Bz
                 ds["Bphi"] = ("x", "y", "z"), Bphi
-                ds.to_netcdf(fname)
+                with _replace_file(fname) as tmp:
+                    ds.to_netcdf(tmp)
 
         if plot_poincare:
             ## Poincare plot as done on the web services
@@ -1644,8 +1646,9 @@ class W7X_vacuum(MagneticField):
             Bz = np.ndarray.reshape(np.asarray(plasmafield.x3), (nx, ny, nz))
 
             ## Save so we don't have to do this every time.
-            with open(fname, "wb") as f:
-                pickle.dump([Br, Bphi, Bz], f)
+            with _replace_file(fname) as tmp:
+                with open(tmp, "wb") as f:
+                    pickle.dump([Br, Bphi, Bz], f)
 
         return Br, Bphi, Bz
 
-- 
2.43.0


From 595fa909378f8284b6d3b27708fa71e805454517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 04/21] fix: FieldTracerWeb: retry=0 did not even try

With retry=0 the results were never fetched and the call failed in
np.concatenate.
---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 184ce89..57fba2d 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -629,7 +629,7 @@ class FieldTracerWeb:
                 results = [start(i) for i in range(0, len(x_values), chunk)]
                 # Wait for result and combine
                 for j, i in enumerate(range(0, len(x_values), chunk)):
-                    while retry > 0:
+                    while True:
                         try:
                             results[j] = results[j].get(timeout=timeout)
                             break
-- 
2.43.0


From 891e367509a3056f58f8f01e159be905423cbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 05/21] fix: FieldTracerWeb: incomplete replies returned
 uninitialised memory

---
 zoidberg/fieldtracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 57fba2d..fb90f15 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -708,6 +708,10 @@ class FieldTracerWeb:
                 continue
             task.linesPhi.phi = phi - phi0
             res = self.flt.service.trace(p, config, task)
+            if len(res.lines) != len(p.x1):
+                raise RuntimeError(
+                    f"Asked for {len(p.x1)} field lines but got {len(res.lines)}"
+                )
             for j, curve in enumerate(res.lines):
                 ps = curve.vertices
                 result[i, j, 0] = np.sqrt(ps.x2[-1] ** 2 + ps.x1[-1] ** 2)
-- 
2.43.0


From 8ff92986053aee4f2ae450e23aafe49364680601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 06/21] fix: FieldTracerWeb: direction was stored in the
 caller's configuration

Tracing changed the object passed in by the user, and two threads tracing in
opposite directions overwrote each other's direction.
---
 zoidberg/fieldtracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index fb90f15..d4bc95b 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 from multiprocessing import Pool
 
@@ -667,8 +668,10 @@ class FieldTracerWeb:
 
     def getConfig(self):
         if self.config is not None:
-            self.config.inverseField = False
-            return self.config
+            # Copy, as the caller sets the direction of this trace
+            config = copy.copy(self.config)
+            config.inverseField = False
+            return config
         config = self.flt.types.MagneticConfig()
         config = _set_config(config, self.configId)
         config.inverseField = False
-- 
2.43.0


From 41158ad724367cecd78feec1b72d08de5b2f86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 07/21] fix: dagp_fv_volume contained uninitialised memory in
 the boundaries

---
 zoidberg/stencil_dagp_fv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..a111957 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,8 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    # The radial boundaries are not set
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From cf26c6e0f4cbb5db47e995769f0d3b936a67eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 08/21] fix: add_dagp: progress could reach the file before the
 data

If the process was killed while the file was closed, the planes counted as done
while some of their coefficients were missing, and resuming skipped them.
---
 zoidberg/zoidberg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..0897259 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -579,6 +579,8 @@ class MapWriter:
                     handles[k] = getHandle(k, v.dtype.str)
 
                 handles[k][:, ind, :] = v
+            # The data needs to be in the file before the progress is recorded
+            self.f.impl.handle.sync()
             prog[0] = ind + 1
 
     def add_field(self, field):
-- 
2.43.0


From 18a0aea871d9ff9a25cc202b124d5723f51759db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 09/21] fix: get_metric modified the metric cached by the grid

A second call, or exporting again after a failed export, gave a wrong g_22 for
Cartesian fields and renamed or flattened components.
---
 zoidberg/zoidberg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 0897259..a7d2e60 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -431,8 +431,10 @@ def update_metric_names(metric):
 
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
-    # Get metric tensor
-    metric = grid.metric()
+    # Get metric tensor. This is cached by the grid, so do not modify it
+    metric = dict(grid.metric())
+    for k in "gyy", "g_yy":
+        metric[k] = metric[k].copy()
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
@@ -640,6 +642,7 @@ class MapWriter:
             # Remove the Z dimension from metric components
             if not self.quiet:
                 print("WARNING: Outputting 2D metrics, discarding metric information.")
+            metric = dict(metric)
             for key in metric:
                 try:
                     metric[key] = metric[key][:, :, 0]
-- 
2.43.0


From e95b6be91ae802a1deaa07db3c7bd9c39947bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 10/21] fix: Grid.metric: could return None or an unfinished
 metric to other threads

---
 zoidberg/grid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..000011b 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -143,8 +143,9 @@ class Grid(object):
             - **g_xx, g_xz, g_yy, g_zz**: Contravariant components
         """
 
-        if self._metric_cache:
-            return self._metric_cache
+        metric = self._metric_cache
+        if metric:
+            return metric
         # Gather dx,dz and x-z metrics from poloidal slices
         dx = np.zeros(self.shape)
         dz = np.zeros(self.shape)
@@ -200,7 +201,7 @@ class Grid(object):
         g_yy = np.ones(self.shape)
         gyy = np.ones(self.shape)
 
-        self._metric_cache = {
+        metric = {
             "dx": dx,
             "dy": dy3d,
             "dz": dz,
@@ -215,8 +216,9 @@ class Grid(object):
         }
 
         if has_J > 0:
-            self._metric_cache["J"] = J
-        return self._metric_cache
+            metric["J"] = J
+        self._metric_cache = metric
+        return metric
 
 
 def rectangular_grid(
-- 
2.43.0


From 8f283e0d53e93bf4c86331520c7d15f230724a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 11/21] fix: FieldTracerReversible modified the start points of
 the caller

---
 zoidberg/fieldtracer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index d4bc95b..da73ef5 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -242,9 +242,9 @@ class FieldTracerReversible(object):
 
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
-        # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Starting position. Copy, as these are updated in place
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From 70d4291f56767728e618569782f1eb20e15f0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 12/21] fix: FieldTracerReversible never returned for
 non-finite fields

---
 zoidberg/fieldtracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index da73ef5..b654172 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -273,7 +273,7 @@ class FieldTracerReversible(object):
                 z_pos += dzdy * dy
                 y_pos += dy
 
-                while True:
+                for _ in range(1000):
                     dxdy, dzdy = self.field_direction((x_pos, z_pos), y_pos)
 
                     # Calculate derivatives (Jacobian matrix) by finite difference
@@ -310,6 +310,8 @@ class FieldTracerReversible(object):
                     # Check for convergence within tolerance
                     if np.amax(dx**2 + dz**2) < rtol:
                         break
+                else:
+                    raise RuntimeError("Failed to converge")
                 # Finished Newton iteration, taken step to (x_pos,y_pos,z_pos)
             # Finished sub-steps, reached y_pos = y_next
             result[yindex, ..., 0] = x_pos
-- 
2.43.0


From 43e3d281b6d8a42e404a93c052af0dccafacd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 13/21] fix: trace_poincare sorted the y_slices of the caller

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b654172..473fea0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -362,7 +362,7 @@ def trace_poincare(
         raise ValueError("nplot and y_slices cannot both be None")
 
     if y_slices is not None:
-        y_slices = np.asarray(y_slices)
+        y_slices = np.array(y_slices)
 
         if np.amin(y_slices) < 0.0 or np.amax(y_slices) > yperiod:
             raise ValueError(
-- 
2.43.0


From 2ff7fdac6eb2b2c1a3b124cdf04eb14e644e245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 14/21] fix: GEQDSK added psi to the attributes of all magnetic
 fields

---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 746fb49..66ccfc6 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1282,7 +1282,7 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        self.attributes = {"psi": lambda x, z, phi: self.psi_func(x, z, grid=False)}
 
         # Create a normalised psi array
 
-- 
2.43.0


From 86aa912039fc77a5d4a505f8764f2ad0663f2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 15/21] fix: W7X_vacuum: control-C was ignored once

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 66ccfc6..90acd12 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1736,10 +1736,10 @@ class W7X_vacuum(MagneticField):
                 res = tracer.service.magneticField(
                     pos, config, osa_timeout=(10 + len(pos.x1) / 1000)
                 )
-            except:  # noqa
+            except Exception:
                 # Catch any error. Different errors might be
                 # reported, but we want to retry anyway.
-                # Do not except Exception, as that would also
+                # Only except Exception, as otherwise that would also
                 # ignore control-C, which we do not want to
                 # ignore.
                 redo -= 1
-- 
2.43.0


From 2f96460cd879c66a9e9671b66c5d4963876d9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:02 +0000
Subject: [PATCH 16/21] fix: FusionSCTracer ignored rtol

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 473fea0..ef66b2b 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -972,7 +972,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From 42b27e71cabba45144d1c66eff718125705b3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:41 +0000
Subject: [PATCH 17/21] fix: add_maps added Rxy to the maps of the caller

---
 zoidberg/zoidberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index a7d2e60..92e6638 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -711,7 +711,7 @@ class MapWriter:
         grid id.
         """
         if "Rxy" not in maps:
-            maps["Rxy"] = maps["R"]
+            maps = dict(maps, Rxy=maps["R"])
         self.write_dict(maps)
         keep = {}
         nslice = maps["MYG"]
-- 
2.43.0


From bf1f5c115645d7fb3e81e179bf9d456b46cc598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:05 +0000
Subject: [PATCH 18/21] fix: trace cache: single precision start points could
 share an entry with double precision ones

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index ef66b2b..a03505c 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -427,7 +427,7 @@ class CachingFieldTracer:
 
         m = hashlib.md5()
         for arg in args:
-            s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
+            s = "-".join([str(x) for x in np.array([arg]).ravel().tolist()]).encode()
             if self.debug:
                 print(s)
             m.update(s)
-- 
2.43.0


From 3f66e6ddbfd877e02f34dbe55542ea205a40979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:21 +0000
Subject: [PATCH 19/21] fix: a failed integration returned uninitialised memory
 as field line positions

---
 zoidberg/fieldtracer.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index a03505c..ab6eced 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -28,6 +28,23 @@ class FieldTracer(object):
     def __init__(self, field):
         self.field_direction = field.field_direction
 
+    def _integrate(self, position, y_values, rtol):
+        result, info = odeint(
+            self.field_direction,
+            position,
+            y_values,
+            args=(True,),
+            rtol=rtol,
+            full_output=True,
+        )
+        # If the integration stops early, the remaining planes of result
+        # are not set.
+        message = info["message"]
+        done = message.startswith(("Integration successful", "Nothing was done"))
+        if position.size and not done:
+            raise RuntimeError(f"Following the field lines failed: {message}")
+        return result
+
     def follow_field_lines(self, x_values, z_values, y_values, rtol=None):
         """Uses field_direction to follow the magnetic field
         from every grid (x,z) point at toroidal angle y
@@ -100,9 +117,7 @@ class FieldTracer(object):
         if len(x_values) < 1000:
             position = np.column_stack((x_values, z_values)).flatten()
 
-            result = odeint(
-                self.field_direction, position, y_values, args=(True,), rtol=rtol
-            )
+            result = self._integrate(position, y_values, rtol)
         else:
             # Split into smaller pieces
 
@@ -120,10 +135,7 @@ class FieldTracer(object):
 
             # Process in chunks. Note: multiprocessing has trouble with closures
             # so fails in Python 2. Python 3 may work
-            results = [
-                odeint(self.field_direction, chunk, y_values, args=(True,), rtol=rtol)
-                for chunk in chunks
-            ]
+            results = [self._integrate(chunk, y_values, rtol) for chunk in chunks]
 
             # Concatenate results into a single array
             result = np.concatenate(results, axis=1)
-- 
2.43.0


From c90f0a06fae4206d122837d86668a6beca071701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:21 +0000
Subject: [PATCH 20/21] fix: non-finite scalars were stored in the grid file

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 92e6638..062c183 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -653,9 +653,9 @@ class MapWriter:
                 metric["dz"] = metric["dz"][0, 0]
 
         for k, v in metric.items():
-            if isinstance(v, np.ndarray):
+            if np.asarray(v).dtype.kind in "fc":
                 assert np.all(np.isfinite(v)), (
-                    f"{k} is not finite in {v.size - np.sum(np.isfinite(v))} of {v.size} cells"
+                    f"{k} is not finite in {np.size(v) - np.sum(np.isfinite(v))} of {np.size(v)} cells"
                 )
             self.f.write(k, v)
 
-- 
2.43.0


From dad0a8c09a8c2a5fa74e3004d684ab28a650c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:21 +0000
Subject: [PATCH 21/21] fix: upscale failed when showing progress if tqdm is
 installed or for a single plane

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 062c183..94a7407 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -12,12 +12,12 @@ from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
 from .poloidal_grid import StructuredPoloidalGrid
+from .progress import update_progress
 
 try:
     from tqdm.auto import tqdm
 except ModuleNotFoundError:
     tqdm = None
-    from .progress import update_progress
 
 # PyEVTK might be called pyevtk or evtk, depending on where it was
 # installed from
@@ -1052,6 +1052,6 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
             points, f_slice.flat, grid_points, method="linear", fill_value=0.0
         )
         if not quiet:
-            update_progress(float(k) / float(ny - 1))
+            update_progress(float(k + 1) / float(upscale_factor * ny))
 
     return hires_grid_field
-- 
2.43.0

